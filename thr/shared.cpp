// C25: threads that each hold their own owners of common objects.
#include "cest/memory.hpp"
#include "cest/vector.hpp"
#include "cest/map.hpp"
#include "thr/api.hpp"
#include <mutex>
#include <utility>
#include <vector>

namespace {
using namespace thr;
using std::size_t;

constexpr unsigned NOBJ = 64, NSLOT = 4, NBOX = 2, NROOT = 3;
struct Fate { bool made = false; unsigned gone = 0; long deleter = 0; bool custom = false; };
Fate fate[NOBJ];
unsigned nobj;

// what is owned: written while it is made and when it goes, read by every owner
struct Thing {
  long id, a, b; void* self;
  explicit Thing(long i) : id(i), a(i * 3), b(i * 5), self(this) {}
  virtual ~Thing() {
    if (self != this || a != id * 3 || b != id * 5) fail("an owned object was not intact when it was destroyed");
    if (++fate[id].gone > 1) fail("object %ld was destroyed twice", id);
    a = b = -1; self = nullptr;
  }
  virtual long get() const { return a + b; }
};
struct Sub : Thing { long c; explicit Sub(long i) : Thing(i), c(i * 7) {} ~Sub() override { c = -1; } long get() const override { return a + b + c - c; } };
struct Del {
  long id;
  Del(long i) : id(i) {}
  Del(const Del& o) : id(o.id) {}
  void operator()(Thing* p) const { fate[id].deleter++; if (p->id != id) fail("object %ld was given to the deleter of object %ld", p->id, id); delete p; }
};
using P = cest::shared_ptr<Thing>;

struct Op { unsigned k; uint32_t a, b; Plan p; };
std::vector<Op> script[NT];
struct Roots { P r[NROOT]; };
struct Boxes { std::mutex m[NBOX]; P p[NBOX]; };
const Roots* roots; Boxes* boxes;
struct Own { P s[NSLOT]; cest::vector<P> v; cest::map<long, P> m; };

const char* const names[] = {"copy a common constant owner", "assign between own owners", "drop an owner", "make an object", "make an object with a deleter", "make a derived object",
  "put an owner in a box", "take the owner from a box", "exchange with a box", "alias", "read the object", "use_count", "owner in a vector", "clear the vector", "owner in a map", "self-assign",
  "get_deleter", "copy and drop repeatedly"};
constexpr unsigned NOPS = sizeof names / sizeof names[0];

void look(const P& p) {
  if (!p) return;
  const Thing* t = p.get();
  long id = t->id;
  if (t->self != t || t->get() != id * 8) fail("an owner reads an object that is not intact");
  if (id < 0 || id >= long(NOBJ) || fate[id].gone) fail("an owner holds object %ld, which is gone", id);
}
long fresh(bool custom) { long id = nobj < NOBJ ? long(nobj++) : -1; if (id >= 0) { fate[id] = Fate{}; fate[id].custom = custom; } return id; }

void exec(Own& o, const Op& x) {
  P &p = o.s[x.a % NSLOT], &q = o.s[x.b % NSLOT];
  unsigned box = x.b % NBOX;
  auto go = [&](auto f) { return call(names[x.k], x.p, f); };
  switch (x.k) {
    case 0: go([&] { p = roots->r[x.b % NROOT]; look(p); }); break;
    case 1: go([&] { p = q; look(p); }); break;
    case 2: go([&] { p = P(); }); break;
    case 3: case 4: case 5: {
      long id = fresh(x.k == 4);
      if (id < 0) break;
      go([&] {
        if (x.k == 3) { Thing* t = new Thing(id); fate[id].made = true; p = P(t); }
        else if (x.k == 5) { Sub* t = new Sub(id); fate[id].made = true; p = P(t); }
        else { Thing* t = new Thing(id); fate[id].made = true; p = P(t, Del(id)); }
        look(p);
      });
      break;
    }
    case 6: go([&] { std::lock_guard<std::mutex> g(boxes->m[box]); boxes->p[box] = p; }); break;
    case 7: go([&] { P t; { std::lock_guard<std::mutex> g(boxes->m[box]); t = boxes->p[box]; boxes->p[box] = P(); } p = t; look(p); }); break;
    case 8: go([&] { std::lock_guard<std::mutex> g(boxes->m[box]); P t(p); p = boxes->p[box]; boxes->p[box] = t; look(p); }); break;
    case 9: go([&] { if (q) { P t(q, q.get()); p = t; look(p); } }); break;
    case 10: go([&] { look(p); look(q); look(roots->r[x.b % NROOT]); }); break;
    case 11: go([&] {
      if (!p) return;
      long own = 0;
      for (auto& y : o.s) own += y.get() == p.get();
      for (auto& y : o.v) own += y.get() == p.get();
      for (const auto& y : std::as_const(o.m)) own += y.second.get() == p.get();
      long n = p.use_count();
      if (n < own) fail("use_count() is %ld although this thread alone has %ld owners", n, own);
      if (n > 400) fail("use_count() is %ld", n);
    }); break;
    case 12: go([&] { if (o.v.size() < 12) o.v.push_back(p); for (auto& y : o.v) look(y); }); break;
    case 13: go([&] { if (x.a & 1) o.v.clear(); else if (!o.v.empty()) o.v.pop_back(); }); break;
    case 14: go([&] { o.m.insert({long(x.a % 5), p}); auto it = o.m.find(long(x.b % 5)); if (it != o.m.end()) { look(it->second); if (x.b & 8) it->second = q; } if (x.b % 16 == 0) o.m.clear(); }); break;
    case 15: go([&] { P& r = p; p = r; look(p); }); break;
    case 16: go([&] { if (auto* d = cest::impl::get_deleter<Del>(p)) { if (d->id != p->id) fail("get_deleter gave the deleter of object %ld for %ld", d->id, p->id); } }); break;
    case 17: go([&] { for (unsigned i = 0; i < 3; i++) { P t(p); P u(roots->r[i % NROOT]); look(t); look(u); t = u; } }); break;
  }
}
void body(int t) {
  sut(true); Own* o = new Own; sut(false);
  for (const Op& x : script[t]) {
    mark(names[x.k]);
    log("%s (%u,%u)%s", names[x.k], x.a, x.b, x.p.mask ? " with a failure planned" : "");
    exec(*o, x);
  }
  mark("destruction");
  call("destruction", Plan{}, [&] { delete o; });
}
} // namespace

void client_run() {
  draw_faults();
  int n = 2 + int(choose(NT - 1));
  unsigned focus = choose(3), lo = focus ? choose(NOPS) : 0, span = focus ? 2 + choose(6) : NOPS;
  for (int t = 0; t < n; t++) {
    script[t].clear();
    unsigned m = 2 + choose(focus ? 10 : 18);
    for (unsigned i = 0; i < m; i++) { begin_step(); Op x; x.k = choose(4) ? (lo + choose(span)) % NOPS : choose(NOPS); x.a = choose(3200); x.b = choose(64); x.p = plan(); script[t].push_back(x); }
  }
  nobj = 0;
  for (auto& f : fate) f = Fate{};
  sut(true);
  Roots* r = new Roots; boxes = new Boxes;
  for (unsigned i = 0; i < NROOT; i++) {
    long id = fresh(i == 1); fate[id].made = true;
    if (i == 1) r->r[i] = P(new Thing(id), Del(id)); else r->r[i] = P(new Sub(id));
  }
  for (unsigned i = 0; i < NBOX; i++) boxes->p[i] = r->r[i % NROOT];
  roots = r;
  sut(false);
  // some common objects are owned by the threads alone once they run
  run(n, true, body);
  sut(true);
  for (unsigned i = 0; i < NROOT; i++) {
    long own = 1;
    for (auto& b : boxes->p) own += b.get() == r->r[i].get();
    if (r->r[i].use_count() != own) fail("after the threads have ended use_count() is %ld for %ld owners", r->r[i].use_count(), own);
    look(r->r[i]);
  }
  for (unsigned i = 0; i < nobj; i++) {
    bool held = i < NROOT;
    for (auto& b : boxes->p) held = held || (b && b->id == long(i));
    if (fate[i].made && !held && !fate[i].gone) fail("object %u is still there although it has no owner", i);
  }
  delete boxes; delete r;
  sut(false);
  for (unsigned i = 0; i < nobj; i++) {
    if (fate[i].made && fate[i].gone != 1) fail("object %u was destroyed %u times", i, fate[i].gone);
    if (fate[i].made && fate[i].deleter != (fate[i].custom ? 1 : 0)) fail("the deleter of object %u was called %ld times", i, fate[i].deleter);
  }
  no_leak();
}
