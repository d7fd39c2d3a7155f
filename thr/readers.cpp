// C18: several threads use const operations on the same objects.
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/string.hpp"
#include "cest/queue.hpp"
#include "cest/iostream.hpp"
#include "cest/sstream.hpp"
#include "cest/memory.hpp"
#include "cest/functional.hpp"
#include "thr/api.hpp"
#include <algorithm>
#include <numeric>
#include <string_view>
#include <utility>
#include <vector>

namespace {
using namespace thr;
using std::size_t;

struct Cp {                                    // an element whose copy can fail
  long v;
  Cp(long x = 0) : v(x) {}
  Cp(const Cp& o) : v(o.v) { copy_point(); }
  Cp& operator=(const Cp& o) { copy_point(); v = o.v; return *this; }
  bool operator==(const Cp& o) const { return v == o.v; }
};
struct Rev { bool operator()(long a, long b) const { return a > b; } };

struct Objs {
  cest::vector<long> v, v2; cest::vector<cest::string> vs; cest::vector<Cp> vc;
  cest::deque<long> d; cest::deque<Cp> dc; cest::deque<cest::string> ds;
  cest::list<long> l; cest::list<Cp> lc;
  cest::forward_list<long> f; cest::forward_list<cest::string> fs;
  cest::set<long> s; cest::set<long, Rev> sr; cest::set<cest::string> ss;
  cest::map<long, cest::string> m; cest::map<cest::string, long> ms;
  cest::string str, str2; cest::wstring w;
  cest::queue<long> q;
  cest::unique_ptr<long> u{new long(11)}, u0; cest::shared_ptr<Cp> sp{new Cp(12)}, sp0; cest::vector<cest::shared_ptr<long>> vp;
  cest::function<long(long)> fn{[k = 5l](long y) { return y * k; }}, fc{[c = Cp(6)](long y) mutable { return c.v++ + y; }};
};
struct Op { unsigned k; uint32_t a, b; Plan p; };
std::vector<Op> build_script, script[NT];
Objs* objs[2];
int which;

cest::string text(uint32_t x) { char b[24]; size_t n = 0; do b[n++] = char('a' + x % 5), x /= 5; while (x && n < 20); if (n > 3) b[2] = 0; return cest::string(b, n); }

void build(Objs& o, const Op& x) {
  long v = long(x.a % 97);
  switch (x.k) {
    case 0: o.v.push_back(v); break;
    case 1: o.v2.push_back(v); break;
    case 2: o.vs.push_back(text(x.a)); break;
    case 3: o.vc.push_back(Cp(v)); break;
    case 4: o.d.push_back(v); break;
    case 5: o.d.push_front(v); break;
    case 6: if (!o.d.empty()) { if (x.b & 1) o.d.pop_back(); else o.d.pop_front(); } break;
    case 7: if (x.b & 1) o.dc.push_back(Cp(v)); else o.dc.push_front(Cp(v)); break;
    case 8: if (x.b & 1) o.ds.push_back(text(x.a)); else o.ds.push_front(text(x.a)); break;
    case 9: if (x.b & 1) o.l.push_back(v); else o.l.push_front(v); break;
    case 10: o.lc.push_back(Cp(v)); break;
    case 11: o.f.push_front(v); break;
    case 12: o.fs.push_front(text(x.a)); break;
    case 13: o.s.insert(v); o.sr.insert(v % 13); break;
    case 14: o.ss.insert(text(x.a)); break;
    case 15: o.m.insert({v, text(x.b)}); break;
    case 16: o.ms.insert({text(x.a), v}); break;
    case 17: o.str.push_back(char('a' + v % 4)); break;
    case 18: o.str2.append(text(x.a)); break;
    case 19: o.w.push_back(wchar_t(L'a' + v)); break;
    case 20: o.q.push(v); break;
    case 21: if (!o.q.empty()) o.q.pop(); break;
    case 22: o.v2 = o.v; break;
    case 23: o.str2 = o.str; break;
    case 24: if (!o.v.empty()) o.v.pop_back(); break;
    case 25: o.v.reserve(x.b % 40); break;
    case 26: o.vp.push_back(x.b & 1 || o.vp.empty() ? cest::shared_ptr<long>(new long(v)) : o.vp[x.a % o.vp.size()]); break;
  }
}
constexpr unsigned NBUILD = 27;

long num(long x) { return x; }
long num(char c) { return c; }
long num(wchar_t c) { return c; }
long num(const Cp& c) { return c.v; }
long num(const cest::string& s) { long h = long(s.size()); for (size_t i = 0; i < s.size(); i++) h = h * 31 + s[i]; return h; }
template <class A, class B> long num(const std::pair<const A, B>& p) { return num(p.first) * 7 + num(p.second); }

template <class C> void walk(const C& c) { for (auto i = c.begin(), e = c.end(); i != e; ++i) obs(uint64_t(num(*i))); obs(0xF1); for (auto i = c.cbegin(); i != c.cend(); i++) obs(uint64_t(num(*i))); }
template <class C> void walk_back(const C& c) { for (auto i = c.end(); i != c.begin();) { --i; obs(uint64_t(num(*i))); } obs(0xF2); }

const char* const names[] = {
  "vector size/empty/capacity", "vector operator[]", "vector at", "vector iteration", "vector reverse iteration", "vector front/back/data", "vector ==", "vector copy",
  "vector copy-assign from", "vector<string> read", "vector<string> copy", "vector of throwing copies, copy",
  "deque size/empty/front/back", "deque operator[]", "deque iteration", "deque backwards iteration", "deque copy", "deque copy-assign from", "deque of throwing copies, copy", "deque<string> read", "deque iterator distance",
  "list size/front/back", "list iteration", "list backwards iteration", "list copy", "list of throwing copies, copy", "list copy-assign from",
  "forward_list iteration", "forward_list copy", "forward_list<string> copy", "forward_list front/empty",
  "set iteration", "set find", "set copy", "set copy-assign from", "set<string> find", "set<string> iteration", "set with reversed order",
  "map iteration", "map find", "map copy", "map copy-assign from", "map<string,long> find",
  "string size/c_str/operator[]", "string find character", "string find string", "string compare", "string == < !=", "string copy", "string iteration", "string concatenation", "wstring read",
  "queue front/back/size", "queue copy",
  "vector algorithms", "string_view of a string", "stringstream made from a string", "string to own process stream", "post-increment iteration", "list max_size and post-decrement",
  "unique_ptr reads", "shared_ptr reads", "shared_ptr copy", "vector of shared_ptr, copy", "function copied and called", "function with a throwing copy, copied and called",
};
constexpr unsigned NOPS = sizeof names / sizeof names[0];

void exec(const Objs& o, const Op& x, int t) {
  size_t a = x.a, b = x.b;
  auto go = [&](auto f) { call(names[x.k], x.p, f); };
  switch (x.k) {
    case 0: go([&] { obs(o.v.size()); obs(o.v.empty()); obs(o.v.capacity() >= o.v.size()); }); break;
    case 1: go([&] { for (size_t i = 0; i < 3 && !o.v.empty(); i++) obs(uint64_t(o.v[(a + i * b) % o.v.size()])); }); break;
    case 2: go([&] { obs(uint64_t(o.v.at(a % (o.v.size() + 2)))); }); break;
    case 3: go([&] { walk(o.v); walk(o.vc); }); break;
    case 4: go([&] { for (auto i = o.v.rbegin(); i != o.v.rend(); ++i) obs(uint64_t(*i)); }); break;
    case 5: go([&] { if (!o.v.empty()) { obs(uint64_t(o.v.front())); obs(uint64_t(o.v.back())); obs(uint64_t(o.v.data()[a % o.v.size()])); } }); break;
    case 6: go([&] { obs(o.v == o.v2); obs(o.v2 == o.v2); }); break;
    case 7: go([&] { cest::vector<long> c(o.v); c.push_back(1); walk(c); }); break;
    case 8: go([&] { cest::vector<long> c; c.push_back(5); c = o.v; walk(c); }); break;
    case 9: go([&] { walk(o.vs); }); break;
    case 10: go([&] { cest::vector<cest::string> c(o.vs); if (!c.empty()) c[0].push_back('!'); walk(c); }); break;
    case 11: go([&] { cest::vector<Cp> c(o.vc); walk(c); }); break;
    case 12: go([&] { obs(o.d.size()); obs(o.d.empty()); if (!o.d.empty()) { obs(uint64_t(o.d.front())); obs(uint64_t(o.d.back())); } }); break;
    case 13: go([&] { for (size_t i = 0; i < 4 && !o.d.empty(); i++) obs(uint64_t(o.d[(a + i * b) % o.d.size()])); }); break;
    case 14: go([&] { walk(o.d); }); break;
    case 15: go([&] { walk_back(o.d); }); break;
    case 16: go([&] { cest::deque<long> c(o.d); c.push_front(3); c.push_back(4); walk(c); }); break;
    case 17: go([&] { cest::deque<long> c; c.push_back(1); c = o.d; walk(c); }); break;
    case 18: go([&] { cest::deque<Cp> c(o.dc); walk(c); }); break;
    case 19: go([&] { walk(o.ds); for (size_t i = 0; i < o.ds.size(); i++) obs(uint64_t(num(o.ds[i]))); }); break;
    case 20: go([&] { auto i = o.d.begin(); size_t k = o.d.empty() ? 0 : a % o.d.size(); for (size_t j = 0; j < k; j++) ++i; obs(uint64_t(i - o.d.begin())); obs(uint64_t(o.d.end() - i)); }); break;
    case 21: go([&] { obs(o.l.size()); obs(o.l.empty()); if (!o.l.empty()) { obs(uint64_t(o.l.front())); obs(uint64_t(o.l.back())); } }); break;
    case 22: go([&] { walk(o.l); walk(o.lc); }); break;
    case 23: go([&] { walk_back(o.l); }); break;
    case 24: go([&] { cest::list<long> c(o.l); c.push_back(9); walk(c); }); break;
    case 25: go([&] { cest::list<Cp> c(o.lc); walk(c); }); break;
    case 26: go([&] { cest::list<long> c; c.push_back(1); c = o.l; walk(c); }); break;
    case 27: go([&] { walk(o.f); walk(o.fs); }); break;
    case 28: go([&] { cest::forward_list<long> c(o.f); c.push_front(9); walk(c); }); break;
    case 29: go([&] { cest::forward_list<cest::string> c(o.fs), e; e = o.fs; walk(c); walk(e); }); break;
    case 30: go([&] { obs(o.f.empty()); if (!o.f.empty()) obs(uint64_t(o.f.front())); }); break;
    case 31: go([&] { obs(o.s.size()); obs(o.s.empty()); walk(o.s); }); break;
    case 32: go([&] { for (size_t i = 0; i < 4; i++) { auto it = o.s.find(long((a + i * b) % 97)); obs(it == o.s.end() ? 999 : uint64_t(*it)); } }); break;
    case 33: go([&] { cest::set<long> c(o.s); c.insert(200); walk(c); }); break;
    case 34: go([&] { cest::set<long> c; c.insert(5); c = o.s; walk(c); }); break;
    case 35: go([&] { auto it = o.ss.find(text(x.a)); obs(it == o.ss.end() ? 999 : uint64_t(num(*it))); }); break;
    case 36: go([&] { walk(o.ss); }); break;
    case 37: go([&] { walk(o.sr); auto it = o.sr.find(long(a % 13)); obs(it == o.sr.end()); }); break;
    case 38: go([&] { obs(o.m.size()); obs(o.m.empty()); walk(o.m); }); break;
    case 39: go([&] { for (size_t i = 0; i < 3; i++) { auto it = o.m.find(long((a + i * b) % 97)); obs(it == o.m.end() ? 999 : uint64_t(num(*it))); } }); break;
    case 40: go([&] { cest::map<long, cest::string> c(o.m); c.insert({300, text(3)}); walk(std::as_const(c)); }); break;
    case 41: go([&] { cest::map<long, cest::string> c; c.insert({5, text(1)}); c = o.m; walk(std::as_const(c)); }); break;
    case 42: go([&] { auto it = o.ms.find(text(x.a)); obs(it == o.ms.end() ? 999 : uint64_t((*it).second)); walk(o.ms); }); break;
    case 43: go([&] { obs(o.str.size()); obs(o.str.length()); obs(o.str.empty()); obs(uint64_t(o.str.c_str()[o.str.size()])); if (!o.str.empty()) { obs(uint64_t(o.str[a % o.str.size()])); obs(uint64_t(o.str.front())); obs(uint64_t(o.str.back())); obs(uint64_t(o.str.data()[0])); } }); break;
    case 44: go([&] { obs(o.str.find(char('a' + a % 5), b % 8)); }); break;
    case 45: go([&] { obs(o.str.find(text(x.a % 25))); obs(o.str2.find(o.str)); obs(o.str.find("ab", b % 4)); }); break;
    case 46: go([&] { obs(uint64_t(o.str.compare(o.str2) < 0)); obs(uint64_t(o.str.compare("abc") == 0)); }); break;
    case 47: go([&] { obs(o.str == o.str2); obs(o.str < o.str2); obs(o.str != "abc"); obs("a" == o.str); }); break;
    case 48: go([&] { cest::string c(o.str); c.push_back('x'); obs(uint64_t(num(c))); cest::string e; e = o.str2; obs(uint64_t(num(e))); }); break;
    case 49: go([&] { for (auto i = o.str.begin(); i != o.str.end(); ++i) obs(uint64_t(*i)); }); break;
    case 50: go([&] { cest::string c; c.append(o.str); c += o.str2; obs(uint64_t(num(c))); }); break;
    case 51: go([&] { obs(o.w.size()); for (auto c : o.w) obs(uint64_t(c)); obs(o.w.find(wchar_t(L'a' + a % 50))); }); break;
    case 52: go([&] { obs(o.q.size()); obs(o.q.empty()); if (!o.q.empty()) { obs(uint64_t(o.q.front())); obs(uint64_t(o.q.back())); } }); break;
    case 53: go([&] { cest::queue<long> c(o.q); while (!c.empty()) { obs(uint64_t(c.front())); c.pop(); } }); break;
    case 54: go([&] { obs(uint64_t(std::accumulate(o.v.begin(), o.v.end(), 0l))); obs(uint64_t(std::count(o.d.begin(), o.d.end(), long(a % 97)))); obs(std::find(o.v.begin(), o.v.end(), long(b % 97)) == o.v.end()); }); break;
    case 56: go([&] { cest::stringstream s(o.str); char buf[12] = {}; s.read(buf, 11); obs(uint64_t(s.gcount())); obs_bytes(buf, 12); }); break;
    case 57: go([&] { cest::ostream& s = t == 0 ? cest::cout : t == 1 ? cest::cerr : cest::clog; s << o.str2; }); device_out(t); break;
    case 58: go([&] { for (auto i = o.d.begin(); i != o.d.end();) obs(uint64_t(*i++)); for (auto i = o.l.begin(); i != o.l.end();) obs(uint64_t(*i++)); for (auto i = o.f.begin(); i != o.f.end();) obs(uint64_t(*i++)); for (auto i = o.s.begin(); i != o.s.end();) obs(uint64_t(*i++)); for (auto i = o.m.begin(); i != o.m.end();) obs(uint64_t(num(*i++))); }); break;
    case 59: go([&] { obs(o.l.max_size() > 0); if (!o.l.empty()) { auto i = o.l.end(); i--; obs(uint64_t(*i)); } if (!o.d.empty()) { auto i = o.d.end(); i--; obs(uint64_t(*i)); } }); break;
    case 60: go([&] { obs(bool(o.u)); obs(bool(o.u0)); obs(uint64_t(*o.u)); obs(uint64_t(*o.u.get())); obs(o.u == o.u0); obs(o.u != o.u); obs(o.u0 < o.u); }); break;
    case 61: go([&] { obs(bool(o.sp)); obs(bool(o.sp0)); obs(uint64_t((*o.sp).v)); obs(uint64_t(o.sp->v)); obs(uint64_t(o.sp.get()->v)); obs(o.sp.use_count() > 0); obs(o.sp0.use_count() == 0); }); break;
    case 62: go([&] { cest::shared_ptr<Cp> c(o.sp), e, f(o.sp0); e = c; obs(uint64_t(e->v)); obs(e.get() == o.sp.get()); obs(e.use_count() > 2); obs(bool(f)); }); break;
    case 63: go([&] { cest::vector<cest::shared_ptr<long>> c(o.vp), e; e = o.vp; for (auto& p : c) obs(uint64_t(*p)); for (auto& p : e) obs(uint64_t(*p)); }); break;
    case 64: go([&] { cest::function<long(long)> c(o.fn), e(c); obs(uint64_t(c(long(a)))); e = o.fn; obs(uint64_t(e(long(b)))); }); break;
    case 65: go([&] { cest::function<long(long)> c(o.fc); obs(uint64_t(c(long(a)))); obs(uint64_t(c(long(a)))); cest::function<long(long)> e(o.fc); obs(uint64_t(e(long(b)))); e = c; obs(uint64_t(e(0))); }); break;
    case 55: go([&] { std::string_view s(o.str.data(), o.str.size()); obs(s.size()); obs(std::hash<std::string_view>{}(s)); }); break;
  }
}

void body(int t) {
  for (const Op& x : script[t]) {
    mark(names[x.k]);
    log("%s (%u,%u)%s", names[x.k], x.a, x.b, x.p.mask ? " with a failure planned" : "");
    exec(*objs[which], x, t);
  }
}
} // namespace

void client_run() {
  draw_faults();
  build_script.clear();
  unsigned nb = 5 + choose(60), focus = choose(3);       // focus 1: few kinds of object, so threads meet
  unsigned lo = focus == 1 ? choose(NOPS) : 0, span = focus == 1 ? 1 + choose(6) : NOPS;
  for (unsigned i = 0; i < nb; i++) { begin_step(); unsigned k = choose(NBUILD); uint32_t a = choose(3200); build_script.push_back({k, a, choose(64), {}}); }
  int n = 2 + int(choose(NT - 1));
  for (int t = 0; t < n; t++) {
    script[t].clear();
    unsigned m = 1 + choose(focus == 1 ? 6 : 12);
    for (unsigned i = 0; i < m; i++) { begin_step(); Op x; x.k = (lo + choose(span)) % NOPS; x.a = choose(3200); x.b = choose(64); x.p = plan(); script[t].push_back(x); }
  }
  for (int s = 0; s < 2; s++) { sut(true); objs[s] = new Objs; for (auto& b : build_script) build(*objs[s], b); sut(false); }
  for (auto& b : build_script) log("build %u (%u,%u)", b.k, b.a, b.b);
  which = 0; run(n, true, body);
  which = 1; run(n, false, body);
  compare(n);
  for (int s = 0; s < 2; s++) { sut(true); delete objs[s]; sut(false); }
}
