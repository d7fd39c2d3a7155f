// unique_ptr and function: ownership transfers, stateful and throwing targets,
// re-entrant calls and destructors.
#ifndef SIM_FN_HPP
#define SIM_FN_HPP
#include "elem.hpp"
namespace sim {

// --------------------------------------------------------------- unique_ptr
struct UpWorld;
inline UpWorld* upw = nullptr;
inline void node_dying(void* p);
struct Node {
  ENx val;
  long id; Node* chained = nullptr;           // model's view of next
  cest::unique_ptr<Node> next;
  explicit Node(long i) : val(i), id(i) { fault_point(F_DEFAULT); born(this); }
  Node(long i, const ETm& e) : val(e.get()), id(i) { fault_point(F_DEFAULT); born(this); }
  virtual ~Node() {
    User u; NoCount nc;
    if (!reg.has(this)) violate(LIFETIME, "an owned object was destroyed twice");
    node_dying(this);
    reg.del(this);
  }
  Node(const Node&) = delete;
};
struct Leaf : Node { ENx extra; long pad[9] = {}; explicit Leaf(long i) : Node(i), extra(i) {} };

struct UpWorld {
  static constexpr unsigned N = 5, NL = 2;
  using UP = cest::unique_ptr<Node>;
  using UL = cest::unique_ptr<Leaf>;
  Slot<UP> s[N]; Node* m[N] = {};
  Slot<UL> l[NL]; Leaf* ml[NL] = {};
  std::set<Node*> loose, dying, gone;          // loose: released to the client; dying: must be destroyed in this call
  std::set<Node*> alive;
  long next_id = 1;
  UP* resetting = nullptr; Node* reset_to = nullptr; bool watch = false;
  int again = -1;

  void on_death(Node* p) {
    if (!alive.count(p)) violate(OWN, "something that is not an owned object was destroyed");
    if (!dying.count(p)) violate(OWN, "object %ld was destroyed while it is still owned or released", p->id);
    dying.erase(p); alive.erase(p);
    log("  object %ld destroyed", p->id);
    if (watch && resetting) { Quiet q; if (resetting->get() != reset_to) violate(OWN, "inside reset() the owner still shows the object being destroyed"); }
    if (again >= 0 && resetting) {             // a destructor that resets its own owner
      int k = again; again = -1;
      Node* n = m[k];
      if (n) { dying.insert(n); m[k] = nullptr; mark_chain(n); }
      log("    (inside) reset owner %d", k);
      probe(1, "re-entrant reset");
      bool w = watch; watch = false;
      { Quiet q; s[k].p->reset(); }
      watch = w; reset_to = nullptr;
    }
  }
  void mark_chain(Node* n) { for (n = n->chained; n; n = n->chained) dying.insert(n); }
  void kill(Node* n) { if (!n) return; dying.insert(n); mark_chain(n); }
  Node* make_raw() { Quiet q; Node* n = choose(3) == 2 ? new Leaf(next_id++) : new Node(next_id++); alive.insert(n); return n; }
  void check() {
    g.where = "read";
    if (!dying.empty()) violate(OWN, "object %ld was not destroyed with its owner", (*dying.begin())->id);
    Quiet q;
    for (unsigned i = 0; i < N; i++) if (s[i]) {
      const UP& c = *s[i];
      if (c.get() != m[i]) violate(OWN, "owner %u holds another pointer than it was given", i);
      if (bool(c) != (m[i] != nullptr)) violate(OWN, "owner %u: the bool conversion is wrong", i);
      if (m[i]) {
        if (std::addressof(*c) != m[i] || std::addressof(*(*s[i])) != m[i]) violate(OWN, "owner %u: * designates another object", i);
        if (c->id != m[i]->id || c->val.get() != m[i]->id) violate(OWN, "owner %u: -> reaches another object", i);
        for (Node* n = m[i]; n; n = n->chained) if (n->next.get() != n->chained) violate(OWN, "object %ld owns another object than it was given", n->id);
      }
    }
    for (unsigned i = 0; i < NL; i++) if (l[i]) {
      if (l[i]->get() != ml[i]) violate(OWN, "owner %u holds another pointer than it was given", 10 + i);
      if (ml[i] && (*l[i])->extra.get() != ml[i]->id) violate(OWN, "owner %u: -> reaches another object", 10 + i);
    }
  }
  void construct(unsigned i) {
    void* f = s[i].frame();
    unsigned k = choose(6);
    switch (k) {
      case 0: log("owner %u: empty", i); call("default construct", [&] { s[i].p = new (f) UP(); }); m[i] = nullptr; break;
      case 1: { Node* n = make_raw(); log("owner %u: takes object %ld", i, n->id); call("construct", [&] { s[i].p = new (f) UP(n); }); m[i] = n; break; }
      case 2: case 3: {
        long id = next_id++;
        log("owner %u: make_unique object %ld", i, id);
        Plan pl = plan((1u << F_ALLOC) | (1u << F_DEFAULT) | (1u << F_COPY));
        Outcome o;
        std::optional<ETm> arg; if (k == 3) { arg.emplace(id); }
        o = call("make_unique", pl, [&] { s[i].p = k == 2 ? new (f) UP(cest::make_unique<Node>(id)) : new (f) UP(cest::make_unique<Node>(id, *arg)); });
        if (o.r == RES_OK) { m[i] = s[i].p->get(); if (!m[i]) violate(OWN, "make_unique gave an empty owner"); alive.insert(m[i]); }
        else s[i].drop_frame();
        return;
      }
      case 4: {
        unsigned j = choose(N);
        if (!s[j] || j == i) { s[i].drop_frame(); return; }
        log("owner %u: moved from owner %u", i, j);
        call("move construct", [&] { s[i].p = new (f) UP(std::move(*s[j])); });
        m[i] = m[j]; m[j] = nullptr;
        break;
      }
      default: {
        unsigned j = choose(NL);
        if (!l[j]) { s[i].drop_frame(); return; }
        log("owner %u: converted from owner %u", i, 10 + j);
        call("converting construct", [&] { s[i].p = new (f) UP(std::move(*l[j])); });
        m[i] = ml[j]; ml[j] = nullptr;
      }
    }
  }
  void leaf(unsigned i) {
    if (!l[i]) {
      void* f = l[i].frame(); long id = next_id++;
      log("owner %u: make_unique leaf %ld", 10 + i, id);
      Outcome o = call("make_unique", plan((1u << F_ALLOC) | (1u << F_DEFAULT)), [&] { l[i].p = new (f) UL(cest::make_unique<Leaf>(id)); });
      if (o.r == RES_OK) { ml[i] = l[i].p->get(); alive.insert(ml[i]); } else l[i].drop_frame();
      return;
    }
    log("owner %u destroyed", 10 + i);
    kill(ml[i]); ml[i] = nullptr;
    call("destroy", [&] { l[i]->~unique_ptr(); });
    l[i].p = nullptr; l[i].drop_frame();
  }
  void destroy(unsigned i) {
    if (!s[i]) return;
    log("owner %u destroyed", i);
    kill(m[i]); m[i] = nullptr;
    call("destroy", [&] { s[i]->~unique_ptr(); });
    s[i].p = nullptr; s[i].drop_frame();
  }
  void move_assign(unsigned d, unsigned o) {
    log("owner %u = move(owner %u)", d, o);
    if (d == o) { call("self move assign", [&] { auto &x = *s[d], &y = *s[o]; x = std::move(y); }); return; }
    Node *old = m[d], *nw = m[o];
    bool tmp = choose(3) == 2;
    // the destination's old object either dies or passes to the source
    std::set<Node*> maybe;
    for (Node* n = old; n; n = n->chained) maybe.insert(n);
    dying.insert(maybe.begin(), maybe.end());
    if (tmp) { m[o] = nullptr; call("move assign a temporary", [&] { *s[d] = UP(s[o]->release()); }); }
    else call("move assign", [&] { auto& r = (*s[d] = std::move(*s[o])); if (&r != s[d].p) violate(CONTENT, "= returned another object"); });
    m[d] = nw;
    if (!tmp) {
      Node* left; { Quiet q; left = s[o]->get(); }
      if (left && left == old) { for (Node* n : maybe) { if (!dying.count(n)) violate(OWN, "move assignment destroyed an object and also gave it away"); dying.erase(n); } m[o] = old; }
      else if (left) violate(OWN, "after move assignment the source holds %s", left == nw ? "the object it gave away" : "an object it never had");
      else m[o] = nullptr;
    }
  }
  void swap_op(unsigned a, unsigned b) {
    if (a == b) return;
    log("swap owners %u %u", a, b);
    call("swap", [&] { Node *x = s[a]->release(), *y = s[b]->release(); s[a]->reset(y); s[b]->reset(x); });
    std::swap(m[a], m[b]);
  }
  void release(unsigned i) {
    Node* got = nullptr; Node* want = m[i];
    log("owner %u: release", i);
    call("release", [&] { got = s[i]->release(); });
    if (got != want) violate(OWN, "release() gave another pointer");
    m[i] = nullptr;
    if (got) loose.insert(got);
  }
  void reset(unsigned i) {
    Node* n = nullptr;
    unsigned k = choose(3);
    if (k == 1) n = make_raw();
    if (k == 2 && !loose.empty()) { auto it = loose.begin(); std::advance(it, choose(uint32_t(loose.size()))); n = *it; loose.erase(it); }
    log("owner %u: reset to %ld", i, n ? n->id : 0);
    kill(m[i]); m[i] = n;
    resetting = s[i].p; reset_to = n; watch = true; again = choose(5) == 4 ? int(i) : -1;
    call("reset", [&] { if (n || k == 1) s[i]->reset(n); else s[i]->reset(); });
    resetting = nullptr; watch = false; again = -1;
  }
  void chain(unsigned i, unsigned j) {         // the last object of i's chain takes j's
    if (i == j || !m[i] || !m[j]) return;
    Node* t = m[i]; while (t->chained) t = t->chained;
    log("object %ld takes the object of owner %u", t->id, j);
    Node* n = m[j];
    call("assign a member owner", [&] { t->next = std::move(*s[j]); });
    t->chained = n; m[j] = nullptr;
    { Quiet q; if (s[j]->get()) violate(OWN, "after a move from it the source still owns an object"); }
  }
  void unchain(unsigned i) {                   // p = move(p->next), the list pop
    if (!m[i] || !m[i]->chained) return;
    log("owner %u pops its chain", i);
    Node* h = m[i], *n = h->chained;
    dying.insert(h);
    unsigned k = choose(2);
    h->chained = nullptr;
    call("pop the head of a chain", [&] {
      UP t(std::move(h->next));
      if (k) s[i]->reset(t.release()); else { UP dead(s[i]->release()); *s[i] = std::move(t); }
    });
    m[i] = n;
  }
  void compare(unsigned i, unsigned j) {
    const UP &a = *s[i], &b = *s[j];
    Node *x = m[i], *y = m[j];
    std::less<Node*> lt;
    bool ok = true;
    call("compare", [&] { ok = (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == lt(x, y) && (a > b) == lt(y, x) && (a <= b) == !lt(y, x) && (a >= b) == !lt(x, y); });
    if (!ok) violate(CONTENT, "comparing owners %u and %u disagrees with their pointers", i, j);
  }
  void run(unsigned len) {
    upw = this;
    draw_faults((1u << F_ALLOC) | (1u << F_DEFAULT) | (1u << F_COPY), 1);
    unsigned w[9]; for (auto& k : w) k = 1 + choose(4);
    unsigned n = 0;
    while (n < 4 * len && choose(len) != len - 1) {
      begin_step(); n++;
      unsigned i = choose(N), j = choose(N), tot = 0, cat = 0;
      for (unsigned x : w) tot += x;
      unsigned r = choose(tot);
      while (r >= w[cat]) r -= w[cat++];
      if (cat == 8) leaf(choose(NL));
      else if (!s[i]) construct(i);
      else switch (cat) {
        case 0: if (s[j]) move_assign(i, j); else construct(j); break;
        case 1: reset(i); break;
        case 2: release(i); break;
        case 3: destroy(i); break;
        case 4: if (s[j]) swap_op(i, j); break;
        case 5: if (s[j]) chain(i, j); break;
        case 6: unchain(i); break;
        default: if (s[j]) compare(i, j); break;
      }
      check();
      note(reg.n); note(heap.live);
      uint64_t h = 0; for (unsigned k = 0; k < N; k++) { unsigned d = 0; for (Node* q = m[k]; q && d < 4; q = q->chained) d++; h = h * 6 + (s[k] ? 1 + d : 0); }
      state(mix(h, cat * 3 + std::min<size_t>(loose.size(), 2)));
    }
    for (unsigned i = 0; i < N; i++) { destroy(i); check(); }
    for (unsigned i = 0; i < NL; i++) if (l[i]) { leaf(i); check(); }
    for (Node* n2 : loose) kill(n2);
    { Quiet q; for (Node* n2 : std::vector<Node*>(loose.begin(), loose.end())) delete n2; }
    check();
    if (!alive.empty()) violate(OWN, "object %ld outlived every owner", (*alive.begin())->id);
    upw = nullptr;
  }
};
inline void node_dying(void* p) { if (upw) upw->on_death(static_cast<Node*>(p)); }

// ----------------------------------------------------------------- function
struct FnWorld;
inline FnWorld* fnw = nullptr;
struct Seen { long tag, state, arg; const void* ref; };
inline long target_body(long tag, long& st, long arg, const void* ref);
inline void target_void(long tag, long& st, long arg, const void* ref);

template <class E> struct Tgt {                 // a stateful callable
  E tag; long state = 0;
  explicit Tgt(long t) : tag(t) {}
  Tgt(const Tgt&) = default;
  Tgt(Tgt&&) = default;
  long operator()(long a, ENx b) { long t; { NoCount nc; t = tag.get(); } return target_body(t, state, a * 1000 + b.get(), nullptr); }
  long operator()(long a) { return target_body(tag.get(), state, a, nullptr); }
  void operator()(long& a, const ENx& b, long) { target_void(tag.get(), state, a * 1000 + b.get(), &a); a += tag.get(); }
};
template <class E> struct BigTgt : Tgt<E> { long pad[40]; explicit BigTgt(long t) : Tgt<E>(t) { for (auto& p : pad) p = t; } BigTgt(const BigTgt&) = default; BigTgt(BigTgt&&) = default; using Tgt<E>::operator(); };
template <int K> inline long plain_fn(long a) { static_assert(K >= 0); long st = 0; return target_body(-1 - K, st, a, nullptr); }

struct FnWorld {
  static constexpr unsigned N = 4;
  using FA = cest::function<long(long, ENx)>;
  using FB = cest::function<long(long)>;
  using FV = cest::function<void(long&, const ENx&, long)>;
  template <class F> struct Fam { Slot<F> s[N]; struct M { long tag = 0, state = 0; bool ok = false; } m[N]; bool busy[N] = {}; };
  Fam<FA> fa; Fam<FB> fb; Fam<FV> fv;
  long next_tag = 1;
  std::vector<Seen> seen;
  // the script of the call in progress
  unsigned depth = 0; int nest = -1; unsigned fam = 0;
  long result(long tag, long st, long arg) { return tag * 1000003 + st * 1009 + arg * 31 + 7; }
  void invoked(long tag, long& st, long arg, const void* ref) {
    seen.push_back({tag, st, arg, ref});
    if (seen.size() > 50) violate(CALLS, "one call ran its target more than once");
    if (tag > 0) st++;
  }
  void nested() {                               // the target uses its own or another function object
    if (nest < 0 || depth >= 2) return;
    unsigned k = unsigned(nest); nest = -1;
    auto& M = fb.m[k];
    if (!fb.s[k] || !M.ok) return;
    depth++;
    long a = 5 + depth, want;
    size_t at = seen.size();
    log("    (inside) call function %u", 10 + k);
    probe(2, "re-entrant call");
    long st = M.state; if (M.tag > 0) M.state++;
    want = result(M.tag, st, a);
    long got; { Quiet q; got = (*fb.s[k].p)(a); }
    if (got != want) violate(CALLS, "a re-entrant call of function %u returned the wrong value", 10 + k);
    if (seen.size() != at + 1 || seen[at].tag != M.tag || seen[at].arg != a || (M.tag > 0 && seen[at].state != st)) violate(CALLS, "a re-entrant call of function %u did not run its target once with its argument", 10 + k);
    depth--;
  }
  template <class F> long make(Fam<F>& f, unsigned i, unsigned base) {
    void* fr = f.s[i].frame();
    long tag = next_tag++;
    unsigned k = choose(4);
    Plan pl = plan((1u << F_ALLOC) | (1u << F_COPY) | (1u << F_MOVE));
    log("function %u: target %ld kind %u", base + i, tag, k);
    Outcome o;
    if constexpr (std::is_same_v<F, FB>) if (k == 3) {
      tag = -1 - long(choose(2));
      o = call("construct from a function pointer", pl, [&] { f.s[i].p = new (fr) F(tag == -1 ? &plain_fn<0> : &plain_fn<1>); });
      goto done;
    }
    if (k == 0) { Tgt<ECo> t(tag); o = call("construct from an lvalue", pl, [&] { f.s[i].p = new (fr) F(t); }); if (t.tag.get() != tag) violate(ALIAS, "constructing from an lvalue changed it"); }
    else if (k == 1) { Tgt<ENx> t(tag); o = call("construct from an rvalue", pl, [&] { f.s[i].p = new (fr) F(std::move(t)); }); }
    else { BigTgt<ETm> t(tag); o = call("construct from a large lvalue", pl, [&] { f.s[i].p = new (fr) F(t); }); if (t.tag.get() != tag) violate(ALIAS, "constructing from an lvalue changed it"); }
  done:
    if (o.r == RES_OK) f.m[i] = {tag, 0, true}; else f.s[i].drop_frame();
    return tag;
  }
  template <class F> void invoke(Fam<F>& f, unsigned i, unsigned base) {
    auto& M = f.m[i];
    if (!M.ok) return;
    long a = long(choose(50)), b = long(choose(50)), got = 0;
    seen.clear();
    nest = choose(3) == 2 ? int(choose(N)) : -1;
    if (std::is_same_v<F, FB> && nest == int(i) && M.tag < 0) nest = -1;
    long arg = a;
    const void* ref = nullptr;
    Plan pl = plan(1u << F_CALL);
    log("call function %u (target %ld) with %ld %ld", base + i, M.tag, a, b);
    long st0 = M.state;
    if (M.tag > 0) M.state++;
    ENx eb(b);
    long la = a;
    Outcome o;
    if constexpr (std::is_same_v<F, FA>) { arg = a * 1000 + b; o = call("call", pl, [&] { got = choose_rv ? (*f.s[i])(a, eb) : (*f.s[i])(a, ENx(b)); }); choose_rv = !choose_rv; }
    else if constexpr (std::is_same_v<F, FB>) o = call("call", pl, [&] { got = (*f.s[i])(a); });
    else { arg = a * 1000 + b; ref = &la; o = call("call", pl, [&] { (*f.s[i])(la, eb, b); }); }
    nest = -1;
    // the target ran first, once, with these arguments; anything later is a nested call checked on its own
    if (seen.empty()) violate(CALLS, "function %u was called and its target did not run", base + i);
    const Seen& s = seen[0];
    if (s.tag != M.tag) violate(CALLS, "function %u ran target %ld, it was given %ld", base + i, s.tag, M.tag);
    if (s.arg != arg) violate(CALLS, "function %u: the target saw argument %ld in place of %ld", base + i, s.arg, arg);
    if (M.tag > 0 && s.state != st0) violate(CALLS, "function %u: the target's state is %ld, %ld before this call", base + i, s.state, st0);
    if (s.ref != ref) violate(CALLS, "function %u: a reference argument designates another object", base + i);
    unsigned same = 0; for (auto& x : seen) if (x.tag == M.tag) same++;
    (void)same;
    if (seen.size() > 2) violate(CALLS, "function %u: one call ran targets %zu times", base + i, seen.size());
    if (seen.size() == 2 && !nested_ok) violate(CALLS, "function %u: one call ran its target twice", base + i);
    nested_ok = false;
    if (o.r == RES_OK) {
      if (!std::is_same_v<F, FV> && got != result(M.tag, st0, arg)) violate(CALLS, "function %u returned %ld, its target %ld", base + i, got, result(M.tag, st0, arg));
      if (std::is_same_v<F, FV> && la != a + M.tag) violate(CALLS, "function %u: the target's change to a reference argument is lost", base + i);
    } else if (std::is_same_v<F, FV> && la != a) violate(CALLS, "function %u: a throwing target's argument changed", base + i);
    if (eb.get() != b) violate(CALLS, "function %u: an lvalue argument was changed", base + i);
    probe(3, "call");
  }
  bool choose_rv = false, nested_ok = false;
  template <class F> void copy(Fam<F>& f, unsigned d, unsigned s, unsigned base) {
    if (!f.m[s].ok) return;
    Plan pl = plan((1u << F_ALLOC) | (1u << F_COPY) | (1u << F_MOVE));
    if (!f.s[d]) {
      void* fr = f.s[d].frame();
      bool cst = choose(2);
      log("function %u: copy of %u", base + d, base + s);
      Outcome o = call("copy construct", pl, [&] { if (cst) f.s[d].p = new (fr) F(std::as_const(*f.s[s])); else f.s[d].p = new (fr) F(*f.s[s]); });
      if (o.r == RES_OK) f.m[d] = f.m[s]; else f.s[d].drop_frame();
    } else {
      log("function %u = function %u", base + d, base + s);
      auto before = f.m[d];
      Outcome o = call("copy assign", pl, [&] { *f.s[d] = *f.s[s]; });
      if (o.r == RES_OK) f.m[d] = f.m[s]; else f.m[d] = before;
    }
  }
  template <class F> void move(Fam<F>& f, unsigned d, unsigned s, unsigned base) {
    if (d == s || !f.m[s].ok) return;
    Plan pl = plan((1u << F_ALLOC) | (1u << F_COPY) | (1u << F_MOVE));
    if (!f.s[d]) {
      void* fr = f.s[d].frame();
      log("function %u: moved from %u", base + d, base + s);
      Outcome o = call("move construct", pl, [&] { f.s[d].p = new (fr) F(std::move(*f.s[s])); });
      if (o.r == RES_OK) { f.m[d] = f.m[s]; f.m[s].ok = false; } else f.s[d].drop_frame();
    } else {
      log("function %u = move(%u)", base + d, base + s);
      auto before = f.m[d];
      Outcome o = call("move assign", pl, [&] { *f.s[d] = std::move(*f.s[s]); });
      if (o.r == RES_OK) { f.m[d] = f.m[s]; f.m[s].ok = false; } else f.m[d] = before;
    }
  }
  template <class F> void destroy(Fam<F>& f, unsigned i, unsigned base) {
    if (!f.s[i]) return;
    log("function %u destroyed", base + i);
    call("destroy", [&] { f.s[i].p->~F(); });
    f.s[i].p = nullptr; f.s[i].drop_frame(); f.m[i].ok = false;
  }
  template <class F> void assign_callable(Fam<F>& f, unsigned i, unsigned base) {
    long tag = next_tag++;
    log("function %u = target %ld", base + i, tag);
    Tgt<ECo> t(tag);
    Outcome o = call("assign a callable", plan((1u << F_ALLOC) | (1u << F_COPY)), [&] { *f.s[i] = t; });
    if (o.r == RES_OK) f.m[i] = {tag, 0, true};
  }
  template <class F> void step(Fam<F>& f, unsigned base, unsigned cat) {
    unsigned i = choose(N), j = choose(N);
    if (!f.s[i]) { if (f.s[j] && f.m[j].ok && cat % 2) { if (cat % 4 == 3) move(f, i, j, base); else copy(f, i, j, base); } else make(f, i, base); return; }
    switch (cat) {
      case 0: case 1: case 2: invoke(f, i, base); break;
      case 3: if (f.s[j]) copy(f, i, j, base); break;
      case 4: if (f.s[j]) move(f, i, j, base); break;
      case 5: destroy(f, i, base); break;
      case 6: assign_callable(f, i, base); break;
      default: if (f.s[i] && f.m[i].ok) copy(f, i, i, base); break;
    }
  }
  void run(unsigned len) {
    fnw = this;
    draw_faults((1u << F_ALLOC) | (1u << F_COPY) | (1u << F_MOVE) | (1u << F_CALL), 1);
    unsigned n = 0;
    while (n < 4 * len && choose(len) != len - 1) {
      begin_step(); n++;
      unsigned cat = choose(8);
      switch (choose(3)) { case 0: step(fb, 10, cat); break; case 1: step(fa, 0, cat); break; default: step(fv, 20, cat); break; }
      note(reg.n); note(heap.live);
      uint64_t h = 0; for (unsigned k = 0; k < N; k++) h = h * 5 + (fb.s[k] ? fb.m[k].ok ? 2 + std::min<long>(fb.m[k].state, 2) : 1 : 0);
      state(mix(h, cat + 8 * (g.fired_in_call ? g.last_fired + 1 : 0)));
    }
    // every copy still has the state of its own history
    for (unsigned i = 0; i < N; i++) { if (fa.s[i]) invoke(fa, i, 0); if (fb.s[i]) invoke(fb, i, 10); if (fv.s[i]) invoke(fv, i, 20); }
    for (unsigned i = 0; i < N; i++) { destroy(fa, i, 0); destroy(fb, i, 10); destroy(fv, i, 20); }
    fnw = nullptr;
  }
};
inline long target_body(long tag, long& st, long arg, const void* ref) {
  long s0 = st;
  { User u; NoCount nc; fnw->invoked(tag, st, arg, ref); }
  bool had = fnw->nest >= 0;
  size_t before = fnw->seen.size();
  if (had) { User u; fnw->nested(); if (fnw->seen.size() > before) fnw->nested_ok = true; }
  fault_point(F_CALL);
  return fnw->result(tag, tag > 0 ? s0 : 0, arg);
}
inline void target_void(long tag, long& st, long arg, const void* ref) { (void)target_body(tag, st, arg, ref); }
}
#endif
