// shared_ptr: clients copy, assign, alias and drop handles, also from inside
// deleters and destructors, while allocations fail.  The model counts owners.
#ifndef SIM_SPTR_HPP
#define SIM_SPTR_HPP
#include "elem.hpp"
namespace sim {

struct Grp {                       // one owned object (or array) and its owners
  unsigned id = 0, n = 1, kind = 0, destroyed = 0;
  long owners = 0;
  bool disposed = false, expected = false, constructing = false;
  bool involved = false;           // the running call may hold owners of its own
  void* obj = nullptr; long tag = 0;
};
enum OKind { K_PLAIN, K_DERIVED, K_DELETER, K_ARENA, K_NULLDEL, K_NULLDEF };

struct SpWorld;
inline SpWorld* spw = nullptr;
inline void obj_dying(Grp* g, void* o);
inline void deleter_called(Grp* g, long tag, void* p);

struct Obj {                       // no virtual destructor on purpose
  long id; Grp* grp; const void* self;
  cest::shared_ptr<Obj> next;      // may own an older object
  Grp* next_g = nullptr; Obj* next_p = nullptr;
  Obj() : id(0), grp(nullptr), self(this) { born(this); }
  explicit Obj(long i) : id(i), grp(nullptr), self(this) { born(this); }
  Obj(const Obj&) = delete;
  ~Obj() {
    User u; NoCount nc;
    if (!reg.has(this)) violate(LIFETIME, "an owned object was destroyed twice");
    obj_dying(grp, this);
    reg.del(this);
  }
};
struct Derived : Obj {
  ENx extra{7};
  long pad[5] = {};
  explicit Derived(long i) : Obj(i) {}
};
struct Del {                       // a client's deleter: stateful, tracked, re-entrant
  Grp* grp; ENx tag;
  Del(Grp* g_, long t) : grp(g_), tag(t) {}
  Del(const Del&) = default;
  Del& operator=(const Del&) = default;
  void operator()(Obj* p) const { User u; deleter_called(grp, tag.get(), p); }
};
struct OtherDel { void operator()(Obj*) const {} };

template <class T> struct Handle { Slot<cest::shared_ptr<T>> s; Grp* grp = nullptr; Obj* ptr = nullptr; bool busy = false; };

struct SpWorld {
  static constexpr unsigned N = 6, NA = 3;
  Handle<Obj> h[N];
  Handle<Obj[]> a[NA];
  Slot<cest::vector<cest::shared_ptr<Obj>>> vec;
  struct Ref { Grp* grp; Obj* ptr; };
  std::vector<Ref> vm;
  std::vector<std::unique_ptr<Grp>> groups;
  std::vector<Obj*> alive;
  unsigned expected = 0, depth = 0;
  long next_tag = 1;
  bool reent = false;

  Grp* mkgrp(unsigned kind) { groups.emplace_back(new Grp); Grp* r = groups.back().get(); r->id = unsigned(groups.size()); r->kind = kind; return r; }
  void take(Grp* g) { if (g) g->owners++; }
  void drop(Grp* g) { if (g && --g->owners == 0 && g->kind != K_NULLDEF) { g->expected = true; expected++; } }
  void involve(Grp* g) { if (g) g->involved = true; }
  void dispose(Grp* g, const char* how) {
    if (g->disposed) violate(OWN, "object %u was disposed of twice (%s)", g->id, how);
    if (!g->expected && !g->constructing) violate(OWN, "object %u was disposed of (%s) while it has %ld owner(s)", g->id, how, g->owners);
    if (g->expected) { g->expected = false; expected--; }
    g->disposed = true;
  }
  bool is_alive(Obj* p) { return p && reg.has(p); }

  // ------------------------------------------------- inside deleters/destructors
  void on_dying(Grp* g, Obj* o) {
    if (g) {
      if (g->kind == K_PLAIN || g->kind == K_DERIVED) {
        if (g->destroyed == 0) dispose(g, "by default");
        if (++g->destroyed > g->n) violate(OWN, "more objects destroyed than array %u holds", g->id);
      } else if (!g->disposed) violate(OWN, "object %u was destroyed without its deleter", g->id);
    }
    if (g && g->kind == K_PLAIN && g->n == 1) reenter();
    drop(o->next_g);                 // the member handle goes next
    o->next_g = nullptr; o->next_p = nullptr;
  }
  void on_deleter(Grp* g, long tag, Obj* p) {
    log("  deleter of object %u", g->id);
    if (tag != g->tag) violate(OWN, "object %u was handed to a deleter holding other state", g->id);
    if (p != g->obj) violate(OWN, "the deleter of object %u was given another pointer", g->id);
    dispose(g, "by its deleter");
    reenter();
    if (g->kind == K_DELETER) { if (g->n > 1 || g->kind == 99) delete[] p; else delete p; }
    else if (g->kind == K_ARENA) { p->~Obj(); ::free(static_cast<void*>(p)); }
  }
  void reenter() {
    if (!reent || depth >= 3) return;
    depth++;
    for (unsigned k = choose(3); k; k--) {
      unsigned x = choose(N), y = choose(N);
      Handle<Obj>&X = h[x], &Y = h[y];
      if (X.busy || Y.busy) continue;
      if (!X.s) { if (Y.s) { log("    (inside) copy %u -> %u", y, x); copy_into(X, Y); } continue; }
      switch (choose(3)) {
        case 0: log("    (inside) drop %u", x); drop_quiet(X); break;
        case 1: if (Y.s) { log("    (inside) assign %u = %u", x, y); assign_quiet(X, Y); } break;
        default: check_handle(X, x, "from inside a deleter"); break;
      }
      probe(1, "re-entrant operation");
    }
    depth--;
  }
  void copy_into(Handle<Obj>& X, Handle<Obj>& Y) {
    void* f = X.s.frame(); X.busy = Y.busy = true;
    take(Y.grp);
    { Quiet q; X.s.p = new (f) cest::shared_ptr<Obj>(*Y.s); }
    X.grp = Y.grp; X.ptr = Y.ptr; X.busy = Y.busy = false;
  }
  void drop_quiet(Handle<Obj>& X) {
    X.busy = true;
    Grp* o = X.grp; X.grp = nullptr; X.ptr = nullptr;
    auto* p = X.s.p;
    drop(o);
    { Quiet q; p->~shared_ptr(); }
    X.s.p = nullptr; X.s.drop_frame(); X.busy = false;
  }
  void assign_quiet(Handle<Obj>& X, Handle<Obj>& Y) {
    X.busy = Y.busy = true;
    involve(Y.grp); involve(X.grp);
    Grp* o = X.grp;
    take(Y.grp); X.grp = Y.grp; X.ptr = Y.ptr; drop(o);
    { Quiet q; *X.s = *Y.s; }
    X.busy = Y.busy = false;
  }

  // ------------------------------------------------------------------ checking
  template <class T> void check_handle(Handle<T>& H, unsigned i, const char* when) {
    if (!H.s || H.busy) return;
    Quiet q;
    const cest::shared_ptr<T>& p = *H.s;
    long want = H.grp ? H.grp->owners : 0;
    if (!(depth && H.grp && H.grp->involved) && p.use_count() != want) violate(OWN, "handle %u %s: use_count() is %ld with %ld owner(s)", i, when, long(p.use_count()), want);
    if (p.get() != H.ptr) violate(OWN, "handle %u %s: get() is not the pointer it was given", i, when);
    if (bool(p) != (H.ptr != nullptr)) violate(OWN, "handle %u %s: the bool conversion is wrong", i, when);
    if (H.grp && H.grp->disposed) violate(OWN, "handle %u %s owns a disposed object", i, when);
    if (is_alive(H.ptr)) {
      if (std::addressof(*p) != H.ptr) violate(OWN, "handle %u %s: * designates another object", i, when);
      if constexpr (std::is_array_v<T>) {
        if (H.grp && H.ptr == H.grp->obj)
          for (unsigned k = 0; k < H.grp->n; k++) if (std::addressof(p[k]) != H.ptr + k) violate(OWN, "handle %u %s: [%u] designates another object", i, when, k);
      } else {
        if (p->id != H.ptr->id) violate(OWN, "handle %u %s: -> designates another object", i, when);
      }
    } else if (H.grp && H.ptr && H.ptr == H.grp->obj) violate(OWN, "handle %u %s: the object is dead although it has %ld owner(s)", i, when, want);
  }
  void check_all() {
    g.where = "read";
    for (auto& x : groups) x->involved = false;
    if (expected) for (auto& x : groups) if (x->expected) violate(OWN, "object %u lost its last owner and was not disposed of", x->id);
    for (auto& x : groups) if (x->disposed && x->destroyed && x->destroyed != x->n) violate(OWN, "%u of %u objects of array %u were destroyed", x->destroyed, x->n, x->id);
    for (unsigned i = 0; i < N; i++) check_handle(h[i], i, "at rest");
    for (unsigned i = 0; i < NA; i++) check_handle(a[i], 100 + i, "at rest");
    if (vec) {
      Quiet q;
      if (vec->size() != vm.size()) violate(OWN, "the vector of handles has %zu element(s), the model %zu", size_t(vec->size()), vm.size());
      for (size_t i = 0; i < vm.size(); i++) {
        auto& p = (*vec)[i];
        if (p.get() != vm[i].ptr || p.use_count() != (vm[i].grp ? vm[i].grp->owners : 0)) violate(OWN, "element %zu of a vector of handles: wrong pointer or use_count() %ld (%ld owner(s))", i, long(p.use_count()), vm[i].grp ? vm[i].grp->owners : 0);
      }
    }
  }

  // --------------------------------------------------------------------- steps
  template <class T> void make(Handle<T>& H, unsigned i) {
    constexpr bool arr = std::is_array_v<T>;
    using SP = cest::shared_ptr<T>;
    void* f = H.s.frame();
    H.busy = true;
    unsigned k = choose(8);
    if (k == 6) { log("handle %u: empty", i); call("default construct", [&] { H.s.p = new (f) SP(); }); H.grp = nullptr; H.ptr = nullptr; H.busy = false; return; }
    if (k == 7) { log("handle %u: nullptr", i); call("construct from nullptr", [&] { H.s.p = new (f) SP(nullptr); }); H.grp = nullptr; H.ptr = nullptr; H.busy = false; return; }
    if (arr && k == K_DERIVED) k = K_PLAIN;
    Grp* g_ = mkgrp(k);
    if constexpr (arr) g_->n = k == K_ARENA ? 1 : 2 + choose(3);
    g_->tag = next_tag++;
    Obj* p = nullptr;
    {
      Quiet q;
      switch (k) {
        case K_PLAIN: case K_DELETER: if constexpr (arr) p = new Obj[g_->n]; else p = new Obj(g_->tag); break;
        case K_DERIVED: p = new Derived(g_->tag); break;
        case K_ARENA: { User u; p = new (malloc(sizeof(Obj))) Obj(g_->tag); break; }
        default: break;
      }
    }
    if (p) for (unsigned j = 0; j < g_->n; j++) { p[j].grp = g_; p[j].id = g_->tag + long(j); }
    g_->obj = p; g_->owners = 1; g_->constructing = true;
    if (k == K_NULLDEF) g_->expected = false;
    static const char* nm[] = {"new", "new derived", "deleter", "arena object with deleter", "null with deleter", "typed null"};
    log("handle %u: object %u (%s, n=%u)", i, g_->id, nm[k], g_->n);
    Plan pl = plan(1u << F_ALLOC);
    long tag = g_->tag;
    Outcome o;
    std::optional<Del> d;
    if (k == K_DELETER || k == K_ARENA || k == K_NULLDEL) d.emplace(g_, tag);
    o = call("take ownership", pl, [&] {
      if (k == K_DELETER || k == K_ARENA || k == K_NULLDEL) H.s.p = new (f) SP(p, *d);
      else if (k == K_DERIVED) { if constexpr (!arr) H.s.p = new (f) SP(static_cast<Derived*>(p)); }
      else H.s.p = new (f) SP(p);
    });
    g_->constructing = false;
    if (o.r == RES_OK) {
      if (g_->disposed) violate(OWN, "object %u was disposed of by the constructor of its first owner", g_->id);
      H.grp = g_; H.ptr = p;
    } else {
      g_->owners = 0;
      if (!g_->disposed && k != K_NULLDEF) violate(OWN, "taking ownership of object %u failed and it was not disposed of", g_->id);
      H.s.drop_frame(); H.grp = nullptr; H.ptr = nullptr;
      probe(2, "ownership failed");
    }
    H.busy = false;
  }
  template <class T> void copy(Handle<T>& X, unsigned x, Handle<T>& Y, unsigned y, unsigned how) {
    void* f = X.s.frame();
    X.busy = Y.busy = true;
    Obj* np = Y.ptr;
    take(Y.grp);
    if (how == 0) { log("handle %u: copy of %u", x, y); call("copy construct", [&] { X.s.p = new (f) cest::shared_ptr<T>(*Y.s); }); }
    else {
      if (how == 2) np = nullptr;
      else if (!alive.empty() || true) {
        // any object at all: the alias owns Y's object whatever it points at
        Obj* cand[2 * (N + NA)]; unsigned n = 0;
        for (auto& H : h) if (H.s && is_alive(H.ptr)) cand[n++] = H.ptr;
        for (auto& H : a) if (H.s && is_alive(H.ptr)) { cand[n++] = H.ptr; if (H.grp && H.ptr == H.grp->obj && H.grp->n > 1) cand[n++] = H.ptr + 1; }
        np = n ? cand[choose(n)] : nullptr;
      }
      log("handle %u: alias of %u (%s)", x, y, np ? np == Y.ptr ? "same pointer" : "other pointer" : "null");
      call("alias construct", [&] { X.s.p = new (f) cest::shared_ptr<T>(*Y.s, np); });
      probe(3, "alias");
    }
    X.grp = Y.grp; X.ptr = np;
    X.busy = Y.busy = false;
  }
  template <class T> void assign(Handle<T>& X, unsigned x, Handle<T>& Y, unsigned y) {
    log("handle %u = handle %u", x, y);
    X.busy = Y.busy = true;
    involve(Y.grp); involve(X.grp);
    Grp* o = X.grp;
    take(Y.grp); X.grp = Y.grp; X.ptr = Y.ptr; drop(o);
    call("assign", [&] { auto& r = (*X.s = *Y.s); if (&r != X.s.p) violate(CONTENT, "= returned another object"); });
    X.busy = Y.busy = false;
  }
  template <class T> void assign_temp(Handle<T>& X, unsigned x, Handle<T>* Y) {
    log("handle %u = %s", x, Y ? "a temporary copy" : "an empty temporary");
    X.busy = true; involve(X.grp); if (Y) { Y->busy = true; involve(Y->grp); }
    Grp* o = X.grp;
    if (Y) { take(Y->grp); X.grp = Y->grp; X.ptr = Y->ptr; } else { X.grp = nullptr; X.ptr = nullptr; }
    drop(o);
    call("assign a temporary", [&] { if (Y) *X.s = cest::shared_ptr<T>(*Y->s); else *X.s = cest::shared_ptr<T>(); });
    X.busy = false; if (Y) Y->busy = false;
  }
  template <class T> void drop_handle(Handle<T>& X, unsigned x) {
    log("handle %u dropped", x);
    X.busy = true;
    Grp* o = X.grp; X.grp = nullptr; X.ptr = nullptr;
    drop(o);
    call("destroy", [&] { X.s->~shared_ptr(); });
    X.s.p = nullptr; X.s.drop_frame(); X.busy = false;
  }
  template <class T> void observe(Handle<T>& X, unsigned x) {
    log("handle %u observed", x);
    Grp* g_ = X.grp;
    bool has = g_ && (g_->kind == K_DELETER || g_->kind == K_ARENA || g_->kind == K_NULLDEL);
    if constexpr (!std::is_array_v<T>) {
      Del* d = nullptr; OtherDel* e = nullptr;
      call("get_deleter", [&] { d = cest::impl::get_deleter<Del>(*X.s); e = cest::impl::get_deleter<OtherDel>(*X.s); });
      if (e) violate(CONTENT, "get_deleter found a deleter nobody gave");
      if (has != (d != nullptr)) violate(CONTENT, "get_deleter %s the deleter of object %u", d ? "invented" : "did not find", g_ ? g_->id : 0);
      if (d && (d->tag.get() != g_->tag || d->grp != g_)) violate(CONTENT, "get_deleter found another deleter than that of object %u", g_->id);
    }
    call("swap-free read", [&] { const auto& c = *X.s; (void)c; check_handle(X, x, "on request"); });
  }
  template <class T> void swap_handles(Handle<T>& X, unsigned x, Handle<T>& Y, unsigned y) {
    log("swap handles %u %u", x, y);
    X.busy = Y.busy = true; involve(X.grp); involve(Y.grp);
    std::swap(X.grp, Y.grp); std::swap(X.ptr, Y.ptr);
    call("swap", [&] { auto t = *X.s; *X.s = *Y.s; *Y.s = t; });
    X.busy = Y.busy = false;
  }
  void link(Handle<Obj>& X, Handle<Obj>& Y) {      // X's object becomes an owner of an older one
    if (!is_alive(X.ptr) || !X.ptr->grp) return;
    Obj* o = X.ptr;
    if (Y.grp && Y.grp->id >= o->grp->id) return;
    log("object %u links to object %u", o->grp->id, Y.grp ? Y.grp->id : 0);
    X.busy = Y.busy = true;
    // keep o alive while its member changes: o's group is owned by somebody (it is alive)
    Grp* old = o->next_g; involve(old); involve(Y.grp);
    take(Y.grp); o->next_g = Y.grp; o->next_p = Y.ptr; drop(old);
    call("assign a member handle", [&] { o->next = *Y.s; });
    X.busy = Y.busy = false;
    probe(4, "object owns object");
  }
  void follow(Handle<Obj>& X, unsigned x) {        // p = p->next, the classic self-destroying walk
    if (!is_alive(X.ptr) || !X.ptr->grp) return;
    log("handle %u = its object's own handle", x);
    X.busy = true;
    Grp* old = X.grp; Obj* o = X.ptr;
    Grp* ng = o->next_g; Obj* np = o->next_p;
    involve(old); involve(ng); take(ng); X.grp = ng; X.ptr = np; drop(old);
    call("assign from inside the owned object", [&] { *X.s = o->next; });
    X.busy = false;
    probe(5, "assignment from inside the owned object");
  }
  void vector_step(unsigned cl) {
    (void)cl;
    if (!vec) { void* f = vec.frame(); log("vector of handles"); call("construct", [&] { vec.p = new (f) cest::vector<cest::shared_ptr<Obj>>(); }); return; }
    switch (choose(5)) {
      case 0: case 1: {
        unsigned y = choose(N);
        if (!h[y].s) return;
        if (unsigned n = vm.size() > 1000 ? 0 : huge(1500, 70000)) {   // a crowd of owners
          log("vector: push_back handle %u, %u times", y, n);
          h[y].busy = true;
          for (unsigned k = 0; k < n; k++) { take(h[y].grp); vm.push_back({h[y].grp, h[y].ptr}); }
          call("push_back", [&] { for (unsigned k = 0; k < n; k++) vec->push_back(*h[y].s); });
          h[y].busy = false;
          probe(6, "many owners");
          return;
        }
        log("vector: push_back handle %u", y);
        h[y].busy = true; take(h[y].grp);
        Outcome o = call("push_back", plan(1u << F_ALLOC), [&] { vec->push_back(*h[y].s); });
        h[y].busy = false;
        if (o.r == RES_OK) vm.push_back({h[y].grp, h[y].ptr}); else if (h[y].grp) h[y].grp->owners--;
        break;
      }
      case 2: if (vm.empty()) return; { log("vector: pop_back"); Ref r = vm.back(); vm.pop_back(); drop(r.grp); call("pop_back", [&] { vec->pop_back(); }); } break;
      case 3: { log("vector: clear"); auto v = vm; vm.clear(); for (auto& r : v) { involve(r.grp); drop(r.grp); } call("clear", [&] { vec->clear(); }); } break;
      default: {
        if (vm.empty()) return;
        unsigned k = choose(uint32_t(vm.size())), y = choose(N);
        if (!h[y].s) return;
        log("vector: [%u] = handle %u", k, y);
        Ref old = vm[k];
        h[y].busy = true; take(h[y].grp); vm[k] = {h[y].grp, h[y].ptr}; drop(old.grp);
        call("assign an element", [&] { (*vec)[k] = *h[y].s; });
        h[y].busy = false;
      }
    }
  }
  void drop_vec() {
    if (!vec) return;
    auto v = vm; vm.clear(); for (auto& r : v) { involve(r.grp); drop(r.grp); }
    call("destroy", [&] { vec->~vector(); });
    vec.p = nullptr; vec.drop_frame();
  }
  template <class T, unsigned M> void step(Handle<T> (&H)[M], unsigned base, unsigned kind) {
    unsigned x = choose(M), y = choose(M);
    if (!H[x].s) {
      if (kind % 3 == 0 || !H[y].s) make(H[x], base + x);
      else copy(H[x], base + x, H[y], base + y, kind % 5 == 0 ? 1 + choose(2) : 0);
      return;
    }
    switch (kind) {
      case 0: case 1: if (H[y].s) assign(H[x], base + x, H[y], base + y); else copy(H[y], base + y, H[x], base + x, 0); break;
      case 2: drop_handle(H[x], base + x); break;
      case 3: observe(H[x], base + x); break;
      case 4: if (H[y].s && x != y) assign_temp(H[x], base + x, &H[y]); else assign_temp<T>(H[x], base + x, nullptr); break;
      case 5: if (H[y].s && x != y) swap_handles(H[x], base + x, H[y], base + y); else if (!H[y].s) copy(H[y], base + y, H[x], base + x, 1 + choose(2)); break;
      case 6: assign(H[x], base + x, H[x], base + x); break;
      default: if (!H[y].s) copy(H[y], base + y, H[x], base + x, choose(3)); break;
    }
  }
  void run() {
    spw = this;
    reent = choose(3) != 0;
    draw_faults(1u << F_ALLOC, 1);
    unsigned nclients = range(1, 3), w[3][4];
    for (auto& c : w) { for (auto& k : c) k = choose(4); c[0]++; if (c[1] > 2) c[1] = 2; }
    static const unsigned lens[] = {8, 30, 90, 250};
    unsigned len = lens[choose(4)], n = 0;
    while (n < 4 * len && choose(len) != len - 1) {
      begin_step(); n++;
      unsigned cl = choose(nclients), tot = 0, cat = 0;
      for (unsigned x : w[cl]) tot += x;
      unsigned r = choose(tot);
      while (r >= w[cl][cat]) r -= w[cl][cat++];
      switch (cat) {
        case 0: step(h, 0, choose(8)); break;
        case 1: step(a, 100, choose(8)); break;
        case 2: { unsigned x = choose(N), y = choose(N); if (h[x].s && h[y].s) { if (choose(3) == 2) follow(h[x], x); else if (x != y) link(h[x], h[y]); } else step(h, 0, choose(8)); break; }
        default: vector_step(cl); break;
      }
      check_all();
      long tot_owners = 0; for (auto& x : groups) tot_owners += x->owners;
      note(reg.n); note(heap.live); note(uint64_t(tot_owners));
      uint64_t st = 0; for (auto& H : h) st = st * 7 + (H.s ? 1 + (H.grp ? std::min<long>(H.grp->owners, 4) : 0) : 0);
      state(mix(st, cat));
    }
    for (unsigned i = 0; i < N; i++) if (h[i].s) { drop_handle(h[i], i); check_all(); }
    for (unsigned i = 0; i < NA; i++) if (a[i].s) { drop_handle(a[i], 100 + i); check_all(); }
    drop_vec();
    // re-entrant copies may have made new handles meanwhile
    for (unsigned k = 0; k < 4; k++) for (unsigned i = 0; i < N; i++) if (h[i].s) { reent = false; drop_handle(h[i], i); }
    check_all();
    for (auto& x : groups) {
      if (x->owners) violate(OWN, "model error: object %u has owners left", x->id);
      if (!x->disposed && x->kind != K_NULLDEF) violate(OWN, "object %u was never disposed of", x->id);
    }
    spw = nullptr;
  }
};
inline void obj_dying(Grp* g, void* o) { if (spw) spw->on_dying(g, static_cast<Obj*>(o)); }
inline void deleter_called(Grp* g, long tag, void* p) { if (spw) spw->on_deleter(g, tag, static_cast<Obj*>(p)); }
}
#endif
