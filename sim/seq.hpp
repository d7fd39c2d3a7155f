// Sequence containers (vector, deque, list, forward_list) under interleaved
// clients and injected faults, against a plain model.
#ifndef SIM_SEQ_HPP
#define SIM_SEQ_HPP
#include "elem.hpp"

namespace sim {

enum SeqKind { VEC, DEQ, LST, FWD };

struct ME { long v; uint64_t uid; const void* addr; };   // model of one element
struct MObj {
  bool live = false;
  std::vector<ME> e;
  size_t cap = 0;                 // capacity last seen (vector)
  size_t want = 0;                // most capacity asked for
  bool touched = false, basic = false;
  uint32_t kind = 0;              // of the allocator the object was given
};

enum OpCat { G_GROW, G_SHRINK, G_COPY, G_READ, G_ALIAS, G_BULK, G_LIFE, NCAT };

template <class C, class E, SeqKind KIND, class D>
struct SeqRun {
  static constexpr bool copyable = Tr<E>::copyable;
  static constexpr unsigned NOBJ = 3;
  using It = typename C::iterator;
  Slot<C> s[NOBJ];
  MObj m[NOBJ];
  uint64_t next_uid = 1; long next_val = 1;
  Cls mode = CONTENT;             // how to classify a mismatch on a touched object
  struct Held { unsigned obj; uint64_t uid; It it; bool valid; };
  std::vector<Held> held;
  unsigned nclients = 1; unsigned weight[3][NCAT]; unsigned maxsize = 40;
  unsigned view = 0, steps = 0;
  bool hold = false, cost = false;
  size_t peak = 0; uint64_t live0 = heap.live_bytes;
  void ask(size_t n) { peak = std::max(peak, n); }     // even an attempt may have taken the storage
  // an allocator handed to a constructor supplies the elements' storage from then on
  void check_arena(unsigned o) {
    MObj& mo = m[o];
    if (!mo.kind || mo.e.empty()) return;
    Quiet q;
    const C& cx = *s[o];
    const void* a = std::addressof(*cx.begin());
    if (heap.kind_at(a) != mo.kind) violate(MISMATCH, "object %u: its elements are not in storage of the allocator it was given", o);
  }
  // storage in use stays proportional to what the objects have held
  void check_storage() {
    if constexpr (requires(const E& e) { e.size(); }) return;   // elements with storage of their own
    else {
      size_t chunk = 0;
#ifdef CEST_SIM_CHUNK_SIZE
      if (KIND == DEQ) chunk = CEST_SIM_CHUNK_SIZE;
#else
      if (KIND == DEQ) chunk = 1024;
#endif
      for (auto& o : m) peak = std::max(peak, std::max(o.e.size(), o.want));
      uint64_t limit = live0 + NOBJ * ((peak + 1) * (sizeof(E) * 4 + 128) + 4096 + 6 * chunk * sizeof(E));
      if (heap.live_bytes > limit) violate(COST, "%llu bytes in use although no object ever held more than %zu element(s)", (unsigned long long)(heap.live_bytes - live0), peak);
    }
  }

  D& self() { return static_cast<D&>(*this); }
  E mk(long v) { Quiet q; return Tr<E>::mk(v); }
  long val(const E& e) { return Tr<E>::val(e); }
  long fresh() { return norm<E>(next_val++); }
  ME me(long v) { return ME{norm<E>(v), next_uid++, nullptr}; }

  // ---------------------------------------------------------------- reading
  template <class It2, class End> void read_range(const char* how, It2 it, End end, std::vector<std::pair<long, const void*>>& out, size_t limit) {
    (void)how;
    for (; !(it == end); ++it) {
      if (out.size() > limit) return;
      const E& e = *it;
      long v = val(e);
      User u; out.emplace_back(v, std::addressof(e));
    }
  }
  using Seen = std::vector<std::pair<long, const void*>>;

  [[noreturn]] void mismatch(unsigned o, Cls c, const char* how, const Seen& got, size_t at) {
    const MObj& mo = m[o];
    if (got.size() != mo.e.size())
      violate(c, "object %u read by %s has %zu element(s), the model has %zu", o, how, got.size(), mo.e.size());
    violate(c, "object %u read by %s has %ld at position %zu, the model has %ld", o, how, got[at].first, at, mo.e[at].v);
  }
  void compare(unsigned o, Cls c, const char* how, const Seen& got, bool reversed = false) {
    const MObj& mo = m[o];
    size_t n = mo.e.size();
    if (got.size() != n) mismatch(o, c, how, got, 0);
    for (size_t i = 0; i < n; i++) {
      size_t k = reversed ? n - 1 - i : i;
      if (got[i].first != mo.e[k].v) {
        violate(c, "object %u read by %s has %ld at position %zu, the model has %ld", o, how, got[i].first, k, mo.e[k].v);
      }
    }
  }
  Cls cls_of(unsigned o) const { return m[o].touched ? mode : (mode == STRONG ? STRONG : INDEP); }

  void verify(unsigned o, bool full) {
    MObj& mo = m[o];
    if (!mo.live) return;
    Cls c = cls_of(o);
    C& x = *s[o];
    const C& cx = x;
    size_t n = mo.e.size();
    if (mo.basic) { resync(o); return; }
    unsigned w = view++;
    call("read", [&] {
      if (x.empty() != (n == 0)) violate(c, "object %u: empty() says %d, the model has %zu element(s)", o, int(x.empty()), n);
      if constexpr (KIND != FWD) {
        if (x.size() != n) violate(c, "object %u: size() says %zu, the model has %zu", o, size_t(x.size()), n);
      }
      if constexpr (KIND == VEC) {
        size_t cap = x.capacity();
        if (cap < n) violate(c, "object %u: capacity %zu below size %zu", o, cap, n);
        if (cap < mo.cap) violate(c, "object %u: capacity fell from %zu to %zu or ignored a reserve", o, mo.cap, cap);
        mo.cap = cap;
      }
      if (n) {
        if (val(x.front()) != mo.e[0].v || val(cx.front()) != mo.e[0].v)
          violate(c, "object %u: front() is %ld, the model has %ld", o, val(x.front()), mo.e[0].v);
        if constexpr (KIND != FWD)
          if (val(x.back()) != mo.e[n - 1].v || val(cx.back()) != mo.e[n - 1].v)
            violate(c, "object %u: back() is %ld, the model has %ld", o, val(x.back()), mo.e[n - 1].v);
      }
      if (!full) return;
      Seen got; { User u; got.reserve(n + 1); }
      auto done = [&] { User u; Seen().swap(got); };
      read_range("forward iteration", cx.begin(), cx.end(), got, n);
      { User u; compare(o, c, "forward iteration", got); }
      if (hold) {
        for (size_t i = 0; i < n; i++) {
          if (mo.e[i].addr && mo.e[i].addr != got[i].second)
            violate(STABLE, "object %u: the element at position %zu moved in memory although references to it must stay valid", o, i);
          mo.e[i].addr = got[i].second;
        }
      }
      done();
      if (w % 3 == 0 || n <= 8) {
        { User u; got.reserve(n + 1); }
        read_range("mutable iteration", x.begin(), x.end(), got, n);
        { User u; compare(o, c, "mutable iteration", got); }
        done();
        { User u; got.reserve(n + 1); }
        read_range("cbegin..cend", cx.cbegin(), cx.cend(), got, n);
        { User u; compare(o, c, "cbegin..cend", got); }
        done();
      }
      if constexpr (KIND == VEC || KIND == DEQ) {
        if (w % 3 == 1 || n <= 8)
          for (size_t i = 0; i < n; i++)
            if (val(x[i]) != mo.e[i].v || val(cx[i]) != mo.e[i].v)
              violate(c, "object %u: [%zu] is %ld, the model has %ld", o, i, val(cx[i]), mo.e[i].v);
      }
      if constexpr (KIND == VEC) {
        for (size_t i = 0; i < n && (w % 4 == 2 || n <= 8); i++)
          if (val(x.at(i)) != mo.e[i].v || val(cx.at(i)) != mo.e[i].v || val(x.data()[i]) != mo.e[i].v || val(cx.data()[i]) != mo.e[i].v)
            violate(c, "object %u: at(%zu) or data() disagrees with the model", o, i);
      }
      if constexpr (KIND == VEC || KIND == DEQ || KIND == LST) {
        if (w % 3 == 2 || n <= 8) {
          { User u; got.reserve(n + 1); }
          if constexpr (KIND == VEC) {
            if (w % 2) read_range("reverse iteration", cx.rbegin(), cx.rend(), got, n);
            else read_range("reverse iteration", x.rbegin(), x.rend(), got, n);
          } else if (w % 2) {
            auto it = x.end(); auto b = x.begin();
            while (!(it == b) && got.size() <= n) { --it; long v = val(*it); User u; got.emplace_back(v, nullptr); }
          } else {
            auto it = cx.end(); auto b = cx.begin();
            while (!(it == b) && got.size() <= n) { --it; long v = val(*it); User u; got.emplace_back(v, nullptr); }
          }
          { User u; compare(o, c, "reverse iteration", got, true); }
          done();
        }
      }
      if constexpr (KIND == VEC || KIND == DEQ) {
        if ((x.end() - x.begin()) != std::ptrdiff_t(n) || (cx.end() - cx.begin()) != std::ptrdiff_t(n))
          violate(c, "object %u: end()-begin() is %td, the model has %zu", o, cx.end() - cx.begin(), n);
      }
    });
  }
  // after a failure with only the basic promise: everything alive and readable,
  // every value one that could be there; then adopt what is there
  void resync(unsigned o) {
    MObj& mo = m[o];
    mo.basic = false;
    C& x = *s[o]; const C& cx = x;
    Seen got;
    size_t limit = mo.e.size() + 4;
    g.lenient = true;
    call("read after failure", [&] {
      { User u; got.reserve(limit + 2); }
      read_range("forward iteration", cx.begin(), cx.end(), got, limit);
      if (got.size() > limit) violate(BASIC, "object %u has more elements after a failed operation than before and after together", o);
      if constexpr (KIND != FWD) if (x.size() != got.size()) violate(BASIC, "object %u: size() says %zu but iteration visits %zu", o, size_t(x.size()), got.size());
      if (x.empty() != got.empty()) violate(BASIC, "object %u: empty() is wrong after a failed operation", o);
      if constexpr (KIND == VEC) { if (x.capacity() < got.size()) violate(BASIC, "capacity below size"); }
    });
    g.lenient = false;
    // mo.e holds the union of possible values here
    std::vector<long> may{MOVED, DEFAULTED};
    for (auto& e : mo.e) may.push_back(e.v);
    std::sort(may.begin(), may.end());
    for (auto& p : got) {
      bool ok = std::binary_search(may.begin(), may.end(), p.first);
      if (!ok) violate(BASIC, "object %u holds %ld after a failed operation, a value nobody put there", o, p.first);
    }
    mo.e.clear();
    for (auto& p : got) mo.e.push_back(me(p.first));
    if constexpr (KIND == VEC) mo.cap = cx.capacity();
    drop_held(o);
    for (size_t i = 0; i < mo.e.size(); i++) if (mo.e[i].v == MOVED) repair(o, i);   // the client gives it a value again
  }
  void drop_held(unsigned o) { for (auto& h : held) if (h.obj == o) h.valid = false; }
  void forget_addr(unsigned o, size_t from = 0) {
    for (size_t i = from; i < m[o].e.size(); i++) m[o].e[i].addr = nullptr;
  }
  void invalidate_from(unsigned o, size_t from) {
    for (auto& h : held) if (h.obj == o && h.valid) {
      bool keep = false;
      for (size_t i = 0; i < from && i < m[o].e.size(); i++) if (m[o].e[i].uid == h.uid) keep = true;
      if (!keep) h.valid = false;
    }
    forget_addr(o, from);
  }
  void verify_all(bool final_ = false) {
    for (unsigned o = 0; o < NOBJ; o++) {
      size_t n = m[o].e.size();
      bool full = final_ || n <= 48 || steps % 8 == 0 || (m[o].touched && mode != CONTENT && n < 4096);
      verify(o, full);
      if (m[o].live && !m[o].basic) check_arena(o);
    }
    check_storage();
    if (hold) verify_held();
  }
  void verify_held() {
    for (auto& h : held) {
      if (!h.valid) continue;
      MObj& mo = m[h.obj];
      size_t i = 0;
      while (i < mo.e.size() && mo.e[i].uid != h.uid) i++;
      if (i == mo.e.size()) { h.valid = false; continue; }
      call("use of a held position", [&] {
        E& e = *h.it;
        if (mo.e[i].addr && std::addressof(e) != mo.e[i].addr) violate(STABLE, "a held position no longer designates its element");
        if (val(e) != mo.e[i].v) violate(STABLE, "a held position reads %ld, its element is %ld", val(e), mo.e[i].v);
        It k = h.it; ++k;
        if (i + 1 < mo.e.size()) {
          if (val(*k) != mo.e[i + 1].v) violate(STABLE, "stepping a held position forward reads %ld instead of %ld", val(*k), mo.e[i + 1].v);
        } else if (!(k == s[h.obj]->end())) violate(STABLE, "stepping the last held position forward does not reach the end");
        if constexpr (KIND != FWD) if (i > 0) {
          It b = h.it; --b;
          if (val(*b) != mo.e[i - 1].v) violate(STABLE, "stepping a held position backward reads %ld instead of %ld", val(*b), mo.e[i - 1].v);
        }
      });
    }
    held.erase(std::remove_if(held.begin(), held.end(), [](const Held& h) { return !h.valid; }), held.end());
  }
  It pos(unsigned o, size_t i) {            // iterator to position i (harness walk)
    Quiet q;
    g.edges_call = 0;
    It it = s[o]->begin();
    for (size_t k = 0; k < i; k++) ++it;
    return it;
  }
  // position before element i, for forward_list
  auto before(unsigned o, size_t i) {
    Quiet q;
    g.edges_call = 0;
    auto it = s[o]->before_begin();
    for (size_t k = 0; k < i; k++) ++it;
    return it;
  }

  // ------------------------------------------------------------- life cycle
  unsigned pick_live() {
    unsigned o = choose(NOBJ);
    for (unsigned k = 0; k < NOBJ; k++) if (m[(o + k) % NOBJ].live) return (o + k) % NOBJ;
    construct(o);
    return m[o].live ? o : NOBJ;
  }
  void construct_default(unsigned o) {
    Plan p = plan(Tr<E>::faults);
    void* f = s[o].frame();
    log("object %u: default construct", o);
    Outcome r = call("default constructor", p, [&] { s[o].p = new (f) C(); });
    m[o] = MObj{}; m[o].touched = true;
    if (r.threw()) { s[o].p = nullptr; s[o].drop_frame(); } else m[o].live = true;
  }
  void construct(unsigned o) {
    unsigned k = choose(3);
    if (k == 1) { if constexpr (KIND == VEC) return construct_count(o); }
    if (k == 2) { if constexpr ((KIND == VEC || KIND == DEQ) && copyable) return construct_ilist(o); }
    construct_default(o);
  }
  void construct_count(unsigned o) {
    size_t n = skewed(maxsize);
    ask(n);
    if constexpr (requires { C(size_t(3)); } && std::is_default_constructible_v<E>) {
      Plan p = plan(Tr<E>::faults);
      void* f = s[o].frame();
      typename C::allocator_type al{}; bool given = choose(2);
      log("object %u: construct with %zu default elements%s", o, n, given ? ", allocator given" : "");
      Outcome r = call("count constructor", p, [&] { if (given) s[o].p = new (f) C(n, al); else s[o].p = new (f) C(n); });
      m[o] = MObj{}; m[o].touched = true; m[o].kind = given ? arena_of(al) : 0;
      if (r.threw()) { s[o].p = nullptr; s[o].drop_frame(); }
      else { m[o].live = true; for (size_t i = 0; i < n; i++) m[o].e.push_back(me(DEFAULTED)); }
    } else construct_default(o);
  }
  void construct_ilist(unsigned o) {
    if constexpr (copyable && requires(std::initializer_list<E> il) { C(il); }) {
      unsigned n = choose(6);
      long v[5]; for (auto& x : v) x = fresh();
      Plan p = plan(Tr<E>::faults);
      void* f = s[o].frame();
      typename C::allocator_type al{}; bool given = choose(2);
      log("object %u: construct from a list of %u%s", o, n, given ? ", allocator given" : "");
      ask(n);
      auto go = [&](std::initializer_list<E> il) {
        Outcome r = call("initializer-list constructor", p, [&] { if (given) s[o].p = new (f) C(il, al); else s[o].p = new (f) C(il); });
        m[o] = MObj{}; m[o].touched = true; m[o].kind = given ? arena_of(al) : 0;
        if (r.threw()) { s[o].p = nullptr; s[o].drop_frame(); }
        else { m[o].live = true; for (unsigned i = 0; i < n; i++) m[o].e.push_back(me(v[i])); }
      };
      switch (n) {
        case 0: go({}); break;
        case 1: go({mk(v[0])}); break;
        case 2: go({mk(v[0]), mk(v[1])}); break;
        case 3: go({mk(v[0]), mk(v[1]), mk(v[2])}); break;
        case 4: go({mk(v[0]), mk(v[1]), mk(v[2]), mk(v[3])}); break;
        default: go({mk(v[0]), mk(v[1]), mk(v[2]), mk(v[3]), mk(v[4])}); break;
      }
    }
  }
  void destroy(unsigned o) {
    if (!m[o].live) return;
    log("object %u: destroy (%zu elements)", o, m[o].e.size());
    call("destructor", [&] { s[o]->~C(); });
    s[o].p = nullptr; s[o].drop_frame();
    drop_held(o);
    m[o] = MObj{};
  }
  void copy_construct(unsigned d, unsigned src) {
    if constexpr (copyable) {
      destroy(d);
      Plan p = plan(Tr<E>::faults);
      void* f = s[d].frame();
      log("object %u: copy construct from %u (%zu elements)", d, src, m[src].e.size());
      const C& from = *s[src];
      Outcome r = call("copy constructor", p, [&] { s[d].p = new (f) C(from); });
      m[d] = MObj{}; m[d].touched = true;
      if (r.threw()) { s[d].p = nullptr; s[d].drop_frame(); mode = STRONG; }
      else { mode = INDEP; m[d].live = true; for (auto& e : m[src].e) m[d].e.push_back(me(e.v)); }
    }
  }
  void move_construct(unsigned d, unsigned src) {
    if constexpr (KIND == VEC) {
      destroy(d);
      log("object %u: move construct from %u (%zu elements)", d, src, m[src].e.size());
      void* f = s[d].frame();
      call("move constructor", [&] { s[d].p = new (f) C(std::move(*s[src])); });
      m[d] = std::move(m[src]); m[d].live = true; m[d].touched = true; m[d].cap = 0; m[d].kind = 0;
      m[src] = MObj{}; m[src].live = true; m[src].touched = true;
      for (auto& h : held) if (h.obj == src) h.obj = d;
    } else copy_construct(d, src);
  }
  void copy_assign(unsigned d, unsigned src) {
    if constexpr (copyable) {
      Plan p = plan(Tr<E>::faults);
      log("object %u: copy assign from %u (%zu <- %zu elements)", d, src, m[d].e.size(), m[src].e.size());
      const C& from = *s[src]; C& to = *s[d];
      const C* ret = nullptr;
      Outcome r = call(d == src ? "self assignment" : "copy assignment", p, [&] { ret = &(to = from); });
      if (d == src) mode = ALIAS;
      m[d].touched = true; m[d].kind = 0;
      drop_held(d);
      if (!r.threw()) {
        if (ret != &to) violate(CONTENT, "assignment does not return the object");
        if (d != src) { mode = INDEP; m[d].e.clear(); for (auto& e : m[src].e) m[d].e.push_back(me(e.v)); }
        else forget_addr(d);
        if constexpr (KIND == VEC) m[d].cap = 0;
      } else {
        mode = STRONG;              // for the source; the target is `basic`
        if (d != src) for (auto& e : m[src].e) m[d].e.push_back(me(e.v));
        m[d].basic = true;
      }
    }
  }
  void move_assign(unsigned d, unsigned src) {
    if constexpr (KIND == VEC) {
      log("object %u: move assign from %u (%zu <- %zu elements)", d, src, m[d].e.size(), m[src].e.size());
      call("move assignment", [&] { *s[d] = std::move(*s[src]); });
      std::vector<ME> old = std::move(m[d].e);
      m[d].e = std::move(m[src].e); m[d].touched = true; m[d].cap = 0; m[d].kind = m[src].kind = 0;
      m[src].e = std::move(old); m[src].touched = true; m[src].basic = true; m[src].cap = 0;
      drop_held(d);
      for (auto& h : held) if (h.obj == src && h.valid) h.obj = d;
      // what the source holds now is unspecified, but must be alive: resync it
    } else copy_assign(d, src);
  }
  void do_swap(unsigned a, unsigned b) {
    if constexpr (requires(C& x, C& y) { x.swap(y); }) {
      // nodes of unequal allocators are not to be exchanged
      if constexpr (requires(C& x) { x.get_allocator(); }) { bool eq; { Quiet q; eq = s[a]->get_allocator() == s[b]->get_allocator(); } if (!eq) return; }
      log("swap objects %u and %u", a, b);
      call("swap", [&] { s[a]->swap(*s[b]); });
      if (a != b) {
        std::swap(m[a].e, m[b].e); std::swap(m[a].cap, m[b].cap); m[a].kind = m[b].kind = 0;
        for (auto& h : held) { if (h.obj == a) h.obj = b; else if (h.obj == b) h.obj = a; }
      }
      m[a].touched = m[b].touched = true;
    }
  }
  void do_clear(unsigned o) {
    if constexpr (requires(C& x) { x.clear(); }) {
      log("object %u: clear (%zu elements)", o, m[o].e.size());
      call("clear", [&] { s[o]->clear(); });
      m[o].e.clear(); m[o].touched = true; drop_held(o);
    }
  }

  // ------------------------------------------------------------------ growth
  // where: position in the sequence.  how: 0 lvalue, 1 rvalue, 2 own element,
  // 3 own element moved
  enum How { LV, RV, OWN_LV, OWN_RV };
  void note_insert(unsigned o, size_t at, long v) {
    MObj& mo = m[o];
    mo.e.insert(mo.e.begin() + long(at), me(v));
    if constexpr (KIND == VEC) {
      if (mo.e.size() > mo.cap) { forget_addr(o); drop_held(o); }
      else forget_addr(o, at);
    }
    if constexpr (KIND == DEQ) drop_held(o);
  }
  template <class F> bool grow_op(unsigned o, const char* name, size_t at, How how, long v, size_t own, F&& f) {
    MObj& mo = m[o];
    Plan p = plan(Tr<E>::faults & ~(1u << F_DEFAULT));
    if (how >= OWN_LV) mode = ALIAS;
    uint64_t c0 = g.constructs + g.assigns;
    uint64_t b0 = heap.bytes;
    Outcome r;
    if (how == LV) { E tmp = mk(v); const E& ref = tmp; r = call(name, p, [&] { f(ref); }); }
    else if (how == RV) { E tmp = mk(v); r = call(name, p, [&] { f(std::move(tmp)); }); }
    else {
      E& src = element(o, own);
      v = mo.e[own].v;
      if (how == OWN_LV) { const E& ref = src; r = call(name, p, [&] { f(ref); }); }
      else r = call(name, p, [&] { f(std::move(src)); });
    }
    (void)b0;
    mo.touched = true;
    if (r.threw()) {
      mode = STRONG;
      if (how == OWN_RV) { mo.e[own].v = LONG_MIN; repair(o, own); }
      if constexpr (KIND == DEQ) drop_held(o);        // positions (not references) may go when a push fails
      return false;
    }
    note_insert(o, at, v);
    if (how == OWN_RV) repair(o, own >= at ? own + 1 : own);
    if (cost && (KIND == LST || KIND == FWD || KIND == DEQ)) {
      if (g.constructs + g.assigns - c0 > 8) violate(COST, "%s on %zu elements performed %llu element operations", name, mo.e.size(), (unsigned long long)(g.constructs + g.assigns - c0));
      if ((KIND == LST || KIND == FWD) && mo.e.size() >= 2000 && g.edges_last > 1500) violate(COST, "%s on %zu elements took %llu steps", name, mo.e.size(), (unsigned long long)g.edges_last);
    }
    return true;
  }
  E& element(unsigned o, size_t i) {
    Quiet q;
    g.edges_call = 0;
    if constexpr (KIND == VEC || KIND == DEQ) return (*s[o])[i];
    else { It it = s[o]->begin(); while (i--) ++it; return *it; }
  }
  // after moving from an own element its value is unspecified: the client
  // gives it a new one
  void repair(unsigned o, size_t i) {
    Quiet q;
    g.edges_call = 0;
    long v = fresh();
    E* e;
    if constexpr (KIND == VEC || KIND == DEQ) e = &(*s[o])[i];
    else { It it = s[o]->begin(); for (size_t k = 0; k < i; k++) ++it; e = &*it; }
    E t = Tr<E>::mk(v);
    *e = std::move(t);
    m[o].e[i].v = norm<E>(v);
  }
  // forwards either overload to the container
  void push(unsigned o, bool back, How how) {
    MObj& mo = m[o];
    if (how >= OWN_LV && mo.e.empty()) how = LV;
    if (!copyable) how = RV;
    size_t own = how >= OWN_LV ? choose(uint32_t(mo.e.size())) : 0;
    long v = fresh();
    static const char* hn[] = {"", " (rvalue)", " own element", " own element (moved)"};
    log("object %u: push_%s%s %ld [size %zu%s]", o, back ? "back" : "front", hn[how], how >= OWN_LV ? long(own) : norm<E>(v), mo.e.size(),
        KIND == VEC && mo.e.size() == mo.cap ? ", full" : "");
    size_t at = back ? mo.e.size() : 0;
    C& x = *s[o];
    if constexpr (requires(E&& e) { x.push_back(std::move(e)); }) {
      if (back || !requires(E&& e) { x.push_front(std::move(e)); }) {
        at = mo.e.size();
        grow_op(o, "push_back", at, how, v, own, [&](auto&& e) {
          if constexpr (copyable || !std::is_lvalue_reference_v<decltype(e)>) x.push_back(std::forward<decltype(e)>(e));
        });
        return;
      }
    }
    if constexpr (requires(E&& e) { x.push_front(std::move(e)); }) {
      at = 0;
      grow_op(o, "push_front", at, how, v, own, [&](auto&& e) {
        if constexpr (copyable || !std::is_lvalue_reference_v<decltype(e)>) x.push_front(std::forward<decltype(e)>(e));
      });
    }
  }
  void insert(unsigned o, How how) {
    MObj& mo = m[o];
    if (how >= OWN_LV && mo.e.empty()) how = LV;
    size_t own = how >= OWN_LV ? choose(uint32_t(mo.e.size())) : 0;
    size_t at = choose(uint32_t(mo.e.size()) + 1);
    long v = fresh();
    C& x = *s[o];
    (void)x;
    static const char* hn[] = {"", " (rvalue)", " own element", " own element (moved)"};
    if constexpr (KIND == LST) {
      unsigned form = choose(4);
      log("object %u: %s%s at %zu value %ld [size %zu]", o, form == 0 ? "insert" : form == 1 ? "emplace" : form == 2 ? "emplace_front" : "emplace_back", hn[how], at, norm<E>(v), mo.e.size());
      It ret{};
      if (form == 0) {
        It p = pos(o, at);
        if (grow_op(o, "insert", at, how, v, own, [&](auto&& e) { ret = x.insert(p, std::forward<decltype(e)>(e)); })) check_pos(o, ret, at, "insert");
      } else if (form == 1) {
        It p = pos(o, at);
        if (grow_op(o, "emplace", at, how, v, own, [&](auto&& e) { ret = x.emplace(p, std::forward<decltype(e)>(e)); })) check_pos(o, ret, at, "emplace");
      } else if (form == 2) {
        const E* r = nullptr;
        if (grow_op(o, "emplace_front", 0, how, v, own, [&](auto&& e) { r = &x.emplace_front(std::forward<decltype(e)>(e)); }) && r != &x.front()) violate(CONTENT, "emplace_front did not return the new element");
      } else {
        const E* r = nullptr;
        if (grow_op(o, "emplace_back", mo.e.size(), how, v, own, [&](auto&& e) { r = &x.emplace_back(std::forward<decltype(e)>(e)); }) && r != &x.back()) violate(CONTENT, "emplace_back did not return the new element");
      }
    } else if constexpr (KIND == FWD) {
      log("object %u: insert_after%s position %zu value %ld", o, hn[how], at, norm<E>(v));
      auto p = before(o, at);
      It ret{};
      if (grow_op(o, "insert_after", at, how, v, own, [&](auto&& e) { ret = x.insert_after(p, std::forward<decltype(e)>(e)); })) check_pos(o, ret, at, "insert_after");
    } else push(o, choose(2), how);
  }
  void check_pos(unsigned o, It it, size_t at, const char* name) {
    It want = pos(o, at);
    Quiet q;
    if (!(it == want)) violate(CONTENT, "%s returned a position other than %zu", name, at);
  }
  void reserve(unsigned o) {
    if constexpr (KIND == VEC) {
      size_t n = skewed(maxsize * 2);
      MObj& mo = m[o];
      Plan p = plan(Tr<E>::faults & ~(1u << F_DEFAULT));
      log("object %u: reserve %zu [size %zu]", o, n, mo.e.size());
      Outcome r = call("reserve", p, [&] { s[o]->reserve(n); });
      mo.touched = true; mo.want = std::max(mo.want, n); ask(n);
      if (r.threw()) { mode = STRONG; return; }
      if (n > mo.cap) { forget_addr(o); drop_held(o); mo.cap = n; }
    }
  }
  void resize(unsigned o) {
    if constexpr (KIND == VEC && std::is_default_constructible_v<E>) {
      MObj& mo = m[o];
      size_t n = choose(3) ? skewed(maxsize) : mo.e.size() + choose(4);
      ask(n);
      Plan p = plan(Tr<E>::faults);
      log("object %u: resize %zu -> %zu", o, mo.e.size(), n);
      Outcome r = call("resize", p, [&] { s[o]->resize(n); });
      mo.touched = true;
      if (r.threw()) { mode = STRONG; if (n > mo.cap) { forget_addr(o); drop_held(o); } return; }
      if (n > mo.cap) { forget_addr(o); drop_held(o); mo.cap = n; }
      if (n < mo.e.size()) { invalidate_from(o, n); mo.e.resize(n); }
      while (mo.e.size() < n) mo.e.push_back(me(DEFAULTED));
    }
  }

  // ------------------------------------------------------------------ shrink
  void pop(unsigned o, bool back) {
    MObj& mo = m[o];
    C& x = *s[o];
    if (mo.e.empty()) {
      if constexpr (KIND == DEQ) {          // documented no-op
        log("object %u: pop_%s when empty", o, back ? "back" : "front");
        call("pop on empty", [&] { if (back) x.pop_back(); else x.pop_front(); });
        mo.touched = true;
      }
      return;
    }
    if constexpr (KIND == VEC) back = true;
    if constexpr (KIND == FWD) back = false;
    log("object %u: pop_%s [size %zu]", o, back ? "back" : "front", mo.e.size());
    uint64_t c0 = g.constructs + g.assigns;
    call(back ? "pop_back" : "pop_front", [&] {
      if constexpr (KIND == VEC) x.pop_back();
      else if constexpr (KIND == FWD) x.pop_front();
      else { if (back) x.pop_back(); else x.pop_front(); }
    });
    mo.touched = true;
    if (back) { invalidate_from(o, mo.e.size() - 1); mo.e.pop_back(); }
    else {
      for (auto& h : held) if (h.obj == o && h.uid == mo.e[0].uid) h.valid = false;
      mo.e.erase(mo.e.begin());
    }
    if (cost && (g.constructs + g.assigns - c0 > 4 || (mo.e.size() >= 2000 && g.edges_last > 1500)))
      violate(COST, "pop on %zu elements took %llu element operations and %llu steps", mo.e.size(), (unsigned long long)(g.constructs + g.assigns - c0), (unsigned long long)g.edges_last);
  }
  void erase(unsigned o) {
    MObj& mo = m[o];
    C& x = *s[o];
    (void)x;
    size_t n = mo.e.size();
    if constexpr (KIND == VEC && copyable) {
      size_t a = choose(uint32_t(n) + 1), b = a + (choose(3) ? std::min<size_t>(n - a, choose(4)) : choose(uint32_t(n - a) + 1));
      Plan p = plan(Tr<E>::faults);
      log("object %u: erase [%zu,%zu) of %zu", o, a, b, n);
      typename C::iterator ret{};
      Outcome r = call("erase", p, [&] { ret = x.erase(x.begin() + long(a), x.begin() + long(b)); });
      mo.touched = true;
      if (r.threw()) { mo.basic = true; mode = BASIC; return; }
      if (ret != x.begin() + long(a)) violate(CONTENT, "erase returned the wrong position");
      if (a != b) { invalidate_from(o, a); mo.e.erase(mo.e.begin() + long(a), mo.e.begin() + long(b)); }
    } else if constexpr (KIND == LST) {
      if (!n) return;
      size_t a = choose(uint32_t(n));
      log("object %u: erase %zu of %zu", o, a, n);
      It p = pos(o, a), ret{};
      uint64_t c0 = g.constructs + g.assigns;
      call("erase", [&] {
        auto q = x.erase(p);
        ret = q;
      });
      mo.touched = true;
      for (auto& h : held) if (h.obj == o && h.uid == mo.e[a].uid) h.valid = false;
      mo.e.erase(mo.e.begin() + long(a));
      if (cost && (g.constructs + g.assigns - c0 > 2 || (mo.e.size() >= 2000 && g.edges_last > 1500))) violate(COST, "erase of one element is not constant");
      check_pos(o, ret, a, "erase");
    } else if constexpr (KIND == FWD) {
      if (!n) return;
      size_t a = choose(uint32_t(n));
      if (choose(2)) {
        log("object %u: erase_after one, position %zu of %zu", o, a, n);
        auto p = before(o, a);
        It ret{};
        call("erase_after", [&] { ret = x.erase_after(p); });
        mo.touched = true;
        for (auto& h : held) if (h.obj == o && h.uid == mo.e[a].uid) h.valid = false;
        mo.e.erase(mo.e.begin() + long(a));
        check_pos(o, ret, a, "erase_after");
      } else {
        size_t b = a + choose(uint32_t(n - a) + 1);
        log("object %u: erase_after range [%zu,%zu) of %zu", o, a, b, n);
        auto p = before(o, a); It l = pos(o, b);
        It ret{};
        call("erase_after", [&] { ret = x.erase_after(p, l); });
        mo.touched = true;
        for (size_t i = a; i < b; i++) for (auto& h : held) if (h.obj == o && h.uid == mo.e[i].uid) h.valid = false;
        mo.e.erase(mo.e.begin() + long(a), mo.e.begin() + long(b));
        check_pos(o, ret, a, "erase_after");
      }
    } else pop(o, choose(2));
  }

  // -------------------------------------------------------------------- misc
  void write(unsigned o) {
    MObj& mo = m[o];
    if (mo.e.empty()) return;
    size_t i = choose(uint32_t(mo.e.size()));
    log("object %u: write element %zu", o, i);
    repair(o, i);
    mo.touched = true;
  }
  void read(unsigned o) {
    MObj& mo = m[o];
    unsigned k = choose(3);
    if (k == 0) {
      if constexpr (KIND == VEC) {
        size_t n = mo.e.size() + (choose(2) ? 0 : choose(5));
        if (choose(8) == 7) n = size_t(-1) - choose(3);
        bool cst = choose(2);
        log("object %u: at(%zu) of %zu must fail", o, n, mo.e.size());
        const C& cx = *s[o];
        call("at out of range", [&] { if (cst) (void)cx.at(n); else (void)s[o]->at(n); }, C_EXPECT_RANGE);
        return;
      }
    }
    if (k == 1) {
      unsigned b = pick_live();
      if (b >= NOBJ || !m[o].live) return;
      if constexpr (requires(const C& p, const C& q) { p == q; }) {
        if (choose(2) && mo.e.size() < 40) {     // against a freshly built near-copy
          unsigned kind = choose(4);              // equal, one element changed, one element fewer, one more
          std::vector<long> w; for (auto& q : mo.e) w.push_back(q.v);
          if (kind == 1 && w.size()) { size_t i = choose(uint32_t(w.size())); w[i] = norm<E>(w[i] + 1 + long(choose(4))); }
          if (kind == 2 && w.size()) w.pop_back();
          if (kind == 3) w.push_back(norm<E>(w.size() && choose(2) ? w.back() : next_val++));
          log("compare object %u of %zu with a near-copy of %zu (kind %u)", o, mo.e.size(), w.size(), kind);
          bool eq = w.size() == mo.e.size();
          for (size_t i = 0; eq && i < w.size(); i++) eq = same<E>(mo.e[i].v, w[i]);
          Quiet qt;
          call("==", [&] {
            C t; for (long v : w) t.push_back(v == DEFAULTED ? E() : Tr<E>::mk(v));
            const C& p = *s[o]; const C& q = t;
            if ((p == q) != eq || (q == p) != eq) violate(CONTENT, "== with a near-copy says %d, the model says %d", int(!eq), int(eq));
          });
          return;
        }
        log("compare objects %u and %u", o, b);
        bool eq = m[o].e.size() == m[b].e.size();
        for (size_t i = 0; eq && i < m[o].e.size(); i++) eq = same<E>(m[o].e[i].v, m[b].e[i].v);
        call("==", [&] {
          const C& p = *s[o]; const C& q = *s[b];
          if ((p == q) != eq) violate(CONTENT, "== says %d, the model says %d", int(!eq), int(eq));
        });
        return;
      }
    }
    if constexpr (KIND == VEC || KIND == DEQ) {
      size_t n = mo.e.size();
      size_t i = choose(uint32_t(n) + 1), j = choose(uint32_t(n) + 1);
      log("object %u: distance between %zu and %zu", o, i, j);
      It a = pos(o, i), b = pos(o, j);
      call("iterator difference", [&] { if (a - b != std::ptrdiff_t(i) - std::ptrdiff_t(j)) violate(CONTENT, "iterator difference is %td, positions differ by %td", a - b, std::ptrdiff_t(i) - std::ptrdiff_t(j)); });
    }
    if (mo.e.size()) {
      size_t i = choose(uint32_t(mo.e.size()));
      It a = pos(o, i);
      log("object %u: iterators at %zu", o, i);
      call("iterator steps", [&] {
        using CI = typename C::const_iterator;
        iterator_protocol<It>(a, "iterator");
        iterator_protocol<CI>(CI(a), "const_iterator");
        if constexpr (KIND == DEQ) {
          const C& cx = *s[o];
          if (CI(a) - cx.begin() != std::ptrdiff_t(i) || cx.begin() - CI(a) != -std::ptrdiff_t(i) || cx.end() - CI(a) != std::ptrdiff_t(mo.e.size() - i)) violate(CONTENT, "const_iterator difference is wrong at position %zu of %zu", i, mo.e.size());
        }
      });
    }
  }
  void hold_one(unsigned o) {
    if (!hold || m[o].e.empty() || held.size() > 12) return;
    size_t i = choose(uint32_t(m[o].e.size()));
    log("hold position %zu of object %u", i, o);
    held.push_back(Held{o, m[o].e[i].uid, pos(o, i), true});
  }
  void bulk(unsigned o) {
    MObj& mo = m[o];
    C& x = *s[o];
    size_t big = cost ? (choose(3) == 2 ? 60000 : 6000) : 300;
    size_t n = 1 + choose(uint32_t(big));
    unsigned k = choose(4);
    bool back = choose(2);
    if (k == 3 && !mo.e.empty()) {
      size_t c = std::min(n, mo.e.size());
      log("object %u: pop %zu times", o, c);
      for (size_t i = 0; i < c; i++) {
        bool b = KIND == VEC ? true : KIND == FWD ? false : (k == 3 && back);
        call("pop", [&] {
          if constexpr (KIND == VEC) x.pop_back(); else if constexpr (KIND == FWD) x.pop_front();
          else { if (b) x.pop_back(); else x.pop_front(); }
        });
        if (b) { if (hold) invalidate_from(o, mo.e.size() - 1); mo.e.pop_back(); }
      }
      if (KIND == FWD || (KIND != VEC && !back)) { mo.e.erase(mo.e.begin(), mo.e.begin() + long(c)); }
      mo.touched = true; drop_held(o);
      return;
    }
    if constexpr (KIND == DEQ || KIND == LST) if (k == 2 && mo.e.size() < 300 && choose(2)) {   // a queue in steady use
      size_t fill = choose(3) ? 0 : choose(40), turns = n;
      log("object %u: %zu in at one end, then one in at the %s and one out at the %s, %zu times [size %zu]", o, fill, back ? "back" : "front", back ? "front" : "back", turns, mo.e.size());
      for (size_t i = 0; i < turns + fill; i++) {
        long v = fresh();
        E e = mk(v);
        call("push", [&] { if (back) x.push_back(std::move(e)); else x.push_front(std::move(e)); });
        mo.e.insert(back ? mo.e.end() : mo.e.begin(), me(v));
        if (i < fill) continue;
        call("pop", [&] { if (back) x.pop_front(); else x.pop_back(); });
        if (back) mo.e.erase(mo.e.begin()); else mo.e.pop_back();
      }
      mo.touched = true; drop_held(o);
      return;
    }
    if (mo.e.size() + n > (cost ? 200000u : 2000u)) return;
    ask(mo.e.size() + n);
    log("object %u: push_%s %zu elements [size %zu]", o, back ? "back" : "front", n, mo.e.size());
    uint64_t c0 = g.constructs + g.assigns, b0 = heap.bytes;
    size_t s0 = mo.e.size();
    std::vector<ME> front;
    for (size_t i = 0; i < n; i++) {
      long v = fresh();
      E e = mk(v);
      bool b = KIND == VEC ? true : KIND == FWD ? false : back;
      call("push", [&] {
        if constexpr (KIND == VEC) x.push_back(std::move(e));
        else if constexpr (KIND == FWD) x.push_front(std::move(e));
        else { if (b) x.push_back(std::move(e)); else x.push_front(std::move(e)); }
      });
      if (b) mo.e.push_back(me(v)); else front.push_back(me(v));
    }
    if (!front.empty()) { mo.e.insert(mo.e.begin(), front.rbegin(), front.rend()); }
    if constexpr (KIND == VEC) if (mo.e.size() > mo.cap) { forget_addr(o); }
    if (KIND != LST && KIND != FWD) drop_held(o);
    mo.touched = true;
    if (cost) {
      uint64_t ops = g.constructs + g.assigns - c0, bytes = heap.bytes - b0;
      if (Tr<E>::tracked && ops > 12 * (s0 + n) + 64) violate(COST, "appending %zu elements to %zu performed %llu element operations", n, s0, (unsigned long long)ops);
      size_t per = sizeof(E) + 64;
      if (bytes > per * 16 * (s0 + n) + (1u << 20)) violate(COST, "appending %zu elements to %zu requested %llu bytes", n, s0, (unsigned long long)bytes);
    }
  }

  // -------------------------------------------------------------------- run
  void step() {
    begin_step(); steps++;
    for (auto& o : m) o.touched = false;
    mode = CONTENT;
    unsigned cl = choose(nclients);
    unsigned tot = 0; for (unsigned w : weight[cl]) tot += w;
    unsigned r = choose(tot ? tot : 1), cat = 0;
    while (cat + 1 < NCAT && r >= weight[cl][cat]) r -= weight[cl][cat++];
    unsigned o = pick_live();
    if (o >= NOBJ) { after(); return; }
    bool full = m[o].e.size() >= maxsize && !cost;
    switch (cat) {
      case G_GROW:
        if (full) { erase(o); break; }
        switch (choose(6)) {
          case 0: push(o, true, LV); break;
          case 1: push(o, true, RV); break;
          case 2: push(o, false, How(choose(2))); break;
          case 3: insert(o, How(choose(2))); break;
          case 4: if (KIND == VEC) resize(o); else insert(o, How(choose(2))); break;
          default: if (KIND == VEC) reserve(o); else push(o, choose(2), How(choose(2))); break;
        }
        break;
      case G_SHRINK:
        switch (choose(8)) {
          case 0: case 1: case 2: pop(o, choose(2)); break;
          case 3: case 4: case 5: erase(o); break;
          case 6: if (KIND == VEC) resize(o); else pop(o, choose(2)); break;
          default: do_clear(o); break;
        }
        break;
      case G_COPY: {
        unsigned d = choose(NOBJ);
        switch (choose(6)) {
          case 0: case 1: if (d == o) d = (o + 1) % NOBJ; copy_construct(d, o); break;
          case 2: case 3: if (m[d].live) copy_assign(d, o); else copy_construct(d, o); break;
          case 4: if (d == o) d = (o + 1) % NOBJ; if (m[d].live) move_assign(d, o); else move_construct(d, o); break;
          default: if (m[d].live) do_swap(o, d); else move_construct(d, o); break;
        }
        break;
      }
      case G_READ: if (choose(2)) read(o); else if (choose(2)) write(o); else hold_one(o); break;
      case G_ALIAS:
        if (full) { pop(o, true); break; }
        switch (choose(4)) {
          case 0: push(o, choose(2), OWN_LV); break;
          case 1: push(o, choose(2), OWN_RV); break;
          case 2: insert(o, How(OWN_LV + choose(2))); break;
          default: copy_assign(o, o); break;
        }
        break;
      case G_BULK: bulk(o); break;
      default: if (choose(2)) destroy(o); else { unsigned d = choose(NOBJ); if (!m[d].live) construct(d); } break;
    }
    after();
  }
  void after() {
    for (unsigned o = 0; o < NOBJ; o++)
      if (m[o].touched) state(mix(mix(uint64_t(o * 0 + KIND), uint64_t(std::min<size_t>(m[o].e.size(), 64))), mix(mode, mix(g.fired_in_call ? g.last_fired + 1 : 0, std::bit_width(m[o].cap) * 64 + uint64_t(g.where[0]) * 7 + strlen(g.where)))));
    verify_all();
    note(reg.n); note(heap.live);
  }
  void run() {
    hold = g.profile & P_HOLD; cost = g.profile & P_COST;
    nclients = range(1, 3);
    for (unsigned c = 0; c < 3; c++)
      for (unsigned k = 0; k < NCAT; k++) weight[c][k] = c < nclients ? choose(4) : 0;
    for (unsigned c = 0; c < nclients; c++) {
      weight[c][G_GROW] += 1;
      if (weight[c][G_LIFE] > 1) weight[c][G_LIFE] = 1;
      if (weight[c][G_BULK]) weight[c][G_BULK] = cost ? 1 + weight[c][G_BULK] : (weight[c][G_BULK] == 3);
      if (hold) weight[c][G_READ] += 2;
      if (g.profile & P_COPY) { weight[c][G_COPY] += 2; weight[c][G_ALIAS] += 2; }
    }
    static const unsigned sizes[] = {4, 9, 20, 70};
    maxsize = sizes[choose(4)];
    draw_faults(Tr<E>::faults, 1);
    static const unsigned lens[] = {6, 20, 60, 150};
    unsigned len = lens[choose(4)];
    if (cost) len = 12;
    unsigned n = 0;
    while (n < 4 * len && choose(len) != len - 1) { step(); n++; if (g.replay && g.rpos >= g.rlen) break; }
    mode = CONTENT;
    for (auto& o : m) o.touched = true;
    verify_all(true);
    for (unsigned o = 0; o < NOBJ; o++) destroy(o);
  }
};

} // namespace sim
#endif
