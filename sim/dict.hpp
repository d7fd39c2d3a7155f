// set and map under interleaved clients, throwing comparators and failing
// allocations, against a sorted array.
#ifndef SIM_DICT_HPP
#define SIM_DICT_HPP
#include "elem.hpp"
namespace sim {

// a key whose operator== disagrees with every ordering: only the comparator may matter
struct KW : El<true, true, true> {
  using El<true, true, true>::El;
  explicit KW(long x) : El<true, true, true>(x) {}
  bool operator==(const KW& o) const { return ((get() ^ o.get()) & 1) == 0; }
};

enum CmpMode { LESS, GREATER, CLASSES4 };
template <CmpMode M> inline bool before_in(long a, long b) {
  if constexpr (M == LESS) return a < b;
  else if constexpr (M == GREATER) return a > b;
  else return (a >> 2) < (b >> 2);
}
template <class K, CmpMode M> struct Cmp {
  static constexpr CmpMode mode = M;
  static constexpr bool transparent = false, faulty = true;
  bool operator()(const K& a, const K& b) const {
    long x, y;
    { NoCount nc; g.compares++; fault_point(F_COMPARE); x = Tr<K>::val(a); y = Tr<K>::val(b); }
    return before_in<M>(x, y);
  }
};
template <class K, CmpMode M> struct TCmp {
  static constexpr CmpMode mode = M;
  static constexpr bool transparent = true, faulty = true;
  using is_transparent = void;
  static long v(const K& k) { return Tr<K>::val(k); }
  struct Probe { long v; };
  static long v(const Probe& p) { return p.v; }
  template <class A, class B> bool operator()(const A& a, const B& b) const {
    long x, y;
    { NoCount nc; g.compares++; fault_point(F_COMPARE); x = v(a); y = v(b); }
    return before_in<M>(x, y);
  }
};
struct StdLess : std::less<long> { static constexpr CmpMode mode = LESS; static constexpr bool transparent = false, faulty = false; };

struct DE { long k, v; uint64_t uid; const void* addr; };

template <class C, class K, class V, class CMP> struct DictRun {
  static constexpr bool MAP = !std::is_void_v<V>;
  using VV = std::conditional_t<MAP, V, long>;
  using It = typename C::iterator;
  using CIt = typename C::const_iterator;
  static constexpr unsigned N = 3;
  static constexpr unsigned FAULTS = (Tr<K>::faults | (MAP ? Tr<VV>::faults : 0) | (CMP::faulty ? 1u << F_COMPARE : 0)) & ~(1u << F_DEFAULT) & ~(1u << F_ASSIGN);
  Slot<C> s[N];
  std::vector<DE> m[N];
  bool touched[N] = {}, basic[N] = {};
  struct Held { unsigned o; uint64_t uid; It it; };
  std::vector<Held> held;
  Cls mode = CONTENT;
  uint64_t next_uid = 1; long next_val = 1;
  long space = 20; unsigned view = 0;
  bool hold = false, cost = false;

  static bool lt(long a, long b) { return before_in<CMP::mode>(a, b); }
  size_t lower(const std::vector<DE>& e, long k) {
    size_t lo = 0, hi = e.size();
    while (lo < hi) { size_t x = (lo + hi) / 2; if (lt(e[x].k, k)) lo = x + 1; else hi = x; }
    return lo;
  }
  bool has(const std::vector<DE>& e, long k, size_t& at) { at = lower(e, k); return at < e.size() && !lt(k, e[at].k); }
  template <class T> T mk(long v) { Quiet q; return Tr<T>::mk(v); }
  template <class IT> static const K& key(const IT& it) { if constexpr (MAP) return it->first; else return *it; }
  template <class IT> static const void* addr(const IT& it) { return std::addressof(*it); }
  template <class IT> long mapped(const IT& it) { if constexpr (MAP) return Tr<VV>::val(it->second); else return 0; }
  uint64_t budget(size_t n) const { return 4 * uint64_t(std::bit_width(n + 1)) + 8; }
  void check_cost(const char* what, uint64_t c0, size_t n) {
    if (cost && g.compares - c0 > budget(n)) violate(COST, "%s among %zu keys made %llu comparisons", what, n, (unsigned long long)(g.compares - c0));
  }
  Cls cls_of(unsigned o) const { return touched[o] ? mode : mode == STRONG ? STRONG : INDEP; }

  template <class IT> void step_it(IT& it, unsigned& n) { if (n++ % 3 == 2) it++; else ++it; }
  struct Seen { long k, v; const void* a; };
  void verify(unsigned o, bool full) {
    if (!s[o]) return;
    if (basic[o]) return resync(o);
    Cls c = cls_of(o);
    std::vector<DE>& e = m[o];
    C& x = *s[o]; const C& cx = x;
    size_t n = e.size();
    call("read", [&] {
      if (x.size() != n) violate(c, "object %u: size() says %zu, the model has %zu", o, size_t(x.size()), n);
      if (x.empty() != (n == 0)) violate(c, "object %u: empty() is wrong", o);
      if ((cx.begin() == cx.end()) != (n == 0)) violate(c, "object %u: begin()==end() is wrong with %zu key(s)", o, n);
      if (n && !full) {
        CIt it = cx.begin();
        if (Tr<K>::val(key(it)) != e[0].k) violate(c, "object %u: begin() is %ld, the model has %ld", o, Tr<K>::val(key(it)), e[0].k);
      }
      if (!full) return;
      size_t i = 0; unsigned st = view++;
      CIt it = st % 2 ? cx.begin() : cx.cbegin(), end = st % 2 ? cx.end() : cx.cend();
      for (; it != end; step_it(it, st), i++) {
        long k = Tr<K>::val(key(it));
        if (i >= n) violate(c, "object %u: iteration visits more than the model's %zu key(s) (%ld)", o, n, k);
        if (k != e[i].k) violate(c, "object %u: iteration visits %ld at position %zu, the model has %ld", o, k, i, e[i].k);
        long v = mapped(it);
        if (MAP && v != e[i].v) violate(c, "object %u: key %ld holds %ld, the model has %ld", o, k, v, e[i].v);
        if (e[i].addr && e[i].addr != addr(it)) violate(STABLE, "object %u: the element with key %ld moved in memory", o, k);
        e[i].addr = addr(it);
      }
      if (i != n) violate(c, "object %u: iteration visits %zu key(s), the model has %zu", o, i, n);
    });
    if (n && full) probe_find(o, e[size_t(view * 7) % n].k, c, view & 1);
  }
  // look one key up, outside any fault
  void probe_find(unsigned o, long k, Cls c, bool cst) {
    K kk = mk<K>(k);
    C& x = *s[o]; const C& cx = x;
    size_t at; bool in = has(m[o], k, at);
    call("find", [&] {
      if (cst) {
        CIt it = cx.find(kk);
        if (in != (it != cx.end())) violate(c, "object %u: find(%ld) says %s", o, k, in ? "absent although present" : "present although absent");
        if (in && (Tr<K>::val(key(it)) != m[o][at].k || (MAP && mapped(it) != m[o][at].v))) violate(c, "object %u: find(%ld) gives the wrong element", o, k);
      } else {
        It it = x.find(kk);
        if (in != (it != x.end())) violate(c, "object %u: find(%ld) says %s", o, k, in ? "absent although present" : "present although absent");
        if (in && (Tr<K>::val(key(it)) != m[o][at].k || (MAP && mapped(it) != m[o][at].v))) violate(c, "object %u: find(%ld) gives the wrong element", o, k);
      }
    });
  }
  void resync(unsigned o) {
    basic[o] = false;
    C& x = *s[o]; const C& cx = x;
    std::vector<DE> got, &may = m[o];
    std::vector<long> ks, vs;
    for (auto& e : may) { ks.push_back(e.k); vs.push_back(e.v); }
    std::sort(ks.begin(), ks.end()); std::sort(vs.begin(), vs.end());
    size_t limit = may.size() + 2;
    call("read after failure", [&] {
      { User u; got.reserve(limit + 2); }
      for (CIt it = cx.begin(); it != cx.end() && got.size() <= limit; ++it) {
        long k = Tr<K>::val(key(it)), v = mapped(it);
        User u;
        if (!std::binary_search(ks.begin(), ks.end(), k)) violate(BASIC, "object %u holds key %ld after a failed operation, which nobody put there", o, k);
        if (MAP && !std::binary_search(vs.begin(), vs.end(), v)) violate(BASIC, "object %u holds value %ld after a failed operation, which nobody put there", o, v);
        if (!got.empty() && !lt(got.back().k, k)) violate(BASIC, "object %u is out of order after a failed operation", o);
        got.push_back(DE{k, v, next_uid++, addr(it)});
      }
      if (x.size() != got.size() || x.empty() != got.empty()) violate(BASIC, "object %u: size() says %zu, iteration visits %zu", o, size_t(x.size()), got.size());
    });
    m[o] = got;
    for (auto& e : got) probe_find(o, e.k, BASIC, e.k & 1);
  }
  void drop_held(unsigned o) { held.erase(std::remove_if(held.begin(), held.end(), [&](const Held& h) { return h.o == o; }), held.end()); }
  void verify_held() {
    for (auto& h : held) {
      auto& e = m[h.o];
      size_t i = 0; while (i < e.size() && e[i].uid != h.uid) i++;
      if (i == e.size()) violate(CONTENT, "internal: held element lost by the model");
      call("use of a held position", [&] {
        if (Tr<K>::val(key(h.it)) != e[i].k || (MAP && mapped(h.it) != e[i].v)) violate(STABLE, "a held position reads key %ld, its element is %ld", Tr<K>::val(key(h.it)), e[i].k);
        if (e[i].addr && addr(h.it) != e[i].addr) violate(STABLE, "a held position designates a different element");
        It k = h.it; ++k;
        if (i + 1 < e.size()) { if (k == s[h.o]->end() || Tr<K>::val(key(k)) != e[i + 1].k) violate(STABLE, "stepping a held position does not reach key %ld", e[i + 1].k); }
        else if (!(k == s[h.o]->end())) violate(STABLE, "stepping the last held position does not reach the end");
      });
    }
  }
  void verify_all(bool fin = false) {
    for (unsigned o = 0; o < N; o++) verify(o, fin || m[o].size() <= 64 || (touched[o] && mode != CONTENT && m[o].size() < 4000) || view % 16 == 0);
    if (hold) verify_held();
  }

  void construct(unsigned o) {
    Plan p = plan(FAULTS);
    void* f = s[o].frame();
    log("object %u: default construct", o);
    Outcome r = call("default constructor", p, [&] { s[o].p = new (f) C(); });
    m[o].clear(); touched[o] = true;
    if (r.threw()) { s[o].p = nullptr; s[o].drop_frame(); }
  }
  void destroy(unsigned o) {
    if (!s[o]) return;
    log("object %u: destroy (%zu keys)", o, m[o].size());
    call("destructor", [&] { s[o]->~C(); });
    s[o].p = nullptr; s[o].drop_frame(); drop_held(o); m[o].clear();
  }
  void copy_construct(unsigned d, unsigned src) {
    destroy(d);
    Plan p = plan(FAULTS);
    void* f = s[d].frame();
    log("object %u: copy construct from %u (%zu keys)", d, src, m[src].size());
    const C& from = *s[src];
    Outcome r = call("copy constructor", p, [&] { s[d].p = new (f) C(from); });
    touched[d] = true;
    if (r.threw()) { s[d].p = nullptr; s[d].drop_frame(); mode = STRONG; }
    else { mode = INDEP; copy_model(d, src); }
  }
  void copy_model(unsigned d, unsigned src) { m[d] = m[src]; for (auto& e : m[d]) { e.uid = next_uid++; e.addr = nullptr; } }
  void copy_assign(unsigned d, unsigned src) {
    Plan p = plan(FAULTS);
    log("object %u: assign from %u (%zu <- %zu keys)", d, src, m[d].size(), m[src].size());
    const C& from = *s[src]; C& to = *s[d]; const C* ret = nullptr;
    Outcome r = call(d == src ? "self assignment" : "copy assignment", p, [&] { ret = &(to = from); });
    touched[d] = true;
    drop_held(d);
    if (d == src) mode = ALIAS;
    if (!r.threw()) {
      if (ret != &to) violate(CONTENT, "assignment does not return the object");
      if (d != src) { mode = INDEP; copy_model(d, src); } else for (auto& e : m[d]) { e.uid = next_uid++; e.addr = nullptr; }
    } else {
      mode = STRONG; basic[d] = true;
      if (d != src) for (auto& e : m[src]) m[d].push_back(e);
    }
  }
  void clear(unsigned o) {
    log("object %u: clear (%zu keys)", o, m[o].size());
    call("clear", [&] { s[o]->clear(); });
    drop_held(o); m[o].clear(); touched[o] = true;
  }
  long pick_key(unsigned o) {
    if (!m[o].empty() && choose(4) == 3) return m[o][choose(uint32_t(m[o].size()))].k;
    return norm<K>(long(choose(uint32_t(space))) - space / 4);
  }
  void insert(unsigned o) {
    long k = pick_key(o), v = MAP ? norm<VV>(next_val++) : 0;
    std::vector<DE>& e = m[o];
    C& x = *s[o];
    size_t at; bool in = has(e, k, at), own = false;
    unsigned form = choose(4);
    if (form == 3 && e.empty()) form = 0;
    Plan p = plan(FAULTS);
    It ret{}; bool added = false, known = true;
    uint64_t c0 = g.compares;
    Outcome r;
    if (form == 3) {                       // an element of the object itself
      size_t i = choose(uint32_t(e.size()));
      own = true; in = true; at = i; k = e[i].k; mode = ALIAS;
      log("object %u: insert its own element %ld", o, k);
      CIt it = walk(o, i);
      r = call("insert", p, [&] { auto q = x.insert(*it); ret = q.first; added = q.second; });
    } else if constexpr (MAP) {
      log("object %u: insert (%ld,%ld) [%zu keys%s]", o, k, v, e.size(), in ? ", present" : "");
      std::pair<const K, VV> val = [&] { Quiet q; return std::pair<const K, VV>(Tr<K>::mk(k), Tr<VV>::mk(v)); }();
      r = call("insert", p, [&] { auto q = x.insert(val); ret = q.first; added = q.second; });
    } else {
      K val = mk<K>(k);
      if (form == 2) {
        log("object %u: insert %ld with a hint [%zu keys%s]", o, k, e.size(), in ? ", present" : "");
        CIt h = e.empty() ? const_cast<const C&>(x).end() : walk(o, choose(uint32_t(e.size())));
        known = false;
        r = call("hinted insert", p, [&] { ret = x.insert(h, val); });
      } else {
        log("object %u: insert %ld [%zu keys%s]", o, k, e.size(), in ? ", present" : "");
        r = call("insert", p, [&] { auto q = x.insert(val); ret = q.first; added = q.second; });
      }
    }
    touched[o] = true;
    if (r.threw()) { mode = STRONG; return; }
    check_cost("insert", c0, e.size());
    if (known && added == in) violate(own ? ALIAS : CONTENT, "object %u: insert(%ld) reports %s", o, k, added ? "added although equivalent key present" : "rejected although no equivalent key present");
    if (!in) e.insert(e.begin() + long(at), DE{k, v, next_uid++, nullptr});
    call("read of the returned position", [&] {
      if (ret == x.end()) violate(CONTENT, "object %u: insert(%ld) returned the end", o, k);
      if (Tr<K>::val(key(ret)) != e[at].k || (MAP && mapped(ret) != e[at].v)) violate(CONTENT, "object %u: insert(%ld) returned a position holding %ld", o, k, Tr<K>::val(key(ret)));
      if (e[at].addr && addr(ret) != e[at].addr) violate(CONTENT, "object %u: insert(%ld) did not return the element that blocked it", o, k);
    });
    if constexpr (MAP) if (choose(3) == 2) write_through(o, ret, at);
    if (hold && held.size() < 10 && choose(3) == 0) held.push_back(Held{o, e[at].uid, ret});
  }
  template <class IT> void write_through(unsigned o, IT it, size_t at) {
    if constexpr (MAP) {
      long v = norm<VV>(next_val++);
      log("object %u: overwrite the value of key %ld with %ld", o, m[o][at].k, v);
      Quiet q;
      VV t = Tr<VV>::mk(v);
      it->second = t;
      m[o][at].v = v; touched[o] = true;
    }
  }
  CIt walk(unsigned o, size_t i) {
    Quiet q; g.edges_call = 0;
    const C& cx = *s[o];
    CIt it = cx.begin();
    while (i--) ++it;
    return it;
  }
  void find(unsigned o) {
    long k = pick_key(o);
    std::vector<DE>& e = m[o];
    C& x = *s[o]; const C& cx = x;
    size_t at; bool in = has(e, k, at);
    unsigned form = choose(4);
    Plan p = plan(FAULTS & (1u << F_COMPARE));
    log("object %u: find %ld (%s) form %u", o, k, in ? "present" : "absent", form);
    uint64_t c0 = g.compares;
    It it{}; bool got = false; long kv = 0, vv = 0; const void* a = nullptr;
    Outcome r;
    auto seen = [&](auto& i) { got = true; a = addr(i); };
    if (form < 2 || !CMP::transparent) {
      K kk = mk<K>(k);
      if (form & 1) r = call("find", p, [&] { CIt i = cx.find(kk); if (i != cx.end()) seen(i); });
      else r = call("find", p, [&] { it = x.find(kk); if (it != x.end()) seen(it); });
    } else if constexpr (CMP::transparent) {
      typename CMP::Probe pr{k};
      if (form & 1) r = call("transparent find", p, [&] { CIt i = cx.find(pr); if (i != cx.end()) seen(i); });
      else r = call("transparent find", p, [&] { it = x.find(pr); if (it != x.end()) seen(it); });
    }
    (void)kv; (void)vv;
    if (r.threw()) { mode = STRONG; return; }
    check_cost("find", c0, e.size());
    if (got != in) violate(CONTENT, "object %u: find(%ld) says %s", o, k, got ? "present although absent" : "absent although present");
    if (!in) return;
    if (e[at].addr && a != e[at].addr) violate(CONTENT, "object %u: find(%ld) designates another element", o, k);
    e[at].addr = a;
    if (!(form & 1)) {
      if (choose(2)) call("iterator steps", [&] { iterator_protocol<It>(it, "iterator"); iterator_protocol<CIt>(CIt(it), "const_iterator"); });
      if constexpr (MAP) if (choose(2)) write_through(o, it, at);
      if (hold && held.size() < 10 && choose(2)) held.push_back(Held{o, e[at].uid, it});
    }
  }
  void bulk(unsigned o) {
    std::vector<DE>& e = m[o];
    C& x = *s[o];
    unsigned n = 1 + choose(cost ? 3000 : 120), pat = choose(5);
    if (cost && e.size() < 3000 && one_in(150)) { n = 65000 + choose(3000); pat = 0; }
    if (e.size() + n > (cost ? (n > 3000 ? 80000u : 20000u) : 600u)) return clear(o);
    long base = long(choose(4)) * 1000000 - 1500000;
    log("object %u: insert %u keys, pattern %u [%zu keys]", o, n, pat, e.size());
    for (unsigned i = 0; i < n; i++) {
      long k = base;
      switch (pat) {
        case 0: k += long(i); break;                               // ascending
        case 1: k -= long(i); break;                               // descending
        case 2: k += i % 2 ? long(i) : -long(i); break;            // from the middle outwards
        case 3: k += i % 2 ? long(n - i) : -long(n - i); break;    // from the outside inwards
        default: k += long((uint64_t(i) * 2654435761u) % 65536); break;
      }
      if (CMP::mode == CLASSES4) k *= 4;
      k = norm<K>(k);
      long v = MAP ? norm<VV>(next_val++) : 0;
      size_t at; bool in = has(e, k, at), added = false;
      uint64_t c0 = g.compares;
      if constexpr (MAP) {
        std::pair<const K, VV> val = [&] { Quiet q; return std::pair<const K, VV>(Tr<K>::mk(k), Tr<VV>::mk(v)); }();
        call("insert", [&] { added = x.insert(val).second; });
      } else { K val = mk<K>(k); call("insert", [&] { added = x.insert(val).second; }); }
      check_cost("insert", c0, e.size());
      if (added == in) violate(CONTENT, "object %u: insert(%ld) reports %s", o, k, added ? "added although present" : "rejected although absent");
      if (!in) e.insert(e.begin() + long(at), DE{k, v, next_uid++, nullptr});
    }
    touched[o] = true;
    if (cost && !e.empty()) for (int j = 0; j < 40; j++) {
      long k = e[choose(uint32_t(e.size()))].k + (j % 4 == 3 ? 100000000 : 0);
      K kk = mk<K>(norm<K>(k));
      uint64_t c0 = g.compares; bool got = false;
      call("find", [&] { got = x.find(kk) != x.end(); });
      check_cost("find", c0, e.size());
      size_t at;
      if (got != has(e, norm<K>(k), at)) violate(CONTENT, "object %u: find(%ld) is wrong", o, k);
    }
  }
  void run() {
    hold = g.profile & P_HOLD; cost = g.profile & P_COST;
    static const long spaces[] = {6, 24, 100, 2000};
    space = spaces[choose(4)];
    unsigned nclients = range(1, 3), w[3][6];
    for (auto& c : w) for (unsigned k = 0; k < 6; k++) c[k] = choose(4);
    for (auto& c : w) {
      c[0] += 2;
      if (c[3]) c[3] = 1;                          // clear / destroy
      c[4] = cost ? 2 : c[4] == 3;                  // bulk
      if (g.profile & P_COPY) c[2] += 3;
    }
    draw_faults(FAULTS, 1);
    static const unsigned lens[] = {8, 24, 70, 200};
    unsigned len = lens[choose(4)], n = 0;
    if (cost) len = 14;
    while (n < 4 * len && choose(len) != len - 1) {
      begin_step(); n++;
      for (auto& t : touched) t = false;
      mode = CONTENT;
      unsigned cl = choose(nclients), tot = 0, cat = 0;
      for (unsigned x : w[cl]) tot += x;
      unsigned r = choose(tot);
      while (r >= w[cl][cat]) r -= w[cl][cat++];
      unsigned o = choose(N);
      if (!s[o]) { construct(o); if (!s[o]) { verify_all(); continue; } }
      switch (cat) {
        case 0: insert(o); break;
        case 1: find(o); break;
        case 2: {
          unsigned d = choose(N), k = choose(4);
          if (k == 3) copy_assign(o, o);
          else if (k == 2 || !s[d]) { if (d == o) d = (o + 1) % N; copy_construct(d, o); }
          else copy_assign(d, o);
          break;
        }
        case 3: if (choose(2)) clear(o); else destroy(o); break;
        case 4: bulk(o); break;
        default: if (choose(2)) insert(o); else find(o); break;
      }
      state(mix(mix(MAP * 8 + CMP::mode, std::min<size_t>(m[o].size(), 200)), mix(mode, mix(g.fired_in_call ? g.last_fired + 1 : 0, uint64_t(g.where[0]) * 7 + strlen(g.where)))));
      verify_all();
      note(reg.n); note(heap.live);
    }
    mode = CONTENT;
    for (auto& t : touched) t = true;
    verify_all(true);
    for (unsigned o = 0; o < N; o++) destroy(o);
  }
};
}
#endif
