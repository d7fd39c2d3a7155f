// Standard algorithms over the library's containers: the same call over the
// standard container of the same kind is the reference, and user code called
// by the algorithm can throw at any point.
#ifndef SIM_ALG_HPP
#define SIM_ALG_HPP
#include "elem.hpp"
#include <random>
namespace sim {

template <class T> long av(const T& x) { if constexpr (std::is_same_v<T, long>) return x; else return Tr<T>::val(x); }
// what the client hands to algorithms; each application may throw
struct APred { long k, r; template <class T> bool operator()(const T& x) const { long v = av(x); NoCount nc; fault_point(F_CALL); return (v % k + k) % k <= r; } };
struct AEq { long k; template <class T> bool operator()(const T& a, const T& b) const { long x = av(a), y = av(b); NoCount nc; fault_point(F_COMPARE); return x / k == y / k; } };
struct ALess { template <class T> bool operator()(const T& a, const T& b) const { long x = av(a), y = av(b); NoCount nc; fault_point(F_COMPARE); return x < y; } };
struct AUn { long d; template <class T> T operator()(const T& x) const { long v = av(x); { NoCount nc; fault_point(F_CALL); } return T(v + d); } };
struct ABin { template <class T> T operator()(const T& a, const T& b) const { long x = av(a), y = av(b); { NoCount nc; fault_point(F_CALL); } return T(x + 2 * y); } };
struct ASum { template <class T> long operator()(long s, const T& x) const { long v = av(x); NoCount nc; fault_point(F_CALL); return s * 3 + v; } };
struct AMul { template <class T> long operator()(const T& a, const T& b) const { return av(a) * 5 + av(b); } };
struct AAdd { long operator()(long a, long b) const { NoCount nc; fault_point(F_CALL); return a * 7 + b; } };
template <class T> struct AGen { long* n; T operator()() const { { NoCount nc; fault_point(F_CALL); } return T((*n)++); } };

struct AArgs { unsigned alg, n, n2; long k, r, d; };
struct ARes {                            // what a call returned
  long a[8]; unsigned n = 0;
  void add(long x) { if (n < 8) a[n++] = x; }
  bool operator==(const ARes& o) const { return n == o.n && !memcmp(a, o.a, n * sizeof(long)); }
};
// capabilities of the containers' iterators
// (deque's positions say random access but cannot be moved by a distance)
enum : unsigned { A_ADV = 1, A_BIDI = 2, A_RA = 4, A_DEQ = 8, A_SUT = 16, A_DEC = 32 };

template <class T> auto mkt(long v) { if constexpr (std::is_same_v<T, long>) return v; else { Quiet q; return Tr<T>::mk(v); } }

// the algorithms by the library's names, and the standard's for the reference
#define SIM_ALG(name) template <class... A> static decltype(auto) name(A&&... a) { if constexpr (SUT) return cest::name(std::forward<A>(a)...); else return std::name(std::forward<A>(a)...); }
template <bool SUT> struct Lib {
  SIM_ALG(accumulate) SIM_ALG(adjacent_difference) SIM_ALG(adjacent_find) SIM_ALG(all_of) SIM_ALG(any_of) SIM_ALG(binary_search) SIM_ALG(copy)
  SIM_ALG(copy_backward) SIM_ALG(copy_if) SIM_ALG(copy_n) SIM_ALG(count) SIM_ALG(count_if) SIM_ALG(equal) SIM_ALG(equal_range)
  SIM_ALG(exclusive_scan) SIM_ALG(fill) SIM_ALG(fill_n) SIM_ALG(find) SIM_ALG(find_end) SIM_ALG(find_first_of) SIM_ALG(find_if) SIM_ALG(find_if_not)
  SIM_ALG(for_each) SIM_ALG(generate) SIM_ALG(generate_n) SIM_ALG(includes) SIM_ALG(inclusive_scan) SIM_ALG(inner_product) SIM_ALG(inplace_merge)
  SIM_ALG(is_heap) SIM_ALG(is_heap_until) SIM_ALG(is_partitioned) SIM_ALG(is_permutation) SIM_ALG(is_sorted) SIM_ALG(is_sorted_until)
  SIM_ALG(iter_swap) SIM_ALG(lexicographical_compare) SIM_ALG(lower_bound) SIM_ALG(make_heap) SIM_ALG(max) SIM_ALG(max_element) SIM_ALG(merge)
  SIM_ALG(min) SIM_ALG(min_element) SIM_ALG(minmax) SIM_ALG(minmax_element) SIM_ALG(mismatch) SIM_ALG(move) SIM_ALG(move_backward)
  SIM_ALG(next_permutation) SIM_ALG(none_of) SIM_ALG(nth_element) SIM_ALG(partial_sort) SIM_ALG(partial_sum) SIM_ALG(partition)
  SIM_ALG(partition_copy) SIM_ALG(partition_point) SIM_ALG(pop_heap) SIM_ALG(prev_permutation) SIM_ALG(push_heap) SIM_ALG(remove)
  SIM_ALG(remove_copy) SIM_ALG(remove_copy_if) SIM_ALG(remove_if) SIM_ALG(replace) SIM_ALG(replace_copy) SIM_ALG(replace_copy_if) SIM_ALG(replace_if)
  SIM_ALG(reverse) SIM_ALG(reverse_copy) SIM_ALG(rotate) SIM_ALG(rotate_copy) SIM_ALG(search) SIM_ALG(search_n) SIM_ALG(set_difference)
  SIM_ALG(set_intersection) SIM_ALG(set_symmetric_difference) SIM_ALG(set_union) SIM_ALG(shuffle) SIM_ALG(sort) SIM_ALG(sort_heap)
  SIM_ALG(stable_partition) SIM_ALG(stable_sort) SIM_ALG(swap_ranges) SIM_ALG(transform) SIM_ALG(transform_reduce) SIM_ALG(unique)
  SIM_ALG(unique_copy) SIM_ALG(upper_bound)
};
static const char* const ro_name[] = {"find", "find_if", "find_if_not", "count", "count_if", "all_of", "any_of", "none_of", "for_each", "accumulate", "adjacent_find",
  "min_element", "max_element", "minmax_element", "is_sorted_until", "distance", "is_partitioned", "search_n", "partition_point", "lower_bound", "upper_bound", "equal_range",
  "binary_search", "next", "is_sorted", "min, max and minmax", "transform_reduce", "is_heap_until", "is_heap",
  "a client's post-increments", "a client's post-decrements", "a client's own search"};
template <unsigned CAP, class It, class T> void ro_alg(const AArgs& a, It b, It e, const T& t, ARes& r) {
  using L = Lib<(CAP & A_SUT) != 0>;
  APred p{a.k, a.r}; AEq eq{a.k}; ALess lt;
  auto pos = [&](It it) { r.add(std::distance(b, it)); };
  switch (a.alg) {
    case 0: pos(L::find(b, e, t)); break;
    case 1: pos(L::find_if(b, e, p)); break;
    case 2: pos(L::find_if_not(b, e, p)); break;
    case 3: r.add(L::count(b, e, t)); break;
    case 4: r.add(L::count_if(b, e, p)); break;
    case 5: r.add(L::all_of(b, e, p)); break;
    case 6: r.add(L::any_of(b, e, p)); break;
    case 7: r.add(L::none_of(b, e, p)); break;
    case 8: { long s = 0; ASum f; L::for_each(b, e, [&](const T& x) { s = f(s, x); }); r.add(s); break; }
    case 9: r.add(L::accumulate(b, e, 1L, ASum{})); break;
    case 10: pos(L::adjacent_find(b, e, eq)); break;
    case 11: pos(L::min_element(b, e, lt)); break;
    case 12: pos(L::max_element(b, e, lt)); break;
    case 13: if constexpr (std::is_default_constructible_v<It>) { auto m = L::minmax_element(b, e, lt); pos(m.first); pos(m.second); } break;
    case 14: pos(L::is_sorted_until(b, e, lt)); break;
    case 15: r.add(std::distance(b, e)); break;
    case 16: r.add(L::is_partitioned(b, e, p)); break;
    case 29: { long s = 0, n = 0; for (It x = b; x != e && n < 4000; n++) { It was = x; It old = x++; if (!(old == was)) n += 100000; s = s * 3 + av(*old); } r.add(s); r.add(n); break; }
    case 30: if constexpr ((CAP & A_DEC) != 0) { long s = 0, n = 0; for (It x = e; !(x == b) && n < 4000; n++) { It was = x; It old = x--; if (!(old == was)) n += 100000; s = s * 3 + av(*x); } r.add(s); r.add(n); } break;
    case 31: { long n = 0; It x = b, y = b; for (; y != e; ++y, n++) if (n % 3 == 2) { ++x; if constexpr ((CAP & A_DEC) != 0) { if (n % 5 == 2) { --x; ++x; } } if (eq(*x, *y)) break; } r.add(n); if (y != e) r.add(av(*x) + av(*std::addressof(*x))); break; }
    default:
      if constexpr ((CAP & A_ADV) != 0) switch (a.alg) {
        case 17: pos(L::search_n(b, e, long(a.n % 4), t, eq)); break;
        case 18: pos(L::partition_point(b, e, p)); break;
        case 19: pos(L::lower_bound(b, e, t, lt)); break;
        case 20: pos(L::upper_bound(b, e, t, lt)); break;
        case 21: { auto m = L::equal_range(b, e, t, lt); pos(m.first); pos(m.second); } break;
        case 22: r.add(L::binary_search(b, e, t, lt)); break;
        case 23: pos(std::next(b, long(a.n))); break;
        case 24: r.add(L::is_sorted(b, e, lt)); break;
        case 25: if (b != e) { r.add(av(L::min(*b, t, lt))); r.add(av(L::max(*b, t, lt))); auto m = L::minmax(*b, t, lt); r.add(av(m.first)); r.add(av(m.second)); } break;
        case 26: r.add(L::transform_reduce(b, e, 7L, std::plus<>{}, [](const T& x) { return av(x) * 3; })); break;
        case 27: if constexpr ((CAP & A_RA) != 0) pos(L::is_heap_until(b, e, lt)); break;
        case 28: if constexpr ((CAP & A_RA) != 0) r.add(L::is_heap(b, e, lt)); break;
      }
  }
}
static const char* const two_name[] = {"equal", "equal with two ends", "mismatch", "lexicographical_compare", "search", "find_first_of", "includes", "inner_product", "is_permutation", "find_end"};
template <unsigned CAP, class It, class It2> void two_alg(const AArgs& a, It b, It e, It2 b2, It2 e2, ARes& r) {
  using L = Lib<(CAP & A_SUT) != 0>;
  AEq eq{a.k}; ALess lt;
  auto pos = [&](It it) { r.add(std::distance(b, it)); };
  switch (a.alg) {
    case 0: r.add(L::equal(b, e, b2, eq)); break;                 // only when the second is long enough
    case 1: r.add(L::equal(b, e, b2, e2, eq)); break;
    case 2: { auto m = L::mismatch(b, e, b2, e2, eq); pos(m.first); r.add(std::distance(b2, m.second)); break; }
    case 3: if constexpr (!(CAP & A_DEQ)) r.add(L::lexicographical_compare(b, e, b2, e2, lt)); break;
    case 4: pos(L::search(b, e, b2, e2, eq)); break;
    case 5: pos(L::find_first_of(b, e, b2, e2, eq)); break;
    case 6: r.add(L::includes(b, e, b2, e2, lt)); break;
    case 7: r.add(L::inner_product(b, e, b2, 3L, AAdd{}, AMul{})); break;
    default:
      if constexpr ((CAP & A_ADV) != 0) switch (a.alg) {
        case 8: r.add(L::is_permutation(b, e, b2, e2, eq)); break;
        default: pos(L::find_end(b, e, b2, e2, eq)); break;
      }
  }
}
static const char* const mut_name[] = {"transform", "replace", "replace_if", "fill", "fill_n", "generate", "remove", "remove_if", "unique", "swap_ranges", "copy down", "move down", "iter_swap",
  "for_each writing", "generate_n", "rotate", "partition", "reverse", "copy_backward", "move_backward", "stable_partition", "next_permutation", "prev_permutation", "inplace_merge",
  "sort", "stable_sort", "partial_sort", "nth_element", "make_heap and sort_heap", "push_heap and pop_heap", "shuffle"};
// returns the length of the prefix whose values are specified afterwards
template <unsigned CAP, class It, class T> void mut_alg(const AArgs& a, It b, It e, size_t n, const T& t, const T& t2, ARes& r, size_t& valid) {
  using L = Lib<(CAP & A_SUT) != 0>;
  APred p{a.k, a.r}; AEq eq{a.k}; ALess lt;
  auto at = [&](size_t i) { It x = b; while (i--) ++x; return x; };
  auto pos = [&](It it) { r.add(std::distance(b, it)); };
  size_t i = n ? a.n % n : 0, j = n ? a.n2 % n : 0;
  if (i > j) std::swap(i, j);
  long g0 = a.d;
  valid = n;
  switch (a.alg) {
    case 0: pos(L::transform(b, e, b, AUn{a.d})); break;
    case 1: L::replace(b, e, t, t2); break;
    case 2: L::replace_if(b, e, p, t); break;
    case 3: L::fill(at(i), e, t); break;
    case 4: if constexpr (!(CAP & A_DEQ)) pos(L::fill_n(b, long(j), t)); break;
    case 5: L::generate(b, e, AGen<T>{&g0}); break;
    case 6: { It x = L::remove(b, e, t); valid = size_t(std::distance(b, x)); pos(x); break; }
    case 7: { It x = L::remove_if(b, e, p); valid = size_t(std::distance(b, x)); pos(x); break; }
    case 8: { It x = L::unique(b, e, eq); valid = size_t(std::distance(b, x)); pos(x); break; }
    case 9: { It x = at(i), y = at(j); size_t l = std::min(j - i, n - j); It z = y; while (l--) ++z; pos(L::swap_ranges(y, z, x)); break; }
    case 10: pos(L::copy(at(j), e, at(i))); break;
    case 11: { It x = at(j), y = at(i); valid = size_t(std::distance(x, e)) + i; if (x == y) valid = 0; pos(L::move(x, e, y)); if (x == y) valid = 0; break; }
    case 12: if (n) L::iter_swap(at(i), at(j)); break;
    case 13: L::for_each(b, e, [&](T& x) { AUn f{a.d}; x = f(x); }); break;
    case 14: pos(L::generate_n(at(i), long(n - i), AGen<T>{&g0})); break;
    default:
      if constexpr ((CAP & A_ADV) != 0) switch (a.alg) {
        case 15: pos(L::rotate(b, at(j), e)); break;
        case 16: pos(L::partition(b, e, p)); break;
        default:
          if constexpr ((CAP & A_BIDI) != 0) switch (a.alg) {
            case 17: L::reverse(b, e); break;
            case 18: pos(L::copy_backward(b, at(i), at(j))); break;
            case 19: if (i != j) { pos(L::move_backward(b, at(i), at(j))); valid = 0; } break;
            case 20: pos(L::stable_partition(b, e, p)); break;
            case 21: r.add(L::next_permutation(b, e, lt)); break;
            case 22: r.add(L::prev_permutation(b, e, lt)); break;
            case 23: { It x = L::is_sorted_until(b, e, lt); if (L::is_sorted(x, e, lt)) L::inplace_merge(b, x, e, lt); break; }
            default:
              if constexpr ((CAP & A_RA) != 0) switch (a.alg) {
                case 24: L::sort(b, e, lt); break;
                case 25: L::stable_sort(b, e, lt); break;
                case 26: L::partial_sort(b, b + long(j), e, lt); break;
                case 27: if (n) L::nth_element(b, b + long(j), e, lt); break;
                case 28: L::make_heap(b, e, lt); L::sort_heap(b, e, lt); break;
                case 30: { std::minstd_rand g(unsigned(a.d + 7)); L::shuffle(b, e, g); break; }
                default: if (n > 1) { L::make_heap(b, e - 1, lt); L::push_heap(b, e, lt); L::pop_heap(b, e, lt); } break;
              }
          }
      }
  }
}
static const char* const out_name[] = {"copy", "copy_if", "copy_n", "transform", "remove_copy_if", "replace_copy_if", "unique_copy", "merge", "set_union", "set_intersection",
  "set_difference", "set_symmetric_difference", "partial_sum", "adjacent_difference", "fill_n", "generate_n", "transform of two", "remove_copy", "replace_copy", "rotate_copy", "reverse_copy", "exclusive_scan", "inclusive_scan", "partition_copy"};
template <unsigned CAP, class It, class It2, class T, class O> void out_alg(const AArgs& a, It b, It e, size_t n, It2 b2, It2 e2, const T& t, const T& t2, O o) {
  using L = Lib<(CAP & A_SUT) != 0>;
  APred p{a.k, a.r}; AEq eq{a.k}; ALess lt;
  auto at = [&](size_t i) { It x = b; while (i--) ++x; return x; };
  size_t i = a.n % (n + 1);
  long g0 = a.d;
  switch (a.alg) {
    case 0: L::copy(b, e, o); break;
    case 1: L::copy_if(b, e, o, p); break;
    case 2: if constexpr (!(CAP & A_DEQ)) L::copy_n(b, long(i), o); break;
    case 3: L::transform(b, e, o, AUn{a.d}); break;
    case 4: L::remove_copy_if(b, e, o, p); break;
    case 5: L::replace_copy_if(b, e, o, p, t); break;
    case 6: L::unique_copy(b, e, o, eq); break;
    case 7: L::merge(b, e, b2, e2, o, lt); break;
    case 8: L::set_union(b, e, b2, e2, o, lt); break;
    case 9: L::set_intersection(b, e, b2, e2, o, lt); break;
    case 10: L::set_difference(b, e, b2, e2, o, lt); break;
    case 11: L::set_symmetric_difference(b, e, b2, e2, o, lt); break;
    case 12: L::partial_sum(b, e, o, ABin{}); break;
    case 13: L::adjacent_difference(b, e, o, ABin{}); break;
    case 14: L::fill_n(o, long(i), t); break;
    case 15: L::generate_n(o, long(i), AGen<T>{&g0}); break;
    case 16: L::transform(b, e, b2, o, ABin{}); break;            // only when the second is long enough
    case 17: L::remove_copy(b, e, o, t); break;
    case 18: L::replace_copy(b, e, o, t, t2); break;
    case 21: L::exclusive_scan(b, e, o, t, ABin{}); break;
    case 22: L::inclusive_scan(b, e, o, ABin{}); break;
    case 23: { long rest = 0; struct Sink { long* n; Sink& operator*() { return *this; } Sink& operator++() { return *this; } Sink operator++(int) { return *this; } Sink& operator=(const T&) { ++*n; return *this; } }; L::partition_copy(b, e, o, Sink{&rest}, p); break; }
    default:
      if constexpr ((CAP & A_ADV) != 0) switch (a.alg) {
        case 19: L::rotate_copy(b, at(i), e, o); break;
        case 20: if constexpr ((CAP & A_BIDI) != 0) L::reverse_copy(b, e, o); break;
      }
  }
}

// only one of the two ways to move can throw
template <class E> struct HalfC {
  E e;
  HalfC(long v) : e(Tr<E>::mk(v)) {}
  HalfC(HalfC&& o) noexcept : e(std::move(o.e)) {}
  HalfC& operator=(HalfC&& o) { e = std::move(o.e); return *this; }
};
template <class E> struct HalfA {
  E e;
  HalfA(long v) : e(Tr<E>::mk(v)) {}
  HalfA(HalfA&& o) : e(std::move(o.e)) {}
  HalfA& operator=(HalfA&& o) noexcept { e = std::move(o.e); return *this; }
};

template <class E> struct AlgRun {
  using VC = cest::vector<E>; using DC = cest::deque<E>; using LC = cest::list<E>; using FC = cest::forward_list<E>; using SC = cest::set<E, ALess>;
  enum K { KV, KD, KL, KF, KS, NK };
  static constexpr unsigned N = 4, FAULTS = Tr<E>::faults & ~(1u << F_DEFAULT) | 1u << F_COMPARE | 1u << F_CALL;
  struct Obj {
    K kind; bool live = false;
    Slot<VC> v; Slot<DC> d; Slot<LC> l; Slot<FC> f; Slot<SC> s;
    std::vector<long> m;                     // its values, in order
  } ob[N];
  Cls mode = CONTENT; int touched = -1, touched2 = -1;

  template <class F> void with(Obj& o, F f) {
    switch (o.kind) {
      case KV: f(*o.v, std::integral_constant<unsigned, A_ADV | A_BIDI | A_RA | A_DEC>{}, std::vector<long>(o.m.begin(), o.m.end())); break;
      case KD: f(*o.d, std::integral_constant<unsigned, A_DEQ | A_DEC>{}, std::deque<long>(o.m.begin(), o.m.end())); break;
      case KL: f(*o.l, std::integral_constant<unsigned, A_ADV | A_BIDI | A_DEC>{}, std::list<long>(o.m.begin(), o.m.end())); break;
      case KF: f(*o.f, std::integral_constant<unsigned, A_ADV>{}, std::forward_list<long>(o.m.begin(), o.m.end())); break;
      default: f(*o.s, std::integral_constant<unsigned, 0>{}, std::set<long>(o.m.begin(), o.m.end())); break;
    }
  }
  std::vector<long> contents(Obj& o) {
    std::vector<long> got;
    with(o, [&](auto& c, auto, auto) {
      const auto& cc = c;
      call("read", [&] { for (const auto& x : cc) { long v = av(x); User u; got.push_back(v); if (got.size() > 4000) violate(CONTENT, "iteration does not end"); } });
    });
    return got;
  }
  static std::string show(const std::vector<long>& v) {
    std::string s = "{"; for (size_t i = 0; i < v.size() && i < 12; i++) s += (i ? "," : "") + std::to_string(v[i]);
    return s + (v.size() > 12 ? ",...}" : "}");
  }
  void verify() {
    for (unsigned o = 0; o < N; o++) if (ob[o].live) {
      Cls c = int(o) == touched || int(o) == touched2 ? mode : INDEP;
      auto got = contents(ob[o]);
      if (got != ob[o].m) violate(c, "object %u holds %s, the model %s", o, show(got).c_str(), show(ob[o].m).c_str());
      if (ob[o].kind != KF) {
        size_t n = 0;
        with(ob[o], [&](auto& c, auto, auto) { if constexpr (requires { c.size(); }) call("size", [&] { n = c.size(); }); });
        if (n != ob[o].m.size()) violate(c, "object %u: size() is %zu, the model has %zu", o, n, ob[o].m.size());
      }
    }
  }
  template <class S> void mk(S& s) {
    void* f = s.frame();
    call("constructor", [&] { s.p = new (f) std::remove_reference_t<decltype(*s)>(); });
  }
  template <class S> void rm(S& s) {
    using T = std::remove_reference_t<decltype(*s)>;
    call("destructor", [&] { s->~T(); }); s.p = nullptr; s.drop_frame();
  }
  void make(unsigned o) {
    Obj& b = ob[o];
    static unsigned pick[] = {KV, KD, KL, KF, KS};
    b.kind = K(pick[choose(5)]); b.live = true; b.m.clear();
    switch (b.kind) { case KV: mk(b.v); break; case KD: mk(b.d); break; case KL: mk(b.l); break; case KF: mk(b.f); break; default: mk(b.s); }
    refill(o);
  }
  void destroy(unsigned o) {
    Obj& b = ob[o];
    if (!b.live) return;
    switch (b.kind) { case KV: rm(b.v); break; case KD: rm(b.d); break; case KL: rm(b.l); break; case KF: rm(b.f); break; default: rm(b.s); }
    b.live = false; b.m.clear();
  }
  void refill(unsigned o) {                  // plain, fault-free growth; sometimes sorted
    unsigned n = huge(80, 500); if (!n) n = skewed(choose(6) == 5 ? 60 : 14);
    unsigned how = choose(3), spread = 1 + choose(40);
    log("object %u (kind %u): %u values, %s", o, ob[o].kind, n, how ? "any" : "ascending");
    std::vector<long> vs; long at = 0;
    for (unsigned i = 0; i < n; i++) vs.push_back(how ? long(choose(spread)) : at += long(choose(3)));
    for (long v : vs) push(o, v);
    ALess lt; (void)lt;
  }
  void push(unsigned o, long v) {
    Obj& b = ob[o];
    if (b.m.size() > 600) return;
    call("push", [&] {
      E e = mkq(v);
      switch (b.kind) {
        case KV: b.v->push_back(std::move(e)); break;
        case KD: b.d->push_back(std::move(e)); break;
        case KL: b.l->push_back(std::move(e)); break;
        case KF: b.f->push_front(std::move(e)); break;
        default: b.s->insert(e); break;
      }
    });
    add_model(b, v);
  }
  static E mkq(long v) { return Tr<E>::mk(v); }
  static void add_model(Obj& b, long v) {
    if (b.kind == KF) b.m.insert(b.m.begin(), v);
    else if (b.kind == KS) { auto it = std::lower_bound(b.m.begin(), b.m.end(), v); if (it == b.m.end() || *it != v) b.m.insert(it, v); }
    else b.m.push_back(v);
  }
  static bool sorted(const std::vector<long>& v) { return std::is_sorted(v.begin(), v.end()); }
  AArgs args(unsigned nalg) {
    AArgs a{};
    a.alg = choose(nalg); a.n = choose(64); a.n2 = choose(64); a.k = 1 + choose(6); a.r = choose(3); a.d = long(choose(20)) - 5;
    return a;
  }
  void same(const char* what, const ARes& r, const ARes& w) {
    if (r == w || !r.n) return;          // (some do not compile for every kind of position)
    violate(CONTENT, "%s returned %ld%s%s, over the standard container %ld (%u/%u results)", what, r.n ? r.a[0] : -1, r.n > 1 ? "," : "", r.n > 1 ? std::to_string(r.a[1]).c_str() : "", w.n ? w.a[0] : -1, r.n, w.n);
  }
  void values_from(unsigned o, const std::vector<long>& old, std::initializer_list<long> extra, long lo, long hi, size_t n) {
    auto got = contents(ob[o]);
    if (got.size() != n) violate(BASIC, "after a failed algorithm object %u has %zu elements in place of %zu", o, got.size(), n);
    for (long v : got) {
      bool ok = v == MOVED || (v >= lo && v < hi) || std::find(old.begin(), old.end(), v) != old.end() || std::find(extra.begin(), extra.end(), v) != extra.end();
      if (!ok) violate(BASIC, "after a failed algorithm object %u holds %ld, a value nobody put there", o, v);
    }
    ob[o].m = got;
  }
  void do_ro(unsigned o) {
    AArgs a = args(32);
    Obj& b = ob[o];
    long t = b.m.size() && choose(3) ? b.m[choose(uint32_t(b.m.size()))] : long(choose(40));
    if (a.alg >= 18 && a.alg <= 22) {
      if (a.alg == 18 ? !std::is_partitioned(b.m.begin(), b.m.end(), APred{a.k, a.r}) : !sorted(b.m)) a.alg = 15;
    }
    if (a.alg == 23) a.n = b.m.size() ? a.n % unsigned(b.m.size() + 1) : 0;
    unsigned via = choose(3);                 // const, non-const, reverse
    if (via == 2 && a.alg >= 18 && a.alg <= 22) via = 0;
    log("object %u (%zu): %s (value %ld)%s", o, b.m.size(), ro_name[a.alg], t, via == 2 ? " backwards" : "");
    Plan p = plan(1u << F_CALL | 1u << F_COMPARE);
    E te = mkt<E>(t);
    with(b, [&](auto& c, auto cap, auto tw) {
      ARes r, w;
      const auto& cc = c; const auto& ctw = tw;
      constexpr unsigned CAP = decltype(cap)::value;
      Outcome oc = call(ro_name[a.alg], p, [&] {
        if constexpr ((CAP & A_BIDI) != 0) { if (via == 2) return ro_alg<CAP | A_SUT>(a, std::make_reverse_iterator(c.end()), std::make_reverse_iterator(c.begin()), te, r); }
        if (via == 1) ro_alg<CAP | A_SUT>(a, c.begin(), c.end(), te, r);
        else ro_alg<CAP | A_SUT>(a, cc.begin(), cc.end(), te, r);
      });
      if (oc.threw()) return;
      if constexpr ((CAP & A_BIDI) != 0) { if (via == 2) { ro_alg<CAP>(a, std::make_reverse_iterator(tw.end()), std::make_reverse_iterator(tw.begin()), t, w); return same(ro_name[a.alg], r, w); } }
      ro_alg<CAP>(a, ctw.begin(), ctw.end(), t, w);
      same(ro_name[a.alg], r, w);
    });
  }
  void do_two(unsigned o, unsigned q) {
    AArgs a = args(10);
    Obj &b = ob[o], &b2 = ob[q];
    if ((a.alg == 0 || a.alg == 7) && b2.m.size() < b.m.size()) a.alg = 1;
    if (a.alg == 6 && (!sorted(b.m) || !sorted(b2.m))) a.alg = 3;
    if (b2.kind != b.kind && b2.kind != KV) return;
    log("object %u (%zu) with %u (%zu): %s", o, b.m.size(), q, b2.m.size(), two_name[a.alg]);
    Plan p = plan(1u << F_CALL | 1u << F_COMPARE);
    with(b, [&](auto& c, auto cap, auto tw) {
      with(b2, [&](auto& c2, auto cap2, auto tw2) {
        constexpr bool pair = std::is_same_v<decltype(tw), decltype(tw2)> || std::is_same_v<decltype(tw2), std::vector<long>>;
        if constexpr (pair) {
        constexpr unsigned C1 = decltype(cap)::value, C2 = decltype(cap2)::value, CAP = (C1 & C2 & (7 | A_DEC)) | ((C1 | C2) & A_DEQ);
        ARes r, w;
        const auto& cc = c; const auto& ctw = tw;
        Outcome oc = call(two_name[a.alg], p, [&] { two_alg<CAP | A_SUT>(a, cc.begin(), cc.end(), c2.begin(), c2.end(), r); });
        if (oc.threw()) return;
        two_alg<CAP>(a, ctw.begin(), ctw.end(), tw2.begin(), tw2.end(), w);
        same(two_name[a.alg], r, w);
        }
      });
    });
  }
  void do_mut(unsigned o) {
    Obj& b = ob[o];
    if (b.kind == KS) return;
    AArgs a = args(31);
    long t = b.m.size() && choose(2) ? b.m[choose(uint32_t(b.m.size()))] : long(choose(40)), t2 = long(choose(40));
    if (a.alg == 23 && std::is_same_v<E, ECo>) a.alg = 17;
    log("object %u (%zu): %s (%ld, %ld)", o, b.m.size(), mut_name[a.alg], t, t2);
    // the temporary buffer of these is optional: a failed allocation is not a failure
    bool optional = a.alg == 20 || a.alg == 23 || a.alg == 25;
    Plan p = plan(FAULTS & ~(1u << F_ALLOC) | (optional ? 1u << F_ALLOC : 0));
    E te = mkt<E>(t), te2 = mkt<E>(t2);
    touched = int(o);
    auto old = b.m;
    with(b, [&](auto& c, auto cap, auto tw) {
      if constexpr (requires { *c.begin() = std::declval<E&>(); }) {
        constexpr unsigned CAP = decltype(cap)::value;
        ARes r, w; size_t valid = 0, wvalid = 0, n = old.size();
        Outcome oc = call(mut_name[a.alg], p, [&] { mut_alg<CAP | A_SUT>(a, c.begin(), c.end(), n, te, te2, r, valid); }, optional ? C_STREAM : 0);
        if (oc.threw()) {
          std::vector<long> may = old;
          for (long v : old) { may.push_back(v + a.d); }
          return values_from(o, may, {t, t2}, a.d, a.d + long(n) + 1, n);
        }
        mut_alg<CAP>(a, tw.begin(), tw.end(), n, t, t2, w, wvalid);
        same(mut_name[a.alg], r, w);
        if (valid != wvalid) violate(CONTENT, "%s kept %zu elements in place of %zu", mut_name[a.alg], valid, wvalid);
        auto got = contents(b);
        b.m.assign(tw.begin(), tw.end());
        if (got.size() != n) violate(CONTENT, "%s changed the number of elements", mut_name[a.alg]);
        for (size_t i = valid; i < n; i++) b.m[i] = got[i];     // unspecified, but alive
      }
    });
  }
  void do_out(unsigned dst, unsigned o, unsigned q) {
    Obj &b = ob[o], &b2 = ob[q], &d = ob[dst];
    AArgs a = args(24);
    if (d.m.size() > 150) return;
    if (a.alg >= 7 && a.alg <= 11 && (!sorted(b.m) || !sorted(b2.m))) a.alg = 3;
    if (a.alg == 16 && b2.m.size() < b.m.size()) a.alg = 0;
    long t = b.m.size() && choose(2) ? b.m[choose(uint32_t(b.m.size()))] : long(choose(40)), t2 = long(choose(40));
    unsigned front = d.kind == KF ? 1 : d.kind == KV || d.kind == KS ? 0 : choose(2);
    unsigned ins = d.kind == KL && choose(3) == 2 ? choose(uint32_t(d.m.size()) + 1) : ~0u;
    log("%s of object %u (%zu) and %u (%zu) to %u (kind %u, %zu)%s", out_name[a.alg], o, b.m.size(), q, b2.m.size(), dst, d.kind, d.m.size(), ins != ~0u ? " by inserter" : front ? " by front_inserter" : "");
    // what it produces, by the standard containers
    std::vector<long> P;
    with(b, [&](auto&, auto cap, auto tw) {
      const auto& ctw = tw;
      out_alg<decltype(cap)::value>(a, ctw.begin(), ctw.end(), b.m.size(), b2.m.begin(), b2.m.end(), t, t2, std::back_inserter(P));
    });
    Plan p = plan(FAULTS);
    E te = mkt<E>(t), te2 = mkt<E>(t2);
    auto old = d.m;
    touched = int(dst);
    Outcome oc;
    std::vector<E> v2;                          // the second range
    for (long v : b2.m) v2.push_back(mkt<E>(v));
    with(b, [&](auto& c, auto cap, auto) {
      const auto& cc = c;
      auto go = [&](auto out) { out_alg<decltype(cap)::value | A_SUT>(a, cc.begin(), cc.end(), b.m.size(), v2.cbegin(), v2.cend(), te, te2, out); };
      oc = call(out_name[a.alg], p, [&] {
        switch (d.kind) {
          case KV: go(std::back_inserter(*d.v)); break;
          case KD: if (front) go(std::front_inserter(*d.d)); else go(std::back_inserter(*d.d)); break;
          case KL:
            if (ins != ~0u) { auto it = d.l->begin(); for (unsigned i = 0; i < ins; i++) ++it; go(std::inserter(*d.l, it)); }
            else if (front) go(std::front_inserter(*d.l)); else go(std::back_inserter(*d.l));
            break;
          case KF: go(std::front_inserter(*d.f)); break;
          default: go(std::inserter(*d.s, d.s->end())); break;
        }
      });
    });
    auto model = [&](size_t n) {
      Obj x; x.kind = d.kind; x.m = old;
      for (size_t i = 0; i < n; i++) {
        if (d.kind == KL && ins != ~0u) x.m.insert(x.m.begin() + long(ins + i), P[i]);
        else if (front && d.kind != KF) x.m.insert(x.m.begin(), P[i]);
        else add_model(x, P[i]);
      }
      return x.m;
    };
    if (!oc.threw()) { d.m = model(P.size()); return; }
    auto got = contents(d);                     // what was put in before the failure stays, in order
    for (size_t n = 0; n <= P.size(); n++) if (got == model(n)) { d.m = got; return; }
    violate(STRONG, "after a failed %s object %u holds %s, which is no prefix of what was to be added to %s", out_name[a.alg], dst, show(got).c_str(), show(old).c_str());
  }
  // n-ary swap: the values move one place round
  template <class T, class F> void do_nary(F mkv, unsigned n, bool right, Plan p) {
    alignas(T) unsigned char raw[5][sizeof(T)]; T* x[5]; std::vector<long> v, w;
    for (unsigned i = 0; i < n; i++) { long l = long(choose(50)) + 100 * i; v.push_back(l); x[i] = mkv(raw[i], l); }
    w = v;
    if (right) std::rotate(w.begin(), w.end() - 1, w.end()); else std::rotate(w.begin(), w.begin() + 1, w.end());
    constexpr bool nx = std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>;
    constexpr bool promise = noexcept(nary::swap(*x[0], *x[1])) || noexcept(nary::swap(*x[0], *x[1], *x[2])) || noexcept(nary::swapr(*x[0], *x[1])) || noexcept(nary::swapr(*x[0], *x[1], *x[2], *x[3]));
    if constexpr (promise && !nx) violate(TERMINATE, "n-ary swap promises not to throw although moving can");
    log("n-ary swap%s of %u", right ? " to the right" : "", n);
    auto one = [&](auto... i) { if (right) nary::swapr(*x[i]...); else nary::swap(*x[i]...); };
    Outcome oc = call("n-ary swap", p, [&] {
      switch (n) { case 1: one(0); break; case 2: one(0, 1); break; case 3: one(0, 1, 2); break; case 4: one(0, 1, 2, 3); break; default: one(0, 1, 2, 3, 4); }
    });
    std::vector<long> got;
    for (unsigned i = 0; i < n; i++) { long l = 0; call("read", [&] { if constexpr (requires { x[i]->e.get(); }) l = av(x[i]->e); else if constexpr (requires { x[i]->size(); }) l = x[i]->size() ? av(*x[i]->begin()) : -1; else l = av(*x[i]); }); got.push_back(l); }
    if (!oc.threw() && got != w) violate(CONTENT, "n-ary swap of %s gave %s in place of %s", show(v).c_str(), show(got).c_str(), show(w).c_str());
    if (oc.threw()) for (long l : got) if (l != MOVED && l != -1 && std::find(v.begin(), v.end(), l) == v.end()) violate(BASIC, "a failed n-ary swap left %ld", l);
    for (unsigned i = 0; i < n; i++) call("destructor", [&] { x[i]->~T(); });
  }
  void nary_step() {
    unsigned n = 1 + choose(5), t = choose(5); bool right = choose(2);
    if (t < 2) do_nary<E>([](void* r, long l) { Quiet q; return new (r) E(Tr<E>::mk(l)); }, n, right, plan(FAULTS));
    else if (t == 3) do_nary<HalfC<E>>([](void* r, long l) { Quiet q; return new (r) HalfC<E>(l); }, n, right, plan(1u << F_ASSIGN));
    else if (t == 4) do_nary<HalfA<E>>([](void* r, long l) { Quiet q; return new (r) HalfA<E>(l); }, n, right, plan(1u << F_MOVE));
    else do_nary<VC>([](void* r, long l) { Quiet q; VC* c = new (r) VC; c->push_back(Tr<E>::mk(l)); return c; }, n, right, plan(FAULTS));
  }
  void run() {
    draw_faults(FAULTS, 1);
    static const unsigned lens[] = {6, 15, 40};
    unsigned len = lens[choose(3)], n = 0, w[5];
    for (auto& x : w) x = choose(4);
    w[3]++;
    unsigned tot = 0; for (auto x : w) tot += x;
    while (n < 3 * len && choose(len) != len - 1) {
      begin_step(); n++;
      touched = touched2 = -1; mode = CONTENT;
      unsigned o = choose(N), q = choose(N), d = choose(N);
      if (one_in(12)) destroy(o);
      for (unsigned x : {o, q}) if (!ob[x].live) make(x);
      if (one_in(6) && ob[o].m.size() < 40) refill(o);
      unsigned k = choose(tot), op = 0;
      while (k >= w[op]) k -= w[op++];
      switch (op) {
        case 0: do_ro(o); break;
        case 1: do_two(o, q); break;
        case 2: do_mut(o); break;
        case 3: if (!ob[d].live) make(d); if (d != o && d != q) do_out(d, o, q); break;
        default: nary_step(); break;
      }
      verify();
      note(reg.n); note(heap.live);
      state(mix(mix(op, ob[o].kind * 8 + ob[q].kind), mix(std::min<size_t>(ob[o].m.size(), 20), g.fired_in_call ? g.last_fired + 1 : 0)));
    }
    for (unsigned o = 0; o < N; o++) destroy(o);
  }
};

// dictionaries: their elements are pairs
template <class E> struct AlgMap {
  using M = cest::map<long, E>;
  void run() {
    unsigned F = Tr<E>::faults & ~(1u << F_DEFAULT) | 1u << F_CALL;
    draw_faults(F, 1);
    Slot<M> s; void* f = s.frame();
    call("map constructor", [&] { s.p = new (f) M(); });
    std::map<long, long> m;
    unsigned n = skewed(40);
    for (unsigned i = 0; i < n; i++) {
      long k = long(choose(60)), v = long(choose(100));
      std::pair<const long, E> pr(k, mkt<E>(v));
      call("map insert", [&] { s->insert(pr); });
      m.emplace(k, v);
    }
    unsigned steps = 1 + choose(8);
    while (steps--) {
      begin_step();
      unsigned k = choose(6); long x = long(choose(60)), d = long(choose(9)); long kk = 1 + choose(5);
      Plan p = plan(1u << F_CALL | (k == 3 ? 1u << F_ASSIGN : 0) | (k == 4 ? F & ~(1u << F_ASSIGN) : 0));
      M& c = *s; const M& cc = c;
      APred pr{kk, 0};
      log("map (%zu): algorithm %u", m.size(), k);
      auto key = [&](const auto& e) { return pr(long(e.first)); };
      auto sum = [](long t, const auto& e) { return t * 3 + e.first * 5 + av(e.second); };
      auto isx = [&](const auto& e) { return e.first == x; };
      long r = 0, w = 0; Outcome o;
      switch (k) {
        case 0: o = call("count_if over a map", p, [&] { r = cest::count_if(cc.begin(), cc.end(), key); }); w = std::count_if(m.begin(), m.end(), key); break;
        case 1: o = call("find_if over a map", p, [&] { r = std::distance(cc.begin(), cest::find_if(cc.begin(), cc.end(), isx)); }); w = std::distance(m.begin(), std::find_if(m.begin(), m.end(), isx)); break;
        case 2: o = call("accumulate over a map", p, [&] { r = cest::accumulate(cc.begin(), cc.end(), 1L, sum); }); w = std::accumulate(m.begin(), m.end(), 1L, sum); break;
        case 3: {                               // writing through found positions
          auto it = c.find(x);
          bool there = it != c.end();
          if (there != (m.count(x) > 0)) violate(CONTENT, "find gives a position for %ld: %d", x, there);
          if (!there) break;
          AUn f{d};
          o = call("writing through a position", p, [&] { it->second = f(it->second); });
          if (!o.threw()) m[x] += d;
          break;
        }
        case 4: {
          cest::vector<E> out; cest::list<long> keys;
          o = call("transform over a map", p, [&] {
            cest::transform(cc.begin(), cc.end(), std::back_inserter(keys), [](const auto& e) { return e.first; });
            cest::transform(cc.begin(), cc.end(), std::back_inserter(out), [](const auto& e) -> const E& { return e.second; });
          });
          if (!o.threw()) {
            auto it = m.begin(); size_t i = 0;
            if (out.size() != m.size()) violate(CONTENT, "transform over a map gave %zu values in place of %zu", out.size(), m.size());
            call("read", [&] { for (long kx : keys) { if (kx != it->first || av(out[i]) != it->second) violate(CONTENT, "transform over a map: entry %zu is wrong", i); ++it; i++; } });
          }
          call("clear", [&] { out.clear(); keys.clear(); { cest::vector<E> e; e.swap(out); } });
          break;
        }
        default: {
          auto le = [](const auto& a, const auto& b) { return av(a.second) < av(b.second); };
          o = call("max_element over a map", p, [&] { r = std::distance(cc.begin(), cest::max_element(cc.begin(), cc.end(), le)); });
          w = std::distance(m.begin(), std::max_element(m.begin(), m.end(), le));
        }
      }
      if (!o.threw() && r != w) violate(CONTENT, "algorithm %u over a map returned %ld, over std::map %ld", k, r, w);
      auto it = m.begin();
      call("read", [&] {
        size_t i = 0;
        for (auto& e : cc) { if (i++ >= m.size() || e.first != it->first || av(e.second) != it->second) violate(CONTENT, "the map's entry %zu is wrong", i - 1); ++it; }
        if (i != m.size()) violate(CONTENT, "the map has %zu entries in place of %zu", i, m.size());
      });
      note(reg.n);
      state(mix(100 + k, mix(std::min<size_t>(m.size(), 20), g.fired_in_call ? g.last_fired + 1 : 0)));
    }
    call("map destructor", [&] { s->~M(); }); s.p = nullptr; s.drop_frame();
  }
};
}
#endif
