// Element types whose every construction, copy, move, assignment and
// destruction the simulator sees and can make fail.
#ifndef SIM_ELEM_HPP
#define SIM_ELEM_HPP
#include "core.hpp"

namespace sim {

// registry of live elements by address
struct Registry {
  uint32_t cap = 1u << 12, n = 0;
  const void** key = static_cast<const void**>(calloc(cap, sizeof(void*)));
  uint32_t* step = static_cast<uint32_t*>(calloc(cap, 4));
  static uint32_t h(const void* p) { uint64_t x = reinterpret_cast<uintptr_t>(p); return uint32_t((x * 0x9E3779B97F4A7C15ull) >> 32); }
  void reset() { if (n) memset(key, 0, cap * sizeof(void*)); n = 0; if (cap > (1u << 16)) { cap = 1u << 12; ::free(key); ::free(step); key = static_cast<const void**>(calloc(cap, sizeof(void*))); step = static_cast<uint32_t*>(calloc(cap, 4)); } }
  uint32_t find(const void* p) const { uint32_t i = h(p) & (cap - 1); while (key[i] && key[i] != p) i = (i + 1) & (cap - 1); return i; }
  bool has(const void* p) const { return key[find(p)] == p; }
  void grow() {
    uint32_t oc = cap; const void** ok = key; uint32_t* os = step;
    cap *= 2; key = static_cast<const void**>(calloc(cap, sizeof(void*))); step = static_cast<uint32_t*>(calloc(cap, 4));
    for (uint32_t i = 0; i < oc; i++) if (ok[i]) { uint32_t j = find(ok[i]); key[j] = ok[i]; step[j] = os[i]; }
    ::free(ok); ::free(os);
  }
  void add(const void* p) { if (n * 2 >= cap) grow(); uint32_t i = find(p); key[i] = p; step[i] = sh->span_len; n++; }
  void del(const void* p) {
    uint32_t i = find(p), j = i;
    key[i] = nullptr; n--;
    for (;;) {
      j = (j + 1) & (cap - 1);
      if (!key[j]) break;
      uint32_t k = h(key[j]) & (cap - 1);
      if (((j - k) & (cap - 1)) >= ((j - i) & (cap - 1))) { key[i] = key[j]; step[i] = step[j]; key[j] = nullptr; i = j; }
    }
  }
};
inline Registry reg;

constexpr long MOVED = -77777, DEFAULTED = 0;

inline void live(const void* p, const char* what) {
  NoCount nc;
  if (!reg.has(p)) violate(LIFETIME, "%s of an element that is not alive", what);
}
inline void born(const void* p) {
  NoCount nc;
  if (reg.has(p)) violate(LIFETIME, "an element was constructed on top of a live one");
  reg.add(p); g.constructs++;
}

template <bool HasMove, bool NxMove, bool Copyable, int Align = 8>
struct alignas(Align) El {
  long v;
  const void* self;
  static void aligned(const void* p) { if (reinterpret_cast<uintptr_t>(p) % Align) violate(MEM, "an element was constructed at a misaligned address"); }
  El() { fault_point(F_DEFAULT); aligned(this); born(this); v = DEFAULTED; self = this; }
  explicit El(long x) : v(x), self(this) { aligned(this); born(this); }
  El(const El& o) requires Copyable { live(&o, "copy"); fault_point(F_COPY); aligned(this); g.copies++; born(this); v = o.v; self = this; }
  El(El&& o) noexcept(NxMove) requires HasMove {
    live(&o, "move"); if constexpr (!NxMove) fault_point(F_MOVE);
    aligned(this); g.moves++; born(this); v = o.v; self = this; o.v = MOVED;
  }
  El& operator=(const El& o) requires Copyable { live(this, "assignment to"); live(&o, "assignment from"); fault_point(F_ASSIGN); g.assigns++; v = o.v; return *this; }
  El& operator=(El&& o) noexcept(NxMove) requires HasMove {
    live(this, "assignment to"); live(&o, "assignment from"); if constexpr (!NxMove) fault_point(F_ASSIGN);
    g.assigns++; long t = o.v; o.v = MOVED; v = t; return *this;
  }
  ~El() {
    NoCount nc;
    if (!reg.has(this)) violate(LIFETIME, "an element was destroyed that is not alive");
    if (self != this) violate(LIFETIME, "an element was relocated bytewise");
    reg.del(this); g.destroys++;
  }
  long get() const { live(this, "read"); return v; }
  bool operator==(const El& o) const { return get() == o.get(); }
};
using ENx = El<true, true, true>;         // noexcept move
using ETm = El<true, false, true>;        // move may throw
using ECo = El<false, false, true>;       // copy only
using EAl = El<true, true, true, 64>;     // over-aligned
using EMo = El<true, true, false>;        // move only

template <class E> struct Tr {            // how the harness makes and reads an element
  static E mk(long v) { return E(v); }
  static long val(const E& e) { return e.get(); }
  static constexpr bool copyable = std::is_copy_constructible_v<E>;
  static constexpr bool tracked = true;
  static constexpr unsigned faults = (1u << F_ALLOC) | (1u << F_COPY) | (1u << F_MOVE) | (1u << F_ASSIGN) | (1u << F_DEFAULT);
};
template <> struct Tr<long> {
  static long mk(long v) { return v; }
  static long val(const long& e) { return e; }
  static constexpr bool copyable = true;
  static constexpr bool tracked = false;
  static constexpr unsigned faults = 1u << F_ALLOC;
};
template <> struct Tr<unsigned char> {
  static unsigned char mk(long v) { return (unsigned char)v; }
  static long val(const unsigned char& e) { return e; }
  static constexpr bool copyable = true;
  static constexpr bool tracked = false;
  static constexpr unsigned faults = 1u << F_ALLOC;
};
// Plain types on which a byte-wise short cut gives another answer than the
// type's own operations.
struct EPad {                             // padding bytes differ between equal values; equality is coarser than identity
  char c = 0; long v = 0; short w = 0;
  bool operator==(const EPad& o) const { return v / 2 == o.v / 2; }
};
struct EBig {                             // several cache lines, every word checked
  long w[37] = {};
  bool operator==(const EBig& o) const { return w[0] == o.w[0]; }
};
struct TrPlain { static constexpr bool copyable = true, tracked = false; static constexpr unsigned faults = 1u << F_ALLOC; };
template <> struct Tr<EPad> : TrPlain {
  static EPad mk(long v) {
    EPad e; memset(static_cast<void*>(&e), 0x5A ^ int(sh->span_len), sizeof e);
    e.c = char(v * 7); e.v = v; e.w = short(v * 3); return e;
  }
  static long val(const EPad& e) { if (e.c != char(e.v * 7) || e.w != short(e.v * 3)) violate(CONTENT, "a plain element was copied incompletely"); return e.v; }
};
template <> struct Tr<EBig> : TrPlain {
  static EBig mk(long v) { EBig e; for (int i = 0; i < 37; i++) e.w[i] = v * (i + 1); return e; }
  static long val(const EBig& e) { for (int i = 0; i < 37; i++) if (e.w[i] != e.w[0] * (i + 1)) violate(CONTENT, "a plain element was copied incompletely"); return e.w[0]; }
};
constexpr long NEGZERO = -1000001;        // NaNs and both zeros among ordinary numbers
template <> struct Tr<double> : TrPlain {
  static bool nan(long v) { return v > 0 && v % 8 == 3; }
  static double mk(long v) {
    double d = double(v);
    if (v == NEGZERO) d = -0.0;
    else if (nan(v)) { uint64_t b = 0x7FF8000000000000ull | uint64_t(v); memcpy(&d, &b, sizeof d); }
    return d;
  }
  static long val(const double& e) {
    uint64_t b; memcpy(&b, &e, sizeof b);
    if (b == 1ull << 63) return NEGZERO;
    if ((b >> 48) == 0x7FF8) return long(b & 0xFFFFFFFFFFFFull);
    return long(e);
  }
};
// value after a round trip through the type
template <class E> long norm(long v) {
  if constexpr (std::is_same_v<E, unsigned char>) return (unsigned char)v;
  else if constexpr (std::is_same_v<E, double>) return v > 0 && v % 8 == 5 ? (v & 8 ? NEGZERO : 0) : v;
  else return v;
}
// what the type's own == says about two values
template <class E> bool same(long a, long b) {
  if constexpr (std::is_same_v<E, EPad>) return a / 2 == b / 2;
  else if constexpr (std::is_same_v<E, double>) {
    if (Tr<double>::nan(a) || Tr<double>::nan(b)) return false;
    return (a == NEGZERO ? 0 : a) == (b == NEGZERO ? 0 : b);
  } else return a == b;
}

inline void finish_run() {                 // everything the client owned is gone
  g.where = "end of run";
  if (reg.n) violate(LEAK, "%u element(s) were never destroyed", reg.n);
  if (heap.live) {
    uint64_t sz = 0; uint32_t st = 0, k = 0;
    for (uint32_t i = 0; i < heap.ntab; i++) if (heap.tab[i].live) { sz = heap.tab[i].size; st = heap.tab[i].step; k = heap.tab[i].kind; break; }
    violate(LEAK, "%llu block(s) never released; the first, %llu bytes from %s, was obtained in step %u",
            (unsigned long long)heap.live, (unsigned long long)sz, kind_name(k), st);
  }
}
inline void start_run() { reg.reset(); next_arena = 0; }

// storage for an object under test: poisoned, pattern-filled memory
template <class T> struct Slot {
  T* p = nullptr;
  void* raw = nullptr;
  void* frame() { raw = heap.alloc(sizeof(T), alignof(T) < 16 ? 16 : alignof(T), K_FRAME); return raw; }
  void drop_frame() { heap.free(raw, K_FRAME, 0, 0); raw = nullptr; }
  explicit operator bool() const { return p != nullptr; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
};


// what every iterator has to keep to at a position that holds an element
template <class IT> void iterator_protocol(IT a, const char* what) {
  if constexpr (std::is_class_v<IT>) {
    IT c = a;
    bool self = std::addressof(++c) == std::addressof(c);
    IT d = a; IT old = d++;
    if (!self) violate(CONTENT, "%s: pre-increment does not return the iterator", what);
    if (!(old == a) || old != a || std::addressof(*old) != std::addressof(*a)) violate(CONTENT, "%s: post-increment does not return the old position", what);
    if (!(d == c) || d == a) violate(CONTENT, "%s: post-increment and pre-increment lead to different positions", what);
    if (std::addressof(*a) != static_cast<const volatile void*>(a.operator->())) violate(CONTENT, "%s: -> and * give different elements", what);
    if constexpr (requires(IT& x) { --x; x--; }) {
      IT e = c; bool me = std::addressof(--e) == std::addressof(e);
      IT f = c; IT was = f--;
      if (!me || !(e == a)) violate(CONTENT, "%s: pre-decrement does not undo increment", what);
      if (!(was == c) || !(f == a)) violate(CONTENT, "%s: post-decrement is wrong", what);
    }
  }
}
} // namespace sim
#endif
