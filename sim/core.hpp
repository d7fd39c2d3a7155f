// Deterministic simulation core.  One translation unit per world includes this
// header; `main` is at the bottom (SIM_MAIN).  Every choice a run makes comes
// from sim::choose(), which reads a tape: the tape is drawn from one PRNG when
// exploring and read back verbatim when replaying.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP

#include <algorithm>
#include <bit>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cwchar>
#include <exception>
#include <functional>
#include <initializer_list>
#include <ios>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
#ifndef SIM_ASAN
#define SIM_ASAN 0
#endif

#define SIM_NOASAN __attribute__((no_sanitize("address"), no_sanitize("thread"), no_sanitize("coverage"), noinline))

namespace sim {

// ------------------------------------------------------------------- enums
enum Fault : unsigned {
  F_ALLOC, F_COPY, F_MOVE, F_ASSIGN, F_DEFAULT, F_COMPARE, F_CALL, F_SOURCE,
  F_SINK, F_ITER, F_EOFGATE, NFAULT
};
inline const char* const fault_name[NFAULT] = {
  "alloc_fails", "copy_throws", "move_throws", "assign_throws", "default_ctor_throws",
  "comparator_throws", "callable_throws", "source_throws", "sink_fails",
  "input_iterator_throws", "temporary_end_of_data"
};

enum Cls : unsigned {
  OK, CONTENT, STRONG, BASIC, INDEP, ALIAS, STABLE, SWALLOW, EXC, TERMINATE, LEAK,
  LIFETIME, MISMATCH, MEM, CRASH, HANG, COST, DELIVER, STATE, OUTPUT, RACE, OWN, CALLS, NCLS
};
inline const char* const cls_name[NCLS] = {
  "OK", "CONTENT", "STRONG", "BASIC", "INDEP", "ALIAS", "STABLE", "SWALLOW", "EXC",
  "TERMINATE", "LEAK", "LIFETIME", "MISMATCH", "MEM", "CRASH", "HANG", "COST",
  "DELIVER", "STATE", "OUTPUT", "RACE", "OWN", "CALLS"
};

// profile bits (chosen by the check, recorded in the replay file)
enum : unsigned { P_FAULT = 1, P_COST = 2, P_COPY = 4, P_HOLD = 8 };

// ------------------------------------------------------- shared with parent
constexpr uint32_t TAPE_MAX = 1u << 20, SPAN_MAX = 1u << 16;
constexpr uint32_t NPROBE = 64, STATE_TAB = 1u << 18, COV_MAX = 1u << 17;
struct Viol {
  uint32_t cls; uint32_t faults_fired; uint64_t index; uint64_t hash; char msg[600];
};
struct Shm {
  volatile uint64_t cur, beat;          // run in progress, liveness counter
  volatile uint32_t has_viol;
  Viol viol;
  uint32_t tape_len, span_len;
  uint32_t tape[TAPE_MAX];
  uint32_t span[SPAN_MAX];
  uint64_t last_hash;
  // statistics
  uint64_t runs, steps, calls, failed_calls, edges, nontrivial, fault_runs, sched_switches;
  uint64_t armed[NFAULT], fired[NFAULT], foreign[NCLS];
  uint64_t probe[NPROBE];
  uint64_t states; uint64_t state_tab[STATE_TAB];
  uint64_t nhash; uint64_t hash_cap; 
  uint32_t cov_n; uint8_t cov[COV_MAX];
  uint32_t trace_len; char trace[1u << 21];
};
inline Shm* sh = nullptr;
inline uint64_t* hashes = nullptr;       // shared array of trace hashes (nontrivial runs)

// ------------------------------------------------------------------- state
struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r{a * 0xD6E8FEB86659FD93ull ^ (b + 0x2545F4914F6CDD1Dull)};
  r.next();
  return r.next() ^ b * 0x9E3779B97F4A7C15ull;
}

struct G {
  Rng rng{0};
  bool replay = false, tracing = false, nofault = false;
  const uint32_t* rtape = nullptr; uint32_t rlen = 0, rpos = 0;
  unsigned profile = 0;
  uint64_t hash = 0, run_index = 0;
  // fault plan of the current call
  unsigned mask = 0; uint32_t countdown = 0; bool persistent = false; bool armed = false;
  uint32_t fired_in_call = 0; unsigned last_fired = 0; uint64_t fault_id = 0;
  uint32_t fired_in_run = 0;
  unsigned enabled = 0;              // fault kinds enabled in this run (swarm)
  unsigned rate = 0;                 // 1-in-rate calls get a plan; 0 = never
  // accounting
  int in_sut = 0;
  uint64_t edges_call = 0, edges_last = 0, edge_limit = 40'000'000, calls_in_run = 0;
  uint64_t compares = 0, constructs = 0, copies = 0, moves = 0, assigns = 0, destroys = 0;
  bool lenient = false;
  // what kind of step is running (for attributing a mismatch)
  const char* where = "";
};
inline G g;

[[noreturn]] void violate(Cls c, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// -------------------------------------------------------------------- log
inline void hash_bytes(const void* p, size_t n) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  uint64_t h = g.hash;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull;
  g.hash = h ^ (h >> 29);
}
inline void note(uint64_t x) { g.hash = (g.hash ^ x) * 0x9E3779B97F4A7C15ull; g.hash ^= g.hash >> 31; }
inline void trace_raw(const char* s) {
  size_t n = strlen(s);
  if (sh->trace_len + n + 2 < sizeof sh->trace) {
    memcpy(sh->trace + sh->trace_len, s, n);
    sh->trace_len += n;
    sh->trace[sh->trace_len++] = '\n';
    sh->trace[sh->trace_len] = 0;
  }
}
__attribute__((format(printf, 1, 2))) inline void log(const char* fmt, ...) {
  char b[512];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n > 511) n = 511;
  hash_bytes(b, size_t(n));
  if (g.tracing) trace_raw(b);
}

// ------------------------------------------------------------------ choices
inline uint32_t choose(uint32_t n) {          // uniform in [0,n)
  if (n <= 1) n = 1;
  uint32_t v;
  if (g.replay) {
    v = g.rpos < g.rlen ? g.rtape[g.rpos] : 0;
    g.rpos++;
    if (v >= n) v %= n;
  } else {
    v = n == 1 ? 0 : uint32_t((g.rng.next() >> 32) * uint64_t(n) >> 32);
  }
  if (sh->tape_len < TAPE_MAX) sh->tape[sh->tape_len++] = v;
  return v;
}
inline bool one_in(uint32_t n) { return choose(n) == n - 1; }   // 0 (the shrink target) is "no"
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
inline void begin_step() {
  if (sh->span_len < SPAN_MAX) sh->span[sh->span_len++] = sh->tape_len;
  sh->steps++;
}
// size-skewed integer: mostly small, sometimes large
inline uint32_t skewed(uint32_t max) {
  if (max == 0) return 0;
  switch (choose(4)) {
    case 0: case 1: return choose(std::min<uint32_t>(max, 3) + 1);
    case 2: return choose(std::min<uint32_t>(max, 17) + 1);
    default: return choose(max + 1);
  }
}
// rarely, a size far beyond the usual ones, often next to a power of two; 0 otherwise
inline uint32_t huge(uint32_t rarity, uint32_t max) {
  if (!one_in(rarity)) return 0;
  static const uint32_t edges[] = {128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536};
  if (choose(2)) return 1 + choose(max);
  uint32_t n = edges[choose(10)] - 1 + choose(3);
  return n > max ? max : n;
}
inline void state(uint64_t h) {               // abstract state reached
  h = mix(h, 77); if (!h) h = 1;
  uint32_t i = uint32_t(h) & (STATE_TAB - 1);
  for (int k = 0; k < 32; k++, i = (i + 1) & (STATE_TAB - 1)) {
    if (sh->state_tab[i] == h) return;
    if (!sh->state_tab[i]) { sh->state_tab[i] = h; sh->states++; return; }
  }
}
inline const char* probe_name[NPROBE];
inline void probe(unsigned i, const char* name) { if (i < NPROBE) { probe_name[i] = name; sh->probe[i]++; } }

// ------------------------------------------------------------------- faults
struct Injected { unsigned kind; uint64_t id; };
struct InjectedAlloc : std::bad_alloc {
  uint64_t id;
  explicit InjectedAlloc(uint64_t i) : id(i) {}
  const char* what() const noexcept override { return "sim: injected allocation failure"; }
};
inline bool fire(unsigned kind) {             // does a fault of this kind happen here?
  if (!g.armed || !(g.mask & (1u << kind))) return false;
  if (g.countdown > 1) { g.countdown--; return false; }
  if (g.countdown == 0 && !g.persistent) return false;
  g.countdown = 0;
  if (!g.fired_in_call) g.last_fired = kind;
  g.fired_in_call++; g.fired_in_run++; g.fault_id++;
  sh->fired[kind]++;
  return true;
}
inline void fault_point(unsigned kind) {
  if (fire(kind)) {
    if (kind == F_ALLOC) throw InjectedAlloc(g.fault_id);
    throw Injected{kind, g.fault_id};
  }
}
inline void draw_faults(unsigned possible, unsigned every) {   // per-run swarm configuration
  g.enabled = 0; g.rate = 0;
  if (!(g.profile & P_FAULT)) return;
  for (unsigned k = 0; k < NFAULT; k++)
    if (possible & (1u << k)) { if (choose(3)) g.enabled |= 1u << k; }
  if (!g.enabled) g.enabled = possible & 1u ? 1u : possible;
  static const unsigned rates[] = {2, 3, 5, 12};
  g.rate = rates[choose(4)] * every;
}
struct Plan { unsigned mask = 0; uint32_t countdown = 0; bool persistent = false; };
inline Plan plan(unsigned relevant) {         // drawn inside a step, before the call
  Plan p;
  if (!g.rate) return p;
  if (!one_in(g.rate)) return p;
  unsigned m = g.enabled & relevant;
  if (!m) return p;
  unsigned n = unsigned(std::popcount(m)), pick = choose(n + 1);
  if (pick == n) p.mask = m;
  else for (unsigned k = 0, j = 0; k < NFAULT; k++)
    if (m & (1u << k)) { if (j++ == pick) p.mask = 1u << k; }
  switch (choose(4)) {
    case 0: case 1: p.countdown = 1 + choose(3); break;
    case 2: p.countdown = 1 + choose(8); break;
    default: p.countdown = 1 + choose(64); break;
  }
  p.persistent = choose(4) == 3;
  for (unsigned k = 0; k < NFAULT; k++) if (p.mask & (1u << k)) sh->armed[k]++;
  if (g.nofault) p.mask = 0;
  return p;
}

// ----------------------------------------------------------------- sim heap
enum Kind : uint32_t { K_NEW = 1, K_NEWARR, K_NEWAL, K_NEWARRAL, K_SIMALLOC, K_FRAME };
inline const char* kind_name(uint32_t k) {
  static const char* n[] = {"?", "operator new", "operator new[]", "operator new(align)",
                            "operator new[](align)", "allocator", "frame"};
  return (k & 255) < 7 ? n[k & 255] : "?";
}
struct Block { uint64_t off; uint64_t size; uint32_t kind, align; bool live; uint32_t step; };
struct Heap {
  static constexpr uintptr_t BASE = 0x200000000000ull;
  static constexpr uint64_t CAP = 2ull << 30, RUN_LIMIT = 1ull << 30;
  unsigned char* base = nullptr;
  uint64_t used = 0, bytes = 0, live_bytes = 0, live = 0, nalloc = 0;
  Block* tab = nullptr; uint32_t ntab = 0; static constexpr uint32_t TABCAP = 1u << 22;
  unsigned char pattern = 0xAB;
  uint64_t floor = 0; uint32_t floor_tab = 0;      // blocks obtained before main stay
  void (*free_hook)(void*, uint64_t) = nullptr;
  void init() {
    if (base) return;
    void* p = mmap(reinterpret_cast<void*>(BASE), CAP, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(BASE)) { fprintf(stderr, "sim: arena mmap failed\n"); _exit(2); }
    base = static_cast<unsigned char*>(p);
    tab = static_cast<Block*>(mmap(nullptr, sizeof(Block) * TABCAP, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  bool has(const void* p) const {
    auto a = reinterpret_cast<uintptr_t>(p);
    return a >= BASE && a < BASE + CAP;
  }
  void reset(unsigned char pat) {
#if SIM_ASAN
    if (used) __asan_poison_memory_region(base, used + 4096);
#endif
    if (used > (64u << 20)) madvise(base, CAP, MADV_DONTNEED);
    used = floor; ntab = floor_tab; bytes = live_bytes = live = nalloc = 0; pattern = pat;
  }
  SIM_NOASAN void* alloc(uint64_t n, uint32_t align, uint32_t kind) {
    if (align < 16) align = 16;
    uint64_t o = used + 32;
    o = (o + align - 1) / align * align;
    if (n > RUN_LIMIT || o + n + 64 > RUN_LIMIT || ntab >= TABCAP) {
      if (n > (1ull << 36)) throw std::bad_alloc();      // what any real system would say
      violate(HANG, "runaway allocation: %llu bytes requested with %llu in use",
              (unsigned long long)n, (unsigned long long)used);
    }
    uint32_t id = ntab++;
    tab[id] = Block{o, n, kind, align, true, uint32_t(sh->span_len)};
    used = o + n + 32; used = (used + 15) / 16 * 16;
    unsigned char* p = base + o;
#if SIM_ASAN
    __asan_poison_memory_region(base + o - 16, used - o + 16);
    __asan_unpoison_memory_region(p, n);
#endif
    memcpy_raw(p - 8, &id, 4); uint32_t m = 0x51B10C4Bu; memcpy_raw(p - 4, &m, 4);
    fill(p, n);
    bytes += n; live_bytes += n; live++; nalloc++;
    return p;
  }
  bool live_range(const void* p, uint64_t n) const {
    uint64_t o = uint64_t(static_cast<const unsigned char*>(p) - base);
    uint32_t lo = 0, hi = ntab;
    while (lo < hi) { uint32_t x = (lo + hi) / 2; if (tab[x].off <= o) lo = x + 1; else hi = x; }
    return lo && o + n <= tab[lo - 1].off + tab[lo - 1].size && tab[lo - 1].live;
  }
  // the kind of the block that holds an address, 0 if none does
  uint32_t kind_at(const void* p) const {
    uint64_t o = uint64_t(static_cast<const unsigned char*>(p) - base);
    uint32_t lo = 0, hi = ntab;
    if (!has(p)) return 0;
    while (lo < hi) { uint32_t x = (lo + hi) / 2; if (tab[x].off <= o) lo = x + 1; else hi = x; }
    return lo && o < tab[lo - 1].off + tab[lo - 1].size && tab[lo - 1].live ? tab[lo - 1].kind : 0;
  }
  SIM_NOASAN static void memcpy_raw(unsigned char* d, const void* s, size_t n) {
    const unsigned char* q = static_cast<const unsigned char*>(s);
    for (size_t i = 0; i < n; i++) d[i] = q[i];
  }
  void fill(unsigned char* p, uint64_t n) { memset(p, pattern, n); }
  SIM_NOASAN void free(void* q, uint32_t kind, uint64_t size, uint32_t align) {   // size/align 0: unknown
    unsigned char* p = static_cast<unsigned char*>(q);
    uint32_t id = 0, m = 0;
    if (p >= base + 32) {
      for (int i = 0; i < 4; i++) { reinterpret_cast<unsigned char*>(&id)[i] = (p - 8)[i]; reinterpret_cast<unsigned char*>(&m)[i] = (p - 4)[i]; }
    }
    if (m != 0x51B10C4Bu || id >= ntab || base + tab[id].off != p)
      violate(MISMATCH, "%s given a pointer that is not the start of a block", kind_name(kind));
    Block& b = tab[id];
    if (!b.live) violate(MISMATCH, "block of %llu bytes released twice", (unsigned long long)b.size);
    if (b.kind != kind)
      violate(MISMATCH, "block obtained by %s released by %s%s", kind_name(b.kind), (b.kind & 255) == (kind & 255) ? "another " : "", kind_name(kind));
    if (size && size != b.size)
      violate(MISMATCH, "block of %llu bytes released as %llu bytes", (unsigned long long)b.size, (unsigned long long)size);
    if (align && align > 16 && align != b.align)
      violate(MISMATCH, "block aligned %u released as aligned %u", b.align, align);
    b.live = false; live--; live_bytes -= b.size;
    if (free_hook) free_hook(p, b.size);
#if SIM_ASAN
    __asan_unpoison_memory_region(p, b.size);      // an array cookie may be poisoned
#endif
    fill_free(p, b.size);
#if SIM_ASAN
    __asan_poison_memory_region(p, b.size);
#endif
  }
  void fill_free(unsigned char* p, uint64_t n) { memset(p, 0xDB, n); }
};
inline Heap heap;

struct Sut { Sut() { g.in_sut++; } ~Sut() { g.in_sut--; } Sut(const Sut&) = delete; };
// harness code running inside a library call (callbacks): plain malloc, no faults
struct User {
  int saved; bool armed;
  User() : saved(g.in_sut), armed(g.armed) { g.in_sut = 0; g.armed = false; }
  ~User() { g.in_sut = saved; g.armed = armed; }
  User(const User&) = delete;
};
// library code run on the harness's behalf: simulated heap, no faults
struct Quiet {
  bool armed;
  Quiet() : armed(g.armed) { g.in_sut++; g.armed = false; }
  ~Quiet() { g.in_sut--; g.armed = armed; }
  Quiet(const Quiet&) = delete;
};

struct NoCount {                              // simulator bookkeeping is not library work
  uint64_t s = g.edges_call;
  NoCount() {}
  ~NoCount() { g.edges_call = s; }
  NoCount(const NoCount&) = delete;
};
inline void* do_new(size_t n, size_t al, uint32_t kind) {
  if (g.in_sut > 0) {
    NoCount nc;
    fault_point(F_ALLOC);
    return heap.alloc(n, uint32_t(al), kind);
  }
  void* p = nullptr;
  if (al > 16) { if (posix_memalign(&p, al, n ? n : 1)) p = nullptr; }
  else p = malloc(n ? n : 1);
  if (!p) { fprintf(stderr, "sim: out of real memory\n"); _exit(2); }
  return p;
}
inline void do_delete(void* p, size_t n, size_t al, uint32_t kind) noexcept {
  if (!p) return;
  NoCount nc;
  if (heap.has(p)) heap.free(p, kind, n, uint32_t(al));
  else ::free(p);
}

inline uint32_t next_arena = 0;
template <class T> struct alloc {             // the simulator's own allocator
  using value_type = T;
  uint32_t arena;                             // each one made from nothing is an arena of its own
  alloc() noexcept : arena(++next_arena) {}
  template <class U> alloc(const alloc<U>& o) noexcept : arena(o.arena) {}
  T* allocate(size_t n) {
    NoCount nc;
    fault_point(F_ALLOC);
    return static_cast<T*>(heap.alloc(n * sizeof(T), alignof(T), K_SIMALLOC | arena << 8));
  }
  void deallocate(T* p, size_t n) {
    NoCount nc;
    if (!p) violate(MISMATCH, "allocator asked to deallocate a null pointer");
    if (!heap.has(p)) violate(MISMATCH, "allocator asked to deallocate a foreign pointer");
    if (n * sizeof(T) == 0) violate(MISMATCH, "allocator asked to deallocate zero objects");
    heap.free(p, K_SIMALLOC | arena << 8, n * sizeof(T), alignof(T));
  }
  friend bool operator==(const alloc& a, const alloc& b) { return a.arena == b.arena; }
};

template <class A> uint32_t arena_of(const A& a) { if constexpr (requires { a.arena; }) return K_SIMALLOC | a.arena << 8; else return 0; }

// ------------------------------------------------------- calling the library
enum Res { RES_OK, RES_FAULT, RES_RANGE, RES_IOS };
struct Outcome { Res r = RES_OK; bool threw() const { return r != RES_OK; } };

enum CallFlags : unsigned { C_NORMAL = 0, C_EXPECT_RANGE = 1, C_STREAM = 2 };

// Run one library call under a fault plan; classify how it ended.
template <class F> Outcome call(const char* what, Plan p, F&& f, unsigned flags = 0) {
  Outcome o;
  g.where = what;
  g.mask = p.mask; g.countdown = p.countdown; g.persistent = p.persistent;
  g.fired_in_call = 0; g.armed = p.mask != 0; g.edges_call = 0;
  sh->calls++; g.calls_in_run++; sh->beat = sh->beat + 1;
  const char* other = nullptr;
  char buf[200];
  bool swallowed = false;
  g.in_sut++;
  try {
    f();
    if (g.fired_in_call && !(flags & C_STREAM)) swallowed = true;
  } catch (const Injected& e) {
    o.r = RES_FAULT;
    if (!g.fired_in_call) other = "an injected exception nobody injected";
  } catch (const InjectedAlloc&) {
    o.r = RES_FAULT;
    if (!g.fired_in_call) other = "an injected bad_alloc nobody injected";
  } catch (const std::bad_alloc&) {
    o.r = RES_FAULT;
    if (!g.fired_in_call) other = "bad_alloc although no allocation failed";
    else if (g.last_fired != F_ALLOC) other = "bad_alloc in place of the user's exception";
  } catch (const std::out_of_range& e) {
    o.r = RES_RANGE;
    if (!(flags & C_EXPECT_RANGE)) other = "out_of_range";
  } catch (const std::ios_base::failure& e) {
    o.r = RES_IOS;
    if (!(flags & C_STREAM)) other = "ios_base::failure";
  } catch (const std::exception& e) {
    o.r = RES_FAULT;
    snprintf(buf, sizeof buf, "unexpected exception: %s", e.what()); other = buf;
  } catch (...) { o.r = RES_FAULT; other = "an unexpected exception"; }
  g.in_sut--;
  g.armed = false;
  sh->edges += g.edges_call; g.edges_last = g.edges_call;
  if (other) violate(EXC, "%s ended with %s", what, other);
  if (swallowed) violate(SWALLOW, "%s reported success although %s inside it", what, fault_name[g.last_fired]);
  if ((flags & C_EXPECT_RANGE) && o.r != RES_RANGE) violate(EXC, "%s did not report out_of_range", what);
  if (o.r == RES_FAULT) { sh->failed_calls++; log("  -> threw (%s #%u)", fault_name[g.last_fired], g.fired_in_call); }
  note(o.r);
  return o;
}
template <class F> Outcome call(const char* what, F&& f, unsigned flags = 0) {
  return call(what, Plan{}, std::forward<F>(f), flags);
}

} // namespace sim

// ---------------------------------------------------- global new and delete
void* operator new(size_t n) { return sim::do_new(n, 0, sim::K_NEW); }
void* operator new[](size_t n) { return sim::do_new(n, 0, sim::K_NEWARR); }
void* operator new(size_t n, std::align_val_t a) { return sim::do_new(n, size_t(a), sim::K_NEWAL); }
void* operator new[](size_t n, std::align_val_t a) { return sim::do_new(n, size_t(a), sim::K_NEWARRAL); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim::do_new(n, 0, sim::K_NEW); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::do_new(n, 0, sim::K_NEWARR); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { sim::do_delete(p, 0, 0, sim::K_NEW); }
void operator delete[](void* p) noexcept { sim::do_delete(p, 0, 0, sim::K_NEWARR); }
void operator delete(void* p, size_t n) noexcept { sim::do_delete(p, n, 0, sim::K_NEW); }
void operator delete[](void* p, size_t n) noexcept { sim::do_delete(p, n, 0, sim::K_NEWARR); }
void operator delete(void* p, std::align_val_t a) noexcept { sim::do_delete(p, 0, size_t(a), sim::K_NEWAL); }
void operator delete[](void* p, std::align_val_t a) noexcept { sim::do_delete(p, 0, size_t(a), sim::K_NEWARRAL); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { sim::do_delete(p, n, size_t(a), sim::K_NEWAL); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { sim::do_delete(p, n, size_t(a), sim::K_NEWARRAL); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_delete(p, 0, 0, sim::K_NEW); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_delete(p, 0, 0, sim::K_NEWARR); }

#endif
