// Runtime of the thread worlds: seeded scheduler with one running thread at a
// time, happens-before race detector, and the callbacks of clang's thread
// instrumentation (the TSan runtime itself is not linked).  Not instrumented.
#include "sim/engine.hpp"
#include "thr/api.hpp"
#include <pthread.h>
#include <semaphore.h>

extern "C" { extern char __data_start, _end; extern char __executable_start; }
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;

namespace {
constexpr int NT = thr::NT;
constexpr uint64_t NEVER = ~0ull;

struct Ctx {                                   // what belongs to a thread while it is off the processor
  unsigned mask = 0; uint32_t countdown = 0; bool persistent = false, armed = false;
  uint32_t fired_in_call = 0; unsigned last_fired = 0; int in_sut = 0; uint64_t edges_call = 0; const char* where = "";
  void save() { mask = g.mask; countdown = g.countdown; persistent = g.persistent; armed = g.armed; fired_in_call = g.fired_in_call; last_fired = g.last_fired; in_sut = g.in_sut; edges_call = g.edges_call; where = g.where; }
  void load() const { g.mask = mask; g.countdown = countdown; g.persistent = persistent; g.armed = armed; g.fired_in_call = fired_in_call; g.last_fired = last_fired; g.in_sut = in_sut; g.edges_call = edges_call; g.where = where; }
};
struct Seen { std::vector<uint64_t> v; std::vector<std::pair<size_t, const char*>> marks; };

struct Sched {
  bool conc = false; int n = 0, cur = 0; void (*body)(int) = nullptr;
  Ctx ctx[NT]; bool done[NT] = {}; sem_t sem[NT], exit[NT], main_sem; pthread_t th[NT];
  uint64_t dist = NEVER, since = 0; uint32_t target = 0, mean = 20, preempts = 0; bool hot_only = false, mixed = false;
  uint32_t vc[NT][NT] = {};
  Seen seen[2][NT]; int phase = 0; int solo = 0;
  std::string dev[4]; size_t devpos[4] = {}; bool held[8] = {};
} S;
int me() { return S.conc ? S.cur : S.solo; }

// ------------------------------------------------------------------ scheduler
void draw_next() {
  if (S.preempts >= 600) { S.dist = NEVER; return; }
  begin_step();
  uint32_t m = choose(64);
  if (m == 0) { S.dist = NEVER; return; }
  S.dist = S.mixed ? 1 + choose(1u << choose(12)) : 1 + choose(2 * S.mean);
  S.target = choose(NT);
}
void switch_to(int t) {
  int f = S.cur;
  if (t == f) return;
  S.ctx[f].save();
  S.cur = t; S.since = 0;
  S.ctx[t].load();
  sh->sched_switches++;
  note(0x5000 + uint64_t(t));
  bool fin = S.done[f];
  sem_post(&S.sem[t]);
  if (!fin) while (sem_wait(&S.sem[f]) != 0) {}
}
int other(uint32_t pick) {                     // a runnable thread other than the current one
  int c[NT], k = 0;
  for (int i = 1; i < S.n; i++) { int t = (S.cur + i) % S.n; if (!S.done[t]) c[k++] = t; }
  return k ? c[pick % uint32_t(k)] : -1;
}
void preempt(int t) {
  if (g.tracing) { char b[96]; snprintf(b, sizeof b, "      -- T%d paused inside [%s], T%d runs", S.cur, g.where, t); trace_raw(b); }
  uint64_t h = uint64_t(S.cur * NT + t);         // which operation was paused inside which
  for (const char* w : {g.where, S.ctx[t].where}) for (; *w; w++) h = mix(h, uint64_t(*w));
  state(h);
  switch_to(t);
}
inline void point(bool hot = true) {
  if (!S.conc || g.in_sut <= 0) return;
  if (S.dist != NEVER && (hot || !S.hot_only) && --S.dist == 0) {
    int t = other(S.target);
    S.preempts++;
    draw_next();
    if (t >= 0) { preempt(t); return; }
  }
  if (++S.since > 200000) { S.since = 0; int t = other(0); if (t >= 0) preempt(t); }   // nobody waits for ever
}
uint64_t stuck = 0;
void yield_blocked() {
  int t = other(0);
  if (t < 0 || ++stuck > 1000000) violate(HANG, "threads block each other for ever");
  switch_to(t);
}

// ------------------------------------------------------------- race detector
struct Acc { uint32_t clk; uint8_t mask; };
struct Cell { uintptr_t key; Acc a[NT][4]; const char* where[NT]; };   // plain read/write, atomic read/write
constexpr uint32_t NCELL = 1u << 17;
Cell* cells = nullptr; uint32_t ncells = 0;
Cell* cell(uintptr_t k) {
  uint32_t i = uint32_t((k * 0x9E3779B97F4A7C15ull) >> 40) & (NCELL - 1);
  for (;; i = (i + 1) & (NCELL - 1)) {
    if (cells[i].key == k) return &cells[i];
    if (!cells[i].key) { if (ncells * 2 > NCELL) return nullptr; ncells++; cells[i].key = k; return &cells[i]; }
  }
}
inline bool tracked(uintptr_t a) {
  return (a >= Heap::BASE && a < Heap::BASE + Heap::CAP) ||
         (a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end));
}
// returns whether the memory is of interest to several threads
bool touch(uintptr_t a, size_t n, int kind) {
  if (!S.conc || g.in_sut <= 0 || !n || !tracked(a)) return false;
  bool hot = kind >= 2 || !heap.has(reinterpret_cast<void*>(a));
  int t = S.cur;
  uintptr_t last = a + n - 1;
  static const bool clash[4][4] = {{0, 1, 0, 1}, {1, 1, 1, 1}, {0, 1, 0, 0}, {1, 1, 0, 0}};
  for (uintptr_t k = a >> 3; k <= last >> 3; k++) {
    Cell* c = cell(k);
    if (!c) return hot;
    unsigned lo = k == a >> 3 ? unsigned(a & 7) : 0, hi = k == last >> 3 ? unsigned(last & 7) : 7;
    uint8_t m = uint8_t((0xFFu >> (7 - hi)) & (0xFFu << lo));
    for (int o = 0; o < S.n; o++)
      if (o != t)
        for (int j = 0; j < 4; j++) {
          if (c->a[o][j].mask) hot = true;
          if (clash[kind][j] && (c->a[o][j].mask & m) && c->a[o][j].clk > S.vc[t][o]) {
            static const char* kn[] = {"read", "write", "atomic read", "atomic write"};
            violate(RACE, "conflicting accesses: %s by T%d in [%s] and %s by T%d in [%s], to %s", kn[j], o, c->where[o], kn[kind], t, g.where,
                    heap.has(reinterpret_cast<void*>(k << 3)) ? "heap memory" : "a process-wide variable");
          }
        }
    Acc& x = c->a[t][kind];
    uint32_t clk = S.vc[t][t];
    if (x.clk != clk) { x.clk = clk; x.mask = m; } else x.mask |= m;
    c->where[t] = g.where;
  }
  return hot;
}
inline void access(const volatile void* p, size_t n, int kind) {
  if (g.in_sut > 0 && n && heap.has(const_cast<const void*>(p)) && !heap.live_range(const_cast<const void*>(p), n))
    violate(MEM, "%s heap memory that was freed or never allocated", kind & 1 ? "writes" : "reads");
  point(touch(reinterpret_cast<uintptr_t>(p), n, kind));
}

struct Off {                                   // runtime bookkeeping inside library code
  int s; bool a; Off() : s(g.in_sut), a(g.armed) { g.in_sut = 0; g.armed = false; } ~Off() { g.in_sut = s; g.armed = a; }
};
struct Clock { uint32_t c[NT] = {}; };
std::map<uintptr_t, Clock>* syncs = nullptr;
void acquire(const volatile void* p) {
  if (!S.conc) return;
  auto it = syncs->find(reinterpret_cast<uintptr_t>(p));
  if (it != syncs->end()) for (int i = 0; i < NT; i++) S.vc[S.cur][i] = std::max(S.vc[S.cur][i], it->second.c[i]);
}
void release(const volatile void* p) {
  if (!S.conc) return;
  Off off;
  Clock& k = (*syncs)[reinterpret_cast<uintptr_t>(p)];
  for (int i = 0; i < NT; i++) k.c[i] = std::max(k.c[i], S.vc[S.cur][i]);
  S.vc[S.cur][S.cur]++;
}
void freed(void* p, uint64_t n) { touch(reinterpret_cast<uintptr_t>(p), size_t(n), 1); }

// -------------------------------------------------------------- output devices
struct DevBuf : std::streambuf {
  int d = 0;
  int_type overflow(int_type c) override { point(); if (c != traits_type::eof()) { Off o; S.dev[d].push_back(char(c)); } return traits_type::not_eof(c); }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    point();
    access(s, size_t(n), 0);
    for (std::streamsize i = 0; i < n; i++) { { Off o; S.dev[d].push_back(s[i]); } if (i % 7 == 3) point(); }
    return n;
  }
  int sync() override { point(); return 0; }
} devbuf[3];
bool whole = false;
ssize_t cookie_write(void*, const char* s, size_t n) { if (!whole) point(); { Off o; S.dev[3].append(s, n); } if (!whole) point(); return ssize_t(n); }

void* entry(void* arg) {
  int t = int(reinterpret_cast<intptr_t>(arg));
  static thread_local unsigned char alt[32768];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  while (sem_wait(&S.sem[t]) != 0) {}
  S.body(t);
  S.done[t] = true;
  int left = 0;
  for (int i = 0; i < S.n; i++) left += !S.done[i];
  if (!left) sem_post(&S.main_sem);
  else { begin_step(); int k = other(choose(NT)); if (g.tracing) { char b[64]; snprintf(b, sizeof b, "      -- T%d finished, T%d runs", t, k); trace_raw(b); } switch_to(k); }
  while (sem_wait(&S.exit[t]) != 0) {}          // thread-local objects are destroyed one thread after the other
  return nullptr;
}
} // namespace

namespace thr {
unsigned profile() { return g.profile; }
uint32_t choose(uint32_t n) { return sim::choose(n); }
bool one_in(uint32_t n) { return sim::one_in(n); }
void begin_step() { sim::begin_step(); }
void draw_faults() { sim::draw_faults((1u << F_ALLOC) | (1u << F_COPY), 1); }
Plan plan() { sim::Plan p = sim::plan((1u << F_ALLOC) | (1u << F_COPY)); return {p.mask, p.countdown, p.persistent}; }
void log(const char* fmt, ...) {
  Off off;
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (S.phase == 0 && S.conc) sim::log("T%d %s", S.cur, b); else if (S.phase == 0) sim::log("%s", b);
}
void sut(bool on) { g.in_sut += on ? 1 : -1; }
void begin_call(const char* what, Plan p) {
  g.where = what; g.mask = p.mask; g.countdown = p.countdown; g.persistent = p.persistent;
  g.fired_in_call = 0; g.armed = p.mask != 0; g.edges_call = 0;
  sh->calls++; g.calls_in_run++; sh->beat = sh->beat + 1;
  g.in_sut++;
  point();
}
void end_call(int res) {
  point();
  g.in_sut--; g.armed = false; sh->edges += g.edges_call;
  if (res) sh->failed_calls++;
  obs(0xE000 + uint64_t(res));
  if (res) log("  -> threw (%d)", res);
  if (S.phase == 0) note(uint64_t(res));
}
void copy_point() { point(); fault_point(F_COPY); }
void obs(uint64_t x) { Off off; S.seen[S.phase][me()].v.push_back(x); if (S.phase == 0) note(x); }
void obs_bytes(const void* p, size_t n) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  uint64_t h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull;
  obs(n); obs(h);
}
void mark(const char* what) { Off off; Seen& s = S.seen[S.phase][me()]; s.marks.push_back({s.v.size(), what}); }
void device_out(int d) { Off off; obs_bytes(S.dev[d].data() + S.devpos[d], S.dev[d].size() - S.devpos[d]); S.devpos[d] = S.dev[d].size(); }
const char* device_text(int d, size_t& n) { n = S.dev[d].size(); return S.dev[d].data(); }
void stdout_whole(bool on) { whole = on; }
void fail(const char* fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violate(CONTENT, "%s", b); }

void run(int n, bool interleaved, void (*body)(int)) {
  S.phase = interleaved ? 0 : 1; S.n = n;
  for (int d = 0; d < 4; d++) { S.dev[d].clear(); S.devpos[d] = 0; }
  if (!interleaved) {
    for (int t = 0; t < n; t++) { S.solo = t; body(t); }
    S.solo = 0;
    return;
  }
  S.body = body; S.preempts = 0; S.since = 0; stuck = 0;
  static const uint32_t means[] = {2, 8, 40, 200, 1500};
  begin_step();
  uint32_t mode = sim::choose(10);
  S.mixed = mode == 9; S.hot_only = mode >= 5 && mode < 9;     // pause only where threads can meet
  S.mean = S.hot_only ? mode - 4 : means[mode % 5];
  Ctx mainctx; mainctx.save();
  sem_init(&S.main_sem, 0, 0);
  for (int t = 0; t < n; t++) {
    sem_init(&S.sem[t], 0, 0); sem_init(&S.exit[t], 0, 0); S.done[t] = false; S.ctx[t] = Ctx{};
    for (int i = 0; i < NT; i++) S.vc[t][i] = 0;
    S.vc[t][t] = 1;
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4u << 20);
  for (int t = 0; t < n; t++)
    if (pthread_create(&S.th[t], &at, entry, reinterpret_cast<void*>(intptr_t(t)))) { fprintf(stderr, "sim: pthread_create\n"); _exit(2); }
  S.cur = int(sim::choose(uint32_t(n)));
  draw_next();
  S.ctx[S.cur].load();
  S.conc = true;
  sem_post(&S.sem[S.cur]);
  while (sem_wait(&S.main_sem) != 0) {}
  S.conc = false;
  for (int t = 0; t < n; t++) { sem_post(&S.exit[t]); pthread_join(S.th[t], nullptr); }
  mainctx.load();
}
void take(unsigned i) {
  if (!S.conc) return;
  sut(true); point(); sut(false);
  while (S.held[i]) yield_blocked();
  S.held[i] = true;
  acquire(&S.held[i]);
}
void give(unsigned i) {
  if (!S.conc) return;
  release(&S.held[i]);
  S.held[i] = false; stuck = 0;
  sut(true); point(); sut(false);
}
void again() {
  S.phase = 1;
  for (int d = 0; d < 4; d++) { S.dev[d].clear(); S.devpos[d] = 0; }
}
void solo(int t) { S.solo = t; }
void no_leak() {
  if (heap.live) violate(LEAK, "%llu block(s) never released", (unsigned long long)heap.live);
}
void compare(int n) {
  for (int t = 0; t < n; t++) {
    Seen &a = S.seen[0][t], &b = S.seen[1][t];
    size_t m = std::min(a.v.size(), b.v.size()), i = 0;
    while (i < m && a.v[i] == b.v[i]) i++;
    if (i < m || a.v.size() != b.v.size()) {
      const char* w = "?";
      for (auto& k : a.marks) if (k.first <= i) w = k.second;
      g.where = w;
      violate(CONTENT, "T%d saw something else among other threads than on its own (observation %zu)", t, i);
    }
  }
  for (auto& p : S.seen) for (auto& s : p) { s.v.clear(); s.marks.clear(); }
}
} // namespace thr

void world_run() {
  if (!cells) cells = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  static std::map<uintptr_t, Clock> m; syncs = &m;
  heap.free_hook = freed;
  for (int i = 0; i < 3; i++) devbuf[i].d = i;
  std::cout.rdbuf(&devbuf[0]); std::cerr.rdbuf(&devbuf[1]); std::clog.rdbuf(&devbuf[2]);
  cookie_io_functions_t io{nullptr, cookie_write, nullptr, nullptr};
  stdout = fopencookie(nullptr, "w", io);
  setvbuf(stdout, nullptr, _IONBF, 0);
  client_run();
}

// Memory the library takes before main is simulated memory too, so that writes
// to it are seen.
__attribute__((constructor(101))) static void early() {
  if (!sh) sh = static_cast<Shm*>(map_shared(sizeof(Shm)));
  heap.init(); g.in_sut = 1; fork_each = true;
}
__attribute__((constructor(65535))) static void late() { g.in_sut = 0; heap.floor = heap.used; heap.floor_tab = heap.ntab; }

// ------------------------------------------------------ instrumentation hooks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { point(false); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, 0); } \
  void __tsan_write##n(void* p) { access(p, n, 1); } \
  void __tsan_read_write##n(void* p) { access(p, n, 0); access(p, n, 1); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, 0); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, 1); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, 0); access(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1); }
void __tsan_vptr_read(void** p) { access(p, 8, 0); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, 0); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, 1); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, 1); return memset(d, c, n); }
// atomics: the orders are those of <atomic> (0 relaxed .. 5 seq_cst)
#define ACQ(o) ((o) == 1 || (o) == 2 || (o) >= 4)
#define REL(o) ((o) >= 3)
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int o) { access(p, sizeof(T), 2); T v = *p; if (ACQ(o)) acquire(p); return v; } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { access(p, sizeof(T), 3); if (REL(o)) release(p); *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { access(p, sizeof(T), 3); if (ACQ(o)) acquire(p); T r = *p; *p = v; if (REL(o)) release(p); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { access(p, sizeof(T), 3); if (ACQ(o)) acquire(p); T r = *p; *p = T(r + v); if (REL(o)) release(p); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { access(p, sizeof(T), 3); if (ACQ(o)) acquire(p); T r = *p; *p = T(r - v); if (REL(o)) release(p); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { access(p, sizeof(T), 3); if (ACQ(o)) acquire(p); T r = *p; *p = T(r & v); if (REL(o)) release(p); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { access(p, sizeof(T), 3); if (ACQ(o)) acquire(p); T r = *p; *p = T(r | v); if (REL(o)) release(p); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { access(p, sizeof(T), 3); if (ACQ(o)) acquire(p); T r = *p; *p = T(r ^ v); if (REL(o)) release(p); return r; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o) { access(p, sizeof(T), 3); if (ACQ(o)) acquire(p); T r = *p; *p = T(~(r & v)); if (REL(o)) release(p); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int o, int fo) { \
    T r = *p; access(p, sizeof(T), r == *e ? 3 : 2); r = *p; \
    if (r == *e) { if (ACQ(o)) acquire(p); *p = d; if (REL(o)) release(p); return 1; } \
    if (ACQ(fo)) acquire(p); *e = r; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int o, int fo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, d, o, fo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int o, int fo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, d, o, fo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

// function-local statics: the waiting thread gives way to the one initialising
int __cxa_guard_acquire(uint64_t* gd) {
  unsigned char* b = reinterpret_cast<unsigned char*>(gd);
  for (;;) {
    point();
    if (b[0]) { acquire(gd); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    if (!S.conc) return 1;
    yield_blocked();
  }
}
void __cxa_guard_release(uint64_t* gd) { unsigned char* b = reinterpret_cast<unsigned char*>(gd); release(gd); b[0] = 1; b[1] = 0; point(); }
void __cxa_guard_abort(uint64_t* gd) { reinterpret_cast<unsigned char*>(gd)[1] = 0; point(); }

// locks taken by library code
#define LIVE (S.conc && g.in_sut > 0)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!LIVE) return pthread_mutex_lock(m);
  for (;;) { point(); int r = pthread_mutex_trylock(m); if (r != EBUSY) { acquire(m); return r; } yield_blocked(); }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (LIVE) point(); int r = pthread_mutex_trylock(m); if (!r && LIVE) acquire(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (LIVE) release(m); int r = pthread_mutex_unlock(m); if (LIVE) point(); return r; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!LIVE) return pthread_rwlock_rdlock(m);
  for (;;) { point(); int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) { acquire(m); return r; } yield_blocked(); }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!LIVE) return pthread_rwlock_wrlock(m);
  for (;;) { point(); int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) { acquire(m); return r; } yield_blocked(); }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (LIVE) release(m); int r = pthread_rwlock_unlock(m); if (LIVE) point(); return r; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!LIVE) return pthread_once(o, f);
  unsigned char* b = reinterpret_cast<unsigned char*>(o);      // same states as glibc: bit 0 running, bit 1 done
  for (;;) {
    point();
    if (*b & 2) { acquire(o); return 0; }
    if (!(*b & 1)) { *b |= 1; try { f(); } catch (...) { *b = 0; throw; } release(o); *b = 2; return 0; }
    yield_blocked();
  }
}
// C library functions that read or write the caller's memory
int __wrap_snprintf(char* s, size_t n, const char* f, ...) {
  point();
  va_list ap; va_start(ap, f); int r = vsnprintf(s, n, f, ap); va_end(ap);
  if (s && n) { size_t w = r < 0 ? 0 : std::min(size_t(r) + 1, n); access(s, w, 1); }
  return r;
}
int __wrap_sprintf(char* s, const char* f, ...) {
  point();
  va_list ap; va_start(ap, f); int r = vsnprintf(s, 1u << 30, f, ap); va_end(ap);
  if (r >= 0) access(s, size_t(r) + 1, 1);
  return r;
}
int __wrap_vsnprintf(char* s, size_t n, const char* f, va_list ap) {
  point();
  int r = vsnprintf(s, n, f, ap);
  if (s && n) access(s, r < 0 ? 0 : std::min(size_t(r) + 1, n), 1);
  return r;
}
int __wrap_printf(const char* f, ...) { point(); va_list ap; va_start(ap, f); int r = vprintf(f, ap); va_end(ap); point(); return r; }
size_t __wrap_strlen(const char* s) { size_t n = strlen(s); access(s, n + 1, 0); return n; }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, 0); access(b, n, 0); return memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = const_cast<void*>(memchr(a, c, n)); access(a, r ? size_t(static_cast<char*>(r) - static_cast<const char*>(a)) + 1 : n, 0); return r; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, 1); return memset(d, c, n); }
}
