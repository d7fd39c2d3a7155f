// Driver: explore / replay / shrink.  Included once, after the world defines
//   void world_run();            one run, all choices through sim::choose()
//   extern const char* world_name;
#ifndef SIM_ENGINE_HPP
#define SIM_ENGINE_HPP
#include "core.hpp"
#include <sys/time.h>

extern const char* const world_name;
void world_run();

namespace sim {

[[noreturn]] inline void violate(Cls c, const char* fmt, ...) {
  g.in_sut = 0; g.armed = false;
  if (!sh->has_viol) {
    char b[480];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sh->viol.cls = c;
    sh->viol.index = g.run_index;
    sh->viol.faults_fired = g.fired_in_run;
    snprintf(sh->viol.msg, sizeof sh->viol.msg, "[%s] %s", g.where, b);
    note(c);
    sh->viol.hash = g.hash;
    if (g.tracing) { char t[640]; snprintf(t, sizeof t, "VIOLATION %s: %s", cls_name[c], sh->viol.msg); trace_raw(t); }
    sh->has_viol = 1;
  }
  _exit(3);
}

// ------------------------------------------------------------ crash plumbing
inline unsigned char altstack[65536];
SIM_NOASAN inline void on_signal(int s) {
  if (s == SIGABRT) violate(TERMINATE, "the process aborted");
  violate(CRASH, "signal %d (%s)", s, s == SIGSEGV ? "invalid memory access or stack overflow" : s == SIGFPE ? "arithmetic" : "fatal");
}
inline uint64_t tick_beat = ~0ull; inline int tick_n = 0;
SIM_NOASAN inline void on_tick(int) {
  if (sh->beat == tick_beat) { if (++tick_n >= 4) violate(HANG, "no progress within the time allowed for one call"); }
  else { tick_beat = sh->beat; tick_n = 0; }
}
inline void on_asan(const char* rep) {
  const char* e = strstr(rep, "AddressSanitizer: ");
  char kind[64] = "memory error", acc[48] = "";
  if (e) { e += 18; int i = 0; while (i < 60 && e[i] && e[i] != ' ' && e[i] != '\n') { kind[i] = e[i]; i++; } kind[i] = 0; }
  const char* a = strstr(rep, " of size ");
  if (a) { const char* b = a; while (b > rep && b[-1] != '\n') b--; int i = 0; while (i < 40 && b[i] && b[i] != '\n' && strncmp(b + i, " at ", 4)) { acc[i] = b[i]; i++; } acc[i] = 0; }
  violate(MEM, "%s (%s)", kind, acc);
}
inline void child_setup() {
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval it{{5, 0}, {5, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  std::set_terminate([] { violate(TERMINATE, "std::terminate was called"); });
#if SIM_ASAN
  __asan_set_error_report_callback(on_asan);
#endif
}

inline bool fork_each = false;               // worlds whose runs may leave process-wide state behind
inline void one_run(uint64_t index) {
  g.run_index = index;
  g.hash = 0xcbf29ce484222325ull; g.fired_in_run = 0; g.calls_in_run = 0; g.fault_id = 0;
  g.mask = 0; g.armed = false; g.rate = 0; g.enabled = 0; g.rpos = 0; g.where = "start";
  g.compares = g.constructs = g.copies = g.moves = g.assigns = g.destroys = 0;
  sh->tape_len = sh->span_len = 0;
  g.edge_limit = g.profile & P_COST ? 1'000'000'000 : 40'000'000;   // large objects make long walks
  sh->beat = sh->beat + 1;
  heap.reset(0xAB);
  world_run();
  sh->last_hash = g.hash;
  sh->runs++;
  if (g.fired_in_run) sh->fault_runs++;
}
inline bool nontrivial() { return g.calls_in_run >= 5 && (!(g.profile & P_FAULT) || g.fired_in_run); }

struct Args {
  std::string mode, out, file;
  uint64_t seed = 1, from = 0, to = 1000, worker = 0, workers = 1;
  unsigned profile = 0, classes = ~0u, maxviol = 3, attribute = 0;
  double time = 1e9;
};
inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

inline uint64_t run_seed(const Args& a, uint64_t i) {
  uint64_t h = mix(a.seed, 0x51);
  for (const char* p = world_name; *p; p++) h = mix(h, uint64_t(*p));
  return mix(mix(h, a.profile), i);
}

// Run a fixed tape in a child; results land in *sh.
inline Viol eval_tape(const std::vector<uint32_t>& tape, uint64_t index, bool tracing, bool nofault) {
  sh->has_viol = 0; sh->viol = Viol{}; sh->trace_len = 0; sh->trace[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup();
    if (!tracing) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2); }
    else { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2); }
    g.replay = true; g.tracing = tracing; g.nofault = nofault;
    g.rtape = tape.data(); g.rlen = uint32_t(tape.size());
    one_run(index);
    sh->viol.hash = g.hash;
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (!sh->has_viol && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    sh->viol.cls = CRASH; snprintf(sh->viol.msg, sizeof sh->viol.msg, "process died with status %x", unsigned(st));
  }
  return sh->viol;
}

inline std::string json_esc(const char* s) {
  std::string r;
  for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += char(c); }
  return r;
}

inline void write_replay(const std::string& path, const Args& a, uint64_t index, const Viol& v,
                         const std::vector<uint32_t>& tape, const std::vector<uint32_t>& span, const char* trace) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(2); }
  fprintf(f, "world=%s\nprofile=%u\nseed=%llu\nindex=%llu\nclass=%s\nhash=%016llx\nmessage=%s\nfaults_fired=%u\ntape=",
          world_name, a.profile, (unsigned long long)a.seed, (unsigned long long)index, cls_name[v.cls],
          (unsigned long long)v.hash, v.msg, v.faults_fired);
  for (uint32_t x : tape) fprintf(f, "%u ", x);
  fprintf(f, "\nspans=");
  for (uint32_t x : span) fprintf(f, "%u ", x);
  fprintf(f, "\ntrace:\n%s", trace);
  fclose(f);
}
inline bool read_replay(const std::string& path, Args& a, uint64_t& index, std::string& cls, std::string& hash,
                        std::vector<uint32_t>& tape) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return false;
  char* line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    if (!strncmp(line, "profile=", 8)) a.profile = unsigned(strtoul(line + 8, 0, 10));
    else if (!strncmp(line, "seed=", 5)) a.seed = strtoull(line + 5, 0, 10);
    else if (!strncmp(line, "index=", 6)) index = strtoull(line + 6, 0, 10);
    else if (!strncmp(line, "class=", 6)) cls = line + 6;
    else if (!strncmp(line, "hash=", 5)) hash = line + 5;
    else if (!strncmp(line, "tape=", 5)) { char* p = line + 5; for (;;) { char* e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; tape.push_back(uint32_t(v)); p = e; } }
    else if (!strncmp(line, "trace:", 6)) break;
  }
  ::free(line); fclose(f);
  return true;
}

inline std::vector<uint32_t> sh_tape() { return {sh->tape, sh->tape + sh->tape_len}; }
inline std::vector<uint32_t> sh_span() { return {sh->span, sh->span + sh->span_len}; }

// --------------------------------------------------------------- shrinking
inline void shrink(const Args& a0) {
  Args a = a0; uint64_t index = 0; std::string cls, hash; std::vector<uint32_t> tape;
  if (!read_replay(a.file, a, index, cls, hash, tape)) _exit(2);
  g.profile = a.profile;
  double t0 = now_s(); unsigned evals = 0;
  Viol v = eval_tape(tape, index, false, false);
  unsigned want = v.cls;
  if (want == OK || cls != cls_name[want]) { printf("NOREPRO\n"); _exit(4); }
  tape = sh_tape(); std::vector<uint32_t> span = sh_span();
  auto attempt = [&](const std::vector<uint32_t>& t) {
    if (now_s() - t0 > a.time) return false;
    evals++;
    Viol w = eval_tape(t, index, false, false);
    if (w.cls != want) return false;
    if (a.attribute && w.faults_fired == 0) return false;
    std::vector<uint32_t> nt = sh_tape();
    if (nt.size() > t.size() + 8) return false;
    while (!nt.empty() && nt.back() == 0) nt.pop_back();
    tape = nt; span = sh_span();
    return true;
  };
  attempt(tape);
  bool progress = true;
  for (int round = 0; progress && round < 8 && now_s() - t0 < a.time; round++) {
    progress = false;
    // drop runs of whole steps, largest first
    for (size_t w = std::max<size_t>(1, span.size() / 2);; w /= 2) {
      for (size_t i = 0; i < span.size();) {
        if (now_s() - t0 > a.time) break;
        size_t b = span[i], e = i + w < span.size() ? span[i + w] : tape.size();
        if (b >= tape.size()) break;
        e = std::min(e, tape.size());
        std::vector<uint32_t> t(tape.begin(), tape.begin() + long(b));
        t.insert(t.end(), tape.begin() + long(e), tape.end());
        if (t.size() < tape.size() && attempt(t)) progress = true; else i++;
      }
      if (w == 1) break;
    }
    // lower single choices
    for (size_t i = 0; i < tape.size() && now_s() - t0 < a.time; i++) {
      uint32_t x = tape[i];
      if (!x) continue;
      std::vector<uint32_t> t = tape; t[i] = 0;
      if (attempt(t)) { progress = true; continue; }
      uint32_t lo = 0, hi = x;                 // smallest value that still fails (greedy bisection)
      while (hi - lo > 1 && i < tape.size()) {
        uint32_t m = lo + (hi - lo) / 2;
        t = tape; t[i] = m;
        if (attempt(t)) { hi = m; progress = true; } else lo = m;
      }
    }
  }
  Viol r = eval_tape(tape, index, true, false);
  if (r.cls != want) { printf("NOREPRO\n"); _exit(4); }
  write_replay(a.out, a, index, r, tape, sh_span(), sh->trace);
  printf("SHRUNK evals=%u steps=%zu tape=%zu class=%s hash=%016llx\n", evals, span.size(), tape.size(), cls_name[r.cls], (unsigned long long)r.hash);
}

// --------------------------------------------------------------- exploring
inline void explore(const Args& a) {
  double t0 = now_s();
  uint64_t next = a.from + a.worker;
  unsigned nv = 0;
  struct Found { uint64_t index; unsigned cls; std::string msg, file; };
  std::vector<Found> found;
  while (next < a.to && nv < a.maxviol && now_s() - t0 < a.time) {
    sh->has_viol = 0; sh->cur = next; sh->trace_len = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_setup();
      int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2);
      for (uint64_t i = next; i < a.to; i += a.workers) {
        if (now_s() - t0 >= a.time) break;
        sh->cur = i;
        g.rng.s = run_seed(a, i);
        one_run(i);
        if (nontrivial()) sh->nontrivial++;
        if (sh->nhash + 2 <= sh->hash_cap) {
          hashes[sh->nhash] = i | (nontrivial() ? 1ull << 63 : 0);
          hashes[sh->nhash + 1] = g.hash;
          sh->nhash += 2;
        }
        sh->cur = i + a.workers;
        if (fork_each) break;
      }
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { next = sh->cur; if (fork_each) continue; break; }
    uint64_t idx = sh->cur;
    next = idx + a.workers;
    Viol v = sh->viol;
    if (!sh->has_viol) { v = Viol{}; v.cls = CRASH; v.index = idx; v.hash = 0; snprintf(v.msg, sizeof v.msg, "process died with status %x", unsigned(st)); }
    if (!(a.classes & (1u << v.cls))) { sh->foreign[v.cls]++; continue; }
    std::vector<uint32_t> tape = sh_tape(), span = sh_span();
    if (a.attribute) {          // only failures that need a fault belong to this property
      if (!v.faults_fired) { sh->foreign[v.cls]++; continue; }
      Viol w = eval_tape(tape, idx, false, true);
      if (w.cls == v.cls) { sh->foreign[v.cls]++; continue; }
    }
    Viol w = eval_tape(tape, idx, true, false);      // traced, from the tape alone
    std::string path = a.out + ".v" + std::to_string(nv) + ".replay";
    bool same = w.cls == v.cls && (w.hash == v.hash || v.hash == 0);
    write_replay(path, a, idx, v, tape, span, sh->trace);
    found.push_back({idx, v.cls, std::string(same ? "" : "UNSTABLE ") + v.msg, path});
    nv++;
  }
  FILE* f = fopen((a.out + ".json").c_str(), "w");
  if (!f) _exit(2);
  fprintf(f, "{\"world\":\"%s\",\"profile\":%u,\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"calls\":%llu,\"failed_calls\":%llu,\"edges\":%llu,\"fault_runs\":%llu,\"states\":%llu,\"switches\":%llu,\"next\":%llu,\"wall\":%.3f,",
          world_name, a.profile, (unsigned long long)sh->runs, (unsigned long long)sh->nontrivial, (unsigned long long)sh->steps,
          (unsigned long long)sh->calls, (unsigned long long)sh->failed_calls, (unsigned long long)sh->edges,
          (unsigned long long)sh->fault_runs, (unsigned long long)sh->states, (unsigned long long)sh->sched_switches, (unsigned long long)next, now_s() - t0);
  unsigned cov = 0; for (unsigned i = 0; i < sh->cov_n && i < COV_MAX; i++) cov += sh->cov[i] != 0;
  fprintf(f, "\"cov_edges\":%u,\"cov_total\":%u,", cov, sh->cov_n);
  fprintf(f, "\"armed\":{"); for (unsigned k = 0; k < NFAULT; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", fault_name[k], (unsigned long long)sh->armed[k]);
  fprintf(f, "},\"fired\":{"); for (unsigned k = 0; k < NFAULT; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", fault_name[k], (unsigned long long)sh->fired[k]);
  fprintf(f, "},\"foreign\":{"); bool c = false; for (unsigned k = 0; k < NCLS; k++) if (sh->foreign[k]) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", cls_name[k], (unsigned long long)sh->foreign[k]); c = true; }
  fprintf(f, "},\"probes\":{"); c = false; for (unsigned k = 0; k < NPROBE; k++) if (sh->probe[k]) { fprintf(f, "%s\"%u\":%llu", c ? "," : "", k, (unsigned long long)sh->probe[k]); c = true; }
  fprintf(f, "},\"violations\":[");
  for (size_t i = 0; i < found.size(); i++)
    fprintf(f, "%s{\"index\":%llu,\"class\":\"%s\",\"message\":\"%s\",\"file\":\"%s\"}", i ? "," : "", (unsigned long long)found[i].index, cls_name[found[i].cls], json_esc(found[i].msg.c_str()).c_str(), found[i].file.c_str());
  fprintf(f, "]}\n");
  fclose(f);
  f = fopen((a.out + ".hashes").c_str(), "wb");
  if (f) { fwrite(hashes, 8, sh->nhash, f); fclose(f); }
}

inline int sim_main(int argc, char** argv) {
  Args a;
  a.mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i]; const char* v = argv[i + 1];
    if (k == "--seed") a.seed = strtoull(v, 0, 10);
    else if (k == "--from") a.from = strtoull(v, 0, 10);
    else if (k == "--to") a.to = strtoull(v, 0, 10);
    else if (k == "--worker") a.worker = strtoull(v, 0, 10);
    else if (k == "--workers") a.workers = strtoull(v, 0, 10);
    else if (k == "--profile") a.profile = unsigned(strtoul(v, 0, 10));
    else if (k == "--classes") a.classes = unsigned(strtoul(v, 0, 10));
    else if (k == "--attribute") a.attribute = unsigned(strtoul(v, 0, 10));
    else if (k == "--maxviol") a.maxviol = unsigned(strtoul(v, 0, 10));
    else if (k == "--time") a.time = strtod(v, 0);
    else if (k == "--out") a.out = v;
    else if (k == "--file") a.file = v;
    else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
  }
  g.profile = a.profile;
  uint32_t covn = sh ? sh->cov_n : 0;
  (void)covn;
  if (a.mode == "explore") { explore(a); return 0; }
  if (a.mode == "shrink") { shrink(a); return 0; }
  if (a.mode == "replay") {
    uint64_t index = 0; std::string cls, hash; std::vector<uint32_t> tape;
    if (!read_replay(a.file, a, index, cls, hash, tape)) return 2;
    g.profile = a.profile;
    Viol v = eval_tape(tape, index, true, a.attribute == 2);
    printf("%s", sh->trace);
    printf("RESULT class=%s hash=%016llx\n", cls_name[v.cls], (unsigned long long)v.hash);
    return 0;
  }
  if (a.mode == "one") {                        // trace one run by seed and index
    sh->trace_len = 0; fflush(nullptr);
    pid_t pid = fork();
    if (!pid) { child_setup(); g.tracing = true; g.rng.s = run_seed(a, a.from); one_run(a.from); _exit(0); }
    int st; waitpid(pid, &st, 0);
    printf("%s", sh->trace);
    if (sh->has_viol) printf("RESULT class=%s %s\n", cls_name[sh->viol.cls], sh->viol.msg); else printf("RESULT class=OK hash=%016llx status=%x\n", (unsigned long long)sh->last_hash, unsigned(st));
    return 0;
  }
  fprintf(stderr, "usage: %s explore|replay|shrink|one ...\n", argv[0]);
  return 2;
}

inline void* map_shared(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { fprintf(stderr, "sim: mmap failed\n"); _exit(2); }
  return p;
}
} // namespace sim

extern "C" __attribute__((no_sanitize("coverage", "address"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e) {
  static uint32_t n = 0;
  if (b == e || *b) return;
  for (uint32_t* p = b; p < e; p++) *p = ++n;
  if (!sim::sh) sim::sh = static_cast<sim::Shm*>(sim::map_shared(sizeof(sim::Shm)));
  sim::sh->cov_n = n + 1;
}
extern "C" __attribute__((no_sanitize("coverage", "address"))) void __sanitizer_cov_trace_pc_guard(uint32_t* gd) {
  if (sim::g.in_sut > 0) {
    if (++sim::g.edges_call > sim::g.edge_limit) {
      sim::g.in_sut = 0;                     // violate() itself passes through this hook
      sim::violate(sim::HANG, "one call executed more than %llu branch steps", (unsigned long long)sim::g.edge_limit);
    }
    uint32_t i = *gd;
    if (i < sim::COV_MAX && !sim::sh->cov[i]) sim::sh->cov[i] = 1;
  }
}
#if SIM_ASAN
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:"
         "use_sigaltstack=0:symbolize=0:detect_stack_use_after_return=0:print_legend=0:print_full_thread_history=0:"
         "allocator_may_return_null=1:abort_on_error=0:exitcode=3:print_summary=0:malloc_context_size=0:detect_odr_violation=0";
}
#endif

int main(int argc, char** argv) {
  using namespace sim;
  if (!sh) sh = static_cast<Shm*>(map_shared(sizeof(Shm)));
  sh->hash_cap = 8u << 20;
  hashes = static_cast<uint64_t*>(map_shared(8 * sh->hash_cap));
  heap.init();
  return sim_main(argc, argv);
}
#endif
