// C27: objects guarded by locks, used by whichever thread holds the lock.
#include "thr/own.hpp"

namespace {
constexpr unsigned NB = 3, PASS = NOPS, RENEW = NOPS + 1;
struct Use { Op x; unsigned box, to; };
std::vector<Use> script[NT];
struct Done { int t; const Use* u; };
std::vector<Done> history;                     // the order in which the locks were taken
Own* box[NB];
char name_of[2][24] = {"pass contents on", "destroy and renew"};
const char* title(unsigned k) { return k < NOPS ? names[k] : name_of[k - NOPS]; }

void observe(const Own& o) {
  walk(o.v); walk(o.vs); walk(o.d); walk(o.l); walk(o.ls); walk(o.f); walk(o.s); walk(std::as_const(o.m));
  obs(uint64_t(num(o.str))); obs(uint64_t(num(o.str2))); obs(o.q.size());
  obs(bool(o.p1)); if (o.p1) { obs(uint64_t(o.p1->get())); obs(uint64_t(o.p1.use_count())); }
  obs(bool(o.u1)); if (o.u1) obs(uint64_t(o.u1->get()));
}
void use(int t, const Use& u) {
  mark(title(u.x.k));
  if (u.x.k < NOPS) { exec(*box[u.box], int(u.box), u.x); if (u.x.b % 8 == 0) observe(*box[u.box]); return; }
  if (u.x.k == RENEW) {
    sut(true); delete box[u.box]; box[u.box] = nullptr; box[u.box] = new Own; sut(false);
    observe(*box[u.box]);
    return;
  }
  Own &a = *box[u.box], &b = *box[u.to];
  call(title(u.x.k), Plan{}, [&] {
    unsigned m = u.x.a;
    if (m & 1) { b.v = std::move(a.v); b.vs = std::move(a.vs); }
    if (m & 2) { b.l = a.l; b.f = a.f; b.d = a.d; }
    if (m & 4) { b.s = a.s; b.m = a.m; b.sc = a.sc; }
    if (m & 8) { b.str = std::move(a.str); b.str2 = a.str2; }
    if (m & 16) { b.p1 = std::move(a.p1); b.p2 = std::move(a.p2); a.p1 = cest::shared_ptr<Base>(); a.p2 = cest::shared_ptr<Base>(); }
    if (m & 32) { b.u1 = std::move(a.u1); }
    if (m & 64) { cest::function<long(long)>* f = a.fn; a.fn = b.fn; b.fn = f; cest::stringstream* s = a.ss; a.ss = b.ss; b.ss = s; }
    if (m & 128) b.q = a.q;
  });
  observe(b); observe(a);
}
void body(int t) {
  for (const Use& u : script[t]) {
    bool two = u.x.k == PASS && u.to != u.box;
    unsigned lo = two && u.to < u.box ? u.to : u.box, hi = two ? (u.to < u.box ? u.box : u.to) : lo;
    take(lo); if (two) take(hi);
    history.push_back({t, &u});
    if (two) log("%s %u -> %u (%u)", title(u.x.k), u.box, u.to, u.x.a);
    else log("%s (%u,%u) on %u%s", title(u.x.k), u.x.a, u.x.b, u.box, u.x.p.mask ? " with a failure planned" : "");
    use(t, u);
    if (two) give(hi);
    give(lo);
  }
}
void fresh() { sut(true); for (auto& b : box) b = new Own; sut(false); }
void drop() { sut(true); for (auto& b : box) delete b; sut(false); }
} // namespace

void client_run() {
  draw_faults();
  int n = 2 + int(choose(NT - 1));
  unsigned focus = choose(4), g1 = choose(NGROUPS), g2 = choose(NGROUPS);
  unsigned boxes = 1 + choose(NB), ra = one_in(2) ? 6 : 3200, rb = one_in(2) ? 6 : 64;
  history.clear(); history.reserve(64);
  for (int t = 0; t < n; t++) {
    script[t].clear();
    unsigned m = 1 + choose(14);
    for (unsigned i = 0; i < m; i++) {
      begin_step();
      Use u; u.x.k = choose(NOPS);
      if (focus) { const std::vector<unsigned>& gr = groups[focus == 3 && one_in(2) ? g2 : g1]; u.x.k = gr[u.x.k % gr.size()]; }
      unsigned special = choose(10);
      if (special == 0) u.x.k = PASS; else if (special == 1 && one_in(2)) u.x.k = RENEW;
      u.x.a = choose(special == 0 ? 256 : ra); u.x.b = choose(rb); u.x.p = plan();
      u.box = choose(boxes); u.to = choose(boxes);
      script[t].push_back(u);
    }
  }
  fresh();
  run(n, true, body);
  drop();
  again();
  fresh();
  for (const Done& h : history) { solo(h.t); use(h.t, *h.u); }
  solo(0);
  drop();
  compare(n);
  no_leak();
}
