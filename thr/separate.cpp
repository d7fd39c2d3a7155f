// C19: each thread uses only its own objects.
#include "thr/own.hpp"

namespace {
std::vector<Op> script[NT];

void body(int t) {
  sut(true); Own* o = new Own; sut(false);
  for (const Op& x : script[t]) {
    mark(names[x.k]);
    log("%s (%u,%u)%s", names[x.k], x.a, x.b, x.p.mask ? " with a failure planned" : "");
    exec(*o, t, x);
  }
  mark("destruction");
  sut(true); delete o; sut(false);
}
} // namespace

void client_run() {
  draw_faults();
  int n = 2 + int(choose(NT - 1));
  unsigned focus = choose(3), lo = focus ? choose(NOPS) : 0, span = focus ? 1 + choose(5) : NOPS;
  for (int t = 0; t < n; t++) {
    script[t].clear();
    unsigned m = 1 + choose(focus ? 8 : 14);
    for (unsigned i = 0; i < m; i++) { begin_step(); Op x; x.k = (lo + choose(span)) % NOPS; x.a = choose(3200); x.b = choose(64); x.p = plan(); script[t].push_back(x); }
  }
  run(n, true, body);
  run(n, false, body);
  compare(n);
}
