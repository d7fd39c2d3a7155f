#include "sim/engine.hpp"
#include "cest/iostream.hpp"
#include "cest/memory.hpp"
#include "cest/functional.hpp"
#include "sim/fn.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
void world_run() {
  start_run();
  static const unsigned lens[] = {8, 30, 90, 250};
  unsigned t = choose(2), len = lens[choose(4)];
  if (t == 0) { UpWorld w; w.run(len); } else { FnWorld w; w.run(len); }
  finish_run();
}
