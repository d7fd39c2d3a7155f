#include "sim/engine.hpp"
#include "cest/iostream.hpp"
#include "cest/string.hpp"
#include "cest/sstream.hpp"
#include "cest/cstdio.hpp"
#include "sim/outw.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
void world_run() {
  start_run();
  { OutRun r; r.run(); }
  finish_run();
}
