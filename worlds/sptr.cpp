#include "sim/engine.hpp"
#include "cest/iostream.hpp"
#include "cest/vector.hpp"
#include "cest/shared_ptr.hpp"
#include "sim/sptr.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
void world_run() {
  start_run();
  { SpWorld w; w.run(); }
  finish_run();
}
