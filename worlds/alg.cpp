#include <deque>
#include <forward_list>
#include <numeric>
#include "../sim/engine.hpp"
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/swap.hpp"
#include "cest/algorithm.hpp"
#include "cest/numeric.hpp"
#include "../sim/alg.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
void world_run() {
  start_run();
  switch (choose(4)) {
    case 0: { { AlgRun<ENx> r; r.run(); } return finish_run(); }
    case 1: { { AlgRun<ETm> r; r.run(); } return finish_run(); }
    case 2: { { AlgMap<ENx> r; r.run(); } return finish_run(); }
    default: { { AlgMap<long> r; r.run(); } return finish_run(); }
  }
}
