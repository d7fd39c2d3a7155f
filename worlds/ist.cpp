#include "sim/engine.hpp"
#include "cest/sstream.hpp"     // alone: string streams need no other header
#include "sim/traits.hpp"
#include "sim/ist.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
template <class C, class T> void go() { { IstRun<C, T> r; r.run(); } finish_run(); }
void world_run() {
  start_run();
  switch (choose(4)) {
    case 0: case 1: return go<char, std::char_traits<char>>();
    case 2: return go<wchar_t, std::char_traits<wchar_t>>();
    default: return go<char, CiTraits>();
  }
}
