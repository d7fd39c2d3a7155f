#include "sim/engine.hpp"
#include "cest/iostream.hpp"
#include "cest/sstream.hpp"
#include "cest/cstdio.hpp"
#include "sim/memio.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
template <class C, class T, class A> void go() { { MemRun<C, T, A> r; r.run(); } finish_run(); }
void world_run() {
  start_run();
  switch (choose(5)) {
    case 0: case 1: return go<char, std::char_traits<char>, std::allocator<char>>();
    case 2: return go<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>>();
    case 3: return go<char, std::char_traits<char>, alloc<char>>();
    default: return go<char, CiTraits, std::allocator<char>>();
  }
}
