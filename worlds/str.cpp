#include "sim/engine.hpp"
#include "cest/iostream.hpp"
#include "cest/string.hpp"
#include "cest/cctype.hpp"
#include "sim/strw.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
template <class C, class T, class A> void go() { { StrRun<C, T, A> r; r.run(); } finish_run(); }
void world_run() {
  start_run();
  unsigned t = choose(8);
  switch (t) {
    case 0: case 1: return go<char, std::char_traits<char>, std::allocator<char>>();
    case 2: return go<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>>();
    case 3: return go<char16_t, std::char_traits<char16_t>, std::allocator<char16_t>>();
    case 4: return go<char, CiTraits, std::allocator<char>>();
    case 5: return go<char, std::char_traits<char>, alloc<char>>();
    case 6: return go<char8_t, std::char_traits<char8_t>, alloc<char8_t>>();
    default: ctype_run(); return finish_run();
  }
}
