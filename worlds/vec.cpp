#include "../sim/engine.hpp"
#include "../sim/seq.hpp"
#include "cest/vector.hpp"
#include "cest/string.hpp"
#include "../sim/nested.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
template <class E, class A> struct VecRun : SeqRun<cest::vector<E, A>, E, VEC, VecRun<E, A>> {};
template <class E, class A> void go() { { VecRun<E, A> r; r.run(); } finish_run(); }
void world_run() {
  start_run();
  unsigned t = choose(14);
  switch (t) {
    case 0: return go<ENx, alloc<ENx>>();
    case 1: return go<ETm, alloc<ETm>>();
    case 2: return go<ECo, std::allocator<ECo>>();
    case 3: return go<ENx, std::allocator<ENx>>();
    case 4: return go<EAl, std::allocator<EAl>>();
    case 5: return go<long, alloc<long>>();
    case 6: return go<EMo, std::allocator<EMo>>();
    case 7: return go<NStr, std::allocator<NStr>>();
    case 8: return go<NVec, alloc<NVec>>();
    case 9: return go<EPad, std::allocator<EPad>>();
    case 10: return go<double, std::allocator<double>>();
    case 11: return go<EBig, std::allocator<EBig>>();
    case 12: return go<unsigned char, alloc<unsigned char>>();
    default: return go<ECo, alloc<ECo>>();
  }
}
