#include "sim/engine.hpp"
#include "sim/seq.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/string.hpp"
#include "cest/vector.hpp"
#include "sim/nested.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
template <class E, class A> struct LstRun : SeqRun<cest::list<E, A>, E, LST, LstRun<E, A>> {};
template <class E, class A> struct FwdRun : SeqRun<cest::forward_list<E, A>, E, FWD, FwdRun<E, A>> {};
template <class E, class A> void gol() { { LstRun<E, A> r; r.run(); } finish_run(); }
template <class E, class A> void gof() { { FwdRun<E, A> r; r.run(); } finish_run(); }
void world_run() {
  start_run();
  unsigned t = choose(13);
  switch (t) {
    case 0: return gol<ENx, alloc<ENx>>();
    case 1: return gol<ECo, std::allocator<ECo>>();
    case 2: return gol<ETm, alloc<ETm>>();
    case 3: return gol<long, std::allocator<long>>();
    case 4: return gol<NStr, std::allocator<NStr>>();
    case 5: return gof<ENx, std::allocator<ENx>>();
    case 6: return gof<ECo, alloc<ECo>>();
    case 7: return gof<EAl, std::allocator<EAl>>();
    case 8: return gof<long, alloc<long>>();
    case 9: return gol<EPad, std::allocator<EPad>>();
    case 10: return gof<EBig, std::allocator<EBig>>();
    case 11: return gol<double, alloc<double>>();
    default: return gof<ETm, std::allocator<ETm>>();
  }
}
