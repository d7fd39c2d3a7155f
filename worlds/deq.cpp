#include "sim/engine.hpp"
#include "sim/seq.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/queue.hpp"
#include "cest/string.hpp"
#include "sim/nested.hpp"
#include "sim/queue.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
template <class E, class A> struct DeqRun : SeqRun<cest::deque<E, A>, E, DEQ, DeqRun<E, A>> {};
template <class E, class A> void go() { { DeqRun<E, A> r; r.run(); } finish_run(); }
template <class C, class E> void goq() { { QRun<C, E> r; r.run(); } finish_run(); }
void world_run() {
  start_run();
  unsigned t = choose(12);
  switch (t) {
    case 0: return go<ENx, alloc<ENx>>();
    case 1: return go<ETm, std::allocator<ETm>>();
    case 2: return go<ECo, alloc<ECo>>();
    case 3: return go<NStr, std::allocator<NStr>>();
    case 4: return go<long, alloc<long>>();
    case 5: return go<EAl, std::allocator<EAl>>();
    case 6: return goq<cest::deque<ETm>, ETm>();
    case 7: return goq<cest::deque<ECo, alloc<ECo>>, ECo>();
    case 8: return go<EPad, std::allocator<EPad>>();
    case 9: return go<EBig, std::allocator<EBig>>();
    case 10: return goq<cest::deque<double>, double>();
    default: return goq<cest::list<ECo>, ECo>();
  }
}
