#include "sim/engine.hpp"
#include "sim/dict.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/string.hpp"
#include "cest/vector.hpp"
#include "sim/nested.hpp"
const char* const world_name = SIM_WORLD_NAME;
using namespace sim;
template <class K, class CMP, class A> void gos() { { DictRun<cest::set<K, CMP, A>, K, void, CMP> r; r.run(); } finish_run(); }
template <class K, class V, class CMP, class A> void gom() { { DictRun<cest::map<K, V, CMP, A>, K, V, CMP> r; r.run(); } finish_run(); }
template <class K, class V> using SA = alloc<std::pair<const K, V>>;
template <class K, class V> using DA = std::allocator<std::pair<const K, V>>;
void world_run() {
  start_run();
  unsigned t = choose(10);
  switch (t) {
    case 0: return gos<KW, Cmp<KW, LESS>, alloc<KW>>();
    case 1: return gos<ECo, Cmp<ECo, CLASSES4>, std::allocator<ECo>>();
    case 2: return gos<long, StdLess, std::allocator<long>>();
    case 3: return gos<ETm, TCmp<ETm, GREATER>, std::allocator<ETm>>();
    case 4: return gom<KW, ECo, Cmp<KW, LESS>, SA<KW, ECo>>();
    case 5: return gom<KW, ETm, Cmp<KW, CLASSES4>, DA<KW, ETm>>();
    case 6: return gom<long, NStr, TCmp<long, LESS>, DA<long, NStr>>();
    case 7: return gom<NStr, NVec, Cmp<NStr, GREATER>, DA<NStr, NVec>>();
    case 8: return gos<NStr, Cmp<NStr, LESS>, alloc<NStr>>();
    default: return gom<long, long, StdLess, SA<long, long>>();
  }
}
