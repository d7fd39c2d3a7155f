// Elements that are themselves library objects.
#ifndef SIM_NESTED_HPP
#define SIM_NESTED_HPP
#include "elem.hpp"
namespace sim {
// after a failed assignment an element may hold an unspecified (but readable) value
inline long damaged(const char* what) { if (!g.lenient) violate(CONTENT, "%s", what); return MOVED; }
using NStr = cest::string;
template <> struct Tr<NStr> {
  static NStr mk(long v) { char b[40]; int n = snprintf(b, sizeof b, "%ld\xff" "%0*d", v, int((v & 7) + 1), 5); return NStr(b, size_t(n)); }
  static long val(const NStr& s) {
    if (s.size() == 0) return DEFAULTED;
    char* e; long v = strtol(s.c_str(), &e, 10);
    if (*e != '\xff' || s.size() != size_t(e - s.c_str()) + 1 + size_t((v & 7) + 1) || s.c_str()[s.size()] != 0) return damaged("a nested string holds damaged text");
    return v;
  }
  static constexpr bool copyable = true, tracked = false;
  static constexpr unsigned faults = 1u << F_ALLOC;
};
using NVec = cest::vector<ECo, alloc<ECo>>;
template <> struct Tr<NVec> {
  static NVec mk(long v) { NVec r; for (long i = 0; i <= (v & 3); i++) r.push_back(ECo(v + i)); return r; }
  static long val(const NVec& s) {
    if (s.empty()) return DEFAULTED;
    long v = s[0].get();
    if (s.size() != size_t((v & 3) + 1)) return damaged("a nested vector holds the wrong number of elements");
    for (size_t i = 0; i < s.size(); i++) if (s[i].get() != v + long(i)) return damaged("a nested vector holds a damaged element");
    return v;
  }
  static constexpr bool copyable = true, tracked = false;
  static constexpr unsigned faults = (1u << F_ALLOC) | (1u << F_COPY) | (1u << F_ASSIGN);
};
}
#endif
