#ifndef SIM_TRAITS_HPP
#define SIM_TRAITS_HPP
#include "core.hpp"
namespace sim {
struct CiTraits : std::char_traits<char> {       // case-insensitive, user-supplied
  static constexpr char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
  static constexpr bool eq(char a, char b) noexcept { return up(a) == up(b); }
  static constexpr bool lt(char a, char b) noexcept { return (unsigned char)up(a) < (unsigned char)up(b); }
  static constexpr int compare(const char* a, const char* b, size_t n) {
    for (; n; n--, a++, b++) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; }
    return 0;
  }
  static constexpr const char* find(const char* s, size_t n, const char& c) {
    for (; n; n--, s++) if (eq(*s, c)) return s;
    return nullptr;
  }
};
}
#endif
