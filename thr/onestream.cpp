// C26: several threads write to the same process streams. Each thread has its
// own letters and digits, so every character says who wrote it.
#include "cest/string.hpp"
#include "cest/iostream.hpp"
#include "cest/sstream.hpp"
#include "cest/cstdio.hpp"
#include "thr/api.hpp"
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

namespace {
using namespace thr;

struct Op { unsigned k, to; uint32_t a, b; Plan p; };
std::vector<Op> script[NT];
std::string want[NT][4];                       // what each thread sent to each device, in order
unsigned ends[4];                              // line ends sent to each device

int owner(char c) {
  if (c >= '1' && c <= '9') return (c - '1') / 3;
  if (c >= 'a' && c <= 'x') return (c - 'a') / 8;
  if (c >= 'A' && c <= 'X') return (c - 'A') / 8;
  return -1;
}
char letter(int t, uint32_t x, bool up = false) { return char((up ? 'A' : 'a') + t * 8 + int(x % 8)); }
unsigned number(int t, uint32_t x) { unsigned n = 0, len = 1 + x % 6; for (unsigned i = 0; i < len; i++, x /= 3) n = n * 10 + unsigned(t * 3 + 1) + x % 3; return n; }
std::string word(int t, uint32_t x, unsigned len) { std::string s; for (unsigned i = 0; i < len; i++, x = x * 5 + 3) s.push_back(letter(t, x >> 2, x & 1)); return s; }

const char* const names[] = {"<< text", "<< character", "<< int", "<< unsigned", "<< cest::string", "chain of <<", "fprintf", "fprintf of one string", "endl", "flush",
  "std stream << text", "printf", "printf of one string", "<< short and unsigned short", "<< std::string_view", "<< signed and unsigned char"};
constexpr unsigned NOPS = sizeof names / sizeof names[0];
cest::ostream& stream(unsigned d) { return d == 0 ? cest::cout : d == 1 ? cest::cerr : cest::clog; }
std::ostream& std_stream(unsigned d) { return d == 0 ? std::cout : d == 1 ? std::cerr : std::clog; }

void exec(int t, const Op& x) {
  unsigned d = x.to;
  cest::ostream& os = stream(d);
  std::string w = word(t, x.a, x.b % 12), w2 = word(t, x.b, 1 + x.a % 5);
  unsigned n = number(t, x.a);
  char c = letter(t, x.b);
  char num[16]; snprintf(num, sizeof num, "%u", n);
  std::string& out = want[t][x.k == 11 || x.k == 12 ? 3 : d];
  size_t before = out.size();
  auto go = [&](auto f) { if (call(names[x.k], x.p, f)) out.resize(before); };
  switch (x.k) {
    case 0: out += w; go([&] { os << w.c_str(); }); break;
    case 1: out += c; go([&] { os << c; }); break;
    case 2: out += num; go([&] { os << int(n); }); break;
    case 3: out += num; go([&] { os << n; }); break;
    case 4: out += w; { sut(true); cest::string* s = new cest::string(w.data(), w.size()); sut(false); go([&] { os << *s; }); sut(true); delete s; sut(false); } break;
    case 5: out += w + num + c + w2; go([&] { os << w.c_str() << n << c << w2.c_str(); }); break;
    case 6: out += num + w + c; go([&] { int r = cest::fprintf(&os, "%u%s%c", n, w.c_str(), c); if (r != int(strlen(num) + w.size() + 1)) fail("fprintf returned %d", r); }); break;
    case 7: out += w2; go([&] { cest::fprintf(&os, w2.c_str()); }); break;
    case 8: ends[d]++; go([&] { os << cest::endl; }); break;
    case 9: go([&] { os.flush(); }); break;
    case 10: out += w; go([&] { std_stream(d) << w.c_str(); }); break;
    case 11: out += num + w; go([&] { int r = cest::printf("%u%s", n, w.c_str()); if (r != int(strlen(num) + w.size())) fail("printf returned %d", r); }); break;
    case 12: out += w2; go([&] { cest::printf(w2.c_str()); }); break;
    case 13: { unsigned h = number(t, 2 + x.a / 6 * 6); snprintf(num, sizeof num, "%u", h); out += num; out += num; go([&] { os << short(h) << static_cast<unsigned short>(h); }); } break;
    case 14: out += w + w2; go([&] { os << w.c_str(); os << w2.c_str(); }); break;
    case 15: out += c; out += letter(t, x.a); go([&] { os << static_cast<signed char>(c) << static_cast<unsigned char>(letter(t, x.a)); }); break;
  }
}
void body(int t) { for (const Op& x : script[t]) { mark(names[x.k]); log("%s to %u (%u,%u)%s", names[x.k], x.to, x.a, x.b, x.p.mask ? " with a failure planned" : ""); exec(t, x); } }
} // namespace

void client_run() {
  draw_faults();
  stdout_whole(true);
  int n = 2 + int(choose(NT - 1));
  unsigned focus = choose(3), lo = focus ? choose(NOPS) : 0, span = focus ? 1 + choose(5) : NOPS, devs = focus ? 1 : 3, first = choose(3);
  for (int t = 0; t < n; t++) {
    script[t].clear();
    unsigned m = 1 + choose(focus ? 8 : 14);
    for (unsigned i = 0; i < m; i++) { begin_step(); Op x; x.k = (lo + choose(span)) % NOPS; x.to = (first + choose(devs)) % 3; x.a = choose(3200); x.b = choose(64); x.p = plan(); script[t].push_back(x); }
    for (auto& w : want[t]) w.clear();
  }
  for (auto& e : ends) e = 0;
  run(n, true, body);
  for (int d = 0; d < 4; d++) {
    size_t len = 0; const char* s = device_text(d, len);
    size_t at[NT] = {}; unsigned nl = 0;
    for (size_t i = 0; i < len; i++) {
      if (s[i] == '\n') { nl++; continue; }
      int t = owner(s[i]);
      if (t < 0 || t >= n) fail("device %d received character %d, which no thread wrote", d, s[i]);
      if (at[t] >= want[t][d].size() || want[t][d][at[t]] != s[i]) fail("device %d received '%c' as T%d's character %zu, which is '%s'", d, s[i], t, at[t], at[t] < want[t][d].size() ? want[t][d].substr(at[t], 8).c_str() : "not there");
      at[t]++;
    }
    for (int t = 0; t < n; t++) if (at[t] != want[t][d].size()) fail("device %d received %zu of T%d's %zu characters", d, at[t], t, want[t][d].size());
    if (nl != ends[d]) fail("device %d received %u of %u line ends", d, nl, ends[d]);
    if (!stream(unsigned(d) % 3).good()) fail("stream %d is not good", d % 3);
  }
}
