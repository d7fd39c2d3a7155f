// One object of every kind and the operations on them, used by the worlds in
// which each thread has its own (separate) and in which threads hand them on
// (handover).
#ifndef SIM_THR_OWN_HPP
#define SIM_THR_OWN_HPP
#include <cmath>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/string.hpp"
#include "cest/queue.hpp"
#include "cest/memory.hpp"
#include "cest/functional.hpp"
#include "cest/iostream.hpp"
#include "cest/sstream.hpp"
#include "cest/cstdio.hpp"
#include "cest/cctype.hpp"
#include "cest/cmath.hpp"
#include "cest/complex.hpp"
#include "cest/algorithm.hpp"
#include "cest/numeric.hpp"
#include "thr/api.hpp"
#include <utility>
#include <vector>

namespace {
using namespace thr;
using std::size_t;

struct Cp {
  long v;
  Cp(long x = 0) : v(x) {}
  Cp(const Cp& o) : v(o.v) { copy_point(); }
  Cp& operator=(const Cp& o) { copy_point(); v = o.v; return *this; }
  bool operator<(const Cp& o) const { return v < o.v; }
};
struct Base { long v; explicit Base(long x) : v(x) {} virtual ~Base() { obs(0xD1); } virtual long get() const { return v; } };
struct Derived : Base { using Base::Base; ~Derived() override { obs(0xD2); } long get() const override { return v * 2; } };
struct Del { long k; void operator()(Base* p) const { obs(0xDE + uint64_t(k)); delete p; } };
struct Shout { bool operator()(long a, long b) const { return a > b; } };

struct Own {
  cest::vector<long> v, v2; cest::vector<cest::string> vs; cest::vector<Cp> vc;
  cest::deque<long> d; cest::deque<Cp> dc;
  cest::list<long> l, l2; cest::list<cest::string> ls;
  cest::forward_list<long> f;
  cest::set<long> s; cest::set<Cp> sc; cest::set<long, Shout> sr;
  cest::map<long, cest::string> m;
  cest::string str, str2; cest::wstring w;
  cest::queue<long> q;
  cest::shared_ptr<Base> p1, p2;
  cest::unique_ptr<Base> u1, u2;
  cest::function<long(long)>* fn = nullptr;
  cest::stringstream* ss = nullptr;
  cest::FILE* file = nullptr; char filebuf[40];
  ~Own() { delete fn; if (ss) delete ss; if (file) cest::fclose(file); }
};
struct Op { unsigned k; uint32_t a, b; Plan p; };

cest::string text(uint32_t x) { char b[24]; size_t n = 0; do b[n++] = char('a' + x % 5), x /= 5; while (x && n < 20); if (n > 3) b[2] = 0; return cest::string(b, n); }
long num(long x) { return x; }
long num(const Cp& c) { return c.v; }
long num(const cest::string& s) { long h = long(s.size()); for (size_t i = 0; i < s.size(); i++) h = h * 31 + s[i]; return h; }
template <class A, class B> long num(const std::pair<const A, B>& p) { return num(p.first) * 7 + num(p.second); }
template <class C> void walk(const C& c) { for (auto i = c.begin(), e = c.end(); i != e; ++i) obs(uint64_t(num(*i))); obs(0xF1); }
template <class S> void state(S& s) { obs(s.good()); obs(s.eof()); obs(s.fail()); obs(uint64_t(s.rdstate())); }

const char* const names[] = {
  "vector push_back", "vector pop_back/erase", "vector copy/assign/swap", "vector insert/resize/reserve", "vector<string>", "vector of throwing copies",
  "deque push/pop", "deque copy/assign", "deque of throwing copies", "list insert/erase", "list copy/swap", "list<string>",
  "forward_list", "set insert", "set copy/clear", "set of throwing copies", "set with own order", "map insert/find", "map copy/clear",
  "string append", "string assign/find/compare", "wstring", "queue", "shared_ptr make", "shared_ptr copy/reset", "shared_ptr deleter", "unique_ptr", "function set", "function call",
  "stringstream new", "stringstream read", "stringstream get/unget", "stringstream str", "fmemopen", "fread", "fclose",
  "isalnum/isupper", "own process stream << text", "own process stream << number", "fprintf to own process stream", "printf", "hex/dec/endl/flush",
  "math", "complex", "algorithms", "wstring stream and traits",
  "look-ups in const objects", "positions in const objects",
};
constexpr unsigned NOPS = sizeof names / sizeof names[0];
// operations that meet in the same objects
const std::vector<unsigned> groups[] = {
  {0, 1, 2, 3, 4, 5, 47}, {6, 7, 8, 47}, {9, 10, 11, 12, 47}, {13, 14, 15, 16, 46}, {17, 18, 46, 46}, {19, 20, 21, 46, 47}, {22, 47},
  {23, 24, 25, 26}, {27, 28}, {29, 30, 31, 32}, {33, 34, 35}, {37, 38, 39, 40, 41}, {36, 42, 43, 44, 45},
};
constexpr unsigned NGROUPS = sizeof groups / sizeof groups[0];

cest::ostream& own_stream(int t) { return t == 0 ? cest::cout : t == 1 ? cest::cerr : cest::clog; }

void exec(Own& o, int t, const Op& x) {
  size_t a = x.a, b = x.b;
  long v = long(a % 97);
  auto go = [&](auto f) { call(names[x.k], x.p, f); };
  switch (x.k) {
    case 0: go([&] { for (size_t i = 0; i <= b % 4; i++) o.v.push_back(v + long(i)); }); walk(o.v); break;
    case 1: go([&] { if (!o.v.empty()) { if (b & 1) o.v.pop_back(); else o.v.erase(o.v.begin() + long(a % o.v.size()), o.v.end()); } }); walk(o.v); break;
    case 2: go([&] { if (b % 3 == 0) o.v2 = o.v; else if (b % 3 == 1) { cest::vector<long> c(o.v); c.push_back(1); o.v2 = std::move(c); } else o.v.swap(o.v2); }); walk(o.v); walk(o.v2); break;
    case 3: go([&] { if (b % 3 == 0) o.v.push_back(v); else if (b % 3 == 1) o.v.resize(a % 20); else o.v.reserve(a % 50); }); walk(o.v); break;
    case 4: go([&] { o.vs.push_back(text(x.a)); if (o.vs.size() > 4) o.vs.erase(o.vs.begin(), o.vs.begin() + 1); cest::vector<cest::string> c(o.vs); }); walk(o.vs); break;
    case 5: go([&] { o.vc.push_back(Cp(v)); cest::vector<Cp> c(o.vc); }); walk(o.vc); break;
    case 6: go([&] { switch (b % 5) { case 0: case 1: o.d.push_back(v); break; case 2: o.d.push_front(v); break; case 3: if (!o.d.empty()) o.d.pop_back(); break; default: if (!o.d.empty()) o.d.pop_front(); } }); walk(o.d); break;
    case 7: go([&] { cest::deque<long> c(o.d); c.push_back(7); if (b & 1) o.d = c; if (b % 7 == 0) o.d.clear(); }); walk(o.d); for (size_t i = 0; i < o.d.size(); i++) obs(uint64_t(o.d[i])); break;
    case 8: go([&] { if (b & 1) o.dc.push_back(Cp(v)); else o.dc.push_front(Cp(v)); cest::deque<Cp> c(o.dc); }); walk(o.dc); break;
    case 9: go([&] { if (b % 4 == 3 && !o.l.empty()) o.l.erase(o.l.begin()); else if (b & 1) o.l.push_back(v); else o.l.insert(o.l.begin(), v); }); walk(o.l); obs(o.l.size()); break;
    case 10: go([&] { cest::list<long> c(o.l); if (b & 1) o.l2 = c; else o.l = o.l2; if (b % 7 == 0) o.l.clear(); }); walk(o.l); walk(o.l2); break;
    case 11: go([&] { o.ls.push_back(text(x.a)); cest::list<cest::string> c(o.ls); if (o.ls.size() > 3) o.ls.erase(o.ls.begin()); }); walk(o.ls); break;
    case 12: go([&] { if (b % 3 == 2 && !o.f.empty()) o.f.pop_front(); else o.f.push_front(v); cest::forward_list<long> c(o.f), e; e = c; if (b % 9 == 0) o.f.clear(); }); walk(o.f); break;
    case 13: go([&] { for (size_t i = 0; i <= b % 3; i++) { auto r = o.s.insert(v + long(i * 3)); obs(r.second); obs(uint64_t(*r.first)); } }); walk(o.s); break;
    case 14: go([&] { cest::set<long> c(o.s); c.insert(100 + v); if (b & 1) o.s = c; if (b % 7 == 0) o.s.clear(); obs(o.s.find(v) == o.s.end()); }); walk(o.s); break;
    case 15: go([&] { o.sc.insert(Cp(v)); cest::set<Cp> c(o.sc); }); walk(o.sc); break;
    case 16: go([&] { o.sr.insert(v); obs(o.sr.find(v) == o.sr.end()); }); walk(o.sr); break;
    case 17: go([&] { auto r = o.m.insert({v, text(x.b)}); obs(r.second); auto it = o.m.find(long(b)); obs(it == o.m.end()); }); walk(std::as_const(o.m)); break;
    case 18: go([&] { cest::map<long, cest::string> c(o.m); c.insert({200 + v, text(x.a)}); if (b & 1) o.m = c; if (b % 7 == 0) o.m.clear(); }); walk(std::as_const(o.m)); break;
    case 19: go([&] { if (b % 3 == 0) o.str.push_back(char('a' + v % 20)); else if (b % 3 == 1) o.str.append(text(x.a)); else o.str += o.str2; if (o.str.size() > 60) o.str.clear(); }); obs(uint64_t(num(o.str))); obs(uint64_t(o.str.c_str()[o.str.size()])); break;
    case 20: go([&] { o.str2 = b & 1 ? o.str : text(x.a); obs(o.str.find(o.str2)); obs(o.str == o.str2); obs(o.str < o.str2); obs(uint64_t(o.str.compare(o.str2) > 0)); o.str2.reserve(a % 40); if (!o.str2.empty()) o.str2.pop_back(); }); obs(uint64_t(num(o.str2))); break;
    case 21: go([&] { o.w.push_back(wchar_t(L'a' + v)); cest::wstring c(o.w); c += c; obs(c.size()); obs(uint64_t(c[a % c.size()])); if (o.w.size() > 20) o.w.clear(); }); for (auto c : o.w) obs(uint64_t(c)); break;
    case 22: go([&] { if (b % 3 == 2 && !o.q.empty()) { obs(uint64_t(o.q.front())); o.q.pop(); } else o.q.push(v); cest::queue<long> c(o.q); obs(c.size()); }); obs(o.q.size()); if (!o.q.empty()) obs(uint64_t(o.q.back())); break;
    case 23: go([&] { if (b & 1) o.p1 = cest::shared_ptr<Base>(new Base(v)); else o.p1 = cest::shared_ptr<Base>(new Derived(v)); }); if (o.p1) { obs(uint64_t(o.p1->get())); obs(uint64_t(o.p1.use_count())); } break;
    case 24: go([&] { if (b % 4 == 0) o.p1 = cest::shared_ptr<Base>(); else if (b % 4 == 1) o.p2 = o.p1; else if (b % 4 == 2) { cest::shared_ptr<Base> c(o.p1); obs(uint64_t(c.use_count())); } else { cest::shared_ptr<Base> c(o.p2); o.p2 = o.p1; o.p1 = c; } }); if (o.p1) { obs(uint64_t(o.p1->get())); obs(uint64_t(o.p1.use_count())); } break;
    case 25: go([&] { Base* p = new Base(v); o.p2 = cest::shared_ptr<Base>(p, Del{long(b)}); }); if (o.p2) obs(uint64_t(o.p2->get())); break;
    case 26: go([&] { if (b % 3 == 0) o.u1 = cest::unique_ptr<Base>(new Base(v)); else if (b % 3 == 1) o.u2 = std::move(o.u1); else o.u1.reset(); }); obs(bool(o.u1)); obs(bool(o.u2)); if (o.u1) obs(uint64_t(o.u1->get())); if (o.u2) obs(uint64_t(o.u2->get())); break;
    case 27: go([&] { long n = 0; delete o.fn; o.fn = nullptr; if (b & 1) o.fn = new cest::function<long(long)>([v, n](long y) mutable { return y + v + n++; }); else o.fn = new cest::function<long(long)>([v](long y) { cest::string s = text(uint32_t(y + v)); return num(s); }); }); break;
    case 28: go([&] { if (o.fn) { obs(uint64_t((*o.fn)(v))); obs(uint64_t((*o.fn)(long(b)))); } }); break;
    case 29: go([&] { delete o.ss; o.ss = nullptr; o.ss = new cest::stringstream(text(x.a)); }); break;
    case 30: if (o.ss) { char buf[16] = {}; go([&] { o.ss->read(buf, long(b % 9)); obs(uint64_t(o.ss->gcount())); }); obs_bytes(buf, 16); state(*o.ss); } break;
    case 31: if (o.ss) { go([&] { char c = 0; o.ss->get(c); obs(uint64_t(c)); if (b & 1) o.ss->unget(); if (b & 2) o.ss->clear(); }); state(*o.ss); } break;
    case 32: if (o.ss) { go([&] { o.ss->str(text(x.a)); }); } break;
    case 33: go([&] { if (o.file) cest::fclose(o.file); o.file = nullptr; for (size_t i = 0; i < sizeof o.filebuf; i++) o.filebuf[i] = char(a + i * b); o.file = cest::fmemopen(o.filebuf, a % sizeof o.filebuf, "r"); }); break;
    case 34: if (o.file) { char buf[24] = {}; go([&] { obs(cest::fread(buf, 1, b % 24, o.file)); }); obs_bytes(buf, 24); } break;
    case 35: if (o.file) { go([&] { cest::FILE* f = o.file; o.file = nullptr; obs(uint64_t(cest::fclose(f))); }); } break;
    case 36: go([&] { obs(cest::isalnum(int(a % 256)) != 0); obs(cest::isupper(int(b + 64)) != 0); }); break;
    case 37: go([&] { own_stream(t) << "text" << char('a' + v % 20) << text(x.a); }); device_out(t); break;
    case 38: go([&] { own_stream(t) << int(a) << ' ' << unsigned(b) << ' ' << (a % 2 == 1) << short(b); }); device_out(t); break;
    case 39: go([&] { if (t == 2) own_stream(t) << "x"; obs(uint64_t(cest::fprintf(&own_stream(t), "%d-%s-%c|", int(a), "word", 'a' + int(b % 20)))); }); device_out(t); break;
    case 40: if (t == 0) { go([&] { obs(uint64_t(cest::printf("%d:%s:%ld\n", int(a), "out", v))); }); device_out(3); } break;
    case 41: go([&] { if (b % 3 == 0) own_stream(t) << cest::hex << unsigned(a) << cest::dec; else if (b % 3 == 1) own_stream(t) << cest::endl; else own_stream(t).flush(); }); device_out(t); break;
    case 42: go([&] { double r = cest::sqrt(double(v) + 2) + cest::sin(double(v) / 50) + cest::exp(double(b) / 32); obs_bytes(&r, sizeof r); }); break;
    case 43: go([&] { double re = double(v), im = double(b); cest::complex<double> c(re, im), e(1.5, -2); c *= e; c = c / e + e; double r[2] = {c.real(), c.imag()}; obs_bytes(r, sizeof r); }); break;
    case 44: go([&] { long arr[12]; for (int i = 0; i < 12; i++) arr[i] = long((a * size_t(i + 3) + b) % 31); obs(uint64_t(cest::accumulate(arr, arr + 12, 0l))); obs(uint64_t(cest::find_if(arr, arr + 12, [&](long y) { return y == long(b % 31); }) - arr)); }); break;
    case 46: go([&] {
      const Own& c = o;
      for (long k : {v, long(b), v + 3}) {
        auto i = c.m.find(k); obs(i == c.m.end()); if (i != c.m.end()) obs(uint64_t(num(*i)));
        auto j = c.s.find(k); obs(j == c.s.end()); if (j != c.s.end()) obs(uint64_t(*j));
        obs(c.sr.find(k) == c.sr.end());
        if (k % 2) { auto z = c.sc.find(Cp(k)); obs(z == c.sc.end()); }
      }
      obs(c.str.find(c.str2)); obs(c.str.find(char('a' + v % 20))); obs(uint64_t(c.str.compare(c.str2) > 0)); obs(c.str == c.str2);
    }); break;
    case 47: go([&] {
      const Own& c = o;
      obs(c.v.size()); obs(c.d.size()); obs(c.l.size()); obs(c.s.size()); obs(c.m.size()); obs(c.q.size()); obs(c.str.size()); obs(c.f.empty());
      if (!c.v.empty()) { obs(uint64_t(c.v[a % c.v.size()])); obs(uint64_t(c.v.back())); }
      if (!c.d.empty()) { obs(uint64_t(c.d[a % c.d.size()])); obs(uint64_t(c.d.front())); obs(uint64_t(c.d.back())); }
      if (!c.l.empty()) { obs(uint64_t(c.l.front())); obs(uint64_t(c.l.back())); }
      if (!c.str.empty()) { obs(uint64_t(c.str[a % c.str.size()])); obs(uint64_t(c.str.c_str()[c.str.size()])); }
      if (!c.q.empty()) { obs(uint64_t(c.q.front())); obs(uint64_t(c.q.back())); }
      obs(c.v == c.v2); obs(bool(c.p1)); obs(bool(c.u1));
    }); break;
    case 45: go([&] { cest::basic_string<char16_t> c; for (size_t i = 0; i <= b % 20; i++) c.push_back(char16_t(a + i)); obs(c.size()); obs(uint64_t(c[b % c.size()])); }); break;
  }
}
} // namespace
#endif
