// C20: one interpreter of operation histories, run both by the compiler's
// constant evaluator and by the machine.
#ifndef SIM_CX_HPP
#define SIM_CX_HPP
#include <cmath>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/string.hpp"
#include "cest/queue.hpp"
#include "cest/memory.hpp"
#include "cest/functional.hpp"
#include "cest/iostream.hpp"
#include "cest/sstream.hpp"
#include "cest/cstdio.hpp"
#include "cest/cctype.hpp"
#include "cest/algorithm.hpp"
#include "cest/numeric.hpp"
#include <cstdint>
#include <utility>

namespace cx {
using std::size_t;
using u64 = std::uint64_t;
struct Op { unsigned k; unsigned a, b; };

struct Out {
  u64 h = 0xcbf29ce484222325ull, n = 0;
  u64* log = nullptr; u64 cap = 0;
  constexpr void operator()(u64 x) { if (log && n < cap) log[n] = x; n++; h = (h ^ x) * 0x100000001B3ull; h ^= h >> 29; }
};

struct H {                                     // an element that owns memory
  int* p;
  constexpr H(int v = 0) : p(new int(v)) {}
  constexpr H(const H& o) : p(new int(*o.p)) {}
  constexpr H& operator=(const H& o) { int t = *o.p; *p = t; return *this; }
  constexpr ~H() { delete p; }
  constexpr bool operator==(const H& o) const { return *p == *o.p; }
  constexpr bool operator<(const H& o) const { return *p < *o.p; }
};
struct M {                                     // movable owner
  int* p;
  constexpr M(int v = 0) : p(new int(v)) {}
  constexpr M(const M& o) : p(o.p ? new int(*o.p) : nullptr) {}
  constexpr M(M&& o) noexcept : p(o.p) { o.p = nullptr; }
  constexpr M& operator=(M o) noexcept { int* t = p; p = o.p; o.p = t; return *this; }
  constexpr ~M() { delete p; }
};
struct Greater { constexpr bool operator()(int a, int b) const { return a > b; } };
struct Mod { int m = 7; constexpr bool operator()(int a, int b) const { return a % m < b % m; } };

struct Pad { char c = 0; long v = 0; short w = 0; constexpr bool operator==(const Pad& o) const { return v / 2 == o.v / 2; } };   // plain, with padding and a coarse ==
constexpr u64 num(double d) { return __builtin_bit_cast(u64, d); }
constexpr u64 num(const Pad& p) { return u64(p.v) * 64 + u64(p.c) + u64(p.w); }
constexpr u64 num(int x) { return u64(x); }
constexpr u64 num(long x) { return u64(x); }
constexpr u64 num(const H& h) { return u64(*h.p); }
constexpr u64 num(const M& h) { return h.p ? u64(*h.p) : 77; }
template <class C, class T> constexpr u64 num(const cest::basic_string<C, T>& s) { u64 h = s.size(); for (size_t i = 0; i < s.size(); i++) h = h * 31 + u64(s[i]); return h * 3 + u64(s.c_str()[s.size()]); }
template <class A, class B> constexpr u64 num(const std::pair<const A, B>& p) { return num(p.first) * 7 + num(p.second); }
template <class C> struct InIt {                 // a single-pass input iterator
  using iterator_category = std::input_iterator_tag; using value_type = C; using difference_type = std::ptrdiff_t; using pointer = const C*; using reference = const C&;
  const C* p;
  constexpr const C& operator*() const { return *p; }
  constexpr InIt& operator++() { ++p; return *this; }
  constexpr InIt operator++(int) { InIt t = *this; ++p; return t; }
  constexpr bool operator==(const InIt& o) const { return p == o.p; }
  constexpr bool operator!=(const InIt& o) const { return p != o.p; }
};
template <class C> constexpr void walk(Out& o, const C& c) { for (auto i = c.begin(), e = c.end(); i != e; ++i) o(num(*i)); o(0xF1); }
template <class C> constexpr void back(Out& o, const C& c) { for (auto i = c.end(); i != c.begin();) { --i; o(num(*i)); } o(0xF2); }
constexpr int letter(unsigned x) { constexpr int l[7] = {'a', 'b', 'c', 0xE9, 'e', 0xFF, 'd'}; return l[x % 7]; }   // some above 0x7F, one that looks like end of data
template <class S = cest::string> constexpr S text(unsigned x) { S s; do { s.push_back(typename S::value_type(letter(x % 6))); x /= 6; } while (x && s.size() < 20); if (s.size() > 3) s[2] = 0; return s; }
constexpr double real(unsigned x) { constexpr double l[6] = {0.0, -0.0, 1.5, __builtin_nan(""), -2.25, __builtin_inf()}; return l[x % 6]; }

// ------------------------------------------------------------------ sequences
struct Seq {
  cest::vector<int> v[3]; cest::vector<H> vh[2]; cest::vector<M> vm; cest::vector<cest::string> vs;
  cest::deque<int> d[2]; cest::deque<H> dh; cest::deque<cest::string> ds;
  cest::list<int> l[2]; cest::list<H> lh; cest::list<cest::string> ls;
  cest::forward_list<int> f[2]; cest::forward_list<H> fh;
  cest::queue<int> q; cest::queue<H, cest::list<H>> ql;
  cest::vector<double> vd[2]; cest::vector<Pad> vp[2]; cest::deque<M> dm; cest::list<M> lm; cest::forward_list<M> fm;
  static constexpr unsigned N = 50;
  constexpr void step(Out& o, const Op& x) {
    const unsigned a = x.a, b = x.b; const int i = int(a % 53);
    auto &v0 = v[b % 3], &v1 = v[(b / 3) % 3];
    auto &d0 = d[b % 2], &l0 = d0; (void)l0;
    auto &li = l[b % 2], &lj = l[(b / 2) % 2];
    auto &fi = f[b % 2], &fj = f[(b / 2) % 2];
    switch (x.k % N) {
      case 0: v0.push_back(i); walk(o, v0); break;
      case 1: if (!v0.empty()) v0.pop_back(); o(v0.size()); break;
      case 2: v0.reserve(a % 20); o(v0.capacity() >= a % 20); walk(o, v0); break;
      case 3: v0.resize(a % 12); walk(o, v0); break;
      case 4: v0 = v1; walk(o, v0); walk(o, v1); break;
      case 5: { cest::vector<int> c(v0); c.push_back(i); walk(o, c); v1 = std::move(c); walk(o, v1); } break;
      case 6: v0.swap(v1); walk(o, v0); break;
      case 7: { size_t n = v0.size(), p = n ? a % (n + 1) : 0, r = p + (n - p ? b % (n - p + 1) : 0); v0.erase(v0.begin() + long(p), v0.begin() + long(r)); walk(o, v0); } break;
      case 8: o(v0 == v1); if (!v0.empty()) { o(num(v0.front())); o(num(v0.back())); o(num(v0[a % v0.size()])); o(num(v0.at(b % v0.size()))); o(num(v0.data()[0])); } break;
      case 9: for (auto r = v0.rbegin(); r != v0.rend(); ++r) o(num(*r)); break;
      case 10: v0.clear(); o(v0.empty()); break;
      case 11: { cest::vector<int> c{i, 2, 3}; v0 = c; cest::vector<int> e(a % 5); walk(o, e); } break;
      case 12: vh[b % 2].push_back(H(i)); walk(o, vh[b % 2]); break;
      case 13: { auto &p = vh[b % 2], &q = vh[(b / 2) % 2]; if (a % 3 == 0) p = q; else if (a % 3 == 1) p.swap(q); else if (!p.empty()) p.push_back(p[a % p.size()]); walk(o, p); if (p.size() > 8) p.clear(); } break;
      case 14: vm.push_back(M(i)); if (vm.size() > 6) vm.erase(vm.begin() + 1, vm.begin() + 3); walk(o, vm); break;
      case 15: vs.push_back(text(a)); if (vs.size() > 4) { cest::vector<cest::string> c(vs); vs.erase(vs.begin(), vs.begin() + 2); o(num(c[0])); } walk(o, vs); break;
      case 16: d0.push_back(i); walk(o, d0); break;
      case 17: d0.push_front(i); walk(o, d0); break;
      case 18: if (!d0.empty()) d0.pop_back(); walk(o, d0); back(o, d0); break;
      case 19: if (!d0.empty()) d0.pop_front(); walk(o, d0); back(o, d0); break;
      case 20: if (a % 5 == 0) d0.clear(); else if (a % 5 == 1) d[0] = d[1]; else { cest::deque<int> c(d0); c.push_back(i); c.push_front(1); walk(o, c); } walk(o, d0); break;
      case 21: o(d0.size()); if (!d0.empty()) { o(num(d0.front())); o(num(d0.back())); o(num(d0[a % d0.size()])); o(u64(d0.end() - d0.begin())); auto it = d0.begin(); for (unsigned k = 0; k < a % d0.size(); k++) it++; o(num(*it)); } break;
      case 22: if (a % 4 == 3 && !dh.empty()) { if (b & 1) dh.pop_back(); else dh.pop_front(); } else if (b & 1) dh.push_back(H(i)); else dh.push_front(H(i)); walk(o, dh); break;
      case 23: if (b & 1) ds.push_back(text(a)); else ds.push_front(text(a)); if (ds.size() > 5) { cest::deque<cest::string> c(ds); ds.pop_front(); ds = c; ds.pop_back(); } walk(o, ds); break;
      case 24: li.push_back(i); walk(o, li); break;
      case 25: li.push_front(i); walk(o, li); back(o, li); break;
      case 26: { auto p = li.begin(); for (unsigned k = 0; k < (li.size() ? a % (li.size() + 1) : 0); k++) ++p; auto r = li.insert(p, i); o(num(*r)); walk(o, li); } break;
      case 27: if (!li.empty()) { auto p = li.begin(); for (unsigned k = 0; k < a % li.size(); k++) ++p; auto r = li.erase(p); o(r == li.end()); walk(o, li); } break;
      case 28: if (a % 4 == 0) li.clear(); else if (a % 4 == 1) li = lj; else { cest::list<int> c(li); c.push_back(2); walk(o, c); } walk(o, li); break;
      case 29: if (!li.empty()) { o(num(li.front())); o(num(li.back())); if (a & 1) li.pop_back(); else li.pop_front(); } o(li.size()); break;
      case 30: o(num(li.emplace_back(i))); o(num(li.emplace_front(i + 1))); o(num(*li.emplace(li.begin(), 3))); walk(o, li); break;
      case 31: lh.push_back(H(i)); if (lh.size() > 4) { lh.erase(lh.begin()); cest::list<H> c(lh); lh.pop_back(); lh = c; } walk(o, lh); break;
      case 32: ls.push_front(text(a)); if (ls.size() > 4) ls.pop_back(); walk(o, ls); break;
      case 33: fi.push_front(i); walk(o, fi); break;
      case 34: if (!fi.empty()) fi.pop_front(); walk(o, fi); break;
      case 35: { auto p = fi.before_begin(); auto q = fi.begin(); for (unsigned k = 0; k < a % 4 && q != fi.end(); k++) { ++p; ++q; } auto r = fi.insert_after(p, i); o(num(*r)); walk(o, fi); } break;
      case 36: if (a % 4 == 0) fi.clear(); else if (a % 4 == 1) fi = fj; else if (a % 4 == 2) fi.swap(fj); else { cest::forward_list<int> c(fi); c.push_front(9); walk(o, c); } walk(o, fi); break;
      case 37: fh.push_front(H(i)); { cest::forward_list<H> c(fh), e; e = c; o(num(e.front())); } if (a % 5 == 0) fh.clear(); walk(o, fh); break;
      case 38: if (a % 3 == 2 && !q.empty()) { o(num(q.front())); q.pop(); } else { q.push(i); o(num(q.back())); } o(q.size()); break;
      case 39: if (a % 3 == 2 && !ql.empty()) { o(num(ql.front())); ql.pop(); } else ql.push(H(i)); { cest::queue<H, cest::list<H>> c(ql); o(c.size()); } break;
      case 40: { auto &e = vd[b % 2]; if (a % 5 == 4 && e.size()) e.pop_back(); else e.push_back(real(a)); o(vd[0] == vd[1]); cest::vector<double> c(e); o(c == e); walk(o, e); if (e.size() > 6) vd[0] = vd[1]; } break;
      case 41: { auto &e = vp[b % 2]; Pad n; n.v = long(a % 8); n.w = short(a); n.c = char(b); e.push_back(n); o(vp[0] == vp[1]); cest::vector<Pad> c(e); c[0].v ^= 1; o(c == e); c[0].v += 2; o(c == e); walk(o, e); if (e.size() > 6) e.clear(); } break;
      case 42: { unsigned n = 0; for (auto q = fi.begin(); q != fi.end(); ++q) n++; if (n) { unsigned k = a % n; auto p = fi.before_begin(); while (k--) ++p; if (b & 1) { auto r = fi.erase_after(p); o(r == fi.end()); } else { auto e = p; unsigned m = b % 3; do ++e; while (m-- && !(e == fi.end())); auto r = fi.erase_after(p, e); o(r == e); } } walk(o, fi); } break;
      case 43: o(u64(cest::find_if(v0.begin(), v0.end(), [i](int y) { return y >= i; }) - v0.begin())); o(u64(cest::accumulate(v0.begin(), v0.end(), 0l))); o(u64(cest::count(li.cbegin(), li.cend(), i))); cest::reverse(v0.begin(), v0.end()); if (!v0.empty()) cest::sort(v0.begin(), v0.begin() + long(a % v0.size())); walk(o, v0); break;
      case 44: { cest::deque<int> c{i, 5, 6}; c.push_front(int(b)); cest::queue<int> e(c); while (!e.empty()) { o(num(e.front())); e.pop(); } o(u64(cest::accumulate(d0.begin(), d0.end(), 0l))); } break;
      case 45: dm.push_back(M(i)); if (b & 1) dm.push_front(M(i + 1)); if (dm.size() > 5) { dm.pop_front(); cest::deque<M> c(dm); dm.pop_back(); dm = c; } walk(o, dm); back(o, dm); break;
      case 46: lm.push_back(M(i)); if (b & 1) lm.push_front(M(i + 1)); lm.insert(lm.begin(), M(3)); if (lm.size() > 6) { lm.pop_front(); lm.pop_back(); cest::list<M> c(lm); lm.clear(); lm = c; } walk(o, lm); back(o, lm); break;
      case 47: fm.push_front(M(i)); fm.insert_after(fm.begin(), M(i + 2)); if (b % 4 == 0) { cest::forward_list<M> c(fm); fm.pop_front(); fm.swap(c); } if (b % 9 == 0) fm.clear(); walk(o, fm); break;
      case 48: if (v0.size() > 1) { const auto &c = v0; o(num(c.front())); o(num(c.back())); o(num(c[1])); o(num(c.at(1))); o(num(*c.data())); for (auto r = c.rbegin(); r != c.rend(); ++r) o(num(*r)); auto n = v0.size(); v0.push_back(v0[a % n]); v0.push_back(v0.back()); o(num(v0.back())); } break;
      case 49: { const auto &c = d0; if (!c.empty()) { o(num(c.front())); o(num(c.back())); o(num(c[a % c.size()])); auto p = c.begin(); auto q = p; q++; o(q == c.end()); o(u64(c.end() - p)); q--; o(q == p); } const auto &e = li; if (!e.empty()) { o(num(e.front())); o(num(e.back())); auto p = e.begin(); auto q = p++; o(q == e.cbegin()); p--; o(p == q); } } break;
    }
  }
};

// ----------------------------------------------------------------- dictionaries
struct Dict {
  cest::set<int> s[2]; cest::set<int, Greater> sg; cest::set<int, Mod> sm; cest::set<H> sh; cest::set<cest::string> ss;
  cest::map<int, int> m[2]; cest::map<int, cest::string, Greater> mg; cest::map<cest::string, H> ms; cest::set<int, std::less<>> st; cest::map<long, M, std::less<>> mt;
  static constexpr unsigned N = 20;
  constexpr void step(Out& o, const Op& x) {
    const unsigned a = x.a, b = x.b; const int i = int(a % 61);
    auto &s0 = s[b % 2], &s1 = s[(b / 2) % 2]; auto &m0 = m[b % 2], &m1 = m[(b / 2) % 2];
    switch (x.k % N) {
      case 0: case 1: { auto r = s0.insert(i); o(r.second); o(num(*r.first)); walk(o, s0); } break;
      case 2: { auto it = s0.find(i); o(it == s0.end()); if (it != s0.end()) o(num(*it)); o(s0.size()); } break;
      case 3: if (a % 7 == 0) s0.clear(); else if (a % 3) s0 = s1; else { cest::set<int> c(s0); c.insert(100); walk(o, c); } walk(o, s0); break;
      case 4: for (unsigned k = 0; k < 1 + a % 6; k++) s0.insert(int(k * (1 + b % 5))); walk(o, s0); break;
      case 5: sg.insert(i); o(sg.find(int(b)) == sg.end()); walk(o, sg); break;
      case 6: sm.insert(i); o(sm.size()); walk(o, sm); break;
      case 7: sh.insert(H(i)); { cest::set<H> c(sh); o(c.size()); } if (a % 9 == 0) sh.clear(); walk(o, sh); break;
      case 8: ss.insert(text(a)); o(ss.find(text(b)) == ss.end()); if (a % 9 == 0) ss.clear(); walk(o, ss); break;
      case 9: case 10: { auto r = m0.insert({i, int(b)}); o(r.second); o(num((*r.first).second)); if (a & 1) (*r.first).second += 1; walk(o, std::as_const(m0)); } break;
      case 11: { auto it = m0.find(i); o(it == m0.end()); if (it != m0.end()) o(num(it->second)); } break;
      case 12: if (a % 7 == 0) m0.clear(); else if (a % 3) m0 = m1; else { cest::map<int, int> c(m0); c.insert({100, 1}); walk(o, std::as_const(c)); } walk(o, std::as_const(m0)); break;
      case 13: mg.insert({i, text(b)}); walk(o, std::as_const(mg)); break;
      case 14: ms.insert({text(a), H(i)}); { cest::map<cest::string, H> c(ms); o(c.size()); } if (a % 9 == 0) ms.clear(); walk(o, std::as_const(ms)); break;
      case 15: { auto it = s0.begin(); unsigned n = 0; while (it != s0.end() && n++ < a % 5) it++; o(n); if (it != s0.end()) o(num(*it)); o(s0.empty()); } break;
      case 16: { auto it = s0.insert(s0.begin(), i); o(num(*it)); walk(o, s0); } break;
      case 17: { st.insert(i); const auto &c = st; o(st.find(long(b)) == st.end()); o(c.find(short(b)) == c.end()); o(c.find(i) == c.cend()); walk(o, c); if (a % 11 == 0) st.clear(); } break;
      case 18: { auto r = mt.insert({i, M(int(b))}); o(r.second); o(num(r.first->second)); const auto &c = mt; o(c.find(int(b)) == c.end()); auto it = c.find(long(i)); o(it == c.cend()); o(num(it->second)); if (a % 11 == 0) { cest::map<long, M, std::less<>> k(mt); mt.clear(); o(mt.empty()); mt = k; } walk(o, c); } break;
      case 19: { const auto &c = m0; auto it = c.begin(); unsigned n = 0; while (it != c.end() && n++ < b % 6) it++; o(n); auto f = c.find(i); o(f != c.end()); mg.insert({int(b), text(a)}); auto g = mg.find(int(b)); o(num(g->second)); } break;
    }
  }
};

// --------------------------------------------------------------------- strings
template <class S> struct StrOf {
  S s[3];
  using C = typename S::value_type;
  static constexpr unsigned N = 16;
  constexpr void step(Out& o, const Op& x) {
    const unsigned a = x.a, b = x.b;
    auto &p = s[b % 3], &q = s[(b / 3) % 3];
    switch (x.k % N) {
      case 0: p.push_back(C(letter(a))); break;
      case 1: p.append(text<S>(a)); break;
      case 2: p += q; break;
      case 3: p = q; break;
      case 4: p = text<S>(a); break;
      case 5: p = text<S>(a).c_str(); break;
      case 6: p.reserve(a % 40); o(p.capacity() >= a % 40); break;
      case 7: if (!p.empty()) p.pop_back(); break;
      case 8: if (a % 4 == 0) p.clear(); break;
      case 9: { S c(p); c += C('z'); o(num(c)); S e(InIt<C>{c.data()}, InIt<C>{c.data() + c.size()}); o(num(e)); S r(c.data(), c.size() / 2); o(num(r)); } break;
      case 10: o(p.find(q)); o(p.find(C(letter(a)), a % 4)); o(p.find(text<S>(a % 25), b % 3)); o(p.find(text<S>(a % 30).c_str())); break;
      case 11: o(p == q); o(p != q); o(p < q); o(p.compare(q) < 0); o(p.compare(q) > 0); break;
      case 12: o(p == text<S>(a % 60).c_str()); o(p != text<S>(a % 60).c_str()); o(p < text<S>(a % 60).c_str()); o(text<S>(a % 60).c_str() == p); o(p.compare(text<S>(a % 60).c_str()) == 0); break;
      case 13: if (!p.empty()) { p[a % p.size()] = C('k'); o(u64(p.front())); o(u64(p.back())); o(p.length()); o(p.empty()); p.append(p.data() + a % p.size(), p.size() - a % p.size()); } break;
      case 14: p.append(p); p = p; break;
      case 15: { const S& c = p; for (auto it = c.cbegin(); it != c.cend(); ++it) o(u64(*it)); } break;
    }
    if (p.size() > 90) p.clear();
    o(num(p));
  }
};

// --------------------------------------------------- smart pointers, functions
struct B { int v; Out* o; constexpr B(int x, Out* y) : v(x), o(y) {} constexpr virtual ~B() { (*o)(0xD0 + u64(v)); } constexpr virtual int get() const { return v; } };
struct D : B { int* extra; constexpr D(int x, Out* y) : B(x, y), extra(new int(x)) {} constexpr ~D() override { (*o)(0xDD); delete extra; } constexpr int get() const override { return *extra * 2; } };
struct Del { int k; Out* o; constexpr void operator()(B* p) const { (*o)(0xDE + u64(k)); delete p; } };
struct Agg { int a; int b; };
constexpr int twice(int x) { return 2 * x; }
struct Ptr {
  cest::shared_ptr<B> p[3]; cest::shared_ptr<int> pi[2]; cest::shared_ptr<int[]> pa; cest::unique_ptr<B> u[3]; cest::unique_ptr<int> ui;
  cest::function<int(int)> f[2] = {cest::function<int(int)>(twice), cest::function<int(int)>([](int x) { return x + 1; })};
  cest::function<void(int&)> fv = [](int& x) { x += 3; };
  static constexpr unsigned N = 18;
  constexpr void step(Out& o, const Op& x) {
    const unsigned a = x.a, b = x.b; const int i = int(a % 50);
    auto &p0 = p[b % 3], &p1 = p[(b / 3) % 3]; auto &u0 = u[b % 3], &u1 = u[(b / 3) % 3];
    auto &f0 = f[b % 2];
    switch (x.k % N) {
      case 0: p0 = cest::shared_ptr<B>(new B(i, &o)); break;
      case 1: p0 = cest::shared_ptr<B>(new D(i, &o)); break;
      case 2: p0 = cest::shared_ptr<B>(new B(i, &o), Del{int(b), &o}); break;
      case 3: p0 = p1; break;
      case 4: { cest::shared_ptr<B> c(p0); o(u64(c.use_count())); cest::shared_ptr<B> n; n = c; o(u64(p0.use_count())); } break;
      case 5: p0 = cest::shared_ptr<B>(nullptr); break;
      case 6: if (p0) { cest::shared_ptr<B> c(p0, p1 ? p1.get() : p0.get()); o(num(c->get())); o(u64(p0.use_count())); } break;
      case 7: if (a % 3 == 0) pi[b % 2] = cest::shared_ptr<int>(new int(i)); pi[a % 2] = pi[b % 2]; if (pi[0]) o(num(*pi[0])); o(u64(pi[0].use_count())); break;
      case 8: pa = cest::shared_ptr<int[]>(new int[3]{i, 2, 3}); o(num(pa[a % 3])); { auto c = pa; o(u64(c.use_count())); } break;
      case 9: u0 = cest::unique_ptr<B>(new B(i, &o)); break;
      case 10: u0 = cest::unique_ptr<B>(new D(i, &o)); break;
      case 11: if (&u0 != &u1) u0 = std::move(u1); break;
      case 12: if (a & 1) u0.reset(); else { B* r = u0.release(); delete r; } break;
      case 13: ui = cest::make_unique<int>(i); o(num(*ui)); ui.reset(); break;
      case 14: f0 = cest::function<int(int)>([i, n = 0](int y) mutable { return y + i + n++; }); o(num(f0(1))); break;
      case 15: f0 = f[a % 2]; o(num(f0(i))); break;
      case 16: o(num(f0(i))); { auto c = f0; o(num(c(2))); o(num(f0(2))); } { int z = i; fv(z); o(num(z)); } break;
      case 17: f0 = cest::function<int(int)>([s = text(a)](int y) { return y + int(s.size()); }); o(num(f0(i))); break;
    }
    for (auto& q : p) { o(u64(q.use_count())); if (q) o(num(q->get())); }
    for (auto& q : u) if (q) o(num(q->get()));
  }
};

// -------------------------------------------------------------------- streams
struct Io {
  cest::stringstream* ss[2] = {nullptr, nullptr}; cest::istringstream* is = nullptr; cest::FILE* f = nullptr; char mem[24] = {};
  static constexpr unsigned N = 16;
  constexpr ~Io() { delete ss[0]; delete ss[1]; delete is; if (f) cest::fclose(f); }
  template <class S> constexpr void st(Out& o, S& s) { o(s.good()); o(s.eof()); o(s.fail()); o(u64(s.rdstate())); o(u64(s.gcount())); }
  constexpr void step(Out& o, const Op& x) {
    const unsigned a = x.a, b = x.b;
    auto*& s = ss[b % 2];
    switch (x.k % N) {
      case 0: delete s; s = new cest::stringstream(text(a)); break;
      case 1: if (s) { char buf[12] = {}; s->read(buf, long(a % 12)); for (char c : buf) o(u64(c)); st(o, *s); } break;
      case 2: if (s) { char c = 'z'; s->get(c); o(u64(c)); st(o, *s); } break;
      case 3: if (s) { s->unget(); st(o, *s); } break;
      case 4: if (s) { s->clear(); st(o, *s); } break;
      case 5: if (s) { s->str(text(a)); st(o, *s); } break;
      case 6: delete is; is = new cest::istringstream(text(a)); break;
      case 7: if (is) { char buf[6] = {}; is->read(buf, long(a % 6)); for (char c : buf) o(u64(c)); char c = 'y'; is->get(c); o(u64(c)); st(o, *is); } break;
      case 8: if (is) { is->str(text(a)); is->clear(); st(o, *is); } break;
      case 9: if (f) cest::fclose(f); for (unsigned k = 0; k < sizeof mem; k++) mem[k] = char(a + k * b); f = cest::fmemopen(mem, a % sizeof mem, "r"); break;
      case 10: if (f) { char buf[16] = {}; o(cest::fread(buf, 1, b % 16, f)); for (char c : buf) o(u64(c)); } break;
      case 11: if (f) { o(u64(cest::fclose(f))); f = nullptr; } break;
      case 12: cest::cout << "x" << 1 << ' ' << 2u << text(a) << cest::endl; cest::cerr << cest::hex << 10 << cest::dec; cest::clog << 'c'; break;
      case 13: { int n = cest::printf("%d %s", int(a), "p"); n += cest::printf("plain"); n += cest::fprintf(cest::stderr, "%d", int(b)); n += cest::fprintf(cest::stdout, "q"); (void)n; } break;
      case 14: o(cest::isalnum(int(a % 256)) != 0); o(cest::isupper(int(b)) != 0); break;
      case 15: { cest::shared_ptr<int> p(new int(1)); cest::unique_ptr<int> q(new int(2)); char buf[3] = {}; cest::stringstream t(text(a)); t.read(buf, 3); o(u64(buf[0])); st(o, t); } break;
    }
  }
};

template <class W> constexpr Out run(const Op* ops, size_t n, u64* log = nullptr, u64 cap = 0) {
  Out o; o.log = log; o.cap = cap;
  { W w; for (size_t i = 0; i < n; i++) { o(0xA0 + ops[i].k); w.step(o, ops[i]); } }
  o.log = nullptr;
  return o;
}
} // namespace cx
#endif
