// strings of several character types and traits, against std::basic_string
// with the same traits.
#ifndef SIM_STRW_HPP
#define SIM_STRW_HPP
#include "elem.hpp"
#include "traits.hpp"
namespace sim {


template <class CharT> struct SrcState { const CharT* data; size_t n, pos; };
template <class CharT> struct InIt {              // single-pass; may throw anywhere
  using iterator_category = std::input_iterator_tag;
  using value_type = CharT;
  using difference_type = std::ptrdiff_t;
  using pointer = const CharT*;
  using reference = CharT;
  SrcState<CharT>* st; bool end_;
  CharT operator*() const {
    NoCount nc; fault_point(F_ITER);
    if (end_ || st->pos >= st->n) violate(CONTENT, "an input iterator was read past its end");
    return st->data[st->pos];
  }
  InIt& operator++() {
    NoCount nc; fault_point(F_ITER);
    if (end_ || st->pos >= st->n) violate(CONTENT, "an input iterator was advanced past its end");
    st->pos++; return *this;
  }
  InIt operator++(int) { InIt t = *this; ++*this; return t; }
  friend bool operator==(const InIt& a, const InIt& b) {
    NoCount nc;
    bool x = a.end_ || a.st->pos >= a.st->n, y = b.end_ || b.st->pos >= b.st->n;
    return x == y;
  }
  friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};

// characters in a block of exactly their size, so that reading past them shows
template <class CharT> struct Exact {
  CharT* p; size_t n;
  template <class R> explicit Exact(const R& r) : n(r.size()) {
    p = static_cast<CharT*>(heap.alloc(n * sizeof(CharT), alignof(CharT), K_FRAME));
    for (size_t i = 0; i < n; i++) p[i] = r[i];
  }
  Exact(const Exact&) = delete;
  ~Exact() { heap.free(p, K_FRAME, 0, 0); }
};
template <class CharT, class TR, class A> struct StrRun {
  using S = cest::basic_string<CharT, TR, A>;
  using R = std::basic_string<CharT, TR>;
  static constexpr unsigned N = 3, FAULTS = (1u << F_ALLOC) | (1u << F_ITER);
  Slot<S> s[N]; R m[N]; size_t cap[N] = {}; const CharT* at[N] = {};
  bool touched[N] = {}, basic[N] = {};
  Cls mode = CONTENT;
  unsigned view = 0, alpha = 4; size_t maxlen = 30; bool hold = false, cost = false, nuls = false;

  Cls cls_of(unsigned o) const { return touched[o] ? mode : mode == STRONG ? STRONG : INDEP; }
  CharT ch() {
    unsigned k = choose(alpha);
    if (nuls && k == 1) return CharT(0);
    if (k == 2) return CharT(~CharT(0));
    static const char base[] = "aAbBzZ09 ~";
    if (k == 3 && sizeof(CharT) > 1) return CharT(0x3b1);
    return CharT(base[k % 10]);
  }
  R text(size_t n) { R r; for (size_t i = 0; i < n; i++) r.push_back(ch()); return r; }
  R ctext(size_t n) { R r; for (size_t i = 0; i < n; i++) { CharT c = ch(); r.push_back(c == CharT(0) ? CharT('n') : c); } return r; }
  static int sgn(long x) { return x < 0 ? -1 : x > 0; }
  uint64_t hash_of(const R& r) { uint64_t h = 7; for (CharT c : r) h = mix(h, uint64_t(c)); return h; }
  // exact, not through the traits
  bool same(const CharT* p, const R& r) { for (size_t i = 0; i < r.size(); i++) if (p[i] != r[i]) return false; return true; }

  void verify(unsigned o, bool full) {
    if (!s[o]) return;
    Cls c = cls_of(o);
    S& x = *s[o]; const S& cx = x; R& r = m[o];
    size_t n = r.size();
    if (basic[o]) {
      basic[o] = false;
      call("read after failure", [&] {
        size_t z = x.size();
        if (x.capacity() < z) violate(BASIC, "capacity below length after a failed operation");
        if (z > 1u << 22) violate(BASIC, "implausible length after a failed operation");
        if (x.c_str()[z] != CharT()) violate(BASIC, "string %u lost its terminator in a failed operation", o);
        User u; r.assign(x.c_str(), z);
      });
      cap[o] = x.capacity(); at[o] = nullptr;
      return;
    }
    unsigned w = view++;
    call("read", [&] {
      if (x.size() != n || cx.length() != n) violate(c, "string %u: size() says %zu, the model has %zu", o, size_t(x.size()), n);
      if (x.empty() != (n == 0)) violate(c, "string %u: empty() is wrong", o);
      if (x.capacity() < n) violate(c, "string %u: capacity %zu below length %zu", o, size_t(x.capacity()), n);
      if (cx.c_str()[n] != CharT()) violate(c, "string %u: no terminator after %zu characters", o, n);
      if (at[o] && at[o] != cx.data()) violate(STABLE, "string %u: its characters moved although nothing outgrew the capacity", o);
      if (hold) at[o] = cx.data();
      if (!full) return;
      if (!same(cx.data(), r) || !same(x.data(), r) || !same(cx.c_str(), r)) violate(c, "string %u: characters differ from the model's", o);
      if (w % 2 || n < 40) {
        size_t i = 0;
        if (w % 3 == 0) for (auto it = cx.begin(); it != cx.end(); ++it, i++) { if (i >= n || *it != r[i]) violate(c, "string %u: iteration is wrong at %zu", o, i); }
        else if (w % 3 == 1) for (auto it = x.begin(); it != x.end(); ++it, i++) { if (i >= n || *it != r[i]) violate(c, "string %u: iteration is wrong at %zu", o, i); }
        else for (auto it = cx.cbegin(); it != cx.cend(); ++it, i++) { if (i >= n || *it != r[i]) violate(c, "string %u: iteration is wrong at %zu", o, i); }
        if (i != n) violate(c, "string %u: iteration visits %zu characters of %zu", o, i, n);
        for (i = 0; i < n; i++) if (x[i] != r[i] || cx[i] != r[i]) violate(c, "string %u: [%zu] is wrong", o, i);
      }
      if (n && (x.front() != r.front() || cx.front() != r.front() || x.back() != r.back() || cx.back() != r.back())) violate(c, "string %u: front() or back() is wrong", o);
    });
  }
  void verify_all(bool fin = false) { for (unsigned o = 0; o < N; o++) verify(o, fin || m[o].size() < 400 || touched[o] || view % 16 == 0); }

  void construct(unsigned o) {
    unsigned k = choose(5);
    Plan p; Outcome r; R want;
    void* f;
    A al{}; bool given = choose(2);
    if (k == 0) {
      p = plan(FAULTS); f = s[o].frame();
      log("string %u: default construct", o);
      r = call("default constructor", p, [&] { if (given) s[o].p = new (f) S(al); else s[o].p = new (f) S(); });
    } else if (k == 1) {
      want = text(skewed(uint32_t(maxlen))); p = plan(FAULTS); f = s[o].frame();
      log("string %u: construct from %zu characters (%llx)", o, want.size(), (unsigned long long)hash_of(want));
      Exact<CharT> ex(want); const CharT* q = ex.p; size_t n = ex.n;
      r = call("pointer+count constructor", p, [&] { if (given) s[o].p = new (f) S(q, n, al); else s[o].p = new (f) S(q, n); });
    } else if (k == 2) {
      want = ctext(skewed(uint32_t(maxlen))); p = plan(FAULTS); f = s[o].frame();
      log("string %u: construct from a C string of %zu (%llx)", o, want.size(), (unsigned long long)hash_of(want));
      const CharT* q = want.c_str();
      r = call("C-string constructor", p, [&] { if (given) s[o].p = new (f) S(q, al); else s[o].p = new (f) S(q); });
    } else {
      want = text(cost && choose(2) ? 500 + choose(2000) : skewed(uint32_t(maxlen))); p = plan(FAULTS); f = s[o].frame();
      log("string %u: construct from an input range of %zu (%llx)", o, want.size(), (unsigned long long)hash_of(want));
      SrcState<CharT> st{want.data(), want.size(), 0};
      InIt<CharT> b{&st, false}, e{&st, true};
      uint64_t b0 = heap.bytes;
      r = call("input-range constructor", p, [&] { if (given) s[o].p = new (f) S(b, e, al); else s[o].p = new (f) S(b, e); });
      if (heap.bytes - b0 > 24 * sizeof(CharT) * want.size() + 4096) violate(COST, "a range of %zu characters was read with %llu bytes requested", want.size(), (unsigned long long)(heap.bytes - b0));
    }
    if (!r.threw()) if (uint32_t k2 = given ? arena_of(al) : 0) {
      Quiet q;
      if (heap.kind_at(s[o]->data()) != k2) violate(MISMATCH, "string %u is not stored in memory of the allocator it was given", o);
      if (!(s[o]->get_allocator() == al)) violate(MISMATCH, "string %u: get_allocator() is not the allocator it was given", o);
    }
    m[o].clear(); touched[o] = true; cap[o] = 0; at[o] = nullptr;
    if (r.threw()) { s[o].p = nullptr; s[o].drop_frame(); mode = STRONG; }
    else m[o] = want;
  }
  void destroy(unsigned o) {
    if (!s[o]) return;
    log("string %u: destroy", o);
    call("destructor", [&] { s[o]->~S(); });
    s[o].p = nullptr; s[o].drop_frame(); m[o].clear();
  }
  void copy_construct(unsigned d, unsigned src) {
    destroy(d);
    Plan p = plan(FAULTS);
    void* f = s[d].frame();
    log("string %u: copy construct from %u (%zu)", d, src, m[src].size());
    const S& from = *s[src];
    Outcome r = call("copy constructor", p, [&] { s[d].p = new (f) S(from); });
    touched[d] = true; at[d] = nullptr;
    if (r.threw()) { s[d].p = nullptr; s[d].drop_frame(); mode = STRONG; m[d].clear(); }
    else { mode = INDEP; m[d] = m[src]; }
  }
  void grew(unsigned o, const R& after, size_t oldcap) { if (after.size() > oldcap) at[o] = nullptr; m[o] = after; }
  // after op: strong guarantee on failure
  template <class F> void mutate(unsigned o, const char* name, const R& after, bool keeps_place, F&& f) {
    Plan p = plan(FAULTS);
    S& x = *s[o];
    size_t oc = x.capacity();
    Outcome r = call(name, p, [&] { f(x); });
    touched[o] = true;
    if (r.threw()) { mode = STRONG; return; }
    if (!keeps_place) at[o] = nullptr;
    grew(o, after, oc);
  }
  void assign(unsigned o) {
    S* self = s[o].p;
    switch (choose(4)) {
      case 0: {
        R t = ctext(skewed(uint32_t(maxlen))); const CharT* q = t.c_str();
        log("string %u: assign a C string of %zu (%llx)", o, t.size(), (unsigned long long)hash_of(t));
        mutate(o, "C-string assignment", t, false, [&](S& x) { if (&(x = q) != self) violate(CONTENT, "assignment does not return the string"); });
        break;
      }
      case 1: {
        unsigned b = choose(N); if (!s[b]) b = o;
        log("string %u: assign from %u (%zu <- %zu)", o, b, m[o].size(), m[b].size());
        const S& from = *s[b];
        mode = b == o ? ALIAS : INDEP;
        R t = m[b];
        mutate(o, b == o ? "self assignment" : "copy assignment", t, false, [&](S& x) { if (&(x = from) != self) violate(CONTENT, "assignment does not return the string"); });
        break;
      }
      case 2: {
        size_t k = choose(uint32_t(m[o].size()) + 1);
        R t(m[o].c_str() + k);                       // up to the first zero
        log("string %u: assign its own characters from %zu", o, k);
        mode = ALIAS;
        mutate(o, "assignment from itself", t, false, [&](S& x) { x = x.c_str() + k; });
        break;
      }
      default: {
        unsigned b = choose(N); if (!s[b]) b = o;
        log("string %u: assign from %u (%zu <- %zu)", o, b, m[o].size(), m[b].size());
        const S& from = *s[b];
        R t = m[b];
        mode = b == o ? ALIAS : INDEP;
        mutate(o, "copy assignment", t, false, [&](S& x) { x = from; });
      }
    }
  }
  void grow(unsigned o) {
    if (m[o].size() > maxlen * 2) { shrink(o); return; }
    S* self = s[o].p;
    switch (choose(8)) {
      case 0: case 1: {
        CharT c = ch(); R t = m[o]; t.push_back(c);
        bool op = choose(2);
        log("string %u: %s one character [length %zu]", o, op ? "+=" : "push_back", m[o].size());
        mutate(o, op ? "+= character" : "push_back", t, true, [&](S& x) { if (op) x += c; else x.push_back(c); });
        break;
      }
      case 2: case 3: {
        R a = text(skewed(uint32_t(maxlen))), t = m[o]; t += a;
        Exact<CharT> ex(a); const CharT* q = ex.p; size_t n = ex.n;
        log("string %u: append %zu characters (%llx) [length %zu]", o, n, (unsigned long long)hash_of(a), m[o].size());
        mutate(o, "append", t, true, [&](S& x) { if (&x.append(q, n) != self) violate(CONTENT, "append does not return the string"); });
        break;
      }
      case 4: case 5: {
        unsigned b = choose(N); if (!s[b]) b = o;
        R t = m[o]; t += m[b];
        if (t.size() > 5000) return shrink(o);
        bool op = choose(2);
        log("string %u: %s string %u (%zu) [length %zu]", o, op ? "+=" : "append", b, m[b].size(), m[o].size());
        const S& from = *s[b];
        if (b == o) mode = ALIAS;
        mutate(o, b == o ? "append itself" : "append string", t, true, [&](S& x) { if (op) x += from; else x.append(from); });
        break;
      }
      case 6: {
        if (m[o].empty()) return;
        size_t k = choose(uint32_t(m[o].size())), n = choose(uint32_t(m[o].size() - k) + 1);
        R t = m[o]; t.append(m[o].data() + k, n);
        mode = ALIAS;
        log("string %u: append its own [%zu,+%zu) [length %zu]", o, k, n, m[o].size());
        mutate(o, "append own characters", t, true, [&](S& x) { x.append(x.data() + k, n); });
        break;
      }
      default: {
        if (m[o].empty()) return;
        size_t k = choose(uint32_t(m[o].size()));
        R t = m[o]; t.push_back(m[o][k]);
        mode = ALIAS;
        bool op = choose(2);
        log("string %u: push_back its own character %zu [length %zu]", o, k, m[o].size());
        mutate(o, "push_back own character", t, true, [&](S& x) { if (op) x.push_back(x[k]); else x += x[k]; });
      }
    }
  }
  void reserve(unsigned o) {
    size_t n = skewed(uint32_t(maxlen * 3));
    log("string %u: reserve %zu [length %zu]", o, n, m[o].size());
    size_t oc = s[o]->capacity();
    Plan p = plan(FAULTS);
    Outcome r = call("reserve", p, [&] { s[o]->reserve(n); });
    touched[o] = true;
    if (r.threw()) { mode = STRONG; return; }
    if (s[o]->capacity() < n) violate(CONTENT, "capacity %zu after reserve(%zu)", size_t(s[o]->capacity()), n);
    if (n > oc) at[o] = nullptr;
  }
  void shrink(unsigned o) {
    S& x = *s[o];
    if (choose(4) && !m[o].empty()) {
      unsigned n = 1 + choose(3);
      for (; n && !m[o].empty(); n--) {
        log("string %u: pop_back", o);
        call("pop_back", [&] { x.pop_back(); });
        m[o].pop_back();
      }
    } else {
      log("string %u: clear", o);
      call("clear", [&] { x.clear(); });
      m[o].clear();
    }
    touched[o] = true;
  }
  void write(unsigned o) {
    if (m[o].empty()) return;
    size_t k = choose(uint32_t(m[o].size())); CharT c = ch();
    S& x = *s[o];
    log("string %u: write character %zu", o, k);
    Quiet q;
    switch (choose(5)) {
      case 0: x[k] = c; m[o][k] = c; break;
      case 1: x.data()[k] = c; m[o][k] = c; break;
      case 2: x.begin()[k] = c; m[o][k] = c; break;
      case 3: x.front() = c; m[o].front() = c; break;
      default: x.back() = c; m[o].back() = c; break;
    }
    touched[o] = true;
  }
  void search(unsigned o) {
    const S& x = *s[o]; const R& r = m[o];
    size_t pos = choose(8) == 7 ? r.size() + choose(3) : choose(uint32_t(r.size()) + 1);
    if (choose(16) == 15) pos = S::npos;
    size_t got = 0, want = 0;
    const char* what = "find";
    unsigned k = choose(5);
    R nd;
    if (r.size() && choose(3)) { size_t b = choose(uint32_t(r.size())), n = choose(std::min<uint32_t>(uint32_t(r.size() - b), 4) + 1); nd = r.substr(b, n); if (nd.size() && choose(4) == 3) nd.back() = ch(); }
    else nd = text(choose(4));
    if (k == 0) { CharT c = nd.empty() ? ch() : nd[0]; want = r.find(c, pos); what = "find(character)"; log("string %u: %s from %zu", o, what, pos); call(what, [&] { got = x.find(c, pos); }); }
    else if (k == 1) { want = r.find(nd.data(), pos, nd.size()); what = "find(pointer,pos,count)"; log("string %u: %s of %zu from %zu", o, what, nd.size(), pos); Exact<CharT> ex(nd); const CharT* q = ex.p; size_t n = ex.n; call(what, [&] { got = x.find(q, pos, n); }); }
    else if (k == 2) { const CharT* q = nd.c_str(); want = r.find(q, pos); what = "find(C string)"; log("string %u: %s from %zu", o, what, pos); call(what, [&] { got = x.find(q, pos); }); }
    else if (k == 3) {
      unsigned b = choose(N); if (!s[b]) b = o;
      want = r.find(m[b], pos); what = "find(string)"; log("string %u: %s %u from %zu", o, what, b, pos);
      const S& n = *s[b];
      call(what, [&] { got = x.find(n, pos); });
    } else {
      unsigned form = choose(3);
      CharT c = nd.empty() ? ch() : nd[0]; what = form == 0 ? "find(character) from the start" : form == 1 ? "find(C string) from the start" : "find(string) from the start";
      const CharT* q = nd.c_str();
      want = form == 0 ? r.find(c) : form == 1 ? r.find(q) : r.find(nd);
      log("string %u: %s", o, what);
      std::optional<S> n; { Quiet z; n.emplace(nd.data(), nd.size()); }
      call(what, [&] { got = form == 0 ? x.find(c) : form == 1 ? x.find(q) : x.find(*n); });
      { Quiet z; n.reset(); }
    }
    if (want == R::npos) want = size_t(S::npos);
    if (got != want) violate(CONTENT, "string %u: %s gives %zd, the model %zd", o, what, ssize_t(got), ssize_t(want));
  }
  void compare(unsigned o) {
    const S& x = *s[o]; const R& r = m[o];
    if (choose(2)) {
      unsigned b = choose(N); if (!s[b]) b = o;
      const S& y = *s[b];
      int want = sgn(r.compare(m[b]));
      log("compare strings %u and %u", o, b);
      call("compare", [&] {
        if (sgn(x.compare(y)) != want) violate(CONTENT, "compare gives %d, the model %d", x.compare(y), want);
        if ((x == y) != (want == 0)) violate(CONTENT, "== gives %d, the model %d", int(x == y), int(want == 0));
        if ((x != y) != (want != 0)) violate(CONTENT, "!= gives %d, the model %d", int(x != y), int(want != 0));
        if ((x < y) != (want < 0)) violate(CONTENT, "< gives %d, the model %d", int(x < y), int(want < 0));
      });
    } else {
      R t = choose(2) ? R(r.c_str()) : ctext(choose(5));
      if (!t.empty() && choose(3) == 2) t.pop_back();
      const CharT* q = t.c_str();
      int want = sgn(r.compare(q));
      log("compare string %u with a C string", o);
      call("compare with a C string", [&] {
        if (sgn(x.compare(q)) != want) violate(CONTENT, "compare gives %d, the model %d", x.compare(q), want);
        if ((x == q) != (want == 0) || (q == x) != (want == 0)) violate(CONTENT, "== with a C string is wrong");
        if ((x != q) != (want != 0) || (q != x) != (want != 0)) violate(CONTENT, "!= with a C string is wrong");
        if ((x < q) != (want < 0) || (q < x) != (want > 0)) violate(CONTENT, "< with a C string is wrong");
      });
    }
  }
  void bulk(unsigned o) {
    unsigned n = 1 + choose(cost ? 40000 : 300), k = choose(3);
    S& x = *s[o];
    if (m[o].size() + n * 3 > (cost ? 400000u : 3000u)) return shrink(o);
    R piece = text(1 + choose(3));
    log("string %u: append %u pieces of %zu, form %u [length %zu]", o, n, piece.size(), k, m[o].size());
    uint64_t b0 = heap.bytes; size_t s0 = m[o].size();
    S tmp = [&] { Quiet q; return S(piece.data(), piece.size()); }();
    for (unsigned i = 0; i < n; i++) {
      if (k == 0) { call("push_back", [&] { x.push_back(piece[0]); }); m[o].push_back(piece[0]); }
      else if (k == 1) { const CharT* q = piece.data(); size_t z = piece.size(); call("append", [&] { x.append(q, z); }); m[o] += piece; }
      else { call("+=", [&] { x += tmp; }); m[o] += piece; }
    }
    at[o] = nullptr; touched[o] = true;
    uint64_t bytes = heap.bytes - b0;
    if (cost && bytes > 24 * sizeof(CharT) * (m[o].size() + s0) + (1u << 18)) violate(COST, "growing from %zu to %zu characters requested %llu bytes", s0, m[o].size(), (unsigned long long)bytes);
    Quiet q; { S dead(std::move(tmp)); }
  }
  void run() {
    hold = g.profile & P_HOLD; cost = g.profile & P_COST;
    nuls = choose(3) == 2;
    alpha = choose(2) ? 4 : 10;
    static const size_t lens_[] = {3, 12, 40, 300};
    maxlen = lens_[choose(4)];
    unsigned nclients = range(1, 3), w[3][8];
    for (auto& c : w) {
      for (unsigned k = 0; k < 8; k++) c[k] = choose(4);
      c[0]++;
      if (c[6]) c[6] = 1;
      c[7] = cost ? 3 : c[7] == 3;
      if (g.profile & P_COPY) c[1] += 3;
    }
    draw_faults(FAULTS, 1);
    static const unsigned lens[] = {6, 20, 60, 150};
    unsigned len = lens[choose(4)], n = 0;
    if (cost) len = 10;
    while (n < 4 * len && choose(len) != len - 1) {
      begin_step(); n++;
      for (auto& t : touched) t = false;
      mode = CONTENT;
      unsigned cl = choose(nclients), tot = 0, cat = 0;
      for (unsigned x : w[cl]) tot += x;
      unsigned r = choose(tot);
      while (r >= w[cl][cat]) r -= w[cl][cat++];
      unsigned o = choose(N);
      if (!s[o]) { construct(o); if (!s[o]) { verify_all(); continue; } }
      switch (cat) {
        case 0: grow(o); break;
        case 1: if (choose(3) == 2) { unsigned d = (o + 1 + choose(2)) % N; copy_construct(d, o); } else assign(o); break;
        case 2: reserve(o); break;
        case 3: shrink(o); break;
        case 4: if (choose(4) == 3) write(o); else search(o); break;
        case 5: compare(o); break;
        case 6: destroy(o); break;
        default: bulk(o);
      }
      state(mix(mix(sizeof(CharT), std::min<size_t>(m[o].size(), 100)), mix(mode, mix(g.fired_in_call ? g.last_fired + 1 : 0, uint64_t(g.where[0]) * 7 + strlen(g.where)))));
      verify_all();
      note(heap.live);
    }
    mode = CONTENT;
    for (auto& t : touched) t = true;
    verify_all(true);
    for (unsigned o = 0; o < N; o++) destroy(o);
  }
};
// character classification borrows a string: its failure must reach the caller
inline void ctype_run() {
  draw_faults(1u << F_ALLOC, 1);
  unsigned n = 5 + choose(40);
  while (n--) {
    begin_step();
    int c = int(choose(300)) - 20;
    bool up = choose(2);
    Plan p = plan(1u << F_ALLOC);
    log("%s(%d)", up ? "isupper" : "isalnum", c);
    int got = 0;
    Outcome r = call(up ? "isupper" : "isalnum", p, [&] { got = up ? cest::isupper(c) : cest::isalnum(c); });
    bool want = (c >= 'A' && c <= 'Z') || (!up && ((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')));
    if (!r.threw() && (got != 0) != want) violate(CONTENT, "classification of %d is %d", c, got);
    note(heap.live);
  }
}
}
#endif
