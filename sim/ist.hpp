// Input streams over a scripted source, next to std::istream over an equal one.
// The source's data, window boundaries, end of data and errors are functions of
// the position and of scheduler steps, never of how often it is asked.
#ifndef SIM_IST_HPP
#define SIM_IST_HPP
#include "elem.hpp"
namespace sim {

template <class C> struct Script {
  std::vector<C> data;
  std::vector<uint32_t> cut;            // window boundaries, ascending, last = data.size()
  size_t avail = 0;                     // data the producer has delivered so far
  bool failing = false; size_t fail_at = 0; unsigned fail_kind = 0;
  unsigned policy = 0;                  // 0 windows, 1 windows with put-back area, 2 unbuffered, 3 windows + own xsgetn
  size_t short_by = 0;
  uint64_t touched = 0;
  size_t window_end(size_t p) const {
    size_t e = data.size();
    for (uint32_t c : cut) if (c > p) { e = c; break; }
    e = std::min(e, avail);
    if (failing && fail_at > p) e = std::min(e, fail_at);
    return e;
  }
};
struct SrcError : std::exception { unsigned k; explicit SrcError(unsigned k_) : k(k_) {} const char* what() const noexcept override { return "sim: source error"; } };
[[noreturn]] inline void source_throws(unsigned kind) {
  g.fired_in_call++; g.last_fired = F_SOURCE; g.fired_in_run++; g.fault_id++;
  if (g.in_sut) sh->fired[F_SOURCE]++;
  switch (kind) {
    case 0: throw Injected{F_SOURCE, 1};
    case 1: throw SrcError(1);
    case 2: throw 42;
    default: throw std::ios_base::failure("sim: source");
  }
}

// BASE is cest::basic_streambuf<C,T> or std::basic_streambuf<C,T>
template <class BASE, class C, class T> struct SimBuf : BASE {
  Script<C>* sc; bool on_heap;
  C* win = nullptr; size_t wbase = 0, wlen = 0;      // window [wbase, wbase+wlen)
  using I = typename T::int_type;
  SimBuf(Script<C>* s, bool h) : sc(s), on_heap(h) {}
  ~SimBuf() { drop(); }
  void drop() { if (win) { if (on_heap) heap.free(win, K_FRAME, 0, 0); else ::free(win); win = nullptr; } }
  size_t upos = 0;                                   // unbuffered position
  size_t pos() const { return sc->policy == 2 ? upos : wbase + size_t(this->gptr() - this->eback()); }
  bool ready(size_t p) {                             // may throw; false = no data now
    sc->touched++;
    if (sc->failing && p >= sc->fail_at) source_throws(sc->fail_kind);
    if (p >= sc->avail) { if (p < sc->data.size() && g.in_sut) sh->fired[F_EOFGATE]++; return false; }
    return true;
  }
  void load(size_t from, size_t p, size_t to) {      // the window holds [from,to), the next character is p
    NoCount nc;
    drop();
    size_t n = to - from;
    win = static_cast<C*>(on_heap ? heap.alloc(n * sizeof(C), alignof(C), K_FRAME) : malloc(n * sizeof(C) + 1));
    for (size_t i = 0; i < n; i++) win[i] = sc->data[from + i];
    wbase = from; wlen = n;
    this->setg(win, win + (p - from), win + n);
  }
  I underflow() override {
    if (sc->policy == 2) { if (!ready(upos)) return T::eof(); return T::to_int_type(sc->data[upos]); }
    if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
    size_t p = pos();
    if (!ready(p)) return T::eof();
    size_t keep = sc->policy == 1 ? std::min<size_t>(p, 3) : 0;
    load(p - keep, p, sc->window_end(p));
    return T::to_int_type(*this->gptr());
  }
  I uflow() override {
    if (sc->policy == 2) { if (!ready(upos)) return T::eof(); return T::to_int_type(sc->data[upos++]); }
    return BASE::uflow();
  }
  I pbackfail(I c = T::eof()) override {
    sc->touched++;
    if (!T::eq_int_type(c, T::eof())) return T::eof();
    size_t p = pos();
    if (p == 0) return T::eof();
    if (sc->policy == 2) { upos--; return T::to_int_type(sc->data[upos]); }
    if (sc->policy == 0) return T::eof();
    load(p - 1, p - 1, std::max(p, std::min(sc->window_end(p - 1), sc->avail)));
    return T::to_int_type(*this->gptr());
  }
  std::streamsize xsgetn(C* s, std::streamsize n) override {
    if (sc->policy != 3) return BASE::xsgetn(s, n);
    // hands over at most one window per request
    sc->touched++;
    if (n <= 0) return 0;
    if (this->gptr() == this->egptr()) { size_t p = pos(); if (!ready(p)) return 0; load(p, p, sc->window_end(p)); }
    std::streamsize k = std::min<std::streamsize>(n, this->egptr() - this->gptr());
    for (std::streamsize i = 0; i < k; i++) s[i] = this->gptr()[i];
    this->gbump(int(k));
    return k;
  }
  int sync_result = 0; unsigned sync_throws = 0; unsigned syncs = 0;
  int sync() override { sc->touched++; syncs++; if (sync_throws) source_throws(sync_throws - 1); return sync_result; }
};

struct Got {                             // what one operation did
  int ex = 0;                            // 0 none, 1 ios failure, 2 the source's own, 3 other
  unsigned state = 0; std::streamsize gcount = 0;
  bool b = false, nb = false, good = false, eof = false, fail = false, bad = false;
  long ret = 0;
  size_t pos = 0;
  unsigned mask = 0;
  bool operator==(const Got&) const = default;
};

template <class C, class T> struct IstRun {
  using CS = cest::basic_istream<C, T>;
  using SS = std::basic_istream<C, T>;
  using CB = SimBuf<cest::basic_streambuf<C, T>, C, T>;
  using SB = SimBuf<std::basic_streambuf<C, T>, C, T>;
  static constexpr unsigned N = 3;
  Script<C> sc;
  CB cb{&sc, true};
  std::optional<SB> sb_;
  Slot<CS> cs[N]; std::unique_ptr<SS> ss[N]; bool null[N] = {};
  unsigned mask[N] = {};
  using CO = cest::basic_ostream<C, T>;
  using SO = std::basic_ostream<C, T>;
  Slot<CO> co; std::unique_ptr<SO> so;
  std::vector<C> ref;                     // the twin's buffer
  IstRun() { sb_.emplace(&sc, false); }

  // bit layouts differ between the libraries
  static unsigned cbits(cest::ios_base::iostate s) { return (s & cest::ios_base::badbit ? 1u : 0) | (s & cest::ios_base::eofbit ? 2u : 0) | (s & cest::ios_base::failbit ? 4u : 0) | (s & ~(cest::ios_base::badbit | cest::ios_base::eofbit | cest::ios_base::failbit) ? 8u : 0); }
  static unsigned sbits(std::ios_base::iostate s) { return (s & std::ios_base::badbit ? 1u : 0) | (s & std::ios_base::eofbit ? 2u : 0) | (s & std::ios_base::failbit ? 4u : 0); }
  static cest::ios_base::iostate cst(unsigned b) { auto r = cest::ios_base::goodbit; if (b & 1) r = r | cest::ios_base::badbit; if (b & 2) r = r | cest::ios_base::eofbit; if (b & 4) r = r | cest::ios_base::failbit; return r; }
  static std::ios_base::iostate sst(unsigned b) { auto r = std::ios_base::goodbit; if (b & 1) r |= std::ios_base::badbit; if (b & 2) r |= std::ios_base::eofbit; if (b & 4) r |= std::ios_base::failbit; return r; }

  template <class S> void look(S& s, Got& o) {
    o.gcount = s.gcount(); o.b = bool(s); o.nb = !s; o.good = s.good(); o.eof = s.eof(); o.fail = s.fail();
  }
  template <class S> void look_out(S& s, Got& o) {
    o.b = bool(s); o.nb = !s; o.good = s.good(); o.eof = s.eof(); o.fail = s.fail();
  }
  template <class F> Got on_cest(unsigned i, const char* what, F&& f) { return on_cest_obj(*cs[i], what, f); }
  template <class S, class F> Got on_cest_obj(S& st, const char* what, F&& f) {
    Got o;
    int ex = 0;
    call(what, [&] {
      try { f(st, o); }
      catch (const Injected&) { ex = 2; }
      catch (const SrcError&) { ex = 2; }
      catch (int) { ex = 2; }
      catch (const std::ios_base::failure& e) { ex = strcmp(e.what(), "sim: source") && !strstr(e.what(), "sim: source") ? 1 : 2; }
      catch (...) { ex = 3; }
    }, C_STREAM);
    o.ex = ex;
    if (ex) { sh->failed_calls++; }
    Quiet q;
    if constexpr (std::is_same_v<S, CS>) look(st, o); else look_out(st, o);
    o.state = cbits(st.rdstate()); o.mask = cbits(st.exceptions()); o.bad = o.state & 1; o.pos = cb.pos();
    return o;
  }
  template <class F> Got on_std(unsigned i, F&& f) { return on_std_obj(*ss[i], f); }
  template <class S, class F> Got on_std_obj(S& st, F&& f) {
    Got o;
    uint64_t t = sc.touched;
    unsigned fr = g.fired_in_run; uint64_t fid = g.fault_id;
    try { f(st, o); }
    catch (const Injected&) { o.ex = 2; }
    catch (const SrcError&) { o.ex = 2; }
    catch (int) { o.ex = 2; }
    catch (const std::ios_base::failure& e) { o.ex = strstr(e.what(), "sim: source") ? 2 : 1; }
    catch (...) { o.ex = 3; }
    sc.touched = t; g.fired_in_run = fr; g.fault_id = fid;
    if constexpr (std::is_same_v<S, SS>) look(st, o); else look_out(st, o);
    o.state = sbits(st.rdstate()); o.mask = sbits(st.exceptions()); o.bad = o.state & 1; o.pos = sb_->pos();
    return o;
  }
  void compare(unsigned i, const char* what, const Got& c, const Got& s) {
    log("  -> state %u gcount %ld pos %zu ex %d ret %ld", c.state, long(c.gcount), c.pos, c.ex, c.ret);
    static const char* exn[] = {"no exception", "ios_base::failure", "the source's exception", "another exception"};
    if (c.ex != s.ex) violate(EXC, "stream %u %s: ended with %s, the standard stream with %s", i, what, exn[c.ex], exn[s.ex]);
    if (c.gcount != s.gcount) violate(DELIVER, "stream %u %s: gcount() is %ld, the standard stream's %ld", i, what, long(c.gcount), long(s.gcount));
    if (c.pos != s.pos) violate(DELIVER, "stream %u %s: the source is at %zu, under the standard stream at %zu", i, what, c.pos, s.pos);
    if (c.ret != s.ret) violate(DELIVER, "stream %u %s: gave %ld, the standard stream %ld", i, what, c.ret, s.ret);
    if (c.state != s.state) violate(STATE, "stream %u %s: state %u, the standard stream has %u (1 bad, 2 eof, 4 fail)", i, what, c.state, s.state);
    if (c.mask != s.mask) violate(STATE, "stream %u %s: exceptions() is %u, the standard stream's %u", i, what, c.mask, s.mask);
    if (c.b != s.b || c.nb != s.nb || c.good != s.good || c.eof != s.eof || c.fail != s.fail) violate(STATE, "stream %u %s: good/eof/fail/bool/! contradict state %u", i, what, c.state);
  }
  void others(unsigned i, const char* what) {   // no other stream changes state
    Quiet q;
    for (unsigned k = 0; k < N; k++) if (cs[k] && k != i) {
      if (cbits(cs[k]->rdstate()) != sbits(ss[k]->rdstate()) || cs[k]->gcount() != ss[k]->gcount()) violate(STATE, "%s on stream %u changed stream %u", what, i, k);
    }
  }
  void open(unsigned i) {
    void* f = cs[i].frame();
    null[i] = choose(12) == 11;
    log("stream %u opened%s", i, null[i] ? " without a buffer" : "");
    call("construct", [&] { cs[i].p = new (f) CS(null[i] ? nullptr : &cb); });
    ss[i] = std::make_unique<SS>(null[i] ? nullptr : &*sb_);
    Got c = on_cest(i, "inspect", [](CS&, Got&) {}), s = on_std(i, [](SS&, Got&) {});
    compare(i, "construct", c, s);
    bool same; { Quiet q; same = cs[i]->rdbuf() == (null[i] ? nullptr : static_cast<cest::basic_streambuf<C, T>*>(&cb)) && cs[i]->tie() == nullptr; }
    if (!same) violate(STATE, "stream %u: rdbuf() or tie() is not what it was opened with", i);
    { Quiet q; flags(cs[i]->flags(), i); }
  }
  // a fresh stream is skipws|dec, and no other standard flag shares a bit with these
  void flags(cest::ios_base::fmtflags f, unsigned i) {
    using B = cest::ios_base;
    const B::fmtflags all[] = {B::boolalpha, B::dec, B::fixed, B::hex, B::internal, B::left, B::oct, B::right, B::scientific, B::showbase, B::showpoint, B::showpos, B::skipws, B::unitbuf, B::uppercase};
    for (unsigned k = 0; k < 15; k++) {
      bool want = k == 1 || k == 12;
      if (bool(f & all[k]) != want) violate(STATE, "stream %u: a fresh stream has format flag number %u %s", i, k, want ? "clear" : "set");
      for (unsigned j = 0; j < k; j++) if (bool(all[j] & all[k])) violate(STATE, "format flags %u and %u share a bit", j, k);
    }
  }
  void close(unsigned i) {
    log("stream %u closed", i);
    call("destroy", [&] { cs[i]->~CS(); });
    cs[i].p = nullptr; cs[i].drop_frame(); ss[i].reset();
  }
  void op(unsigned i, unsigned cat) {
    size_t p0; { p0 = cb.pos(); }
    bool was_good; { Quiet q; was_good = cs[i]->good(); }
    uint64_t t0 = sc.touched;
    switch (cat) {
      case 0: {
        C a = C(0x5A), b = C(0x5A);
        log("stream %u: get", i);
        Got c = on_cest(i, "get", [&](CS& s, Got&) { auto& r = s.get(a); if (&r != &s) violate(CONTENT, "get returned another stream"); });
        Got s = on_std(i, [&](SS& x, Got&) { x.get(b); });
        compare(i, "get", c, s);
        if (c.gcount == 1 && (p0 >= sc.data.size() || a != sc.data[p0] || c.pos != p0 + 1)) violate(DELIVER, "stream %u get: delivered %ld from position %zu", i, long(a), p0);
        if (c.gcount == 0 && a != C(0x5A)) violate(DELIVER, "stream %u get: stored a character and reports none", i);
        if (!was_good && sc.touched != t0) violate(STATE, "stream %u get: touched the source although the stream is not good", i);
        break;
      }
      case 1: case 2: {
        std::streamsize n = sc.data.size() > 600 && choose(2) ? 1 + choose(uint32_t(sc.data.size())) : huge(400, 70000);
        if (!n) n = std::streamsize(skewed(cat == 1 ? 9 : 60));
        C* buf = static_cast<C*>(heap.alloc(size_t(n) * sizeof(C), alignof(C), K_FRAME));
        for (std::streamsize k = 0; k < n; k++) buf[k] = C(0x5A);
        ref.assign(size_t(n) + 1, C(0x5A));
        log("stream %u: read %ld", i, long(n));
        Got c = on_cest(i, "read", [&](CS& s, Got&) { auto& r = s.read(buf, n); if (&r != &s) violate(CONTENT, "read returned another stream"); });
        Got s = on_std(i, [&](SS& x, Got&) { x.read(ref.data(), n); });
        compare(i, "read", c, s);
        size_t moved = c.pos - p0;
        if (c.gcount > 0 && size_t(c.gcount) != moved) violate(DELIVER, "stream %u read: reports %ld character(s), the source moved on by %zu", i, long(c.gcount), moved);
        if (moved > size_t(n)) violate(DELIVER, "stream %u read: the source moved on by %zu for a request of %ld", i, moved, long(n));
        for (size_t k = 0; k < moved; k++) if (buf[k] != sc.data[p0 + k]) violate(DELIVER, "stream %u read: character %zu is not the source's character %zu", i, k, p0 + k);
        for (size_t k = moved; k < size_t(n); k++) if (buf[k] != C(0x5A)) violate(DELIVER, "stream %u read: wrote beyond the %zu character(s) delivered", i, moved);
        if (!was_good && sc.touched != t0) violate(STATE, "stream %u read: touched the source although the stream is not good", i);
        heap.free(buf, K_FRAME, 0, 0);
        break;
      }
      case 3: {
        log("stream %u: unget", i);
        Got c = on_cest(i, "unget", [&](CS& s, Got&) { s.unget(); });
        Got s = on_std(i, [&](SS& x, Got&) { x.unget(); });
        compare(i, "unget", c, s);
        if (c.pos != p0 && c.pos + 1 != p0) violate(DELIVER, "stream %u unget: the source moved from %zu to %zu", i, p0, c.pos);
        break;
      }
      case 4: {
        unsigned b = choose(3) ? 0 : choose(8);
        log("stream %u: clear(%u)", i, b);
        Got c = on_cest(i, "clear", [&](CS& s, Got&) { if (b) s.clear(cst(b)); else s.clear(); });
        Got s = on_std(i, [&](SS& x, Got&) { x.clear(sst(b)); });
        compare(i, "clear", c, s);
        break;
      }
      case 5: {
        unsigned b = choose(8);
        log("stream %u: setstate(%u)", i, b);
        Got c = on_cest(i, "setstate", [&](CS& s, Got&) { s.setstate(cst(b)); });
        Got s = on_std(i, [&](SS& x, Got&) { x.setstate(sst(b)); });
        compare(i, "setstate", c, s);
        break;
      }
      case 6: {
        unsigned b = choose(8);
        log("stream %u: exceptions(%u)", i, b);
        Got c = on_cest(i, "exceptions", [&](CS& s, Got&) { s.exceptions(cst(b)); });
        Got s = on_std(i, [&](SS& x, Got&) { x.exceptions(sst(b)); });
        compare(i, "exceptions", c, s);
        break;
      }
      case 7: {                                   // straight through the buffer
        unsigned k = choose(6);
        static const char* nm[] = {"sgetc", "sbumpc", "snextc", "sungetc", "sgetn", "pubsync"};
        unsigned n = choose(7);
        cb.sync_result = sb_->sync_result = choose(3) == 2 ? -1 : 0;
        log("buffer: %s", nm[k]);
        C x1[8], x2[8]; for (auto& x : x1) x = C(0x5A); for (auto& x : x2) x = C(0x5A);
        auto body = [&](auto& b, C* x) -> long {
          switch (k) {
            case 0: return long(b.sgetc());
            case 1: return long(b.sbumpc());
            case 2: return long(b.snextc());
            case 3: { auto v = b.sungetc(); return T::eq_int_type(v, T::eof()) ? -1 : long(v); }
            case 4: return long(b.sgetn(x, n));
            default: return long(b.pubsync());
          }
        };
        Got c = on_cest(i, nm[k], [&](CS&, Got& o) { o.ret = body(static_cast<cest::basic_streambuf<C, T>&>(cb), x1); });
        Got s = on_std(i, [&](SS&, Got& o) { o.ret = body(static_cast<std::basic_streambuf<C, T>&>(*sb_), x2); });
        compare(i, nm[k], c, s);
        for (unsigned j = 0; j < 8; j++) if (x1[j] != x2[j]) violate(DELIVER, "sgetn: character %u differs", j);
        probe(6, "direct buffer operation");
        break;
      }
      case 8: {
        log("stream %u: sentry", i);
        Got c = on_cest(i, "sentry", [&](CS& s, Got& o) { typename CS::sentry k(s, true); o.ret = bool(k); });
        Got s = on_std(i, [&](SS& x, Got& o) { typename SS::sentry k(x, true); o.ret = bool(k); });
        compare(i, "sentry", c, s);
        break;
      }
      case 10: flush(); break;
      case 9: {                                   // recover, then read on
        log("stream %u: recover", i);
        Got c = on_cest(i, "clear", [&](CS& s, Got&) { s.exceptions(cest::ios_base::goodbit); s.clear(); });
        Got s = on_std(i, [&](SS& x, Got&) { x.exceptions(std::ios_base::goodbit); x.clear(); });
        compare(i, "clear", c, s);
        break;
      }
    }
    others(i, "an operation");
  }
  // an output stream over the same buffer: only flush() works on it
  void flush() {
    static const unsigned OUT = N;
    if (!co) {
      log("output stream opened");
      void* f = co.frame();
      call("construct", [&] { co.p = new (f) CO(&cb); });
      so = std::make_unique<SO>(&*sb_);
    }
    unsigned k = choose(4), b = choose(8);
    if (k == 1) {
      log("output stream: exceptions(%u)", b);
      Got c = on_cest_obj(*co, "exceptions", [&](CO& s, Got&) { s.exceptions(cst(b)); });
      Got s = on_std_obj(*so, [&](SO& x, Got&) { x.exceptions(sst(b)); });
      return compare(OUT, "exceptions", c, s);
    }
    bool good; { Quiet q; good = co->good(); }
    if (k == 2 || !good) {
      log("output stream: clear");
      Got c = on_cest_obj(*co, "clear", [&](CO& s, Got&) { s.clear(); });
      Got s = on_std_obj(*so, [&](SO& x, Got&) { x.clear(); });
      return compare(OUT, "clear", c, s);
    }
    unsigned how = g.profile & P_FAULT ? choose(6) : 0;      // 1: the device refuses, 2..5: it throws
    if (g.nofault) how = 0;
    cb.sync_result = sb_->sync_result = how == 1 ? -1 : 0;
    cb.sync_throws = sb_->sync_throws = how > 1 ? how - 1 : 0;
    cb.syncs = sb_->syncs = 0;
    if (how) sh->armed[F_SOURCE]++;
    log("output stream: flush%s", how == 0 ? "" : how == 1 ? ", the device refuses" : ", the device throws");
    Got c = on_cest_obj(*co, "flush", [&](CO& s, Got&) { auto& r = s.flush(); if (&r != &s) violate(CONTENT, "flush returned another stream"); });
    Got s = on_std_obj(*so, [&](SO& x, Got&) { x.flush(); });
    cb.sync_result = sb_->sync_result = 0; cb.sync_throws = sb_->sync_throws = 0;
    if (cb.syncs != sb_->syncs) violate(STATE, "flush: the device was synchronised %u time(s), by the standard stream %u", cb.syncs, sb_->syncs);
    compare(OUT, "flush", c, s);
    probe(7, "flush of an output stream");
  }
  void producer() {
    unsigned k = choose(6);
    size_t left = sc.data.size() - sc.avail;
    switch (k) {
      case 0: case 1: case 2: { size_t d = std::min<size_t>(left, 1 + skewed(sc.data.size() > 600 ? 9000 : 20)); sc.avail += d; log("producer: %zu more (%zu of %zu)", d, sc.avail, sc.data.size()); break; }
      case 3: sc.avail = sc.data.size(); log("producer: everything"); break;
      case 4: if (g.profile & P_FAULT) { sc.failing = true; sc.fail_at = std::min(sc.avail, cb.pos() + choose(6)); sc.fail_kind = choose(4); sh->armed[F_SOURCE]++; log("source fails from %zu on (kind %u)", sc.fail_at, sc.fail_kind); if (g.nofault) sc.failing = false; } break;
      default: sc.failing = false; log("source repaired"); break;
    }
  }
  void run() {
    unsigned n = huge(300, 70000); if (!n) n = skewed(200);
    for (unsigned k = 0; k < n; k++) { static const unsigned odd[] = {0, 0xFF, '\n', ' ', 0x1A, 0x5A}; unsigned v = n > 600 ? (k * 7 + k / 251) & 0xFF : choose(4) ? (unsigned)('a' + k % 26) : odd[choose(6)]; if (sizeof(C) > 1 && k % 7 == 0) v += 0x100; sc.data.push_back(C(v)); }
    sc.policy = choose(4);
    unsigned style = choose(4);
    if (n > 600 && style) style = 3;
    for (unsigned p = 0; p < n;) { p += style == 0 ? n : style == 1 ? 1 : 1 + choose(style == 2 ? 4 : n > 600 ? 5000 : 30); sc.cut.push_back(std::min(p, n)); }
    sc.avail = choose(2) ? n : skewed(n);
    unsigned w[11]; for (auto& k : w) k = choose(4);
    w[0]++; w[1]++; w[5] = w[5] > 2; w[6] = choose(3) == 2 ? w[6] : 0; w[8] = w[8] > 2; w[7] = w[7] > 1; w[10] = w[10] > 1;
    if (choose(2)) w[9] += 4;
    unsigned pw = 1 + choose(4);
    static const unsigned lens[] = {8, 30, 90, 250};
    unsigned len = lens[choose(4)], steps = 0, nstreams = range(1, N);
    log("source of %u, policy %u, %zu available", n, sc.policy, sc.avail);
    while (steps < 4 * len && choose(len) != len - 1) {
      begin_step(); steps++;
      unsigned tot = pw, cat = 0;
      for (unsigned x : w) tot += x;
      unsigned r = choose(tot);
      if (r < pw) { producer(); continue; }
      r -= pw;
      while (r >= w[cat]) r -= w[cat++];
      unsigned i = choose(nstreams);
      if (!cs[i]) { open(i); continue; }
      if (choose(60) == 59) { close(i); continue; }
      op(i, cat);
      unsigned st; { Quiet q; st = cbits(cs[i]->rdstate()) | cbits(cs[i]->exceptions()) << 4; }
      state(mix(mix(sc.policy * 16 + cat, st), mix(std::min<size_t>(sc.avail - std::min(sc.avail, cb.pos()), 4) * 2 + sc.failing, 0)));
      note(st); note(cb.pos());
    }
    // liveness: faults stop, the producer finishes, every character left arrives
    begin_step();
    sc.failing = false; sc.avail = sc.data.size();
    if (!cs[0]) open(0);
    if (null[0]) { close(0); while (!cs[0] || null[0]) { if (cs[0]) close(0); open_plain(); } }
    log("drain");
    Got c = on_cest(0, "clear", [&](CS& s, Got&) { s.exceptions(cest::ios_base::goodbit); s.clear(); });
    Got s = on_std(0, [&](SS& x, Got&) { x.exceptions(std::ios_base::goodbit); x.clear(); });
    compare(0, "clear", c, s);
    size_t p = cb.pos(), turns = 0;
    while (p < sc.data.size()) {
      if (++turns > sc.data.size() + 5) violate(HANG, "a recovered stream makes no progress");
      C a{}, b{};
      Got x = on_cest(0, "get", [&](CS& st, Got&) { st.get(a); });
      Got y = on_std(0, [&](SS& st, Got&) { st.get(b); });
      compare(0, "get", x, y);
      if (x.gcount != 1 || a != sc.data[p]) violate(DELIVER, "after recovery character %zu of %zu is not delivered", p, sc.data.size());
      p++;
    }
    C a{};
    Got x = on_cest(0, "get", [&](CS& st, Got&) { st.get(a); });
    if (x.state != 6) violate(STATE, "at the end of data the state is %u in place of eof and fail", x.state);
    for (unsigned i = 0; i < N; i++) if (cs[i]) close(i);
    if (co) { call("destroy", [&] { co->~CO(); }); co.drop_frame(); so.reset(); }
  }
  void open_plain() {
    void* f = cs[0].frame(); null[0] = false;
    call("construct", [&] { cs[0].p = new (f) CS(&cb); });
    ss[0] = std::make_unique<SS>(&*sb_);
  }
};
}
#endif
