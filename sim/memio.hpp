// String streams and memory files: several open at once, contents replaced,
// allocations failing; next to std's string streams over the same contents.
#ifndef SIM_MEMIO_HPP
#define SIM_MEMIO_HPP
#include "elem.hpp"
#include "traits.hpp"
namespace sim {

template <class C, class T, class A> struct MemRun {
  using Str = cest::basic_string<C, T, A>;
  using Std = std::basic_string<C, T>;
  using IS = cest::basic_istringstream<C, T, A>;
  using SS = cest::basic_stringstream<C, T, A>;
  using Base = cest::basic_istream<C, T>;
  static constexpr bool files = std::is_same_v<C, char> && std::is_same_v<T, std::char_traits<char>> && std::is_same_v<A, std::allocator<char>>;
  static constexpr unsigned N = 4;
  struct Ent {
    unsigned kind = 0;                     // 1 istringstream, 2 stringstream, 3 memory file
    Slot<IS> is; Slot<SS> ss; Base* s = nullptr;
    std::unique_ptr<std::basic_istringstream<C, T>> tis;
    std::unique_ptr<std::basic_stringstream<C, T>> tss;
    std::basic_istream<C, T>* t = nullptr;
    Std contents; size_t pos = 0; bool readable = true; unsigned char serial = 0;
    C* caller = nullptr; size_t ncaller = 0;
  } e[N];
  std::vector<C> ref;
  unsigned version = 0;

  static unsigned cbits(cest::ios_base::iostate s) { return (s & cest::ios_base::badbit ? 1u : 0) | (s & cest::ios_base::eofbit ? 2u : 0) | (s & cest::ios_base::failbit ? 4u : 0); }
  static unsigned sbits(std::ios_base::iostate s) { return (s & std::ios_base::badbit ? 1u : 0) | (s & std::ios_base::eofbit ? 2u : 0) | (s & std::ios_base::failbit ? 4u : 0); }
  Std fresh() {
    Std r; size_t n = huge(40, 80000); if (!n) n = choose(6) == 5 ? 500 + choose(6000) : skewed(40);
    version++;
    for (size_t i = 0; i < n; i++) { unsigned v = unsigned(i * 7 + version * 31); r.push_back(i % 5 == 3 ? C(0) : i % 11 == 7 ? C(0xFF) : C(v & 0x7F)); }
    return r;
  }
  Str mk(const Std& s) { Quiet q; return Str(s.data(), s.size()); }
  void same(unsigned i, const char* what) {
    Ent& x = e[i];
    unsigned c, s; long gc; bool b;
    { Quiet q; c = cbits(x.s->rdstate()); gc = long(x.s->gcount()); b = bool(*x.s); }
    s = sbits(x.t->rdstate());
    log("  -> state %u gcount %ld pos %zu", c, gc, x.pos);
    if (c != s) violate(STATE, "stream %u %s: state %u, the standard stream has %u (1 bad, 2 eof, 4 fail)", i, what, c, s);
    if (gc != long(x.t->gcount())) violate(DELIVER, "stream %u %s: gcount() is %ld, the standard stream's %ld", i, what, gc, long(x.t->gcount()));
    if (b != bool(*x.t)) violate(STATE, "stream %u %s: bool contradicts the state", i, what);
  }
  size_t next(Ent& x) { return x.readable ? x.pos : x.contents.size(); }
  void open(unsigned i) {
    Ent& x = e[i];
    unsigned k = choose(files ? 6 : 4);
    Plan pl = plan(1u << F_ALLOC);
    x.pos = 0; x.readable = true;
    if (k >= 4) {                          // memory file over the caller's buffer
      x.contents = fresh(); x.ncaller = x.contents.size();
      x.caller = static_cast<C*>(heap.alloc(x.ncaller * sizeof(C), alignof(C), K_FRAME));
      for (size_t j = 0; j < x.ncaller; j++) x.caller[j] = x.contents[j];
      log("stream %u: memory file of %zu", i, x.ncaller);
      Outcome o;
      if constexpr (files) o = call("fmemopen", pl, [&] { x.s = cest::fmemopen(x.caller, x.ncaller, "r"); });
      if (o.r == RES_OK) {
        x.kind = 3; x.tss = std::make_unique<std::basic_stringstream<C, T>>(x.contents); x.t = x.tss.get();
      } else { heap.free(x.caller, K_FRAME, 0, 0); x.caller = nullptr; x.s = nullptr; return; }
      same(i, "fmemopen");
      return;
    }
    bool given = choose(4) != 0;
    Outcome o;
    std::ios_base::openmode sm = {}; cest::ios_base::openmode cm{};
    unsigned md = choose(5);
    if (k < 2) {
      void* f = x.is.frame();
      if (given) {
        x.contents = fresh();
        Str s = mk(x.contents);
        if (md == 3) { cm = cest::ios_base::in | cest::ios_base::ate; sm = std::ios_base::in | std::ios_base::ate; }
        else if (md == 4) { cm = cest::ios_base::out; sm = std::ios_base::out; }
        log("stream %u: istringstream of %zu, mode %u", i, x.contents.size(), md);
        o = call("istringstream", pl, [&] { if (md < 3) x.is.p = new (f) IS(s); else x.is.p = new (f) IS(s, cm); });
      } else { x.contents.clear(); log("stream %u: empty istringstream", i); o = call("istringstream", pl, [&] { x.is.p = new (f) IS(); }); }
      if (o.r != RES_OK) { x.is.drop_frame(); return; }
      x.kind = 1; x.s = x.is.p;
      x.tis = given ? md < 3 ? std::make_unique<std::basic_istringstream<C, T>>(x.contents) : std::make_unique<std::basic_istringstream<C, T>>(x.contents, sm) : std::make_unique<std::basic_istringstream<C, T>>();
      x.t = x.tis.get();
    } else {
      void* f = x.ss.frame();
      if (given) {
        x.contents = fresh();
        Str s = mk(x.contents);
        if (md == 2) { cm = cest::ios_base::in; sm = std::ios_base::in; }
        if (md == 3) { cm = cest::ios_base::in | cest::ios_base::out | cest::ios_base::app; sm = std::ios_base::in | std::ios_base::out | std::ios_base::app; }
        else if (md == 4) { cm = cest::ios_base::out; sm = std::ios_base::out; x.readable = false; }
        log("stream %u: stringstream of %zu, mode %u", i, x.contents.size(), md);
        o = call("stringstream", pl, [&] { if (md < 2) x.ss.p = new (f) SS(s); else x.ss.p = new (f) SS(s, cm); });
      } else { x.contents.clear(); log("stream %u: empty stringstream", i); o = call("stringstream", pl, [&] { x.ss.p = new (f) SS(); }); }
      if (o.r != RES_OK) { x.ss.drop_frame(); return; }
      x.kind = 2; x.s = x.ss.p;
      x.tss = given ? md < 2 ? std::make_unique<std::basic_stringstream<C, T>>(x.contents) : std::make_unique<std::basic_stringstream<C, T>>(x.contents, sm) : std::make_unique<std::basic_stringstream<C, T>>();
      x.t = x.tss.get();
    }
    same(i, "construction");
  }
  void close(unsigned i) {
    Ent& x = e[i];
    log("stream %u: close", i);
    uint64_t live = heap.live;
    if (x.kind == 1) { call("destroy", [&] { x.is->~IS(); }); x.is.p = nullptr; x.is.drop_frame(); }
    else if (x.kind == 2) { call("destroy", [&] { x.ss->~SS(); }); x.ss.p = nullptr; x.ss.drop_frame(); }
    else if constexpr (files) {
      int r = -1;
      call("fclose", [&] { r = cest::fclose(x.s); });
      if (r != 0) violate(CONTENT, "fclose returned %d", r);
      if (heap.live >= live) violate(LEAK, "fclose released nothing");
      for (size_t j = 0; j < x.ncaller; j++) if (x.caller[j] != C(j * 3 + x.serial)) { if (x.serial || x.caller[j] != x.contents[j]) violate(CONTENT, "memory file %u changed the caller's buffer at %zu", i, j); }
      heap.free(x.caller, K_FRAME, 0, 0); x.caller = nullptr;
    }
    x.kind = 0; x.s = nullptr; x.t = nullptr; x.tis.reset(); x.tss.reset(); x.serial = 0;
  }
  void replace(unsigned i) {
    Ent& x = e[i];
    if (x.kind == 3 || !x.kind) return;
    Std n = fresh();
    unsigned self = 0;
    Str s = mk(n);
    log("stream %u: str(%zu)", i, n.size());
    Outcome o = call("str", plan(1u << F_ALLOC), [&] { if (x.kind == 1) x.is->str(s); else x.ss->str(s); });
    (void)self;
    if (o.r == RES_OK) {
      x.contents = n; x.pos = 0;
      if (x.kind == 1) x.tis->str(n); else x.tss->str(n);
    } else probe(7, "replacing contents failed");
    same(i, "str");
  }
  void op(unsigned i, unsigned cat) {
    Ent& x = e[i];
    size_t p = next(x);
    switch (cat) {
      case 0: {
        C a = C(0x5A), b = C(0x5A);
        log("stream %u: get", i);
        call("get", [&] { x.s->get(a); }); x.t->get(b);
        same(i, "get");
        bool got; { Quiet q; got = x.s->gcount() == 1; }
        if (got) { if (p >= x.contents.size() || a != x.contents[p]) violate(DELIVER, "stream %u get: delivered %ld, byte %zu of the contents is %ld", i, long(a), p, p < x.contents.size() ? long(x.contents[p]) : -1); x.pos++; }
        else if (a != C(0x5A)) violate(DELIVER, "stream %u get: stored a character and reports none", i);
        break;
      }
      case 1: case 2: {
        size_t n = huge(60, 80000); if (!n) n = choose(8) == 7 ? 100 + choose(7000) : skewed(30);
        C* buf = static_cast<C*>(heap.alloc(n * sizeof(C), alignof(C), K_FRAME));
        for (size_t k = 0; k < n; k++) buf[k] = C(0x5A);
        ref.assign(n + 1, C(0x5A));
        bool fr = false; size_t ret = 0;
        if constexpr (files) fr = x.kind == 3 ? choose(4) != 3 : choose(6) == 5;
        log("stream %u: %s %zu", i, fr ? "fread" : "read", n);
        if (fr) { if constexpr (files) call("fread", [&] { ret = cest::fread(buf, 1, n, x.s); }); }
        else call("read", [&] { x.s->read(buf, std::streamsize(n)); });
        x.t->read(ref.data(), std::streamsize(n));
        same(i, fr ? "fread" : "read");
        size_t got; { Quiet q; got = size_t(x.s->gcount()); }
        if (fr && ret != got) violate(DELIVER, "fread returned %zu and delivered %zu", ret, got);
        if (got > n || p + got > x.contents.size()) violate(DELIVER, "stream %u read: %zu delivered of %zu left", i, got, x.contents.size() - p);
        for (size_t k = 0; k < got; k++) if (buf[k] != x.contents[p + k]) violate(DELIVER, "stream %u read: byte %zu is not byte %zu of the contents", i, k, p + k);
        for (size_t k = got; k < n; k++) if (buf[k] != C(0x5A)) violate(DELIVER, "stream %u read: wrote beyond the %zu byte(s) delivered", i, got);
        if (x.readable) x.pos += got;
        heap.free(buf, K_FRAME, 0, 0);
        break;
      }
      case 3: {
        log("stream %u: unget", i);
        bool ok = false;
        call("unget", [&] { x.s->unget(); ok = bool(*x.s); }); x.t->unget();
        same(i, "unget");
        if (ok && x.readable && x.pos) x.pos--;
        break;
      }
      case 4:
        log("stream %u: clear", i);
        call("clear", [&] { x.s->clear(); }); x.t->clear();
        same(i, "clear");
        break;
      case 8: {                                   // straight through the buffer
        unsigned k = choose(6); size_t n = skewed(20);
        static const char* nm[] = {"sgetc", "sbumpc", "snextc", "sungetc", "sgetn", "pubsync"};
        log("stream %u: rdbuf()->%s", i, nm[k]);
        Std a(n, C(0x5A)), b = a;
        auto body = [&](auto& q, Std& x) -> long {
          switch (k) {
            case 0: return long(q.sgetc());
            case 1: return long(q.sbumpc());
            case 2: return long(q.snextc());
            case 3: { auto v = q.sungetc(); return T::eq_int_type(v, T::eof()) ? -1 : long(v); }
            case 4: return long(q.sgetn(x.data(), std::streamsize(n)));
            default: return long(q.pubsync());
          }
        };
        long rc = 0, rs = 0;
        call(nm[k], [&] { rc = body(*x.s->rdbuf(), a); }); rs = body(*x.t->rdbuf(), b);
        if (rc != rs) violate(DELIVER, "stream %u rdbuf()->%s gave %ld, the standard buffer %ld", i, nm[k], rc, rs);
        if (Std(a) != b) violate(DELIVER, "stream %u sgetn: other characters than the standard buffer's", i);
        same(i, nm[k]);
        if (x.readable) switch (k) {
          case 1: x.pos += p < x.contents.size(); break;
          case 2: x.pos += p < x.contents.size(); break;
          case 3: x.pos -= p > 0; break;
          case 4: x.pos += size_t(rc); break;
        }
        probe(9, "direct buffer operation");
        break;
      }
      case 5: replace(i); break;
      case 6:
        if (x.kind == 3 && x.ncaller) {            // the caller reuses its buffer
          x.serial = (unsigned char)(1 + choose(200));
          log("caller overwrites the buffer of memory file %u", i);
          for (size_t j = 0; j < x.ncaller; j++) x.caller[j] = C(j * 3 + x.serial);
        } else replace(i);
        break;
      default:
        log("stream %u: clear and read all", i);
        call("clear", [&] { x.s->clear(); }); x.t->clear();
        if (x.readable) {
          while (x.pos < x.contents.size()) {
            C a{}, b{};
            size_t at = x.pos;
            call("get", [&] { x.s->get(a); }); x.t->get(b);
            if (a != x.contents[at]) violate(DELIVER, "stream %u: byte %zu of %zu does not read back", i, at, x.contents.size());
            x.pos++;
          }
          C a{}, b{};
          call("get", [&] { x.s->get(a); }); x.t->get(b);
          same(i, "read to the end");
        }
    }
  }
  void run() {
    draw_faults(1u << F_ALLOC, 1);
    unsigned w[9]; for (auto& k : w) k = choose(4);
    w[8] = w[8] > 1; w[1]++; w[5] += g.profile & P_FAULT ? 2 : 0; w[7] = w[7] > 1;
    static const unsigned lens[] = {8, 30, 90, 200};
    unsigned len = lens[choose(4)], steps = 0, k = range(1, N);
    while (steps < 4 * len && choose(len) != len - 1) {
      begin_step(); steps++;
      unsigned i = choose(k), tot = 0, cat = 0;
      if (!e[i].kind) { open(i); continue; }
      if (choose(24) == 23) { close(i); continue; }
      for (unsigned x : w) tot += x;
      unsigned r = choose(tot);
      while (r >= w[cat]) r -= w[cat++];
      op(i, cat);
      unsigned st; { Quiet q; st = cbits(e[i].s->rdstate()); }
      state(mix(mix(e[i].kind * 16 + cat, st), std::min<size_t>(e[i].contents.size() - e[i].pos, 9) * 10 + std::min<size_t>(e[i].pos, 9)));
      note(e[i].pos); note(heap.live);
    }
    for (unsigned i = 0; i < N; i++) if (e[i].kind) { begin_step(); op(i, 7); close(i); }
  }
};
}
#endif
