// Output: the process streams are simulated devices that fill up, refuse, throw
// and recover; the same operations go to std streams over equal devices.
#ifndef SIM_OUT_HPP
#define SIM_OUT_HPP
#include "elem.hpp"
#include <ext/stdio_sync_filebuf.h>
#include <iomanip>
namespace sim {

struct SinkError { int k; };
struct Dev {
  std::string bytes; size_t limit = ~size_t(0); bool throwing = false; bool real = true;
  size_t accept(const char* s, size_t n) {
    size_t room = limit > bytes.size() ? limit - bytes.size() : 0, k = std::min(n, room);
    bytes.append(s, k);
    if (k < n && real) { g.fired_in_call++; g.last_fired = F_SINK; g.fired_in_run++; g.fault_id++; sh->fired[F_SINK]++; }
    return k;
  }
};
struct Sink : std::streambuf {
  Dev* d; std::vector<char> area; size_t cap; unsigned syncs = 0;
  Sink(Dev* dev, size_t n) : d(dev), cap(n) { if (n) { area.resize(n); setp(area.data(), area.data() + n); } }
  std::string pending() const { return std::string(pbase(), size_t(pptr() - pbase())); }
  bool drain() {
    size_t n = size_t(pptr() - pbase());
    if (!n) return true;
    size_t k = d->accept(pbase(), n);
    std::string rest(pbase() + k, n - k);
    setp(area.data(), area.data() + cap);
    memcpy(area.data(), rest.data(), rest.size()); pbump(int(rest.size()));
    return k == n;
  }
  int_type overflow(int_type c) override {
    User u;
    char ch = traits_type::to_char_type(c);
    if (!cap) {
      if (traits_type::eq_int_type(c, traits_type::eof())) return 0;
      if (d->accept(&ch, 1) == 1) return c;
    } else {
      if (drain()) { if (!traits_type::eq_int_type(c, traits_type::eof())) { *pptr() = ch; pbump(1); } return traits_type::not_eof(c); }
    }
    if (d->throwing) throw SinkError{1};
    return traits_type::eof();
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (cap) return std::streambuf::xsputn(s, n);
    User u;
    size_t k = d->accept(s, size_t(n));
    if (k < size_t(n) && d->throwing) throw SinkError{2};
    return std::streamsize(k);
  }
  int sync() override {
    User u;
    syncs++;
    return !cap || drain() ? 0 : -1;       // never throws: a unitbuf stream syncs from a destructor
  }
};
inline ssize_t cookie_write(void* c, const char* s, size_t n) { User u; return ssize_t(static_cast<Dev*>(c)->accept(s, n)); }
inline FILE* dev_file(Dev* d) { cookie_io_functions_t io{nullptr, cookie_write, nullptr, nullptr}; return fopencookie(d, "w", io); }

// a client's own manipulators
inline unsigned man_calls = 0; inline const void* man_on = nullptr;
inline cest::ostream& man_text(cest::ostream& o) { man_calls++; man_on = static_cast<cest::ios_base*>(&o); o << "<man>" << 7; return o; }
inline std::ostream& std_man_text(std::ostream& o) { return o << "<man>" << 7; }
inline cest::ios_base& man_base(cest::ios_base& b) { man_calls++; man_on = &b; return b; }
inline cest::basic_ios<char>& man_ios(cest::basic_ios<char>& b) { man_calls++; man_on = static_cast<cest::ios_base*>(&b); return b; }

struct OutRun {
  Dev dev[4], twin[4];                       // cout, cerr, clog, C stdout
  std::unique_ptr<std::streambuf> sb[3], tb[3];
  Sink* sk[3] = {}; Sink* tk[3] = {};
  std::ostream tout{nullptr}, terr{nullptr}, tlog{nullptr};
  std::ostream* t[3] = {&tout, &terr, &tlog};
  std::ostream* r[3] = {&std::cout, &std::cerr, &std::clog};
  cest::ostream* c[3] = {&cest::cout, &cest::cerr, &cest::clog};
  FILE *cf = nullptr, *tf = nullptr, *keep = nullptr;
  bool one_device = false, unbuffered = false;
  static const char* nm(unsigned i) { static const char* n[] = {"cout", "cerr", "clog"}; return n[i]; }

  struct Res { int ex = 0; long ret = 0; };
  template <class F> Res real(const char* what, Plan pl, F&& f) {
    Res o;
    int ex = 0;
    // an allocation failure is for call() to judge; the device's errors are ours
    bool alloc_failed = false;
    call(what, pl, [&] {
      try { o.ret = f(); }
      catch (const SinkError&) { ex = 2; }
      catch (const std::ios_base::failure&) { ex = 1; }
      catch (const InjectedAlloc&) { ex = 4; }
      catch (...) { ex = 3; }
      alloc_failed = g.fired_in_call && g.last_fired == F_ALLOC;
    }, C_STREAM);
    if (ex == 4 && !alloc_failed) violate(EXC, "%s ended with a bad_alloc although no allocation failed", what);
    if (alloc_failed && ex != 4) violate(SWALLOW, "%s did not report a failed allocation", what);
    o.ex = ex;
    return o;
  }
  template <class F> Res std_side(F&& f) {
    Res o;
    unsigned fr = g.fired_in_run; uint64_t fid = g.fault_id; unsigned fc = g.fired_in_call, lf = g.last_fired;
    try { o.ret = f(); }
    catch (const SinkError&) { o.ex = 2; }
    catch (const std::ios_base::failure&) { o.ex = 1; }
    catch (...) { o.ex = 3; }
    g.fired_in_run = fr; g.fault_id = fid; g.fired_in_call = fc; g.last_fired = lf;
    return o;
  }
  void same(const char* what, const Res& a, const Res& b) {
    static const char* exn[] = {"no exception", "ios_base::failure", "the device's exception", "another exception", "bad_alloc"};
    static const char* dn[] = {"cout", "cerr", "clog", "C stdout"};
    for (unsigned i = 0; i < 4; i++) {
      if (dev[i].bytes != twin[i].bytes) {
        size_t k = 0; while (k < dev[i].bytes.size() && k < twin[i].bytes.size() && dev[i].bytes[k] == twin[i].bytes[k]) k++;
        violate(OUTPUT, "%s: %s has %zu byte(s), %zu expected, and they differ from byte %zu on", what, dn[i], dev[i].bytes.size(), twin[i].bytes.size(), k);
      }
      if (i < 3 && sk[i] && sk[i]->pending() != tk[i]->pending()) violate(OUTPUT, "%s: %s holds %zu byte(s) back, %zu expected", what, dn[i], sk[i]->pending().size(), tk[i]->pending().size());
    }
    if (a.ex != b.ex) violate(EXC, "%s ended with %s in place of %s", what, exn[a.ex], exn[b.ex]);
    if (a.ret != b.ret) violate(OUTPUT, "%s returned %ld in place of %ld", what, a.ret, b.ret);
    for (unsigned i = 0; i < 3; i++) {
      if (r[i]->rdstate() != t[i]->rdstate()) violate(STATE, "%s: std::%s is in state %d in place of %d", what, nm(i), int(r[i]->rdstate()), int(t[i]->rdstate()));
      if (r[i]->flags() != t[i]->flags() || r[i]->width() != t[i]->width() || r[i]->fill() != t[i]->fill()) violate(STATE, "%s changed the format of std::%s", what, nm(i));
    }
    size_t tot = 0; for (auto& d : dev) { tot += d.bytes.size(); }
    log("  -> ex %d ret %ld total %zu", a.ex, a.ret, tot);
  }
  template <class F, class H> void both(const char* what, F&& f, H&& h, Plan pl = {}) {
    size_t before[4]; for (unsigned i = 0; i < 4; i++) before[i] = dev[i].bytes.size();
    Res a = real(what, pl, f);
    if (a.ex == 4) {
      for (unsigned i = 0; i < 4; i++) if (dev[i].bytes.size() != before[i]) violate(OUTPUT, "%s failed to allocate and wrote all the same", what);
      probe(8, "allocation failed in output");
      return;
    }
    Res b = std_side(h);
    same(what, a, b);
  }
  // std::ios_base::failure allocates for itself; that allocation is not the library's to lose
  Plan alloc_plan(std::ostream& o) { Plan p = plan(1u << F_ALLOC); return o.exceptions() == std::ios_base::goodbit && !(o.tie() && o.tie()->exceptions() != std::ios_base::goodbit) ? p : Plan{}; }
  std::string text() {
    std::string s;
    if (unsigned h = huge(60, 80000)) {
      unsigned seed = choose(200);
      for (unsigned i = 0; i < h; i++) s.push_back(char(1 + (i * 37 + i / 250 + seed) % 255));
      return s;
    }
    unsigned n = choose(5) == 4 ? 60 + choose(1500) : skewed(20);
    static const char al[] = "ab%\n d\xff\t%sZ9";
    for (unsigned i = 0; i < n; i++) s.push_back(al[choose(sizeof al - 1)]);
    return s;
  }
  void op(unsigned cat) {
    unsigned i = choose(3);
    cest::ostream& C = *c[i]; std::ostream& T = *t[i]; std::ostream& R = *r[i];
    switch (cat) {
      case 0: { std::string s = text(); log("%s << text(%zu)", nm(i), s.size()); both("<< text", [&] { C << s.c_str(); return 0; }, [&] { T << s.c_str(); return 0; }); break; }
      case 1: { static const char cs[] = {'a', 0, '\xff', '\n', ' '}; char ch = cs[choose(5)]; log("%s << char %d", nm(i), ch); both("<< character", [&] { C << ch; return 0; }, [&] { T << ch; return 0; }); break; }
      case 2: {
        static const long vs[] = {0, 1, -1, 42, INT_MAX, INT_MIN, 255}; int v = choose(2) ? int(choose(0xFFFFFFFFu)) >> choose(32) : int(vs[choose(7)]); bool un = choose(2);
        log("%s << %s %d", nm(i), un ? "unsigned" : "int", v);
        both("<< number", [&] { if (un) C << unsigned(v); else C << v; return 0; }, [&] { if (un) T << unsigned(v); else T << v; return 0; });
        break;
      }
      case 3: {
        std::string s = text(); if (choose(2)) for (size_t k = 2; k < s.size(); k += 5) s[k] = 0;
        std::optional<cest::string> z; { Quiet q; z.emplace(s.data(), s.size()); }
        log("%s << string(%zu)", nm(i), s.size());
        both("<< string", [&] { C << *z; return 0; }, [&] { T << s; return 0; }, alloc_plan(R));
        { Quiet q; z.reset(); }
        break;
      }
      case 4: {
        unsigned k = choose(3);
        log("%s %s", nm(i), k ? k == 1 ? "<< endl" : "flush()" : "<< endl");
        if (k < 2) both("<< endl", [&] { C << cest::endl; return 0; }, [&] { T << std::endl; return 0; });
        else both("flush", [&] { C.flush(); return 0; }, [&] { T.flush(); return 0; });
        break;
      }
      case 5: {
        unsigned k = choose(3);
        log("%s << base %u", nm(i), k);
        both("<< base", [&] { if (k == 0) C << cest::hex; else if (k == 1) C << cest::oct; else C << cest::dec; return 0; }, [&] { if (k == 0) T << std::hex; else if (k == 1) T << std::oct; else T << std::dec; return 0; });
        break;
      }
      case 6: {
        unsigned char u = (unsigned char)("a\0\xffz"[choose(4)]); bool sg = choose(2);
        log("%s << %s char %u", nm(i), sg ? "signed" : "unsigned", u);
        both("<< small character", [&] { if (sg) C << (signed char)u; else C << u; return 0; }, [&] { if (sg) T << (signed char)u; else T << u; return 0; });
        break;
      }
      case 7: {                             // a direct write or format change between the library's
        unsigned k = choose(7), w = choose(12);
        log("std::%s direct %u", nm(i), k);
        auto f = [&](std::ostream& o) {
          switch (k) {
            case 0: o << "direct"; break;
            case 1: o << std::setw(int(w)); break;
            case 2: o << std::setfill(w % 2 ? '.' : ' '); break;
            case 3: if (w % 2) o << std::showbase << std::uppercase; else o << std::noshowbase << std::nouppercase; break;
            case 4: if (w % 2) o << std::left; else o << std::right; break;
            case 5: if (w % 2 && o.exceptions() == std::ios_base::goodbit) o << std::unitbuf; else o << std::nounitbuf; break;
            default: o.put('!'); o.flush(); break;
          }
          return 0;
        };
        Res a = std_side([&] { User u; (void)u; return f(R); });
        Res b = std_side([&] { return f(T); });
        same("a direct write", a, b);
        break;
      }
      case 8: {
        unsigned k = choose(6); std::string s = text(); int v = int(choose(2000)) - 1000;
        log("printf form %u", k);
        auto sgn = [](int x) { return x < 0 ? -1L : long(x); };
        both("printf",
             [&] { switch (k) { case 0: return sgn(cest::printf("[%d|%s]", v, s.c_str())); case 1: return sgn(cest::printf("%c%c%5u", 'x', 0, unsigned(v))); case 2: return sgn(cest::printf("50%% of it\n")); case 3: return sgn(cest::printf("%-12s%x", s.c_str(), unsigned(v))); case 4: return sgn(cest::printf("%s", s.c_str())); default: return sgn(cest::printf("%%|%g|%p", 1.5, (void*)0)); } },
             [&] { switch (k) { case 0: return sgn(std::fprintf(tf, "[%d|%s]", v, s.c_str())); case 1: return sgn(std::fprintf(tf, "%c%c%5u", 'x', 0, unsigned(v))); case 2: return sgn(std::fprintf(tf, "50%% of it\n%s", "")); case 3: return sgn(std::fprintf(tf, "%-12s%x", s.c_str(), unsigned(v))); case 4: return sgn(std::fprintf(tf, "%s", s.c_str())); default: return sgn(std::fprintf(tf, "%%|%g|%p", 1.5, (void*)0)); } });
        if (!one_device && choose(2)) { User u; fflush(cf); fflush(tf); same("fflush", {}, {}); }
        if (ferror(cf) != ferror(tf)) violate(STATE, "printf left the C stream in another error state");
        break;
      }
      case 9: {
        unsigned k = choose(8); std::string s = text(); int v = int(choose(2000)) - 1000;
        R.width(0); T.width(0);             // padding of the stream does not apply to printf
        log("fprintf %s form %u", nm(i), k);
        static const wchar_t bad[] = {wchar_t(0xD800), 0};
        cest::ostream* st = i == 0 && choose(2) ? cest::stdout : i == 1 && choose(2) ? cest::stderr : c[i];
        std::string want; static char buf[100000]; int n = -1;
        switch (k) {
          case 0: n = snprintf(buf, sizeof buf, "[%d|%s]", v, s.c_str()); break;
          case 1: n = snprintf(buf, sizeof buf, "%c%c%5u", 'x', 0, unsigned(v)); break;
          case 2: n = snprintf(buf, sizeof buf, "50%% of it\n"); break;
          case 3: n = snprintf(buf, sizeof buf, "%-12s%x", s.c_str(), unsigned(v)); break;
          case 4: n = snprintf(buf, sizeof buf, "%s", s.c_str()); break;
          case 5: n = snprintf(buf, sizeof buf, "%%|%g|%d%d%d", 1.5, 1, 2, v); break;
          case 6: n = snprintf(buf, sizeof buf, "%ls", bad); break;
          default: n = snprintf(buf, sizeof buf, "%s", ""); break;
        }
        if (n > 0) want.assign(buf, size_t(n));
        both("fprintf",
             [&]() -> long { int x; switch (k) { case 0: x = cest::fprintf(st, "[%d|%s]", v, s.c_str()); break; case 1: x = cest::fprintf(st, "%c%c%5u", 'x', 0, unsigned(v)); break; case 2: x = cest::fprintf(st, "50%% of it\n"); break; case 3: x = cest::fprintf(st, "%-12s%x", s.c_str(), unsigned(v)); break; case 4: x = cest::fprintf(st, "%s", s.c_str()); break; case 5: x = cest::fprintf(st, "%%|%g|%d%d%d", 1.5, 1, 2, v); break; case 6: x = cest::fprintf(st, "%ls", bad); break; default: x = cest::fprintf(st, "%s", ""); break; } R.width(0); return T.good() || x < 0 ? (x < 0 ? -1 : x) : 0; },
             [&]() -> long { bool was = T.good(); if (n >= 0) T << std::string_view(want); return was || n < 0 ? (n < 0 ? -1 : n) : 0; },
             alloc_plan(R));
        T.width(0);
        break;
      }
      case 10: {
        std::string s = text(); int v = int(choose(100));
        log("%s << chain", nm(i));
        both("<< chain", [&] { C << s.c_str() << ' ' << v << cest::hex << unsigned(v) << cest::dec << '\n' << cest::endl; return 0; },
             [&] { T << s.c_str() << ' ' << v << std::hex << unsigned(v) << std::dec << '\n' << std::endl; return 0; });
        break;
      }
      case 11: {                             // a stream of the client's own reaches none of the devices
        log("private stream");
        Slot<cest::stringstream> b; void* f = b.frame();
        call("construct", [&] { b.p = new (f) cest::stringstream(cest::string("private")); });
        both("<< on a private stream", [&] { cest::ostream o(b->rdbuf()); o << "stray" << 'x' << 42 << cest::hex << 42u << cest::endl; o.flush(); cest::fprintf(&o, "%d", 5); return 0; }, [&] { return 0; });
        call("destroy", [&] { b->~basic_stringstream(); });
        b.drop_frame();
        break;
      }
      case 12: {                             // the client's own manipulators are applied once, to this stream
        unsigned k = choose(3);
        static const char* mn[] = {"<< manipulator of streams", "<< manipulator of ios_base", "<< manipulator of basic_ios"};
        log("%s %s", nm(i), mn[k]);
        man_calls = 0; man_on = nullptr;
        bool self = true;
        Plan pl{};
        both(mn[k], [&] { cest::ostream& q = k == 0 ? C << man_text : k == 1 ? C << man_base : C << man_ios; self = &q == &C; return 0; },
             [&] { if (k == 0) T << std_man_text; return 0; }, pl);
        if (man_calls != 1) violate(OUTPUT, "%s: the manipulator was called %u time(s)", mn[k], man_calls);
        if (man_calls && man_on != static_cast<cest::ios_base*>(&C)) violate(OUTPUT, "%s: the manipulator was applied to another stream", mn[k]);
        if (!self) violate(OUTPUT, "%s returned another stream", mn[k]);
        break;
      }
      default: {
        unsigned k = choose(3);
        log("std::%s %s", nm(i), k == 0 ? "exceptions" : "clear");
        if (k == 0) {
          static const std::ios_base::iostate m[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::badbit | std::ios_base::failbit};
          unsigned x = choose(3);
          Res a = std_side([&] { if (x) R << std::nounitbuf; R.exceptions(m[x]); return 0; }), b = std_side([&] { if (x) T << std::nounitbuf; T.exceptions(m[x]); return 0; });
          same("exceptions", a, b);
        } else {
          Res a = std_side([&] { R.clear(); return 0; }), b = std_side([&] { T.clear(); return 0; });
          same("clear", a, b);
          { User u; clearerr(cf); clearerr(tf); }
        }
      }
    }
  }
  void device() {
    unsigned i = choose(4), k = choose(4);
    if (i == 3 && !unbuffered) i = 0;
    if (one_device && !unbuffered) return;
    size_t n = huge(12, 70000); if (!n) n = skewed(60);
    bool thr = choose(2);
    if (k == 0 || !(g.profile & P_FAULT)) { for (auto* d : {&dev[i], &twin[i]}) { d->limit = ~size_t(0); d->throwing = false; } log("device %u repaired", i); return; }
    sh->armed[F_SINK]++;
    if (g.nofault) return;
    for (auto* d : {&dev[i], &twin[i]}) { d->limit = d->bytes.size() + n; d->throwing = thr && i < 3; }
    log("device %u takes %zu more byte(s)%s", i, n, thr ? ", then throws" : "");
  }
  void run() {
    for (auto& d : twin) d.real = false;
    one_device = choose(4) == 3; unbuffered = one_device || choose(2);
    keep = stdout;
    cf = dev_file(one_device ? &dev[0] : &dev[3]); tf = dev_file(one_device ? &twin[0] : &twin[3]);
    if (!cf || !tf) { fprintf(stderr, "sim: fopencookie\n"); _exit(2); }
    if (unbuffered) { setvbuf(cf, nullptr, _IONBF, 0); setvbuf(tf, nullptr, _IONBF, 0); }
    stdout = cf;
    static const size_t caps[] = {0, 1, 7, 64, 1024};
    for (unsigned i = 0; i < 3; i++) {
      if (one_device && i == 0) {            // the library's usual arrangement: cout writes through stdout
        sb[i] = std::make_unique<__gnu_cxx::stdio_sync_filebuf<char>>(cf); tb[i] = std::make_unique<__gnu_cxx::stdio_sync_filebuf<char>>(tf);
      } else {
        size_t n = caps[choose(5)];
        auto a = std::make_unique<Sink>(&dev[i], n), b = std::make_unique<Sink>(&twin[i], n);
        sk[i] = a.get(); tk[i] = b.get(); sb[i] = std::move(a); tb[i] = std::move(b);
      }
    }
    std::streambuf* old[3];
    for (unsigned i = 0; i < 3; i++) {
      r[i]->exceptions(std::ios_base::goodbit); old[i] = r[i]->rdbuf(sb[i].get()); t[i]->rdbuf(tb[i].get());
      r[i]->clear(); t[i]->clear();
      t[i]->exceptions(std::ios_base::goodbit);
      r[i]->flags(std::ios_base::skipws | std::ios_base::dec | (i == 1 ? std::ios_base::unitbuf : std::ios_base::fmtflags{})); t[i]->flags(r[i]->flags());
      r[i]->width(0); r[i]->fill(' '); t[i]->width(0); t[i]->fill(' ');
    }
    terr.tie(std::cerr.tie() ? &tout : nullptr);
    draw_faults(1u << F_ALLOC, 1);
    unsigned w[14]; for (auto& k : w) k = choose(4);
    w[9]++; w[12] = w[12] > 1; w[13] += g.profile & P_FAULT ? 2 : 0;
    unsigned dw = g.profile & P_FAULT ? 2 + choose(4) : 0;
    static const unsigned lens[] = {8, 30, 90, 200};
    unsigned len = lens[choose(4)], steps = 0;
    while (steps < 4 * len && choose(len) != len - 1) {
      begin_step(); steps++;
      unsigned tot = dw, cat = 0;
      for (unsigned x : w) tot += x;
      unsigned rr = choose(tot);
      if (rr < dw) { device(); continue; }
      rr -= dw;
      while (rr >= w[cat]) rr -= w[cat++];
      op(cat);
      state(mix(mix(cat, unsigned(std::cout.rdstate()) * 64 + unsigned(std::cerr.rdstate()) * 8 + unsigned(std::clog.rdstate())), mix(one_device * 2 + unbuffered, (dev[0].limit != ~size_t(0)) * 4 + (dev[1].limit != ~size_t(0)) * 2 + dev[0].throwing)));
      for (auto& d : dev) note(d.bytes.size());
      note(heap.live);
    }
    // every device recovers; what is written now arrives whole
    begin_step();
    log("all devices recover");
    for (auto* ds : {dev, twin}) for (unsigned i = 0; i < 4; i++) { ds[i].limit = ~size_t(0); ds[i].throwing = false; }
    { User u; clearerr(cf); clearerr(tf); }
    for (unsigned i = 0; i < 3; i++) { r[i]->exceptions(std::ios_base::goodbit); r[i]->clear(); t[i]->exceptions(std::ios_base::goodbit); t[i]->clear(); }
    for (unsigned i = 0; i < 3; i++) {
      size_t n0 = dev[i].bytes.size();
      both("<< after recovery", [&] { *c[i] << "after recovery" << cest::endl; return 0; }, [&] { *t[i] << "after recovery" << std::endl; return 0; });
      if (!(one_device && i == 0) && dev[i].bytes.size() < n0 + 15) violate(OUTPUT, "%s: output does not resume after the device recovers", nm(i));
    }
    { User u; fflush(cf); fflush(tf); }
    same("final flush", {}, {});
    stdout = keep;
    for (unsigned i = 0; i < 3; i++) r[i]->rdbuf(old[i]);
    { User u; fclose(cf); fclose(tf); }
  }
};
}
#endif
