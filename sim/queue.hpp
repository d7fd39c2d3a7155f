// queue: every value pushed comes out exactly once, in push order.
#ifndef SIM_QUEUE_HPP
#define SIM_QUEUE_HPP
#include "elem.hpp"
namespace sim {
template <class C, class E> struct QRun {
  using Q = cest::queue<E, C>;
  static constexpr unsigned N = 2;
  Slot<Q> s[N]; std::vector<long> m[N];
  long next_val = 1;
  Cls mode = CONTENT; int touched = -1;
  void verify() {
    for (unsigned o = 0; o < N; o++) {
      if (!s[o]) continue;
      Cls c = int(o) == touched ? mode : mode == STRONG ? STRONG : INDEP;
      call("queue read", [&] {
        Q& x = *s[o]; const Q& cx = x;
        if (cx.size() != m[o].size()) violate(c, "queue %u: size() says %zu, the model has %zu", o, size_t(cx.size()), m[o].size());
        if (cx.empty() != m[o].empty()) violate(c, "queue %u: empty() is wrong", o);
        if (m[o].size()) {
          if (Tr<E>::val(x.front()) != m[o].front() || Tr<E>::val(cx.front()) != m[o].front()) violate(c, "queue %u: front() is %ld, the model has %ld", o, Tr<E>::val(cx.front()), m[o].front());
          if (Tr<E>::val(x.back()) != m[o].back() || Tr<E>::val(cx.back()) != m[o].back()) violate(c, "queue %u: back() is %ld, the model has %ld", o, Tr<E>::val(cx.back()), m[o].back());
        }
      });
    }
  }
  void make(unsigned o) {
    unsigned how = choose(4);
    void* f; Outcome r;
    if (how < 2 || !Tr<E>::copyable) {
      Plan p = plan(Tr<E>::faults);
      f = s[o].frame();
      log("queue %u: construct empty", o);
      r = call("queue constructor", p, [&] { s[o].p = new (f) Q(); });
      m[o].clear();
    } else if constexpr (Tr<E>::copyable) {
      if (s[1 - o] && choose(2)) {
        Plan p = plan(Tr<E>::faults);
        f = s[o].frame();
        log("queue %u: copy of queue %u (%zu values)", o, 1 - o, m[1 - o].size());
        const Q& from = *s[1 - o];
        r = call("queue copy constructor", p, [&] { s[o].p = new (f) Q(from); });
        m[o] = m[1 - o];
      } else {
        unsigned n = choose(9);
        std::vector<long> v;
        Slot<C> c; void* cf = c.frame();
        bool ok = !call("container constructor", [&] { c.p = new (cf) C(); }).threw();
        for (unsigned i = 0; ok && i < n; i++) {
          long x = norm<E>(next_val++); E e = mk(x);
          call("push_back", [&] { c->push_back(std::move(e)); });
          v.push_back(x);
        }
        Plan p = plan(Tr<E>::faults);
        f = s[o].frame();
        bool mv = choose(2);
        log("queue %u: construct from a container of %u (%s)", o, n, mv ? "moved" : "copied");
        const C& cc = *c;
        r = call("queue constructor from container", p, [&] { if (mv) s[o].p = new (f) Q(std::move(*c)); else s[o].p = new (f) Q(cc); });
        call("container destructor", [&] { c->~C(); });
        c.drop_frame();
        m[o] = v;
      }
    }
    if (r.threw()) { s[o].p = nullptr; s[o].drop_frame(); m[o].clear(); }
  }
  E mk(long v) { Quiet q; return Tr<E>::mk(v); }
  void destroy(unsigned o) {
    if (!s[o]) return;
    log("queue %u: destroy (%zu values)", o, m[o].size());
    call("queue destructor", [&] { s[o]->~Q(); });
    s[o].p = nullptr; s[o].drop_frame(); m[o].clear();
  }
  void run() {
    draw_faults(Tr<E>::faults, 1);
    unsigned wpush = 1 + choose(4), wpop = 1 + choose(4), wother = choose(3), maxn = 1u << choose(8);
    static const unsigned lens[] = {10, 40, 200, 600};
    unsigned len = lens[choose(4)], n = 0;
    while (n < 3 * len && choose(len) != len - 1) {
      begin_step(); n++;
      touched = -1; mode = CONTENT;
      unsigned o = choose(8) == 7;
      if (!s[o]) make(o);
      if (!s[o]) continue;
      touched = int(o);
      unsigned k = choose(wpush + wpop + wother);
      Q& x = *s[o];
      if (k < wpush && m[o].size() < maxn) {
        long v = norm<E>(next_val++);
        Plan p = plan(Tr<E>::faults & ~(1u << F_DEFAULT));
        unsigned how = choose(4);
        Outcome r;
        if (how == 3 && m[o].size() && Tr<E>::copyable) {
          if constexpr (Tr<E>::copyable) {
            v = m[o].front(); mode = ALIAS;
            log("queue %u: push its own front %ld", o, v);
            const E& e = x.front();
            r = call("queue push", p, [&] { x.push(e); });
          }
        } else if (how == 2 && Tr<E>::copyable) {
          if constexpr (Tr<E>::copyable) {
            E e = mk(v); const E& ce = e;
            log("queue %u: push %ld", o, v);
            r = call("queue push", p, [&] { x.push(ce); });
          }
        } else {
          E e = mk(v);
          log("queue %u: push %ld (rvalue)", o, v);
          r = call("queue push", p, [&] { x.push(std::move(e)); });
        }
        if (r.threw()) mode = STRONG; else m[o].push_back(v);
      } else if (k < wpush + wpop) {
        if (m[o].empty()) continue;
        log("queue %u: pop %ld", o, m[o][0]);
        call("queue pop", [&] { x.pop(); });
        m[o].erase(m[o].begin());
      } else {
        unsigned d = 1 - o;
        if (choose(4) == 0) destroy(o);
        else if constexpr (Tr<E>::copyable) {
          if (s[d]) {
            Plan p = plan(Tr<E>::faults);
            unsigned src = choose(4) == 3 ? d : o;
            if (src == d) mode = ALIAS;
            log("queue %u: assign from %u (%zu <- %zu)", d, src, m[d].size(), m[src].size());
            const Q& from = *s[src];
            touched = int(d);
            Outcome r = call("queue assignment", p, [&] { *s[d] = from; });
            if (r.threw()) {         // basic: some prefix of the source, or what it was
              long got = -1;
              call("queue read after failure", [&] { got = long(s[d]->size()); });
              mode = STRONG;
              bool old = got == long(m[d].size()) ;
              if (got > long(std::max(m[src].size(), m[d].size()))) violate(BASIC, "a failed assignment left %ld values", got);
              (void)old;
              verify_basic(d, m[src], m[d], size_t(got));
            } else { if (src != d) mode = INDEP; m[d] = m[src]; }
          }
        }
      }
      verify();
      note(reg.n); note(heap.live);
      state(mix(mix(o, std::min<size_t>(m[o].size(), 100)), mix(mode, g.fired_in_call ? g.last_fired + 1 : 0)));
    }
    for (unsigned o = 0; o < N; o++) {        // drain: what comes out is exactly what went in
      touched = int(o); mode = CONTENT;
      if (s[o] && choose(2)) while (m[o].size()) { call("queue pop", [&] { s[o]->pop(); }); m[o].erase(m[o].begin()); verify(); }
      destroy(o);
    }
  }
  void verify_basic(unsigned d, const std::vector<long>& a, const std::vector<long>& b, size_t n) {
    std::vector<long> may{MOVED, DEFAULTED};
    for (long v : a) may.push_back(v);
    for (long v : b) may.push_back(v);
    g.lenient = true;
    std::vector<long> got;
    // drain it: everything in it must be alive and a value someone put there
    call("drain after failure", [&] {
      for (size_t i = 0; i < n; i++) { long v = Tr<E>::val(s[d]->front()); { User u; got.push_back(v); } s[d]->pop(); }
      if (!s[d]->empty()) violate(BASIC, "queue is not empty after popping everything");
    });
    g.lenient = false;
    for (long v : got) if (std::find(may.begin(), may.end(), v) == may.end()) violate(BASIC, "a failed assignment left %ld, a value nobody put there", v);
    m[d].clear();
  }
};
}
#endif
