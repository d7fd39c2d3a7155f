// What the instrumented client sees of the simulator runtime (thr/rt.cpp).
#ifndef SIM_THR_API_HPP
#define SIM_THR_API_HPP
#include <cstddef>
#include <cstdint>
#include <ios>
#include <new>
#include <stdexcept>

namespace thr {
constexpr int NT = 3;
struct Plan { unsigned mask = 0; uint32_t countdown = 0; bool persistent = false; };

unsigned profile();
uint32_t choose(uint32_t n);
bool one_in(uint32_t n);
void begin_step();
void draw_faults();
Plan plan();
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sut(bool on);                             // library code starts / ends on the harness's behalf
void begin_call(const char* what, Plan p);
void end_call(int res);
void copy_point();                             // an element is being copied: may throw
void obs(uint64_t x);                          // what this thread saw
void obs_bytes(const void* p, size_t n);
void mark(const char* what);                   // following observations belong to this operation
void device_out(int dev);                      // observe everything device `dev` received since last time
const char* device_text(int dev, size_t& n);   // everything device `dev` received in this execution
void stdout_whole(bool on);                    // no switch while stdio holds its lock
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// run body(t) for t in [0,n): interleaved by the seeded scheduler, or each on its own
void run(int n, bool interleaved, void (*body)(int));
void take(unsigned lock); void give(unsigned lock);   // the client's own locks
void again();                                  // second execution, without threads: what follows is seen by the thread named with solo
void solo(int t);
void compare(int n);                           // observations of the two executions must agree
void no_leak();                                // everything allocated in this run has been released

template <class F> int call(const char* what, Plan p, F&& f) {
  int res = 0;
  begin_call(what, p);
  try { f(); }
  catch (const std::bad_alloc&) { res = 1; }
  catch (const std::out_of_range&) { res = 3; }
  catch (const std::ios_base::failure&) { res = 4; }
  catch (...) { res = 2; }
  end_call(res);
  return res;
}
} // namespace thr
void client_run();                             // one simulated run, defined by the client
#endif
