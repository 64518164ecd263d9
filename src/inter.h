// Engine 2: exhaustive exploration of thread interleavings of real code under a controlled scheduler.  See DESIGN.md.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <vector>
#include <pthread.h>

namespace sched {

struct Stop {};    // thrown by nothing; violations end the process
struct Event { int tid; int kind; long a, b; };

class Ctx {
public:
  // ---- input choices (every alternative explored)
  int pick(const char* label, int n);
  int range(const char* label, int lo, int hi) { return lo + pick(label, hi - lo + 1); }
  bool flip(const char* label) { return pick(label, 2) != 0; }
  template <class T> T of(const char* label, std::initializer_list<T> l) { return *(l.begin() + pick(label, (int)l.size())); }
  // ---- oracle
  void check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
  [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void prune();                         // outside the domain
  // ---- events: a global log; a scheduling point, but no synchronisation for the race detector
  void event(int kind, long a = 0, long b = 0);
  int  events() const;
  Event at(int i) const;
  // ---- scheduling
  void quiesce();                       // block until no other thread can take a step
  void no_more_spurious();              // from here on condition variables only wake when notified
  void calm(bool on = true);            // from here on only the scheduler's default order is run (deterministic probing; not explored)
  int  alive() const;                   // threads started and not finished (the caller excluded)
  int  tid() const;
  void yield();                         // a plain scheduling point
  long now_ns() const;                  // virtual clock (CLOCK_REALTIME)
  bool thorough() const;
  int  bound(int q, int t) const { return thorough() ? t : q; }
};
extern Ctx C;                           // usable from any thread

class Thread {                          // a harness thread
  pthread_t t_; bool on_;
public:
  Thread() : on_(false) {}
  explicit Thread(const std::function<void()>& f) : on_(false) { start(f); }
  void start(const std::function<void()>& f);
  void join();
  bool joinable() const { return on_; }
};

typedef void (*Body)(Ctx&);
struct Opts {
  int preempt = 2, preempt_t = 3;       // preemption bound, quick / thorough
  int timeouts = 0;                     // early expiries of timed waits while others could run
  int spurious = 0, spurious_t = 0;     // spurious condition wake-ups
  bool leak_ok = false;                 // blocked threads may remain at the end
  bool at_exit = false;                 // run destructors of static objects after the body
  bool deep = false;                    // thorough tier only
  bool atomics = false;                 // atomic loads and read-modify-writes are scheduling points too
  bool exits = false;                   // the end of a thread is a scheduling point (to observe threads that linger)
  bool races = true;
};
struct Reg { Reg(const char* name, Body b, Opts o); };
}
#define SCHED_SCENARIO(name, ...) \
  static void sc_body_##name(sched::Ctx& c); \
  static sched::Reg sc_reg_##name(#name, sc_body_##name, [] { sched::Opts o; __VA_ARGS__; return o; }()); \
  static void sc_body_##name(sched::Ctx& c)
#define SCHED_REGISTER(name, fn, ...) static sched::Reg sc_reg_##name(#name, fn, [] { sched::Opts o; __VA_ARGS__; return o; }());
#endif
