// T06: futures and the looping task adaptor.
#include "tpool.h"
#include <string>
#include <stdexcept>
using boost::function0;
struct Cell { pthread_mutex_t m; int v; Cell() : v(0) { pthread_mutex_init(&m, nullptr); } ~Cell() { pthread_mutex_destroy(&m); }
  void add(int d = 1) { pthread_mutex_lock(&m); v += d; pthread_mutex_unlock(&m); } int get() { pthread_mutex_lock(&m); int x = v; pthread_mutex_unlock(&m); return x; } };
template <class T> T val(int i);
template <> int val<int>(int i) { return 1000 + i; }
template <> double val<double>(int i) { return 0.5 + i; }
template <> std::string val<std::string>(int i) { return std::string(40 + i, 'x'); }
template <class T> std::function<T()> fn(Slots& s, int i) { return [&s, i] { ++s.n[i]; return val<T>(i); }; }
template <class T> bt::future<T> go(bt::fifo_pool& p, const std::function<T()>& f) { function0<T> g(f); return bt::schedule(p, g); }
// every copy yields the one result; the function's effects are visible to whoever has waited
template <class T> void results(Ctx& c) {
  int nw = c.range("workers", 1, 2), k = c.range("futures", 1, 2); Slots s;
  bt::fifo_pool p(nw); std::vector<bt::future<T> > f;
  for (int i = 0; i < k; ++i) f.push_back(go<T>(p, fn<T>(s, i)));
  bt::future<T> copy = f[0]; int how = c.pick("how", 3);
  Thread t([&] { if (how == 1) copy.wait(); if (how == 2 && !copy.ready()) copy.wait(); T v = how ? copy.get() : copy(); c.check(v == val<T>(0), "value", "a copy yields another result"); c.check(s.n[0] == 1, "runs", "function 0 ran %d times when its result was read", s.n[0]); });
  for (int i = k; i-- > 0;) { T v = f[i](); c.check(v == val<T>(i), "value", "future %d yields another result", i); c.check(s.n[i] == 1, "runs", "function %d ran %d times when its result was read", i, s.n[i]); c.check(f[i].ready(), "ready", "future %d has a result but is not ready", i); c.check(!f[i].is_cancelled(), "cancelled", "future %d reports a cancellation nobody asked for", i); }
  t.join();
  for (int i = 0; i < k; ++i) { T v = f[i].get(); c.check(v == val<T>(i), "value", "future %d yields another result the second time", i); }
}
SCHED_SCENARIO(results_int, o.preempt = 1; o.preempt_t = 2) { results<int>(c); }
SCHED_SCENARIO(results_spurious, o.preempt = 0; o.preempt_t = 1; o.spurious = 1) { results<int>(c); }
SCHED_SCENARIO(results_double, o.preempt = 1; o.preempt_t = 2) { results<double>(c); }
SCHED_SCENARIO(results_string, o.preempt = 1; o.preempt_t = 2) { results<std::string>(c); }
// the pool and the handles may go away in any order
SCHED_SCENARIO(lifetimes, o.preempt = 1; o.preempt_t = 2) {
  Slots s; bool drop = c.flip("drop-handle"), keep = !drop && c.flip("keep-after-pool"); bt::future<std::string>* out = nullptr;
  { bt::fifo_pool p(1); bt::future<std::string> f = go<std::string>(p, fn<std::string>(s, 0)); if (!drop) out = new bt::future<std::string>(f); if (!keep && out) { std::string v = out->get(); c.check(v == val<std::string>(0), "value", "another result"); delete out; out = nullptr; } }
  c.check(s.n[0] == 1, "runs", "the function ran %d times", s.n[0]);
  if (out) { c.check(out->ready(), "ready", "the function has finished but its future is not ready"); std::string v = (*out)(); c.check(v == val<std::string>(0), "value", "another result after the pool is gone"); delete out; }
}
// not ready before the function has finished
SCHED_SCENARIO(not_before, o.preempt = 2; o.preempt_t = 3) {
  Gate g; Cell done; bt::fifo_pool p(1); bool held = c.flip("pending");
  Gate g0; if (held) put(p, [&] { g0.pass(); });
  bt::future<int> f = go<int>(p, [&] { g.pass(); done.add(); return 7; });
  c.check(!f.ready() || done.get() == 1, "ready", "ready before the function has finished");
  c.quiesce();
  c.check(!f.ready() && !f.is_cancelled(), "ready", "ready() is %d, is_cancelled() %d while the function is running", (int)f.ready(), (int)f.is_cancelled());
  c.check(!f.timed_wait(after_ms(c, 30)), "timed-wait", "timed_wait succeeded while the function is running");
  g0.open(); g.open();
  if (c.flip("timed")) { while (!f.timed_wait(after_ms(c, 30))) {} } else f.wait();
  c.check(f.ready() && done.get() == 1 && f.get() == 7, "ready", "ready() is %d, runs %d, result %d after waiting", (int)f.ready(), done.get(), f.get());
  c.check(f.timed_wait(after_ms(c, -50)), "timed-wait", "timed_wait with a past limit fails although the result is there");
}
SCHED_SCENARIO(timed, o.preempt = 1; o.preempt_t = 2; o.timeouts = 1; o.spurious = 1) {
  Slots s; bt::fifo_pool p(1); bt::future<int> f = go<int>(p, fn<int>(s, 0));
  bool ok = f.timed_wait(after_ms(c, 20));
  if (ok) c.check(f.ready() && s.n[0] == 1 && f.get() == 1000, "value", "timed_wait succeeded but ready() is %d, runs %d", (int)f.ready(), s.n[0]);
  f.wait(); c.check(s.n[0] == 1 && f.get() == 1000, "value", "result %d", f.get());
}
SCHED_SCENARIO(polling, o.preempt = 2; o.preempt_t = 3) {
  Cell ran; bt::fifo_pool p(1); bt::future<int> f = go<int>(p, [&] { ran.add(); return 9; });
  for (int i = 0; i < 2; ++i) { bool r = f.ready(); if (r) { c.check(ran.get() == 1, "ready", "ready before the function ran"); c.check(f.get() == 9, "value", "result %d", f.get()); } c.yield(); }
  p.wait(); c.check(f.ready() && f.get() == 9, "ready", "not ready although the task is done");
}
// ---- cancelling
SCHED_SCENARIO(cancel_pending, o.preempt = 1; o.preempt_t = 2) {
  Gate g; Cell ran, back; bt::fifo_pool p(1); put(p, [&] { g.pass(); });
  bt::future<int> f = go<int>(p, [&] { ran.add(); return 5; }), f2 = f; int how = c.pick("waiter", 4);
  auto waits = [&] { if (how == 1) f2.wait(); if (how == 2) { while (!f2.timed_wait(after_ms(c, 30))) {} } if (how == 3) { bool thrown = false; try { f2.get(); } catch (std::exception&) { thrown = true; } c.check(thrown, "value", "a cancelled future yielded a result"); } back.add(); };
  Thread before; if (how) before.start(waits);
  c.quiesce();
  bool ok = f.cancel();
  c.check(ok, "refused", "cancel() of a pending function was refused");
  c.check(f.is_cancelled() && f2.is_cancelled() && !f.ready(), "cancelled", "is_cancelled() is %d and %d, ready() %d after cancel()", (int)f.is_cancelled(), (int)f2.is_cancelled(), (int)f.ready());
  Thread after; if (how) after.start(waits);
  c.quiesce();
  c.check(!how || back.get() == 2, "blocked", "%d of 2 waiters returned although the function was cancelled", back.get());
  g.open(); p.wait();
  if (how) { before.join(); after.join(); }
  c.check(ran.get() == 0, "ran", "the function ran although it was cancelled while pending");
  c.check(f.is_cancelled() && !f.ready(), "cancelled", "is_cancelled() is %d, ready() %d at the end", (int)f.is_cancelled(), (int)f.ready());
}
// cancelling at any moment: either the result is delivered and cancel() said no, or it is not and cancel() said yes
SCHED_SCENARIO(cancel_race, o.preempt = 2; o.preempt_t = 3) {
  Cell ran; bt::fifo_pool p(1); bool waiter = c.flip("waiter"); Cell back;
  bt::future<int> f = go<int>(p, [&] { ran.add(); return 5; }), f2 = f;
  Thread w; if (waiter) w.start([&] { f2.wait(); c.check(f2.ready() || f2.is_cancelled(), "early", "wait() returned before the future was ready or cancelled"); back.add(); });
  bool ok = f.cancel(); bool now = f.is_cancelled();
  c.check(now == ok, "cancelled", "cancel() returned %d, is_cancelled() %d", (int)ok, (int)now);
  p.wait(); c.quiesce();
  c.check(f.ready() != ok, "truthful", "cancel() returned %d but ready() is %d", (int)ok, (int)f.ready());
  c.check(f.is_cancelled() == ok, "truthful", "cancel() returned %d but is_cancelled() is %d", (int)ok, (int)f.is_cancelled());
  c.check(!waiter || back.get() == 1, "blocked", "a waiter is still blocked");
  if (!ok) c.check(ran.get() == 1 && f.get() == 5, "value", "runs %d", ran.get());
  if (waiter) w.join();
}
SCHED_SCENARIO(cancel_running, o.preempt = 2; o.preempt_t = 3) {
  Gate g; Cell ran, back; bt::fifo_pool p(1); bool waiter = c.flip("waiter");
  bt::future<int> f = go<int>(p, [&] { g.pass(); ran.add(); return 5; }), f2 = f;
  Thread w; if (waiter) w.start([&] { f2.wait(); back.add(); });
  c.quiesce();
  bool ok = f.cancel();
  g.open(); p.wait(); c.quiesce();
  c.check(ran.get() == 1, "ran", "the function ran %d times", ran.get());
  c.check(f.ready() != ok && f.is_cancelled() == ok, "truthful", "cancel() returned %d, ready() is %d, is_cancelled() %d", (int)ok, (int)f.ready(), (int)f.is_cancelled());
  c.check(!waiter || back.get() == 1, "blocked", "a waiter is still blocked");
  if (waiter) w.join();
}
SCHED_SCENARIO(cancel_late, o.preempt = 2; o.preempt_t = 3) {
  bt::fifo_pool p(1); bt::future<int> f = go<int>(p, [&] { return 5; });
  f.wait();
  bool ok = f.cancel();
  c.check(!ok && !f.is_cancelled() && f.ready() && f.get() == 5, "late", "after the result was there cancel() returned %d, is_cancelled() %d, ready() %d", (int)ok, (int)f.is_cancelled(), (int)f.ready());
}
SCHED_SCENARIO(cancel_twice, o.preempt = 1; o.preempt_t = 2) {
  bt::fifo_pool p(1); bool a = false, b; bt::future<int> f = go<int>(p, [&] { return 5; }), f2 = f;
  Thread t([&] { a = f2.cancel(); });
  b = f.cancel(); t.join(); p.wait();
  c.check(f.ready() != (a || b) && f.is_cancelled() == (a || b), "truthful", "cancel() returned %d and %d, ready() is %d, is_cancelled() %d", (int)a, (int)b, (int)f.ready(), (int)f.is_cancelled());
}
// a fresh future object of its own is neither ready nor cancelled, and can be cancelled
SCHED_SCENARIO(fresh, o.preempt = 0) {
  bt::future<int> f; c.check(!f.ready() && !f.is_cancelled(), "fresh", "ready() %d, is_cancelled() %d", (int)f.ready(), (int)f.is_cancelled());
  c.check(!f.timed_wait(after_ms(c, 30)), "fresh", "timed_wait succeeds on a future nobody completes");
  bt::future<int> g; g = f; bool ok = g.cancel(); c.check(ok && f.is_cancelled(), "fresh", "cancel() returned %d, is_cancelled() of the copy is %d", (int)ok, (int)f.is_cancelled());
}
// ---- looping tasks
SCHED_SCENARIO(looped, o.preempt = 0; o.preempt_t = 0) {
  static const unsigned IV[] = {0, 1, 30, 999, 1000, 1001, 2500}; static const long PH[] = {0, 1, 500, 999};
  unsigned iv = IV[c.pick("interval", 7)]; int trues = c.range("repeats", 0, 4); long work = c.flip("work") ? 40000000L : 0; std::vector<long> at; long t0, ph = PH[c.pick("phase", 4)];
  if (ph) { timespec ts = {0, ph * 1000000}; nanosleep(&ts, nullptr); }
  bt::looped_task_func l([&] { at.push_back(c.now_ns()); if (work) { timespec ts = {0, work}; nanosleep(&ts, nullptr); } return (int)at.size() <= trues; }, iv);
  const bt::looped_task_func l2 = l; t0 = c.now_ns();
  if (c.flip("in-pool")) { bt::fifo_pool p(1); p.schedule(l2); p.wait(); } else l2();
  c.check((int)at.size() == trues + 1, "loops", "the function was called %zu times; it returned true %d times", at.size(), trues);
  for (size_t i = 0; i < at.size(); ++i) { long from = i ? at[i - 1] + work : t0; c.check(at[i] - from >= (long)iv * 1000000, "break", "call %zu came after a break of %ld ns, the interval is %u ms", i, at[i] - from, iv); c.check(at[i] - from <= (long)iv * 1000000 + 150000000, "break-long", "call %zu came after a break of %ld ns, the interval is %u ms", i, at[i] - from, iv); }
}
SCHED_SCENARIO(looped_empty, o.preempt = 0) { bt::looped_task_func l(function0<bool>(), c.of("interval", {0u, 50u})); l(); function0<bool> none; bt::looped_task_func m(none); m(); }
// loops run next to other tasks; a loop without breaks does not keep a second worker or other tasks from running
SCHED_SCENARIO(looped_pool, o.preempt = 1; o.preempt_t = 2) {
  int nw = c.range("workers", 1, 2); Slots s; bt::fifo_pool p(nw); unsigned iv = c.of("interval", {0u, 20u});
  p.schedule(bt::looped_task_func([&] { return ++s.n[0] < 3; }, iv)); p.schedule(bt::looped_task_func([&] { return ++s.n[1] < 2; }, 0)); put(p, [&] { ++s.n[2]; });
  p.wait(); c.check(s.n[0] == 3 && s.n[1] == 2 && s.n[2] == 1, "loops", "calls: %d of 3, %d of 2, %d of 1", s.n[0], s.n[1], s.n[2]);
  at_rest(c, p, nw, "after loops");
}
