// T01: every scheduled task runs exactly once and wait means done.
#include "tpool.h"

template <class P> void basic(Ctx& c) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 1, 3);
  Slots s;
  P p(nw);
  for (int i = 0; i < k; ++i) c.check(put(p, [&s, i] { ++s.n[i]; }, i), "rejected", "schedule returned false");
  p.wait();
  s.expect(c, k, "wait-returned-early", "when wait() returned");
  at_rest(c, p, nw, "after wait()");
  s.expect(c, k, "executed-twice", "at rest");
}
SCHED_SCENARIO(basic_fifo, o.preempt = 2; o.preempt_t = 3) { basic<bt::fifo_pool>(c); }
SCHED_SCENARIO(basic_lifo, o.preempt = 2; o.preempt_t = 3; o.deep = true) { basic<bt::lifo_pool>(c); }
SCHED_SCENARIO(basic_prio, o.preempt = 1; o.preempt_t = 3) { basic<bt::prio_pool>(c); }
SCHED_SCENARIO(spurious, o.preempt = 0; o.spurious = 1; o.preempt_t = 1; o.spurious_t = 2) {
  int nw = c.range("workers", 1, 2); Slots s; bt::fifo_pool p(nw);
  for (int i = 0; i < 2; ++i) { put(p, [&s, i] { ++s.n[i]; }); p.wait(); s.expect(c, i + 1, "wait-returned-early", "when wait() returned"); }
  at_rest(c, p, nw, "after the last round");
}
SCHED_SCENARIO(three_workers, o.preempt = 0; o.preempt_t = 1) {
  Slots s; bt::fifo_pool p(3); int k = c.range("tasks", 3, 4);
  for (int i = 0; i < k; ++i) put(p, [&s, i] { ++s.n[i]; });
  p.wait(); s.expect(c, k, "wait-returned-early", "when wait() returned"); at_rest(c, p, 3, "after wait()");
}
// several rounds: the workers go to sleep between them (or not)
SCHED_SCENARIO(rounds, o.preempt = 1; o.preempt_t = 2) {
  int nw = c.range("workers", 1, 2), r = c.range("rounds", 2, 3); Slots s; bt::fifo_pool p(nw);
  for (int i = 0; i < r; ++i) { put(p, [&s, i] { ++s.n[i]; }); p.wait(); s.expect(c, i + 1, "wait-returned-early", "when wait() returned"); }
  at_rest(c, p, nw, "after the last round");
}
// two threads schedule and wait for themselves; a wait covers everything scheduled before it by that thread
SCHED_SCENARIO(two_schedulers, o.preempt = 1; o.preempt_t = 2) {
  int nw = c.range("workers", 1, 2); Slots s; bt::fifo_pool p(nw);
  Thread t([&] { put(p, [&s] { ++s.n[0]; }); put(p, [&s] { ++s.n[1]; }); p.wait(); s.expect(c, 2, "wait-returned-early", "when wait() returned"); });
  put(p, [&s] { ++s.n[2]; }); p.wait(); c.check(s.n[2] == 1, "wait-returned-early", "task 2 ran %d times when wait() returned", s.n[2]);
  t.join(); s.expect(c, 3, "executed-twice", "at the end"); at_rest(c, p, nw, "after two schedulers");
}
// tasks that schedule tasks; wait() covers the whole family because a parent is active while it schedules
SCHED_SCENARIO(nested, o.preempt = 2; o.preempt_t = 3) {
  int nw = c.range("workers", 1, 2), kids = c.range("children", 1, 2); Slots s; bt::fifo_pool p(nw);
  put(p, [&] { ++s.n[0]; for (int i = 1; i <= kids; ++i) put(p, [&s, i] { ++s.n[i]; }); });
  p.wait(); s.expect(c, kids + 1, "wait-returned-early", "when wait() returned"); at_rest(c, p, nw, "after nested tasks");
}
// a task that blocks does not stop the others when there is another worker
SCHED_SCENARIO(blocked_task, o.preempt = 2; o.preempt_t = 3) {
  Slots s; Gate g; bt::fifo_pool p(2);
  put(p, [&] { g.pass(); ++s.n[0]; }); put(p, [&] { ++s.n[1]; g.open(); });
  p.wait(); s.expect(c, 2, "wait-returned-early", "when wait() returned"); at_rest(c, p, 2, "after a blocking task");
}
// wait(threshold): returns once at most that many tasks are pending or running, even if those never finish
SCHED_SCENARIO(wait_threshold, o.preempt = 1; o.preempt_t = 2) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 1, 3), th = c.range("threshold", 0, 2), stuck = c.range("blocking-tasks", 0, std::min(th, std::min(k, nw)));
  Slots s; Gate g; pthread_mutex_t m; pthread_mutex_init(&m, nullptr); int done = 0;
  { bt::fifo_pool p(nw);
    // the blocking tasks come last, so that the others can finish first
    for (int i = 0; i < k; ++i) put(p, [&, i] { if (i >= k - stuck) g.pass(); ++s.n[i]; pthread_mutex_lock(&m); ++done; pthread_mutex_unlock(&m); });
    p.wait(th);
    pthread_mutex_lock(&m); int d = done; pthread_mutex_unlock(&m);
    c.check(k - d <= th, "wait-returned-early", "wait(%d) returned with %d of %d tasks unfinished", th, k - d, k);
    g.open(); p.wait(); s.expect(c, k, "lost", "at the end"); at_rest(c, p, nw, "after wait(threshold)"); }
}
// removing pending tasks also lets such a wait return
SCHED_SCENARIO(wait_threshold_clear, o.preempt = 2; o.preempt_t = 3) {
  int nw = 1, th = c.range("threshold", 1, 2), k = th + 1; Slots s; Gate g, started;
  bt::fifo_pool p(nw);
  put(p, [&] { started.open(); g.pass(); ++s.n[0]; });
  started.pass();
  for (int i = 1; i < k; ++i) put(p, [&, i] { ++s.n[i]; });
  Thread t([&] { p.wait(th); g.open(); });
  p.clear();
  t.join(); p.wait(); c.check(s.n[0] == 1, "lost", "running task executed %d times", s.n[0]);
  for (int i = 1; i < k; ++i) c.check(s.n[i] <= 1, "executed-twice", "task %d ran %d times", i, s.n[i]);
  at_rest(c, p, nw, "after clear()");
}
// wait with a time limit
SCHED_SCENARIO(timed_wait, o.preempt = 1; o.preempt_t = 2; o.timeouts = 1) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 0, 2), th = c.range("threshold", 0, 1); bool stuck = k && c.flip("blocks"); long ms = c.of<long>("limit-ms", {0, 5});
  Slots s; Gate g; pthread_mutex_t m; pthread_mutex_init(&m, nullptr); int done = 0;
  bt::fifo_pool p(nw);
  if (nw && !k) { c.quiesce(); }
  for (int i = 0; i < k; ++i) put(p, [&, i] { if (stuck && i == k - 1) g.pass(); ++s.n[i]; pthread_mutex_lock(&m); ++done; pthread_mutex_unlock(&m); });
  boost::xtime lim = after_ms(c, ms); long limns = c.now_ns() + ms * 1000000;
  bool r = p.wait(lim, th);
  if (r) { pthread_mutex_lock(&m); int d = done; pthread_mutex_unlock(&m); c.check(k - d <= th, "wait-returned-early", "timed wait(%d) returned true with %d of %d tasks unfinished", th, k - d, k); }
  else { c.check(c.now_ns() >= limns, "timed-out-early", "timed wait returned false %ld ns before its limit", limns - c.now_ns()); }
  // a worker that has not got round to idling still counts as active, so a limit that is already over may report false;
  // once everything is at rest the answer is exact
  if (!stuck) { c.quiesce(); c.check(p.wait(after_ms(c, 0), th), "timed-out-idle", "timed wait(%d) of an idle pool returned false", th); }
  if (stuck && th == 0) c.check(!r, "wait-returned-early", "timed wait returned true although a task is blocked");
  g.open(); p.wait(); s.expect(c, k, "lost", "at the end"); at_rest(c, p, nw, "after a timed wait");
}
