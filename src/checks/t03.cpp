// T03: shutting down or clearing a pool terminates cleanly.
#include "tpool.h"
#include <stdexcept>
typedef bt::thread_pool<bt::task_func, bt::fifo_scheduler, bt::dynamic_resize_policy, bt::resize_controller, bt::wait_for_active_tasks> active_pool;
typedef bt::thread_pool<bt::task_func, bt::fifo_scheduler, bt::dynamic_resize_policy, bt::resize_controller, bt::immediately> now_pool;
typedef bt::fifo_pool all_pool;

struct Parts { pthread_mutex_t m; int in_[8], out_[8];
  Parts() { pthread_mutex_init(&m, nullptr); for (int i = 0; i < 8; ++i) in_[i] = out_[i] = 0; }
  ~Parts() { pthread_mutex_destroy(&m); }
  void add(int* a, int i) { pthread_mutex_lock(&m); ++a[i]; pthread_mutex_unlock(&m); }
  int get(int* a, int i) { pthread_mutex_lock(&m); int v = a[i]; pthread_mutex_unlock(&m); return v; }
  void in(int i) { add(in_, i); } void out(int i) { add(out_, i); }
  int ins(int i) { return get(in_, i); } int outs(int i) { return get(out_, i); }
  std::function<void()> task(int i) { return [this, i] { in(i); out(i); }; }
  void finish(Ctx& c, int k) { for (int i = 0; i < k; ++i) { c.check(ins(i) <= 1, "twice", "task %d of %d ran %d times", i, k, ins(i)); c.check(ins(i) == outs(i), "cut-off", "task %d of %d was started but did not finish", i, k); } } };

// policy: wait for everything that was accepted
SCHED_SCENARIO(all_tasks, o.preempt = 1; o.preempt_t = 3; o.exits = true) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 0, c.bound(2, 3)); Slots s;
  { all_pool p(nw); for (int i = 0; i < k; ++i) put(p, [&s, i] { ++s.n[i]; }); }
  c.check(c.alive() == 0, "worker-left", "%d workers live after the pool is gone", c.alive());
  s.expect(c, k, "lost", "when the pool was destroyed");
}
// tasks that schedule tasks while the pool is already shutting down
SCHED_SCENARIO(all_tasks_nested, o.preempt = 1; o.preempt_t = 2; o.exits = true) {
  int nw = c.range("workers", 1, 2); Slots s;
  { all_pool p(nw); put(p, [&] { ++s.n[0]; put(p, [&] { ++s.n[1]; put(p, [&] { ++s.n[2]; }); }); }); }
  c.check(c.alive() == 0, "worker-left", "%d workers live after the pool is gone", c.alive());
  s.expect(c, 3, "lost", "when the pool was destroyed");
}
// policy: pending tasks are dropped, running ones complete
SCHED_SCENARIO(active_tasks, o.preempt = 1; o.preempt_t = 3; o.exits = true) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 0, c.bound(2, 3)); Parts s;
  { active_pool p(nw); for (int i = 0; i < k; ++i) put(p, s.task(i)); }
  c.check(c.alive() == 0, "worker-left", "%d workers live after the pool is gone", c.alive());
  s.finish(c, k);
}
// policy: do not wait; tasks that were running complete on their own
SCHED_SCENARIO(immediately, o.preempt = 2; o.preempt_t = 3) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 0, c.bound(2, 3)); Parts* s = new Parts;
  { now_pool p(nw); for (int i = 0; i < k; ++i) put(p, s->task(i)); }
  c.no_more_spurious(); c.quiesce();
  c.check(c.alive() == 0, "worker-left", "%d workers live at rest after the pool is gone", c.alive());
  s->finish(c, k); delete s;
}
// with tasks that are known to run and others that are known to be pending when the shutdown begins
template <class P> void blocked(Ctx& c, bool now) {
  int nw = c.range("workers", 1, 2), k = nw + c.range("pending", 0, 2); Gate g; Parts s; Thread* t;
  { P p(nw);
    for (int i = 0; i < nw; ++i) put(p, [&, i] { s.in(i); g.pass(); s.out(i); });
    c.no_more_spurious(); c.quiesce();
    for (int i = nw; i < k; ++i) put(p, s.task(i));
    if (now) t = nullptr; else t = new Thread([&] { timespec ts = {1, 0}; nanosleep(&ts, nullptr); g.open(); });  // once everybody else is blocked
  }
  if (now) { for (int i = 0; i < nw; ++i) c.check(s.ins(i) == 1 && s.outs(i) == 0, "policy", "task %d was in state %d/%d when an immediate shutdown returned", i, s.ins(i), s.outs(i)); g.open(); c.quiesce(); }
  else { t->join(); delete t; }
  c.check(c.alive() == 0, "worker-left", "%d workers live", c.alive());
  s.finish(c, k);
  for (int i = 0; i < nw; ++i) c.check(s.outs(i) == 1, "cut-off", "running task %d did not complete", i);
  for (int i = nw; i < k; ++i) { bool ran = s.ins(i) == 1; if (std::is_same<P, all_pool>::value) c.check(ran, "lost", "pending task %d was not run", i); else c.check(!ran, "not-dropped", "pending task %d was run although the policy drops it", i); }
}
SCHED_SCENARIO(blocked_all, o.preempt = 1; o.preempt_t = 2; o.exits = true) { blocked<all_pool>(c, false); }
SCHED_SCENARIO(blocked_active, o.preempt = 1; o.preempt_t = 2; o.exits = true) { blocked<active_pool>(c, false); }
SCHED_SCENARIO(blocked_now, o.preempt = 2; o.preempt_t = 3) { blocked<now_pool>(c, true); }
// the pool goes away with its last copy, whichever thread holds it
SCHED_SCENARIO(last_copy, o.preempt = 1; o.preempt_t = 2; o.exits = true) {
  int nw = c.range("workers", 1, 2); Slots s; bool waits = c.flip("copy-waits"); all_pool* q; Thread* t;
  { all_pool p(nw); q = new all_pool(p);
    t = new Thread([&] { put(*q, [&] { ++s.n[0]; }); if (waits) { q->wait(); } delete q; });
    put(p, [&] { ++s.n[1]; }); }
  t->join(); delete t;
  c.check(c.alive() == 0, "worker-left", "%d workers live after the last copy is gone", c.alive());
  s.expect(c, 2, "lost", "when the last copy was destroyed");
}
// a thread that shrank the pool is followed by destruction at once
SCHED_SCENARIO(resize_then_destroy, o.preempt = 1; o.preempt_t = 2) {
  int from = c.range("from", 0, 2), to = c.range("to", 0, 2), k = from && to ? 1 : 0; Slots s;
  { all_pool p(from); if (k) put(p, [&] { ++s.n[0]; }); p.size_controller().resize(to); }
  c.no_more_spurious(); c.quiesce();
  c.check(c.alive() == 0, "worker-left", "%d workers live at rest after the pool is gone", c.alive());
  s.expect(c, k, "lost", "when the pool was destroyed");
}
SCHED_SCENARIO(grow_then_destroy, o.preempt = 1; o.preempt_t = 2; o.exits = true) {
  int k = c.range("tasks", 0, 2); Slots s;
  { all_pool p(1); for (int i = 0; i < k; ++i) put(p, [&s, i] { ++s.n[i]; }); p.size_controller().resize(2); if (c.flip("limit")) p.size_controller().resize_active(1); }
  c.check(c.alive() == 0, "worker-left", "%d workers live after the pool is gone", c.alive());
  s.expect(c, k, "lost", "when the pool was destroyed");
}
// a controller may outlive the pool, but it cannot bring it back
template <class P> void controller_after(Ctx& c) {
  int nw = c.range("workers", 0, 2), to = c.range("to", 0, 2); bool first = c.flip("resize-before"); Slots* s = new Slots;
  P* p = new P(nw); typename P::size_controller_type ctl = p->size_controller();
  if (nw) put(*p, [s] { ++s->n[0]; });
  if (first && nw) ctl.resize(nw);
  delete p;
  c.check(!ctl.resize(to), "resized", "resize(%d) of a pool that was shut down was accepted", to);
  c.no_more_spurious(); c.quiesce();
  c.check(c.alive() == 0, "worker-left", "%d workers live although the pool is gone", c.alive());
  if (std::is_same<P, all_pool>::value && nw) c.check(s->n[0] == 1, "lost", "the task ran %d times", s->n[0]);
  delete s;
}
SCHED_SCENARIO(controller_after_all, o.preempt = 1; o.preempt_t = 2) { controller_after<all_pool>(c); }
SCHED_SCENARIO(controller_after_now, o.preempt = 1; o.preempt_t = 2) { controller_after<now_pool>(c); }
SCHED_SCENARIO(clear_pending, o.preempt = 2; o.preempt_t = 3) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 1, 2); Slots s;
  all_pool p(nw);
  for (int i = 0; i < k; ++i) put(p, [&s, i] { ++s.n[i]; });
  p.clear();
  put(p, [&] { ++s.n[3]; });
  p.wait();
  s.at_most_once(c, k, "twice"); c.check(s.n[3] == 1, "lost", "the task scheduled after clear() ran %d times", s.n[3]);
  at_rest(c, p, nw, "after clear()");
}
SCHED_SCENARIO(clear_blocked, o.preempt = 2; o.preempt_t = 3) {
  Gate g; Slots s; all_pool p(1);
  put(p, [&] { g.pass(); ++s.n[0]; });
  c.quiesce();
  put(p, [&] { ++s.n[1]; }); put(p, [&] { ++s.n[2]; });
  c.check(p.pending() == 2 && !p.empty(), "pending-count", "pending() is %zu with 2 pending tasks", p.pending());
  p.clear();
  c.check(p.pending() == 0 && p.empty(), "pending-count", "pending() is %zu after clear()", p.pending());
  if (c.flip("another")) { put(p, [&] { ++s.n[3]; }); s.n[4] = 1; }
  g.open(); p.wait();
  c.check(s.n[0] == 1 && s.n[1] == 0 && s.n[2] == 0 && s.n[3] == s.n[4], "cleared", "runs: %d running, %d and %d cleared, %d later (of %d)", s.n[0], s.n[1], s.n[2], s.n[3], s.n[4]);
  at_rest(c, p, 1, "after clear()");
}
SCHED_SCENARIO(clear_concurrently, o.preempt = 1; o.preempt_t = 2) {
  Slots s; all_pool p(c.range("workers", 1, 2));
  Thread t([&] { p.clear(); });
  put(p, [&] { ++s.n[0]; }); put(p, [&] { ++s.n[1]; });
  t.join(); put(p, [&] { ++s.n[2]; }); p.wait();
  s.at_most_once(c, 2, "twice"); c.check(s.n[2] == 1, "lost", "the task scheduled after clear() ran %d times", s.n[2]);
}
// ---- tasks that throw
static std::function<void()> thrower(Slots& s, int i, bool th) { return [&s, i, th] { ++s.n[i]; if (th) throw std::runtime_error("task"); }; }
SCHED_SCENARIO(throwing, o.preempt = 1; o.preempt_t = 2) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 1, 2), sub = c.range("throwers", 1, (1 << k) - 1); Slots s;
  { all_pool p(nw);
    for (int i = 0; i < k; ++i) put(p, thrower(s, i, sub >> i & 1));
    p.wait();
    s.expect(c, k, "lost", "although another task threw");
    at_rest(c, p, nw, "after a task threw");
    c.check(c.alive() == nw, "pool-shrank", "%d worker threads live, %d requested, after a task threw", c.alive(), nw); }
  c.no_more_spurious(); c.quiesce(); c.check(c.alive() == 0, "worker-left", "%d workers live after the pool is gone", c.alive());
}
SCHED_SCENARIO(throwing_then_more, o.preempt = 1; o.preempt_t = 2) {
  int nw = c.range("workers", 1, 2), rounds = c.range("rounds", 1, 2); Slots s; int k = 0;
  all_pool p(nw);
  for (int r = 0; r < rounds; ++r) { put(p, thrower(s, k++, true)); c.no_more_spurious(); c.quiesce(); }
  put(p, thrower(s, k++, false)); p.wait(); s.expect(c, k, "lost", "after tasks threw");
  at_rest(c, p, nw, "after tasks threw");
}
SCHED_SCENARIO(throwing_and_destroyed, o.preempt = 1; o.preempt_t = 2) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 1, 2), sub = c.range("throwers", 1, (1 << k) - 1); Slots s;
  { all_pool p(nw); for (int i = 0; i < k; ++i) put(p, thrower(s, i, sub >> i & 1)); }
  c.no_more_spurious(); c.quiesce();
  c.check(c.alive() == 0, "worker-left", "%d workers live after the pool is gone", c.alive());
  s.expect(c, k, "lost", "when a task threw during shutdown");
}
template <class P> void throwing_other(Ctx& c) {
  int nw = c.range("workers", 1, 2), k = c.range("tasks", 1, 2); Parts* s = new Parts;
  { P p(nw); for (int i = 0; i < k; ++i) { auto f = s->task(i); put(p, [f, i] { f(); if (i == 0) throw 1; }); } }
  c.no_more_spurious(); c.quiesce();
  c.check(c.alive() == 0, "worker-left", "%d workers live after the pool is gone", c.alive());
  s->finish(c, k); delete s;
}
SCHED_SCENARIO(throwing_active, o.preempt = 2; o.preempt_t = 3) { throwing_other<active_pool>(c); }
SCHED_SCENARIO(throwing_now, o.preempt = 2; o.preempt_t = 3) { throwing_other<now_pool>(c); }
// a task throws while the pool is being resized
SCHED_SCENARIO(throwing_and_resized, o.preempt = 1; o.preempt_t = 2) {
  int from = c.range("from", 1, 3), to = c.range("to", 1, 2); Slots s;
  all_pool p(from);
  put(p, thrower(s, 0, true));
  p.size_controller().resize(to);
  put(p, thrower(s, 1, false));
  p.wait(); s.expect(c, 2, "lost", "after a task threw during a resize");
  at_rest(c, p, to, "after a task threw during a resize");
  c.check(c.alive() == to, "pool-shrank", "%d worker threads live, %d requested", c.alive(), to);
}
// the replacement of a dead worker obeys the limit on running tasks, and wakes those it held back
SCHED_SCENARIO(throwing_under_limit, o.preempt = 1; o.preempt_t = 2) {
  Slots s; all_pool p(2); p.size_controller().resize_active(1);
  put(p, thrower(s, 0, true)); put(p, thrower(s, 1, false)); put(p, thrower(s, 2, true));
  p.wait(); s.expect(c, 3, "lost", "when tasks threw under an active limit"); at_rest(c, p, 2, "when tasks threw under an active limit");
}
