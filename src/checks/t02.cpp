// T02: resizing a running pool never loses tasks or overshoots its size.
#include "tpool.h"

static const char* desc(const std::vector<int>& v) { static char b[80]; int n = 0; b[0] = 0; for (int x : v) n += snprintf(b + n, sizeof b - n, "%s%d", n ? "," : "", x); return b; }
// after everything has come to rest: exactly `n` workers, counted by the pool and as live threads
template <class P> void settled(Ctx& c, P& p, int n, int others, const char* when) {
  c.no_more_spurious(); c.quiesce();
  c.check((int)p.size() == n, "worker-count", "size() is %zu, %d workers were requested last (%s)", p.size(), n, when);
  c.check(c.alive() == n + others, "thread-count", "%d worker threads live, %d were requested last (%s)", c.alive() - others, n, when);
  c.check(p.active() == 0, "active-count", "active() is %zu at rest (%s)", p.active(), when);
}
// sequences of worker counts, tasks in between, everything settles at the end
SCHED_SCENARIO(sequence, o.preempt = 1; o.preempt_t = 2) {
  int start = c.range("initial", 0, 2), len = 2; std::vector<int> seq; Slots s; int k = 0;
  bt::fifo_pool p(start);
  for (int i = 0; i < len; ++i) {
    int n = c.range("resize", 0, 2); seq.push_back(n);
    put(p, [&s, k] { ++s.n[k]; }); ++k;
    p.size_controller().resize(n);
  }
  if (seq.back() == 0) { settled(c, p, 0, 0, desc(seq)); seq.push_back(1); p.size_controller().resize(1); }
  c.check(p.size_controller().resize_active(seq.back()), "rejected", "resize_active returned false");
  p.wait();
  s.expect(c, k, "lost", "after the sequence");
  settled(c, p, seq.back(), 0, desc(seq));
}
// grow and shrink by more than one
SCHED_SCENARIO(shrink, o.preempt = 2; o.preempt_t = 3) {
  int from = c.range("from", 2, 3), to = c.range("to", 0, 1); Slots s;
  bt::fifo_pool p(from);
  put(p, [&] { ++s.n[0]; });
  p.size_controller().resize(to);
  settled(c, p, to, 0, "after shrinking");
  if (!to) { p.size_controller().resize(1); }
  p.wait(); s.expect(c, 1, "lost", "after shrinking"); settled(c, p, 1, 0, "after shrinking");
}
SCHED_SCENARIO(shrink_then_grow, o.preempt = 2; o.preempt_t = 3) {
  int from = c.range("from", 1, 2), mid = c.range("mid", 0, from - 1), to = c.range("to", mid + 1, 2); Slots s;
  bt::fifo_pool p(from);
  c.quiesce();
  p.size_controller().resize(mid);
  p.size_controller().resize(to);
  put(p, [&] { ++s.n[0]; });
  p.wait(); s.expect(c, 1, "lost", "after shrinking and growing"); settled(c, p, to, 0, "after shrinking and growing");
}
// the limit on running tasks applies to workers that come later, too
SCHED_SCENARIO(from_zero, o.preempt = 2; o.preempt_t = 3) {
  int to = c.range("to", 1, 2); bool before = c.flip("schedule-before"); Slots s;
  bt::fifo_pool p(0);
  if (before) put(p, [&] { ++s.n[0]; });
  p.size_controller().resize(to);
  if (!before) put(p, [&] { ++s.n[0]; });
  p.wait(); s.expect(c, 1, "lost", "after growing from zero"); settled(c, p, to, 0, "after growing from zero");
}
// two threads resize at the same time, one of the two requests is in force at the end
SCHED_SCENARIO(concurrent_resize, o.preempt = 1; o.preempt_t = 2) {
  int from = c.range("from", 1, 2), a = c.range("first", 1, 2), b = c.range("second", 1, 2); Slots s;
  bt::fifo_pool p(from);
  Thread t([&] { p.size_controller().resize(a); });
  put(p, [&] { ++s.n[0]; });
  p.size_controller().resize(b);
  t.join(); p.wait(); s.expect(c, 1, "lost", "after two resizes");
  c.no_more_spurious(); c.quiesce();
  c.check((int)p.size() == a || (int)p.size() == b, "worker-count", "size() is %zu, %d and %d were requested", p.size(), a, b);
  c.check(c.alive() == (int)p.size(), "thread-count", "%d threads, size() %zu", c.alive(), p.size());
}
SCHED_SCENARIO(resize_while_scheduling, o.preempt = 1; o.preempt_t = 2) {
  int from = c.range("from", 1, 2), to = c.range("to", 1, 2); Slots s;
  bt::fifo_pool p(from);
  Thread t([&] { put(p, [&s] { ++s.n[0]; }); put(p, [&s] { ++s.n[1]; }); });
  p.size_controller().resize(to);
  t.join(); p.wait(); s.expect(c, 2, "lost", "after a concurrent resize"); settled(c, p, to, 0, "after a concurrent resize");
}
// a task resizes its own pool
SCHED_SCENARIO(resize_from_task, o.preempt = 1; o.preempt_t = 2) {
  int from = c.range("from", 1, 2), to = c.range("to", 1, 3); Slots s;
  bt::fifo_pool p(from);
  put(p, [&] { ++s.n[0]; p.size_controller().resize(to); });
  put(p, [&] { ++s.n[1]; });
  p.wait(); s.expect(c, 2, "lost", "after a resize by a task"); settled(c, p, to, 0, "after a resize by a task");
}
// ---- active limit
struct Running { pthread_mutex_t m; int now, high; Running() : now(0), high(0) { pthread_mutex_init(&m, nullptr); }
  void in() { pthread_mutex_lock(&m); if (++now > high) high = now; pthread_mutex_unlock(&m); }
  void out() { pthread_mutex_lock(&m); --now; pthread_mutex_unlock(&m); }
  int peek() { pthread_mutex_lock(&m); int v = now; pthread_mutex_unlock(&m); return v; }
  int most() { pthread_mutex_lock(&m); int v = high; pthread_mutex_unlock(&m); return v; } };
SCHED_SCENARIO(active_limit, o.preempt = 1; o.preempt_t = 2) {
  int nw = c.range("workers", 1, c.bound(2, 3)), lim = c.range("limit", 1, nw), k = c.range("tasks", lim, 3); bool rest = c.flip("at-rest"); Running r; Slots s;
  bt::fifo_pool p(nw);
  if (rest) c.quiesce();
  p.size_controller().resize_active(lim);
  c.check((int)p.max_active() == lim, "limit-reported", "max_active() is %zu after resize_active(%d) with %d workers", p.max_active(), lim, nw);
  for (int i = 0; i < k; ++i) put(p, [&, i] { r.in(); ++s.n[i]; r.out(); });
  p.wait(); s.expect(c, k, "lost", "under an active limit");
  c.check(r.most() <= lim, "active-overshoot", "%d tasks ran at once with a limit of %d", r.most(), lim);
  settled(c, p, nw, 0, "with an active limit");
}
// lowering the limit while tasks run: no further task starts until few enough are left; raising it lets more in at once
SCHED_SCENARIO(lower_limit, o.preempt = 1; o.preempt_t = 2) {
  Gate g0, g1, g2; Running r; Slots s;
  bt::fifo_pool p(2);
  put(p, [&] { r.in(); g0.pass(); ++s.n[0]; r.out(); });
  put(p, [&] { r.in(); g1.pass(); ++s.n[1]; r.out(); });
  c.quiesce();
  c.check(r.peek() == 2, "no-progress", "%d of 2 tasks run on 2 workers", r.peek());
  p.size_controller().resize_active(1);
  put(p, [&] { r.in(); g2.pass(); ++s.n[2]; r.out(); });
  g0.open(); c.quiesce();
  c.check(r.peek() == 1, "active-overshoot", "%d tasks run with a limit of 1", r.peek());
  g1.open(); c.quiesce();
  c.check(r.peek() == 1, "no-progress", "%d tasks run although one is pending and none was running", r.peek());
  g2.open(); p.wait(); s.expect(c, 3, "lost", "after lowering the limit"); settled(c, p, 2, 0, "after lowering the limit");
}
SCHED_SCENARIO(raise_limit, o.preempt = 1; o.preempt_t = 2) {
  int nw = 2; Gate g; Running r; Slots s; int from = c.range("from", 0, 1);
  bt::fifo_pool p(nw);
  p.size_controller().resize_active(from);
  for (int i = 0; i < 2; ++i) put(p, [&, i] { r.in(); g.pass(); ++s.n[i]; r.out(); });
  c.quiesce();
  c.check(r.peek() == from, from ? "no-progress" : "active-overshoot", "%d tasks run with a limit of %d", r.peek(), from);
  p.size_controller().resize_active(2);
  c.quiesce();
  c.check(r.peek() == 2, "no-progress", "%d of 2 pending tasks run after the limit was raised to 2", r.peek());
  g.open(); p.wait(); s.expect(c, 2, "lost", "after raising the limit"); settled(c, p, nw, 0, "after raising the limit");
}
// the number of workers and the limit change together, from another thread
SCHED_SCENARIO(shrink_with_limit, o.preempt = 1; o.preempt_t = 2) {
  int from = 2, lim = c.range("limit", 1, 2), to = 1; Slots s; Running r; bool limfirst = c.flip("limit-first");
  bt::fifo_pool p(from);
  put(p, [&] { r.in(); ++s.n[0]; r.out(); });
  if (limfirst) p.size_controller().resize_active(lim);
  p.size_controller().resize(to);
  if (!limfirst) p.size_controller().resize_active(lim);
  put(p, [&] { r.in(); ++s.n[1]; r.out(); });
  p.wait(); s.expect(c, 2, "lost", "after shrinking under a limit"); settled(c, p, to, 0, "after shrinking under a limit");
}
// the limit survives a change of the worker count, bounded by it
SCHED_SCENARIO(limit_vs_workers, o.preempt = 1; o.preempt_t = 1) {
  int from = c.range("from", 0, 2), n = c.bound(2, 3); Gate g; Running r; Slots s; size_t req = from; int w = from;
  bt::fifo_pool p(from); if (!from) req = 99;
  for (int i = 0; i < 2; ++i) {
    int top = c.bound(2, 3), op = c.range("op", 0, 2 * top - 1); bool act = op >= top; int v = act ? op - top + 1 : op + 1;
    if (act) { p.size_controller().resize_active(v); req = v; } else { p.size_controller().resize(v); w = v; }
    c.quiesce();
    c.check(p.max_active() == std::min<size_t>(req, w), "limit-reported", "max_active() is %zu; requested %zu with %d workers", p.max_active(), req, w);
  }
  if (!w) { p.size_controller().resize(1); w = 1; }
  for (int i = 0; i < n; ++i) put(p, [&, i] { r.in(); g.pass(); ++s.n[i]; r.out(); });
  c.quiesce();
  int want = std::min<int>(std::min<size_t>(req, w), n);
  c.check(r.peek() == want, r.peek() < want ? "no-progress" : "active-overshoot", "%d of %d pending tasks run with %d workers and a limit of %zu", r.peek(), n, w, req);
  g.open(); p.wait(); s.expect(c, n, "lost", "at the end"); settled(c, p, w, 0, "at the end");
}
