// T04: tasks of single-worker pools start in the order of the scheduling policy.
#include "tpool.h"
#include <deque>
enum Order { FIFO, LIFO, PRIO };
struct Item { int id; unsigned prio; };
static bool best(Order ord, const std::deque<Item>& m, size_t i) {
  if (ord == FIFO) return i == 0;
  if (ord == LIFO) return i == m.size() - 1;
  for (const Item& x : m) if (x.prio > m[i].prio) return false;
  return true;
}
// a history of scheduling, finishing the running task, and clearing; the model decides what may start next
template <class P> void history(Ctx& c, Order ord, int depth, int nprio) {
  static const unsigned PR[] = {1, 0, 4000000000u};
  P p(1); std::deque<Item> m; Gate* gate[12]; int n = 0, run = -1; for (Gate*& g : gate) g = new Gate;
  pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; int now = -1, ran[12] = {};
  auto settle = [&] {
    c.quiesce();
    pthread_mutex_lock(&mx); int started = now; pthread_mutex_unlock(&mx);
    if (run < 0 && !m.empty()) {
      c.check(started >= 0, "idle", "nothing runs although %zu tasks are pending", m.size());
      size_t i = 0; for (; i < m.size() && m[i].id != started; ++i) {}
      c.check(i < m.size(), "foreign", "task %d was started, which is not pending", started);
      c.check(best(ord, m, i), "order", "task %d (priority %u) was started with %zu tasks pending; another one comes first", started, m[i].prio, m.size());
      run = started; m.erase(m.begin() + i);
    } else c.check(started == run, "foreign", "task %d runs instead of %d", started, run);
    c.check(p.pending() == m.size() && p.empty() == m.empty(), "pending-count", "pending() is %zu, %zu tasks are pending", p.pending(), m.size());
    c.check((int)p.active() == (run >= 0), "active-count", "active() is %zu", p.active());
  };
  for (int d = 0; d < depth; ++d) {
    int op = c.pick("op", nprio + 2);
    if (op < nprio) { int id = n++; m.push_back(Item{id, PR[op]}); put(p, [&, id] { pthread_mutex_lock(&mx); now = id; ++ran[id]; pthread_mutex_unlock(&mx); gate[id]->pass(); pthread_mutex_lock(&mx); now = -1; pthread_mutex_unlock(&mx); }, PR[op]); }
    else if (op == nprio) { if (run < 0) { c.prune(); return; } gate[run]->open(); run = -1; }
    else { if (m.empty()) { c.prune(); return; } p.clear(); m.clear(); }
    settle();
  }
  while (run >= 0) { gate[run]->open(); run = -1; settle(); }
  p.wait();
}
SCHED_SCENARIO(fifo_history, o.preempt = 0; o.preempt_t = 0) { history<bt::fifo_pool>(c, FIFO, c.bound(8, 9), 1); }
SCHED_SCENARIO(lifo_history, o.preempt = 0; o.preempt_t = 0) { history<bt::lifo_pool>(c, LIFO, c.bound(8, 9), 1); }
SCHED_SCENARIO(prio_history, o.preempt = 0; o.preempt_t = 0) { history<bt::prio_pool>(c, PRIO, c.bound(6, 7), 3); }
// a batch behind a running task, in every arrival order of priorities; every interleaving of the worker
template <class P> void batch(Ctx& c, Order ord) {
  int n = c.bound(4, 5); unsigned pr[5]; Gate g; std::vector<int> order; pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
  for (int i = 0; i < n; ++i) pr[i] = ord == PRIO ? c.range("prio", 0, 2) : 0;
  P p(1); put(p, [&] { g.pass(); }, 3);
  c.quiesce();
  for (int i = 0; i < n; ++i) put(p, [&, i] { pthread_mutex_lock(&mx); order.push_back(i); pthread_mutex_unlock(&mx); }, pr[i]);
  g.open(); p.wait();
  pthread_mutex_lock(&mx); std::vector<int> got = order; pthread_mutex_unlock(&mx);
  c.check((int)got.size() == n, "lost", "%zu of %d tasks ran", got.size(), n);
  for (int i = 0; i + 1 < n; ++i) {
    if (ord == FIFO) c.check(got[i] < got[i + 1], "order", "task %d started before task %d", got[i], got[i + 1]);
    if (ord == LIFO) c.check(got[i] > got[i + 1], "order", "task %d started before task %d", got[i], got[i + 1]);
    if (ord == PRIO) c.check(pr[got[i]] >= pr[got[i + 1]], "order", "priority %u started before priority %u", pr[got[i]], pr[got[i + 1]]);
  }
}
SCHED_SCENARIO(fifo_batch, o.preempt = 2; o.preempt_t = 3) { batch<bt::fifo_pool>(c, FIFO); }
SCHED_SCENARIO(lifo_batch, o.preempt = 2; o.preempt_t = 3) { batch<bt::lifo_pool>(c, LIFO); }
SCHED_SCENARIO(prio_batch, o.preempt = 1; o.preempt_t = 2) { batch<bt::prio_pool>(c, PRIO); }
// one scheduling thread, a FIFO pool and no gate: program order is execution order in every interleaving
SCHED_SCENARIO(fifo_running, o.preempt = 2; o.preempt_t = 3) {
  int n = c.bound(4, 5); std::vector<int> order; bt::fifo_pool p(1);
  for (int i = 0; i < n; ++i) put(p, [&, i] { order.push_back(i); });
  p.wait();
  c.check((int)order.size() == n, "lost", "%zu of %d tasks ran", order.size(), n);
  for (int i = 0; i < n; ++i) c.check(order[i] == i, "order", "task %d ran in position %d", order[i], i);
}
// two scheduling threads: each thread's tasks keep their order
SCHED_SCENARIO(fifo_two_threads, o.preempt = 1; o.preempt_t = 2) {
  std::vector<int> order; bt::fifo_pool p(1);
  Thread t([&] { put(p, [&] { order.push_back(10); }); put(p, [&] { order.push_back(11); }); });
  put(p, [&] { order.push_back(20); }); put(p, [&] { order.push_back(21); });
  t.join(); p.wait();
  c.check(order.size() == 4, "lost", "%zu of 4 tasks ran", order.size());
  int last[3] = {0, 0, 0};
  for (int x : order) { c.check(x > last[x / 10], "order", "task %d of a thread ran after task %d", x, last[x / 10]); last[x / 10] = x; }
}
