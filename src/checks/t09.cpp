// T09: configuration of the library's thread pools (ThreadPool, ThreadPoolFIFO and the thread-count functions of SpatialOpsTools.h).
#include "tpool.h"
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/ThreadPool.h>
#include <algorithm>
using namespace SpatialOps;
enum { N = NTHREADS };
struct Model { int cap, want; Model() : cap(N), want(N) {} int active() const { return std::min(cap, want); } int grow(int v) { return cap = std::max(1, v); } int limit(int v) { want = std::max(1, v); return active(); } };
// the two pools, and the functions the rest of the library uses
struct Prio { static int cap(int v) { return ThreadPool::set_pool_capacity(v); } static int act(int v) { return ThreadPool::resize_pool(v); } static int cap() { return ThreadPool::get_pool_capacity(); } static int act() { return ThreadPool::get_pool_size(); } typedef bt::prio_pool P; static P& self() { return ThreadPool::self(); } };
struct Fifo { static int cap(int v) { return ThreadPoolFIFO::set_pool_capacity(v); } static int act(int v) { return ThreadPoolFIFO::resize_pool(v); } static int cap() { return ThreadPoolFIFO::get_pool_capacity(); } static int act() { return ThreadPoolFIFO::get_pool_size(); } typedef bt::fifo_pool P; static P& self() { return ThreadPoolFIFO::self(); } };
struct Tools { static int cap(int v) { return set_hard_thread_count(v); } static int act(int v) { return set_soft_thread_count(v); } static int cap() { return get_hard_thread_count(); } static int act() { return get_soft_thread_count(); } typedef bt::fifo_pool P; static P& self() { return ThreadPoolFIFO::self(); } };
template <class A> void reports(Ctx& c, const Model& m, const char* when) {
  int k = A::cap(), a = A::act(); c.check(k == m.cap, "capacity", "capacity reported as %d, %d in force, %s", k, m.cap, when);
  c.check(a == m.active(), "active", "active size reported as %d, %d in force, %s", a, m.active(), when);
}
// hold as many tasks as will start: exactly the active size; then let them go, and count the workers
struct Probe { pthread_mutex_t mx; int running, done; Gate g; Probe() : running(0), done(0) { pthread_mutex_init(&mx, 0); }
  void task() { pthread_mutex_lock(&mx); ++running; pthread_mutex_unlock(&mx); g.pass(); pthread_mutex_lock(&mx); ++done; pthread_mutex_unlock(&mx); }
  int ran() { pthread_mutex_lock(&mx); int r = running; pthread_mutex_unlock(&mx); return r; } int finished() { pthread_mutex_lock(&mx); int r = done; pthread_mutex_unlock(&mx); return r; } };
template <class A> void probe(Ctx& c, const Model& m, const char* when, bool calm = true) {
  c.calm(calm);
  Probe* p = new Probe; int n = m.active() + 2; for (int i = 0; i < n; ++i) c.check(put(A::self(), [p] { p->task(); }), "schedule", "task refused, %s", when);
  c.no_more_spurious(); c.quiesce(); int r = p->ran();
  c.check(r == m.active(), "parallel", "%d of %d tasks run at once, active size is %d, %s", r, n, m.active(), when);
  p->g.open(); c.quiesce(); c.check(p->finished() == n, "lost-task", "%d of %d tasks ran, %s", p->finished(), n, when); delete p;
  c.check((int)A::self().size() == m.cap, "workers", "%zu workers, capacity is %d, %s", A::self().size(), m.cap, when);
  c.calm(false);
}
static int value(Ctx& c, const char* l) { return c.of(l, {1, 2, 3, 4, 0, -1}); }
template <class A> void histories(Ctx& c) {
  static const char* L[] = {"call1", "call2", "call3", "call4"}; static const char* V[] = {"value1", "value2", "value3", "value4"};
  Model m; bool each = c.flip("probe-each"); int len = c.range("calls", 0, each ? c.bound(2, 3) : c.bound(3, 4)); if (c.flip("look-first")) reports<A>(c, m, "before any call");
  for (int i = 0; i < len; ++i) {
    int how = c.pick(L[i], 2), v = value(c, V[i]), got = how ? A::act(v) : A::cap(v), e = how ? m.limit(v) : m.grow(v);
    c.check(got == e, how ? "active-returned" : "capacity-returned", "%s(%d) returned %d, %d now in force", how ? "active" : "capacity", v, got, e);
    reports<A>(c, m, "after a call"); if (each) probe<A>(c, m, "after a call");
  }
  reports<A>(c, m, "at the end"); probe<A>(c, m, "at the end"); reports<A>(c, m, "after the tasks");
}
SCHED_REGISTER(histories_prio, histories<Prio>, o.leak_ok = true; o.preempt = 0; o.preempt_t = 0)
SCHED_REGISTER(histories_fifo, histories<Fifo>, o.leak_ok = true; o.preempt = 0; o.preempt_t = 0)
SCHED_REGISTER(histories_tools, histories<Tools>, o.leak_ok = true; o.preempt = 0; o.preempt_t = 0)
// what a call reports must not depend on how far the workers have got
template <class A> void interleaved(Ctx& c) {
  Model m; int v[2], how[2]; static const char* L[] = {"call1", "call2"}; static const char* V[] = {"value1", "value2"};
  for (int i = 0; i < 2; ++i) { how[i] = c.pick(L[i], 2); v[i] = c.of(V[i], {1, 3}); }
  if (c.flip("probe-first")) probe<A>(c, m, "before any call");
  for (int i = 0; i < 2; ++i) { int got = how[i] ? A::act(v[i]) : A::cap(v[i]), e = how[i] ? m.limit(v[i]) : m.grow(v[i]); c.check(got == e, "returned", "call %d returned %d, %d now in force", i, got, e); reports<A>(c, m, "after a call"); }
  probe<A>(c, m, "at the end", false);
}
SCHED_REGISTER(interleaved_prio, interleaved<Prio>, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2)
SCHED_REGISTER(interleaved_fifo, interleaved<Fifo>, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2)
// the two pools are sized independently
SCHED_SCENARIO(independent, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2) {
  Model p, f; int a = c.of("prio", {1, 3}), b = c.of("fifo", {1, 3}), how = c.pick("how", 4);
  if (how & 1) { Prio::act(a); p.limit(a); } else { Prio::cap(a); p.grow(a); }
  if (how & 2) { Fifo::act(b); f.limit(b); } else { Fifo::cap(b); f.grow(b); }
  reports<Prio>(c, p, "prio"); reports<Fifo>(c, f, "fifo"); probe<Prio>(c, p, "prio"); probe<Fifo>(c, f, "fifo"); reports<Tools>(c, f, "tools");
}
// first uses from several threads: one initialisation, and the outcome of some order of the calls
enum Call { CAP1, CAP3, ACT1, ACT3, GETCAP, GETACT, TASK, NC };
struct Step { int call, result; };
template <class A> void perform(Step& s, Probe* p) {
  switch (s.call) { case CAP1: s.result = A::cap(1); break; case CAP3: s.result = A::cap(3); break; case ACT1: s.result = A::act(1); break; case ACT3: s.result = A::act(3); break; case GETCAP: s.result = A::cap(); break; case GETACT: s.result = A::act(); break; default: s.result = put(A::self(), [p] { p->task(); }); }
}
static int expected(Model& m, int call) { switch (call) { case CAP1: return m.grow(1); case CAP3: return m.grow(3); case ACT1: return m.limit(1); case ACT3: return m.limit(3); case GETCAP: return m.cap; case GETACT: return m.active(); default: return 1; } }
// some order of the calls, each thread's own order kept, explains every result; models holds the possible final states
static void orders(const std::vector<std::vector<Step> >& t, std::vector<size_t> at, Model m, std::vector<Model>& out) {
  bool end = true;
  for (size_t i = 0; i < t.size(); ++i) if (at[i] < t[i].size()) { end = false; Model n = m; if (expected(n, t[i][at[i]].call) == t[i][at[i]].result) { ++at[i]; orders(t, at, n, out); --at[i]; } }
  if (end) out.push_back(m);
}
template <class A> void final_state(Ctx& c, const std::vector<std::vector<Step> >& t, Probe* p, int tasks) {
  std::vector<Model> ms; orders(t, std::vector<size_t>(t.size(), 0), Model(), ms);
  c.check(!ms.empty(), "not-serialisable", "no order of the calls explains what they returned: %d %d", t[0][0].result, t[1][0].result);
  int k = A::cap(), a = A::act(); bool found = false; for (auto& m : ms) if (m.cap == k && m.active() == a) found = true;
  c.check(found, "final-state", "capacity %d and active size %d do not follow from the calls", k, a);
  c.calm(); p->g.open(); c.no_more_spurious(); c.quiesce(); c.check(p->finished() == tasks, "lost-task", "%d of %d tasks ran", p->finished(), tasks);
  Model m; m.cap = k; m.want = a; probe<A>(c, m, "at the end");
}
template <class A> void first_use(Ctx& c) {
  int x = c.pick("call1", NC), y = c.pick("call2", NC); if (y < x) c.prune(); Probe* p = new Probe;
  std::vector<std::vector<Step> > t(2, std::vector<Step>(1)); t[0][0].call = x; t[1][0].call = y;
  Thread th([&] { perform<A>(t[1][0], p); }); perform<A>(t[0][0], p); th.join(); final_state<A>(c, t, p, (x == TASK) + (y == TASK));
}
SCHED_REGISTER(first_use_prio, first_use<Prio>, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2)
SCHED_REGISTER(first_use_fifo, first_use<Fifo>, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2)
SCHED_SCENARIO(first_use_both, o.leak_ok = true; o.preempt = 0; o.preempt_t = 1) {
  int x = c.pick("call1", NC), y = c.pick("call2", NC); Probe *p = new Probe, *q = new Probe; Step a = {x, 0}, b = {y, 0};
  Thread th([&] { perform<Fifo>(b, q); }); perform<Prio>(a, p); th.join(); Model m, n; p->g.open(); q->g.open();
  int e = expected(m, x), f = expected(n, y); c.check(a.result == e && b.result == f, "returned", "first uses of the two pools returned %d and %d, %d and %d expected", a.result, b.result, e, f);
  c.calm(); c.no_more_spurious(); c.quiesce(); reports<Prio>(c, m, "prio"); reports<Fifo>(c, n, "fifo"); c.check(p->finished() == (x == TASK) && q->finished() == (y == TASK), "lost-task", "a first task was lost"); probe<Prio>(c, m, "prio"); probe<Fifo>(c, n, "fifo");
}
SCHED_SCENARIO(first_use_three, o.leak_ok = true; o.preempt = 0; o.preempt_t = 1) {
  std::vector<std::vector<Step> > t(3, std::vector<Step>(1)); t[0][0].call = c.pick("call1", NC); t[1][0].call = c.pick("call2", NC); t[2][0].call = c.pick("call3", NC);
  for (auto& x : t) if (!c.thorough() && (x[0].call == CAP1 || x[0].call == ACT3 || x[0].call == GETACT)) c.prune();
  if (t[1][0].call < t[0][0].call || t[2][0].call < t[1][0].call) c.prune(); Probe* p = new Probe; int tasks = 0; for (auto& s : t) tasks += s[0].call == TASK;
  Thread t1([&] { perform<Fifo>(t[1][0], p); }), t2([&] { perform<Fifo>(t[2][0], p); }); perform<Fifo>(t[0][0], p); t1.join(); t2.join(); final_state<Fifo>(c, t, p, tasks);
}
// later calls from two threads, with tasks running and pending
template <class A> void concurrent(Ctx& c) {
  int busy = c.pick("tasks", 3); std::vector<std::vector<Step> > t(2); t[0].resize(c.bound(1, 2)); t[1].resize(1); static const char* L[] = {"call1", "call1b"};
  for (size_t i = 0; i < t[0].size(); ++i) t[0][i].call = c.pick(L[i], GETACT + 1); t[1][0].call = c.pick("call2", GETACT + 1);
  Probe* p = new Probe; for (int i = 0; i < busy; ++i) put(A::self(), [p] { p->task(); }); int k = A::cap(); c.check(k == N, "capacity", "capacity is %d at the start", k);
  Thread th([&] { perform<A>(t[1][0], p); }); for (auto& s : t[0]) perform<A>(s, p); th.join(); final_state<A>(c, t, p, busy);
}
SCHED_REGISTER(concurrent_prio, concurrent<Prio>, o.leak_ok = true; o.preempt = 0; o.preempt_t = 1)
SCHED_REGISTER(concurrent_fifo, concurrent<Fifo>, o.leak_ok = true; o.preempt = 0; o.preempt_t = 1)
// the program ends with a resized pool, with and without tasks pending
SCHED_SCENARIO(process_exit, o.at_exit = true; o.preempt = 1; o.preempt_t = 2) {
  int call = c.pick("call", NC), pool = c.pick("pool", 2), n = c.pick("tasks", c.bound(2, 3)); Step s = {call, 0}; Probe* p = new Probe; p->g.open();
  if (pool) perform<Fifo>(s, p); else perform<Prio>(s, p);
  for (int i = 0; i < n; ++i) { if (pool) put(Fifo::self(), [p] { p->task(); }); else put(Prio::self(), [p] { p->task(); }); }
}
