// T05: the counting semaphore never loses or invents a permit, in every interleaving.
#include "../inter.h"
#include <spatialops/Semaphore.h>
#include <new>
using namespace sched;
typedef SpatialOps::Semaphore Sem;
enum { POST, GOT };

// permits in the log: completed waits never exceed initial + posts that have begun
static void ledger(Ctx& c, int initial) {
  int posts = 0, got = 0, n = c.events();
  for (int i = 0; i < n; ++i) {
    Event e = c.at(i);
    if (e.kind == POST) ++posts;
    if (e.kind == GOT) { ++got; c.check(got <= initial + posts, "permit-invented", "%d waits completed with %d initial permits and %d posts", got, initial, posts); }
  }
}
// p posters and w waiters over a semaphore with an initial count; when everything has come to rest the number of
// completed waits is exactly min(waits, initial+posts) and the rest of the permits can still be taken
static void run(Ctx& c, int posters, int postEach, int waiters, int waitEach, int initial) {
  Sem s(initial);
  int data[4] = {0, 0, 0, 0};
  std::vector<Thread> t(posters + waiters);
  for (int w = 0; w < waiters; ++w) t[w].start([&, w] { for (int k = 0; k < waitEach; ++k) { s.wait(); c.event(GOT, w); } });
  for (int p = 0; p < posters; ++p) t[waiters + p].start([&, p] { for (int k = 0; k < postEach; ++k) { c.event(POST, p); s.post(); } });
  c.quiesce();
  ledger(c, initial);
  int got = 0, n = c.events(); for (int i = 0; i < n; ++i) got += c.at(i).kind == GOT;
  int want = std::min(waiters * waitEach, initial + posters * postEach);
  c.check(got == want, "permit-lost", "%d waits completed; %d initial + %d posts, %d waits wanted: %d should have", got, initial, posters * postEach, waiters * waitEach, want);
  // release whoever is still blocked, take what is left over
  int left = initial + posters * postEach - got, missing = waiters * waitEach - got;
  for (int i = 0; i < missing; ++i) s.post();
  if (!missing) for (int i = 0; i < left; ++i) s.wait();
  for (size_t i = 0; i < t.size(); ++i) t[i].join();
  ledger(c, initial + missing);
  (void)data;
}
SCHED_SCENARIO(counts, o.preempt = 2; o.preempt_t = 3) {
  int initial = c.range("initial", 0, 2), p = c.range("posters", 1, 2), pe = c.range("posts-each", 1, 2), w = c.range("waiters", 1, 2), we = c.range("waits-each", 1, 2);
  run(c, p, pe, w, we, initial);
}
SCHED_SCENARIO(three_waiters, o.preempt = 1; o.preempt_t = 2) { run(c, 1, c.range("posts", 1, 3), 3, 1, c.range("initial", 0, 1)); }
SCHED_SCENARIO(spurious, o.preempt = 2; o.spurious = 2; o.preempt_t = 3; o.spurious_t = 3) { run(c, 1, c.range("posts-each", 1, 2), 2, 1, c.range("initial", 0, 1)); }
// the semaphore may go away as soon as the last wait that needs it has returned (the way Nebo uses it), and what each
// poster wrote before posting is visible afterwards
static void lifetime(Ctx& c, bool heap) {
  int n = c.range("posters", 1, 3);
  int data[3] = {0, 0, 0};
  std::vector<Thread> t(n);
  void* mem = heap ? malloc(sizeof(Sem)) : nullptr;
  {
    alignas(Sem) char buf[sizeof(Sem)];
    Sem* s = new (heap ? mem : buf) Sem(0);
    for (int i = 0; i < n; ++i) t[i].start([s, i, &data] { data[i] = i + 1; s->post(); });
    for (int i = 0; i < n; ++i) s->wait();
    s->~Sem();
    if (heap) free(mem); else for (size_t i = 0; i < sizeof buf; ++i) buf[i] = (char)0xCC;
  }
  for (int i = 0; i < n; ++i) c.check(data[i] == i + 1, "not-visible", "value written before post %d is %d", i, data[i]);
  for (int i = 0; i < n; ++i) t[i].join();
}
SCHED_SCENARIO(destroy_after_last_wait, o.preempt = 3; o.preempt_t = 5) { lifetime(c, true); }
SCHED_SCENARIO(destroy_after_last_wait_stack, o.preempt = 3; o.preempt_t = 5) { lifetime(c, false); }
// hand-over: a value protected by nothing but the semaphore passes back and forth
SCHED_SCENARIO(handover, o.preempt = 4; o.preempt_t = 6) {
  Sem a(0), b(0); int v = 0, rounds = c.range("rounds", 1, 3);
  Thread t([&] { for (int i = 0; i < rounds; ++i) { a.wait(); v = v * 2 + 1; b.post(); } });
  for (int i = 0; i < rounds; ++i) { v = v + 10; a.post(); b.wait(); }
  int e = 0; for (int i = 0; i < rounds; ++i) e = (e + 10) * 2 + 1;
  c.check(v == e, "handover", "value %d, expected %d", v, e);
  t.join();
}
// used as a lock: at most `initial` threads inside
SCHED_SCENARIO(exclusion, o.preempt = 3; o.preempt_t = 4) {
  int k = c.range("permits", 1, 2), n = c.range("threads", 2, 3);
  Sem s(k); int shared = 0; std::vector<Thread> t(n);
  enum { IN = 20, OUT };
  for (int i = 0; i < n; ++i) t[i].start([&] { s.wait(); c.event(IN); if (k == 1) ++shared; c.event(OUT); s.post(); });
  for (int i = 0; i < n; ++i) t[i].join();
  int in = 0; for (int i = 0; i < c.events(); ++i) { Event e = c.at(i); if (e.kind == IN) { ++in; c.check(in <= k, "exclusion", "%d threads inside with %d permits", in, k); } if (e.kind == OUT) --in; }
  if (k == 1) c.check(shared == n, "exclusion", "lost update: %d of %d", shared, n);
}
