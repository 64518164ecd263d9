// T04: scheduling policies keep their order (the policies themselves).
#include "../mc.h"
#include <spatialops/threadpool/threadpool.hpp>
#include <deque>
#include <climits>
namespace bt = boost::threadpool;
struct Item { int id; unsigned prio; };
static int g_ran; static int g_runs;
struct Note { int id; void operator()() const { g_ran = id; ++g_runs; } };
enum Order { FIFO, LIFO, PRIO };

template <class Task> struct Make;
template <> struct Make<bt::task_func> { static bt::task_func go(int id, unsigned) { return Note{id}; } static int run(const bt::task_func& t) { g_ran = -1; t(); return g_ran; } };
template <> struct Make<bt::prio_task_func> { static bt::prio_task_func go(int id, unsigned p) { return bt::prio_task_func(p, Note{id}); } static int run(const bt::prio_task_func& t) { g_ran = -1; t(); return g_ran; } };
struct Plain { int id; unsigned prio; bool operator<(const Plain& o) const { return prio < o.prio; } };
template <> struct Make<Plain> { static Plain go(int id, unsigned p) { return Plain{id, p}; } static int run(const Plain& t) { return t.id; } };

template <class S, class Task> void history(mc::Ctx& c, Order ord, int depth, int nprio) {
  S s; std::deque<Item> m; int id = 0; bool copied = false;
  static const unsigned P[] = {1, 0, UINT_MAX, 0x80000000u};
  for (int d = 0; d < depth; ++d) {
    int op = c.pick("op", nprio + 3); c.step();
    if (op < nprio) { c.check(s.push(Make<Task>::go(++id, P[op])), "rejected", "push returned false"); m.push_back(Item{id, P[op]}); c.note("push(%d, %u)", id, P[op]); }
    else if (op == nprio) {
      if (m.empty()) { c.assume(false); }
      int want = -1; const Task& t = s.top(); g_runs = 0; int got = Make<Task>::run(t); c.note("top -> %d, pop", got);
      std::deque<Item>::iterator it = m.begin();
      for (; it != m.end() && it->id != got; ++it) {}
      c.check(it != m.end(), "foreign", "top() is task %d, which is not pending", got);
      if (ord == FIFO) { want = m.front().id; c.check(got == want, "order", "top() is task %d, the oldest is %d", got, want); }
      else if (ord == LIFO) { want = m.back().id; c.check(got == want, "order", "top() is task %d, the newest is %d", got, want); }
      else for (const Item& x : m) c.check(x.prio <= it->prio, "order", "top() is task %d with priority %u although task %d has priority %u", got, it->prio, x.id, x.prio);
      c.check(Make<Task>::run(s.top()) == got, "unstable", "top() changed without an operation");
      s.pop(); m.erase(it);
    }
    else if (op == nprio + 1) { s.clear(); m.clear(); c.note("clear"); }
    else { if (copied) { c.assume(false); } copied = true; S t(s); t.clear(); S u(s); u.push(Make<Task>::go(99, 7)); S v; v = s; while (!v.empty()) v.pop(); c.note("copies"); }
    c.check(s.size() == m.size(), "size", "size() is %zu, %zu tasks are pending", s.size(), m.size());
    c.check(s.empty() == m.empty(), "empty", "empty() is %d, %zu tasks are pending", (int)s.empty(), m.size());
  }
  while (!m.empty()) {                      // drain
    int got = Make<Task>::run(s.top()); std::deque<Item>::iterator it = m.begin();
    for (; it != m.end() && it->id != got; ++it) {}
    c.check(it != m.end(), "foreign", "top() is task %d, which is not pending", got);
    if (ord == FIFO) c.check(got == m.front().id, "order", "draining: top() is task %d, the oldest is %d", got, m.front().id);
    else if (ord == LIFO) c.check(got == m.back().id, "order", "draining: top() is task %d, the newest is %d", got, m.back().id);
    else for (const Item& x : m) c.check(x.prio <= it->prio, "order", "draining: priority %u before %u", it->prio, x.prio);
    s.pop(); m.erase(it); c.step();
    c.check(s.size() == m.size() && s.empty() == m.empty(), "size", "draining: size() is %zu, empty() %d, %zu tasks are pending", s.size(), (int)s.empty(), m.size());
  }
}
MC_SCENARIO(fifo) { history<bt::fifo_scheduler<bt::task_func>, bt::task_func>(c, FIFO, c.bound(11, 13), 1); }
MC_SCENARIO(fifo_of_prio_tasks) { history<bt::fifo_scheduler<bt::prio_task_func>, bt::prio_task_func>(c, FIFO, c.bound(8, 9), 3); }
MC_SCENARIO(lifo) { history<bt::lifo_scheduler<bt::task_func>, bt::task_func>(c, LIFO, c.bound(11, 13), 1); }
MC_SCENARIO(lifo_of_prio_tasks) { history<bt::lifo_scheduler<bt::prio_task_func>, bt::prio_task_func>(c, LIFO, c.bound(8, 9), 3); }
MC_SCENARIO(prio) { history<bt::prio_scheduler<bt::prio_task_func>, bt::prio_task_func>(c, PRIO, c.bound(8, 10), 3); }
MC_SCENARIO(prio4) { history<bt::prio_scheduler<bt::prio_task_func>, bt::prio_task_func>(c, PRIO, c.bound(7, 9), 4); }
MC_SCENARIO(prio_of_user_tasks) { history<bt::prio_scheduler<Plain>, Plain>(c, PRIO, c.bound(8, 10), 3); }
// many tasks: every arrival order of priorities
MC_SCENARIO(prio_orders) {
  int n = c.bound(9, 10), left = (1 << n) - 1; bt::prio_scheduler<bt::prio_task_func> s;
  for (int i = 0; i < n; ++i) { int k = c.pick("next", n - i), b = 0; for (;; ++b) if (left >> b & 1) if (!k--) break; left &= ~(1 << b); s.push(bt::prio_task_func(b / 2, Note{b})); }
  int last = INT_MAX; unsigned seen = 0;
  for (int i = n - 1; i >= 0; --i) { c.step(); int got = Make<bt::prio_task_func>::run(s.top()); s.pop(); c.check(got / 2 <= last, "order", "priority %d after %d", got / 2, last); c.check(!(seen >> got & 1), "foreign", "task %d twice", got); seen |= 1u << got; last = got / 2; c.check((int)s.size() == i && s.empty() == (i == 0), "size", "size() is %zu, expected %d", s.size(), i); }
}
// long queues: wrap-around of the containers
template <class S> void longq(mc::Ctx& c, Order ord) {
  S s; int n = c.of("length", {1, 15, 16, 17, 40, 63, 64, 65, 130, 500}), keep = c.pick("keep", 4); std::deque<int> m; int id = 0;
  for (int r = 0; r < 3; ++r) {
    for (int i = 0; i < n; ++i) { s.push(Make<bt::task_func>::go(++id, 0)); m.push_back(id); c.step(); }
    while ((int)m.size() > keep * (r + 1) * 3) { int got = Make<bt::task_func>::run(s.top()), want = ord == FIFO ? m.front() : m.back(); c.check(got == want, "order", "task %d instead of %d in a queue of %zu", got, want, m.size()); s.pop(); if (ord == FIFO) m.pop_front(); else m.pop_back(); c.check(s.size() == m.size(), "size", "size %zu for %zu", s.size(), m.size()); }
  }
  s.clear(); c.check(s.empty() && s.size() == 0, "clear", "%zu tasks after clear()", s.size());
}
MC_SCENARIO(fifo_long) { longq<bt::fifo_scheduler<bt::task_func> >(c, FIFO); }
MC_SCENARIO(lifo_long) { longq<bt::lifo_scheduler<bt::task_func> >(c, LIFO); }
// long priority queues in structured arrival orders, partly drained in between
MC_SCENARIO(prio_long) {
  int n = c.of("length", {2, 15, 16, 17, 40, 65, 130}), arr = c.pick("arrival", 6), cls = c.of("classes", {1, 2, 3, 1000}), part = c.pick("part", 3); bt::prio_scheduler<bt::prio_task_func> s; std::deque<Item> m;
  auto drain = [&](size_t keep) { while (m.size() > keep) {
    int got = Make<bt::prio_task_func>::run(s.top()); std::deque<Item>::iterator it = m.begin(); for (; it != m.end() && it->id != got; ++it) {}
    c.check(it != m.end(), "foreign", "task %d is not pending", got); for (const Item& x : m) c.check(x.prio <= it->prio, "order", "priority %u before %u with %zu pending", it->prio, x.prio, m.size());
    m.erase(it); s.pop(); c.step(); c.check(s.size() == m.size() && s.empty() == m.empty(), "size", "size() is %zu with %zu pending", s.size(), m.size()); } };
  for (int i = 0; i < n; ++i) {
    unsigned v = arr == 0 ? i : arr == 1 ? n - i : arr == 2 ? (i & 1 ? i : n - i) : arr == 3 ? i * 7919u % 131 : arr == 4 ? (i < n / 2 ? i : n - i) : i * i % 37; v %= cls;
    s.push(bt::prio_task_func(v, Note{i})); m.push_back(Item{i, v});
    if (part && i % (part * 9) == part * 9 - 1) drain(m.size() / 2);
  }
  drain(0);
}
// prioritised tasks
MC_SCENARIO(prio_tasks) {
  static const unsigned V[] = {0, 1, 2, 7, 0x7fffffffu, 0x80000000u, UINT_MAX - 1, UINT_MAX};
  unsigned a = V[c.pick("a", 8)], b = V[c.pick("b", 8)]; int ia = c.pick("fa", 3), ib = c.pick("fb", 3);
  bt::task_func none; bt::prio_task_func x(a, ia == 2 ? none : bt::task_func(Note{ia})), y(b, ib == 2 ? none : bt::task_func(Note{ib}));
  c.check((x < y) == (a < b), "compare", "priority %u < %u answered %d", a, b, (int)(x < y));
  c.check((y < x) == (b < a), "compare", "priority %u < %u answered %d", b, a, (int)(y < x));
  bt::prio_task_func z(x); if (c.flip("assign")) z = y;
  c.check(!(z < z), "compare", "a task compares less than itself");
  const bt::prio_task_func& w = z; (void)w; g_ran = -1; g_runs = 0; x(); int want = ia == 2 ? -1 : ia;
  c.check(g_ran == want && g_runs == (ia == 2 ? 0 : 1), "run", "the task ran function %d, %d times; it was given %d", g_ran, g_runs, want);
  g_ran = -1; g_runs = 0; y(); want = ib == 2 ? -1 : ib;
  c.check(g_ran == want && g_runs == (ib == 2 ? 0 : 1), "run", "the task ran function %d, %d times; it was given %d", g_ran, g_runs, want);
}
