// shared by the thread-pool checks
#ifndef TPOOL_H
#define TPOOL_H
#include "../inter.h"
#include <spatialops/threadpool/threadpool.hpp>
#include <boost/thread/xtime.hpp>
#include <memory>
namespace bt = boost::threadpool;
using namespace sched;

class Gate {                              // closed until opened; everybody blocked inside is let through
  pthread_mutex_t m_; pthread_cond_t c_; bool open_;
public:
  Gate() : open_(false) { pthread_mutex_init(&m_, nullptr); pthread_cond_init(&c_, nullptr); }
  ~Gate() { pthread_cond_destroy(&c_); pthread_mutex_destroy(&m_); }
  void pass() { pthread_mutex_lock(&m_); while (!open_) pthread_cond_wait(&c_, &m_); pthread_mutex_unlock(&m_); }
  void open() { pthread_mutex_lock(&m_); open_ = true; pthread_cond_broadcast(&c_); pthread_mutex_unlock(&m_); }
};
struct Slots {                            // plain (race-checked) execution counters
  int n[8]; Slots() { for (int& x : n) x = 0; }
  void expect(Ctx& c, int k, const char* key, const char* when) { for (int i = 0; i < k; ++i) c.check(n[i] == 1, key, "task %d of %d ran %d times %s", i, k, n[i], when); }
  void at_most_once(Ctx& c, int k, const char* key) { for (int i = 0; i < k; ++i) c.check(n[i] <= 1, key, "task %d ran %d times", i, n[i]); }
};
template <class P> struct Sched { static bool go(P& p, const std::function<void()>& f, unsigned = 0) { return p.schedule(f); } };
template <> struct Sched<bt::prio_pool> { static bool go(bt::prio_pool& p, const std::function<void()>& f, unsigned pr = 0) { return p.schedule(bt::prio_task_func(pr, f)); } };
template <class P> bool put(P& p, const std::function<void()>& f, unsigned pr = 0) { return Sched<P>::go(p, f, pr); }
inline boost::xtime after_ms(Ctx& c, long ms) { boost::xtime t; long ns = c.now_ns() + ms * 1000000; t.sec = ns / 1000000000; t.nsec = ns % 1000000000; return t; }
template <class P> void at_rest(Ctx& c, P& p, size_t workers, const char* when) {
  c.no_more_spurious(); c.quiesce();
  c.check(p.active() == 0, "active-count", "active() is %zu with nothing to do, %s", p.active(), when);
  c.check(p.pending() == 0 && p.empty(), "pending-count", "pending() is %zu, empty() %d with nothing to do, %s", p.pending(), (int)p.empty(), when);
  c.check(p.size() == workers, "worker-count", "size() is %zu, %zu requested, %s", p.size(), workers, when);
}
#endif
