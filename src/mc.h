// Engine 1: exhaustive, stateless choice-tree exploration of real code.  See DESIGN.md.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <initializer_list>

namespace mc {

struct Stop {};   // thrown after a violation was recorded: ends this execution
struct Prune {};  // thrown by assume(false): path outside the property's domain
struct Skip {};   // path belongs to another worker

class Ctx {
public:
  // ---- choices: every alternative is explored
  int pick(const char* label, int n);                     // 0..n-1
  int range(const char* label, int lo, int hi) {          // lo..hi inclusive
    int v = lo + pick(label, hi - lo + 1); value(v); return v;
  }
  bool flip(const char* label) { return pick(label, 2) != 0; }
  template <class T> T of(const char* label, std::initializer_list<T> l) {
    int i = pick(label, (int)l.size()); T v = *(l.begin() + i); value((long)v); return v;
  }
  template <class T> const T& in(const char* label, const std::vector<T>& l) {
    return l[pick(label, (int)l.size())];
  }
  // ---- oracle
  void check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
  [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void assume(bool ok) { if (!ok) throw Prune(); }
  // ---- bookkeeping
  void step(unsigned n = 1);          // real-library operations performed
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // shown in samples/replays only
  bool recording() const { return recording_; }
  bool thorough() const;
  int  bound(int quick, int thorough_) const { return thorough() ? thorough_ : quick; }
  // internal
  void value(long v);
  bool recording_ = false;
  std::string log_;
};

typedef void (*Body)(Ctx&);
enum { ISOLATE = 1, DEEP = 2 };   // DEEP: thorough tier only; ISOLATE: run every execution in a process of its own (singletons start fresh)
struct Reg { Reg(const char* name, Body b, int flags); };

}  // namespace mc

#define MC_SCENARIO(name) \
  static void mc_body_##name(mc::Ctx& c); \
  static mc::Reg mc_reg_##name(#name, mc_body_##name, 0); \
  static void mc_body_##name(mc::Ctx& c)
#define MC_SCENARIO_ISOLATED(name) \
  static void mc_body_##name(mc::Ctx& c); \
  static mc::Reg mc_reg_##name(#name, mc_body_##name, mc::ISOLATE); \
  static void mc_body_##name(mc::Ctx& c)
// scenario instantiated from a template: MC_SCENARIO_T(name, function)
#define MC_REGISTER(name, fn) static mc::Reg mc_reg_##name(#name, fn, 0);
#define MC_REGISTER_ISOLATED(name, fn) static mc::Reg mc_reg_##name(#name, fn, mc::ISOLATE);

#define MC_REGISTER_DEEP(name, fn) static mc::Reg mc_reg_##name(#name, fn, mc::DEEP);
#endif
