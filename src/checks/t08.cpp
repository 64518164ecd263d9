// T08: fields created, used and released by several threads at once (interleavings of the real memory pools, store and field classes).
#include "tpool.h"
#include "../sops.h"
using namespace sops;
typedef SVolField FD; typedef SpatialField<SSurfX, float> FF; typedef SpatialField<XVol, unsigned int> FU; typedef SpatialField<SingleValue, double> SV;
enum Route { STORE, WINDOW, DIRECT, FLOAT, UINT, MASK, NR };
static IntVec dims(int size) { return size == 0 ? IntVec(1, 1, 2) : size == 1 ? IntVec(1, 2, 2) : IntVec(2, 2, 3); }
static const GhostData& g0() { static GhostData g(0); return g; }
template <class FT> BoundaryCellInfo nobc() { return BoundaryCellInfo::build<FT>(false, false, false); }
// one live object
struct Obj {
  virtual ~Obj() {}
  virtual void write(int v) = 0; virtual bool holds(int v) = 0;
  virtual const char* lo() = 0; virtual const char* hi() = 0;
};
template <class FT> struct Val : Obj {
  typedef typename FT::value_type T; FT* f; bool own; SpatFldPtr<FT> h;
  Val(FT* p) : f(p), own(true) {}
  Val(const SpatFldPtr<FT>& q) : f(0), own(false), h(q) { f = &*h; }
  ~Val() { if (own) delete f; }
  T* v() { return f->field_values(LOCAL_RAM, 0); } size_t n() { return f->window_with_ghost().glob_npts(); }
  void write(int s) { for (size_t i = 0; i < n(); ++i) v()[i] = T(s * 16 + (int)i); }
  bool holds(int s) { for (size_t i = 0; i < n(); ++i) if (v()[i] != T(s * 16 + (int)i)) return false; return true; }
  const char* lo() { return (const char*)v(); } const char* hi() { return (const char*)(v() + n()); }
};
struct Msk : Obj {
  SpatialMask<FD>* m; IntVec e; int s; FD* proto; std::vector<double> mem;
  static bool in(int s, int k) { return ((k * 5 + s * 3) >> 1) & 1; }
  Msk(const IntVec& e_, int s_) : m(0), e(e_), s(s_), proto(0), mem(e_[0] * e_[1] * e_[2] * 1, 0.0) {
    proto = new FD(MemoryWindow(e), nobc<FD>(), g0(), &mem[0], ExternalStorage);
    std::vector<IntVec> p; all([&](const IntVec& q, int k) { if (in(s, k)) p.push_back(q); }); m = new SpatialMask<FD>(*proto, p);
  }
  ~Msk() { delete m; delete proto; }
  template <class L> void all(L l) { int k = 0; for (int z = 0; z < e[2]; ++z) for (int y = 0; y < e[1]; ++y) for (int x = 0; x < e[0]; ++x) l(IntVec(x, y, z), k++); }
  void write(int) {}                                     // points are given at construction
  bool holds(int) { bool ok = true; all([&](const IntVec& q, int k) { if ((*m)(q) != in(s, k)) ok = false; }); return ok; }
  const char* lo() { return (const char*)this; } const char* hi() { return lo(); }
};
static Obj* make(int route, int size, int id) {
  IntVec e = dims(size); const MemoryWindow w(e);
  switch (route) {
    case STORE: { double one; FD proto(w, nobc<FD>(), g0(), &one, ExternalStorage); return new Val<FD>(SpatialFieldStore::get<FD>(proto)); }
    case WINDOW: return new Val<FD>(SpatialFieldStore::get_from_window<FD>(w, nobc<FD>(), g0()));
    case DIRECT: return new Val<FD>(new FD(w, nobc<FD>(), g0(), NULL, InternalStorage));
    case FLOAT: return new Val<FF>(new FF(w, nobc<FF>(), g0(), NULL, InternalStorage));
    case UINT: return new Val<FU>(new FU(w, nobc<FU>(), g0(), NULL, InternalStorage));
    default: return new Msk(IntVec(2, 2, 1 + size), id);
  }
}
struct Counts { size_t d, f, u; Counts() : d(Pool<double>::self().active()), f(Pool<float>::self().active()), u(Pool<unsigned int>::self().active()) {} size_t sum() const { return d + f + u; } };
struct Totals { size_t d, f, u; Totals() : d(Pool<double>::self().total()), f(Pool<float>::self().total()), u(Pool<unsigned int>::self().total()) {} size_t sum() const { return d + f + u; } };
static size_t& of(Counts& c, int route) { return route <= DIRECT ? c.d : route == FLOAT ? c.f : c.u; }
// a thread's live objects
struct Owner {
  Ctx& c; int id, made; std::vector<std::pair<Obj*, int> > live;
  Owner(Ctx& c_, int id_) : c(c_), id(id_), made(0) {}
  ~Owner() { while (!live.empty()) drop(live.size() - 1); }
  void create(int route, int size) { int s = id * 20 + ++made; Obj* o = make(route, size, s); o->write(s); live.push_back(std::make_pair(o, s)); }
  void verify(const char* when) { for (size_t i = 0; i < live.size(); ++i) c.check(live[i].first->holds(live[i].second), "corrupted", "object %zu of thread %d does not read back, %s", i, id, when); }
  void drop(size_t i) { delete live[i].first; live.erase(live.begin() + i); }
  void release(const char* when) { verify(when); while (!live.empty()) drop(live.size() - 1); }
};
static void disjoint(Ctx& c, const std::vector<Owner*>& os) {
  std::vector<Obj*> v; for (Owner* o : os) for (auto& l : o->live) v.push_back(l.first);
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) c.check(v[i]->hi() <= v[j]->lo() || v[j]->hi() <= v[i]->lo(), "shared", "two live fields share storage");
}
// everything released: nothing counted as live, and each buffer handed out again before any new one is allocated
static void settled(Ctx& c, const char* when, size_t lo, size_t hi) {
  Counts a; c.check(a.sum() == 0, "active", "%zu double, %zu float, %zu unsigned buffers counted as live with nothing alive, %s", a.d, a.f, a.u, when);
  Totals t; c.check(t.sum() >= lo && t.sum() <= hi, "total", "%zu buffers allocated, between %zu and %zu expected, %s", t.sum(), lo, hi, when);
}
static void reusable(Ctx& c, int route, int size, size_t n, const char* when) {
  Totals before; std::vector<Owner*> os; Owner o(c, 9); os.push_back(&o); for (size_t i = 0; i < n; ++i) o.create(route, size);
  disjoint(c, os); o.verify(when); Totals after; c.check(after.sum() == before.sum(), "lost-buffer", "%zu released buffers, yet %zu new ones were allocated for as many fields, %s", n, after.sum() - before.sum(), when);
}
static void warm(Ctx& c, int how, int r1, int s1, int r2, int s2) { if (!how) return; Owner o(c, 8); o.create(r1, s1); if (how == 2) o.create(r2, s2); }
// one object each, by every pair of routes
SCHED_SCENARIO(pairs, o.preempt = 3; o.preempt_t = 4) {
  int r1 = c.pick("route1", NR), r2 = c.pick("route2", NR); if (r2 < r1) c.prune(); int s2 = c.range("size2", 0, 2), how = c.pick("warm", 3);
  warm(c, how, r1, 0, r2, s2);
  Owner a(c, 1), b(c, 2); Totals t0;
  Thread th([&] { b.create(r2, s2); c.yield(); b.verify("before its thread ends"); });
  a.create(r1, 0); c.yield(); a.verify("after the other thread ran"); th.join();
  std::vector<Owner*> os; os.push_back(&a); os.push_back(&b); disjoint(c, os); a.verify("after join"); b.verify("after join");
  Counts k, e; e.d = e.f = e.u = 0; ++of(e, r1); ++of(e, r2); c.check(k.d == e.d && k.f == e.f && k.u == e.u, "active", "%zu double, %zu float, %zu unsigned live, expected %zu, %zu, %zu", k.d, k.f, k.u, e.d, e.f, e.u);
  a.release("at the end"); b.release("at the end"); settled(c, "after the last release", 2, 2 + t0.sum());
}
// create and release against create and release
SCHED_SCENARIO(cycles, o.preempt = 3; o.preempt_t = 4) {
  int r1 = c.pick("route1", NR), r2 = c.pick("route2", NR); if (r2 < r1) c.prune(); int how = c.pick("warm", 3), n = c.range("rounds", 1, 2);
  bool same = (r1 <= DIRECT) == (r2 <= DIRECT) && (r1 >= UINT) == (r2 >= UINT) && r1 != FLOAT; if (r1 == FLOAT && r2 == FLOAT) same = true; if (r1 < MASK && r2 == MASK) same = false;
  warm(c, how, r1, 0, r2, 0); Totals t0;
  Owner a(c, 1), b(c, 2);
  Thread th([&] { for (int i = 0; i < n; ++i) { b.create(r2, 0); b.release("in its thread"); } });
  for (int i = 0; i < n; ++i) { a.create(r1, 0); a.release("in the first thread"); }
  th.join(); settled(c, "after the last release", 1, 2 + t0.sum());
  if (same) { Totals t; reusable(c, r1, 0, t.sum(), "after the threads"); }
}
// every program of three steps: create small, create large, release oldest, release newest
SCHED_SCENARIO(programs, o.preempt = 2; o.preempt_t = 3) {
  int r1 = c.of("route1", {(int)STORE, (int)DIRECT, (int)MASK}), r2 = c.of("route2", {(int)STORE, (int)DIRECT, (int)UINT, (int)FLOAT});
  int p[2][3]; static const char* L[2][3] = {{"a1", "a2", "a3"}, {"b1", "b2", "b3"}}; int len = 3;
  for (int t = 0; t < 2; ++t) { int live = 0; for (int i = 0; i < len; ++i) { p[t][i] = i == 0 ? c.pick(L[t][i], 2) : c.pick(L[t][i], live > 1 ? 4 : live ? 3 : 2); live += p[t][i] < 2 ? 1 : -1; } }
  auto run = [&](Owner& o, int route, const int* q) { for (int i = 0; i < len; ++i) { if (q[i] < 2) o.create(route, 2 * q[i]); else { o.verify("before a release"); o.drop(q[i] == 2 ? 0 : o.live.size() - 1); } } o.verify("at the end of its thread"); };
  Owner a(c, 1), b(c, 2); Thread th([&] { run(b, r2, p[1]); }); run(a, r1, p[0]); th.join();
  std::vector<Owner*> os; os.push_back(&a); os.push_back(&b); disjoint(c, os); a.verify("after join"); b.verify("after join");
  Counts k; c.check(k.sum() == a.live.size() + b.live.size(), "active", "%zu live, %zu expected", k.sum(), a.live.size() + b.live.size());
  a.release("at the end"); b.release("at the end"); settled(c, "after the last release", 1, 6);
}
SCHED_SCENARIO(three_threads, o.preempt = 3; o.preempt_t = 4) {
  int r[3] = {c.of("route1", {(int)STORE, (int)DIRECT, (int)MASK}), c.of("route2", {(int)WINDOW, (int)DIRECT, (int)UINT}), c.of("route3", {(int)STORE, (int)DIRECT, (int)MASK})}, how = c.pick("warm", 2);
  warm(c, how, r[0], 0, 0, 0); Totals t0;
  Owner a(c, 1), b(c, 2), d(c, 3);
  Thread t1([&] { a.create(r[0], 0); a.release("in its thread"); }), t2([&] { b.create(r[1], 0); b.release("in its thread"); });
  d.create(r[2], 0); t1.join(); t2.join(); d.release("after join"); settled(c, "after the last release", 1, 3 + t0.sum());
}
// a field made by one thread is used and released by another
SCHED_SCENARIO(handed_over, o.preempt = 3; o.preempt_t = 4) {
  int r1 = c.pick("route1", NR), r2 = c.of("route2", {(int)STORE, (int)DIRECT, (int)MASK}); Owner a(c, 1), b(c, 2); Gate g;
  Thread th([&] { g.pass(); b.verify("after the hand-over"); b.drop(0); b.create(r2, 0); b.verify("in its thread"); });
  b.create(r1, 0); g.open(); a.create(r1, 0); a.verify("in the first thread"); th.join();
  std::vector<Owner*> os; os.push_back(&a); os.push_back(&b); disjoint(c, os); a.verify("after join"); b.verify("after join");
  a.release("at the end"); b.release("at the end"); settled(c, "after the last release", 1, 3);
}
// the bookkeeping is read while another thread creates and releases
SCHED_SCENARIO(observed, o.preempt = 3; o.preempt_t = 4) {
  int r = c.pick("route", NR), n = c.range("fields", 1, 2); Owner a(c, 1);
  Thread th([&] { for (int i = 0; i < n; ++i) a.create(r, i); a.release("in its thread"); });
  for (int i = 0; i < 2; ++i) { Counts k; Totals t; c.check(k.sum() <= (size_t)n && t.sum() <= (size_t)n && k.sum() <= t.sum(), "active", "%zu live of %zu with at most %d fields", k.sum(), t.sum(), n); }
  th.join(); settled(c, "after join", n, n);
}
// handles to the same field stay on one thread each; fields whose storage is the caller's never touch the pools
SCHED_SCENARIO(handles, o.preempt = 3; o.preempt_t = 4) {
  int k = c.pick("how", 3), r = c.of("route", {(int)STORE, (int)DIRECT, (int)MASK}); Owner a(c, 1);
  Thread th([&] { a.create(r, 0); c.yield(); a.release("in its thread"); });
  { SpatFldPtr<FD> p = SpatialFieldStore::get_from_window<FD>(MemoryWindow(dims(0)), nobc<FD>(), g0()), q; *p->begin() = 5;
    if (k == 0) { q = p; p.detach(); c.check(*q->begin() == 5, "corrupted", "copy lost its value"); }
    else if (k == 1) { SpatFldPtr<FD> s(p); p = SpatialFieldStore::get<FD>(*s); *p->begin() = 6; c.check(*s->begin() == 5 && *p->begin() == 6, "corrupted", "two handles' fields got mixed up"); }
    else { double mem[2] = {1, 2}; FD x(MemoryWindow(dims(0)), nobc<FD>(), g0(), mem, ExternalStorage); FD y(x); p = SpatialFieldStore::get<FD>(y); *p->begin() = 7; c.check(mem[0] == 1 && *y.begin() == 1, "corrupted", "the caller's memory changed"); }
  }
  th.join(); settled(c, "after join", 1, 4);
}
// single values and temporaries of different field types obtained from one prototype
SCHED_SCENARIO(single_values, o.preempt = 3; o.preempt_t = 4) {
  int s1 = c.pick("kind1", 2), s2 = c.pick("kind2", 2); double mem[4] = {1, 2, 3, 4};
  FD proto(MemoryWindow(IntVec(1, 2, 2)), nobc<FD>(), g0(), mem, ExternalStorage);
  auto run = [&](int kind, int v) {
    if (kind == 0) { SpatFldPtr<SV> p = SpatialFieldStore::get_from_window<SV>(MemoryWindow(IntVec(1, 1, 1)), nobc<SV>(), g0()); *p->begin() = v; c.yield(); c.check(*p->begin() == v, "corrupted", "single value is %g, %d written", *p->begin(), v); }
    else { SpatFldPtr<XVolField> p = SpatialFieldStore::get<XVolField>(proto); for (auto i = p->begin(); i != p->end(); ++i) *i = v; c.yield(); for (auto i = p->begin(); i != p->end(); ++i) c.check(*i == v, "corrupted", "temporary is %g, %d written", *i, v); }
  };
  Thread th([&] { run(s2, 20); run(1 - s2, 21); }); run(s1, 10); run(1 - s1, 11); th.join(); settled(c, "after join", 1, 4);
}
// fields alive when the program ends, and a pool first used by the thread that ends first
SCHED_SCENARIO(process_exit, o.at_exit = true; o.preempt = 3; o.preempt_t = 4) {
  int r = c.pick("route", NR); Owner* a = new Owner(c, 1); static struct Keep { Owner* o; ~Keep() { delete o; } } keep; bool stat = c.flip("static");
  Thread th([&] { a->create(r, 0); }); Owner b(c, 2); b.create(r, 0); th.join(); if (stat) keep.o = a; else { a->release("before the program ends"); delete a; }
}
