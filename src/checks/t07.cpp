// T07: thread-parallel field assignment equals the sequential result (interleavings).
#include "tpool.h"

#include "../sops.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
using namespace sops;
typedef SVolField F; typedef SpatialField<SingleValue, double> SV;
typedef SpatialField<SSurfX, float> FF;
typedef NeboStencilPointCollection<IndexTriplet<0, 0, -1>, NeboNil>::AddPoint<IndexTriplet<1, 0, 0> >::Result Two;
static std::unique_ptr<Fld<F> > mk(const IntVec& n, int g, int seed, int parts) { std::unique_ptr<Fld<F> > f(new Fld<F>(n, IntVec(0, 0, 0), GhostData(g))); f->fill(seed); if (parts) f->f().set_partition_count(parts); return f; }
// one assignment of each kind, against the cell-by-cell reference
enum Kind { SCALAR, SELF, MASK, COND, SINGLE, FUNC, STENCIL, SUMST, CHAIN, INTERIOR, NK };
struct Set { std::unique_ptr<Fld<F> > l, a, b; double svm; std::unique_ptr<SV> sv; std::unique_ptr<SpatialMask<F> > m; std::vector<IntVec> pts; std::vector<double> l0;
  Set(const IntVec& n, int g, int parts, bool mask) : l(mk(n, g, 1, parts)), a(mk(n, g, 2, 0)), b(mk(n, g, 3, 0)), svm(2.5), sv(new SV(MemoryWindow(IntVec(1, 1, 1)), BoundaryCellInfo::build<SV>(false, false, false), GhostData(0), &svm, ExternalStorage)) {
    if (mask) { cells(a->interior(), [&](int i, int j, int k) { if ((i + j + k) % 2 == 0) pts.push_back(IntVec(i, j, k)); }); m.reset(new SpatialMask<F>(a->f(), pts)); }
    l0 = l->mem; }
  void assign(int kind) {
    F& L = l->f(); const F &A = a->f(), &B = b->f();
    static const NeboStencilCoefCollection<2> co = build_two_point_coef_collection(0.5, -2.0);
    switch (kind) {
      case SCALAR: L <<= 7.25; break;
      case SELF: L <<= L * 2.0 + A; break;
      case MASK: L <<= cond(*m, A)(9.0); break;
      case COND: L <<= cond(A > B, A)(B - 1.0); break;
      case SINGLE: L <<= *sv + A; break;
      case FUNC: L <<= abs(A) + max(A, B) - (-B); break;
      case STENCIL: { NeboStencilBuilder<Interpolant, Two, F, F> st(co); L <<= st(A); } break;
      case SUMST: { NeboSumStencilBuilder<Two, F, F> st; L <<= st(A + B); } break;
      case CHAIN: { NeboStencilBuilder<Interpolant, Two, F, F> st(co); NeboSumStencilBuilder<Two, F, F> su; L <<= su(st(A) * 2.0) + B; } break;
      case INTERIOR: interior_assign(L, A + B); break;
    }
  }
  double st(int i, int j, int k) { return 0.5 * a->at(i, j, k - 1) - 2 * a->at(i + 1, j, k); }
  void verify(Ctx& c, int kind) {
    int reach = kind == STENCIL || kind == SUMST ? 1 : kind == CHAIN ? 2 : 0;
    Box w = l->whole(); if (kind == INTERIOR) w = l->interior();
    if (reach) { w.lo[2] += l->n[2] > 1 ? reach : 0; w.hi[0] -= l->n[0] > 1 ? reach : 0; }
    cells(l->whole(), [&](int i, int j, int k) {
      double was = l0[Fld<F>::Z + l->flat(i, j, k)], got = l->at(i, j, k), e = was, A = a->at(i, j, k), B = b->at(i, j, k);
      if (!w.has(i, j, k)) { c.check(got == was, "stray", "kind %d: cell (%d,%d,%d) outside the valid region changed", kind, i, j, k); return; }
      switch (kind) {
        case SCALAR: e = 7.25; break; case SELF: e = was * 2 + A; break;
        case MASK: { e = 9; for (auto& p : pts) if (p == IntVec(i, j, k)) e = A; } break;
        case COND: e = A > B ? A : B - 1; break; case SINGLE: e = 2.5 + A; break; case FUNC: e = std::fabs(A) + (A > B ? A : B) + B; break;
        case STENCIL: e = st(i, j, k); break; case SUMST: e = a->at(i, j, k - 1) + b->at(i, j, k - 1) + a->at(i + 1, j, k) + b->at(i + 1, j, k); break;
        case CHAIN: e = 2 * st(i, j, k - 1) + 2 * st(i + 1, j, k) + B; break; case INTERIOR: e = A + B; break;
      }
      c.check(got == e, got == was ? "missed" : "value", "kind %d: cell (%d,%d,%d) is %g, expected %g", kind, i, j, k, got, e);
    });
    c.check(l->guards_ok(), "stray", "wrote outside the destination"); l0 = l->mem;
  }
  bool ok(int kind) { return (kind != STENCIL && kind != SUMST && kind != CHAIN) || (l->n[0] > 1 && l->n[2] > 1); }
};
static const int SH[][3] = {{1, 1, 3}, {1, 3, 1}, {3, 1, 1}, {2, 1, 3}, {1, 1, 1}};
static IntVec shape(Ctx& c, int k) { int q = c.pick("shape", k); return IntVec(SH[q][0], SH[q][1], SH[q][2]); }
// every kind of expression under every interleaving of two partitions
SCHED_SCENARIO(kinds, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2) {
  int kind = c.pick("kind", NK); bool st = kind == STENCIL || kind == SUMST || kind == CHAIN; IntVec n = st ? IntVec(2, 1, 2) : IntVec(1, 2, 1); Set s(n, kind == CHAIN ? 2 : 1, 2, kind == MASK);
  s.assign(kind); s.verify(c, kind);
}
// partition counts, worker counts and active limits, changed between assignments
SCHED_SCENARIO(counts, o.leak_ok = true; o.preempt = 0; o.preempt_t = 1) {
  int kind = c.of("kind", {(int)SELF, (int)MASK}), hard = c.range("workers", 1, 3), soft = c.range("active", 1, 3), parts = c.range("partitions", 1, 4);
  int got = set_hard_thread_count(hard); c.check(got == hard, "workers", "set_hard_thread_count(%d) returned %d", hard, got); set_soft_thread_count(soft);
  Set s(shape(c, 4), 0, parts, kind == MASK); s.assign(kind); s.verify(c, kind);
}
SCHED_SCENARIO(changing, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2) {
  int how = c.pick("how", 2), to = c.range("to", 1, 3); Set s(IntVec(1, 1, 2), 0, 2, false);
  s.assign(SELF); s.verify(c, SELF);
  if (how) set_soft_thread_count(to); else set_hard_thread_count(to);
  s.assign(SELF); s.verify(c, SELF);
}
// one assignment after the other: the second reads what the first wrote, and writes what the first read
SCHED_SCENARIO(dependent, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2) {
  Set s(IntVec(1, 1, 2), 0, 2, false); s.a->f().set_partition_count(c.range("partitions", 1, 2));
  F& L = s.l->f(); F& A = s.a->f(); F& B = s.b->f(); std::vector<double> l0 = s.l->mem, a0 = s.a->mem;
  L <<= A + B; A <<= L * 2.0;
  for (size_t i = 0; i < s.l->size(); ++i) { double e = a0[Fld<F>::Z + i] + s.b->data()[i]; c.check(s.l->data()[i] == e && s.a->data()[i] == 2 * e, "value", "cell %zu: %g and %g, expected %g and %g", i, s.l->data()[i], s.a->data()[i], e, 2 * e); }
}
// two threads assign to different fields, sharing operands
SCHED_SCENARIO(two_threads, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2) {
  Set s(IntVec(1, 1, 2), 0, 2, false), t(IntVec(1, 2, 1), 0, c.range("partitions", 1, 2), false); set_soft_thread_count(c.range("active", 1, 2));
  const F& A = s.a->f(); std::vector<double> t0 = t.l->mem; Fld<F> u(IntVec(1, 1, 2), IntVec(0, 0, 0), GhostData(0)); u.fillConst(0);
  Thread th([&] { u.f() <<= A * 3.0; for (size_t i = 0; i < u.size(); ++i) c.check(u.data()[i] == 3 * s.a->data()[i], "value", "cell %zu of the other thread's field: %g", i, u.data()[i]); });
  s.assign(SELF); s.verify(c, SELF);
  th.join();
}
SCHED_SCENARIO(two_threads_kinds, o.leak_ok = true; o.preempt = 0; o.preempt_t = 1) {
  int k1 = c.pick("kind1", NK), k2 = c.pick("kind2", NK);
  auto st = [](int k) { return k == STENCIL || k == SUMST || k == CHAIN; };
  Set s(st(k1) ? IntVec(2, 1, 2) : IntVec(1, 1, 2), k1 == CHAIN ? 2 : 1, 2, k1 == MASK), t(st(k2) ? IntVec(2, 1, 2) : IntVec(2, 1, 1), k2 == CHAIN ? 2 : 1, 2, k2 == MASK);
  set_soft_thread_count(1);
  Thread th([&] { t.assign(k2); t.verify(c, k2); });
  s.assign(k1); s.verify(c, k1);
  th.join();
}
// the program ends right after its last assignment
SCHED_SCENARIO(process_exit, o.at_exit = true; o.preempt = 1; o.preempt_t = 2) {
  Set s(IntVec(1, 1, 2), 0, 2, false); if (c.flip("limited")) set_soft_thread_count(1);
  s.assign(SELF); s.verify(c, SELF);
}
// the sizes are changed while assignments run
SCHED_SCENARIO(resized_meanwhile, o.leak_ok = true; o.preempt = 1; o.preempt_t = 2) {
  int how = c.pick("how", 2), to = c.range("to", 1, 3); Set s(IntVec(1, 1, 2), 0, 2, false); set_soft_thread_count(c.range("active", 1, 2));
  Thread th([&] { if (how) set_soft_thread_count(to); else set_hard_thread_count(to); });
  s.assign(SELF); s.verify(c, SELF);
  th.join();
}
// every shape and partition count: footprint and values
template <class FT> void split(Ctx& c) {
  typedef typename FT::value_type T; int M = sizeof(T) == 4 ? c.bound(3, 4) : c.bound(4, 5); IntVec n(c.range("nx", 1, M), c.range("ny", 1, M), c.range("nz", 1, M)); int parts = c.range("partitions", 1, c.bound(5, 8)), g = c.pick("ghosts", 2), bc = c.pick("bc", 2); bool in = c.flip("interior");
  Fld<FT> l(n, IntVec(bc, bc, bc), GhostData(g)), a(n, IntVec(bc, bc, bc), GhostData(1)); l.fill(1); a.fill(2); l.f().set_partition_count(parts); std::vector<T> l0 = l.mem; const FT& A = a.f();
  if (in) interior_assign(l.f(), A + (T)1); else l.f() <<= A + (T)1;
  Box w = in ? l.interior() : l.whole();
  cells(l.whole(), [&](int i, int j, int k) { T was = l0[Fld<FT>::Z + l.flat(i, j, k)], got = l.at(i, j, k), e = w.has(i, j, k) ? a.at(i, j, k) + (T)1 : was; c.check(got == e, w.has(i, j, k) ? "missed" : "stray", "%d partitions: cell (%d,%d,%d) is %g, expected %g", parts, i, j, k, (double)got, (double)e); });
  c.check(l.guards_ok(), "stray", "wrote outside the destination");
}
SCHED_REGISTER(split_svol, split<F>, o.leak_ok = true; o.preempt = 0; o.preempt_t = 0)
SCHED_REGISTER(split_ssurfx_float, split<FF>, o.leak_ok = true; o.preempt = 0; o.preempt_t = 0)
