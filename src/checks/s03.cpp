// S03: user-defined and chained stencils against the expanded sum; coefficient lists.
#include "sops.h"
#include <functional>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
using namespace sops;
#ifndef PART
#define PART 1
#endif
namespace {
struct P3 { int d[3]; };
typedef std::vector<P3> Pts;
template <int X, int Y, int Z> struct P { typedef IndexTriplet<X, Y, Z> I; static P3 v() { return P3{{X, Y, Z}}; } };
template <class C, class... R> struct More { typedef C type; };
template <class C, class A, class... R> struct More<C, A, R...> { typedef typename More<typename C::template AddPoint<typename A::I>::Result, R...>::type type; };
template <class A, class... R> struct L { typedef typename More<NeboStencilPointCollection<typename A::I, NeboNil>, R...>::type type; static Pts v() { return Pts{A::v(), R::v()...}; } enum { N = 1 + sizeof...(R) }; };
static const double CO[] = {0.75, -2.0, 1.25, 0.5, -0.25, 3.0, -1.5};
inline double co(int i) { return CO[i % 7] * (i < 7 ? 1 : 1 + i / 7); }
template <int N> struct Coef { static NeboStencilCoefCollection<N> make() { return Coef<N - 1>::make()(co(N - 1)); } };
template <> struct Coef<1> { static NeboStencilCoefCollection<1> make() { return build_coef_collection(co(0)); } };
// reference operand: what it is worth at a cell, and how far beyond the interior it is valid
struct Ref { int m[3], p[3]; std::function<double(int, int, int)> f; };
enum { WEIGHT, SUM, AVG };
Ref apply(const Ref& r, const Pts& pts, int kind) {
  Ref o = r; for (auto& q : pts) for (int d = 0; d < 3; ++d) { o.m[d] = std::min(o.m[d], r.m[d] - std::max(0, -q.d[d])); o.p[d] = std::min(o.p[d], r.p[d] - std::max(0, q.d[d])); }
  auto f = r.f; o.f = [f, pts, kind](int i, int j, int k) { double s = 0; int c = 0; for (auto& q : pts) { s += (kind == WEIGHT ? co(c) : 1) * f(i + q.d[0], j + q.d[1], k + q.d[2]); ++c; } return kind == AVG ? s / pts.size() : s; };
  return o;
}
template <class F> Ref field(Fld<F>& a) { Ref r; for (int d = 0; d < 3; ++d) { r.m[d] = a.n[d] > 1 ? a.gd.get_minus(d) : 0; r.p[d] = a.n[d] > 1 ? a.gd.get_plus(d) + a.extra[d] : 0; } Fld<F>* p = &a; r.f = [p](int i, int j, int k) { return (double)p->at(i, j, k); }; return r; }
Ref both(const Ref& a, const Ref& b, std::function<double(double, double)> g) { Ref r; for (int d = 0; d < 3; ++d) { r.m[d] = std::min(a.m[d], b.m[d]); r.p[d] = std::min(a.p[d], b.p[d]); } auto x = a.f, y = b.f; r.f = [x, y, g](int i, int j, int k) { return g(x(i, j, k), y(i, j, k)); }; return r; }
struct Shape { IntVec n, bc; GhostData a, b, t; Shape() : a(0), b(0), t(0) {} };
static const int SG[5][2] = {{2, 2}, {3, 2}, {2, 3}, {1, 2}, {2, 1}}; static const int DG[4][2] = {{2, 2}, {0, 0}, {1, 3}, {0, 2}};
GhostData gd(const int (*t)[2], int kind, int dir, int base = 0) { int v[6]; for (int d = 0; d < 3; ++d) { int k = d == dir ? kind : base; v[2 * d] = t[k][0]; v[2 * d + 1] = t[k][1]; } return GhostData(v[0], v[1], v[2], v[3], v[4], v[5]); }
// reach: total reach per direction of the whole chain (directions reached need two cells)
Shape shape(mc::Ctx& c, const int* reach, bool small) {
  SOPS_PARTITIONS(c, 2, 3);
  Shape s; static const int N[5][3] = {{3, 2, 2}, {2, 3, 1}, {1, 2, 3}, {4, 1, 1}, {1, 1, 1}};
  int k = c.pick("shape", small ? c.bound(4, 5) : 5); for (int d = 0; d < 3; ++d) { s.n[d] = N[k][d]; c.assume(!reach[d] || s.n[d] > 1); }
  int b = c.pick("bc", 8); for (int d = 0; d < 3; ++d) { s.bc[d] = b >> d & 1; if (s.bc[d]) c.assume(s.n[d] > 1); }
  int g = c.pick("src-ghosts", 5), t = c.pick("dest-ghosts", small ? c.bound(3, 4) : 4), dir = g || t ? c.pick("ghost-dir", 3) : 0; if (!c.thorough() && g && t) c.assume((g + t) % 2 == 0);
  s.a = gd(SG, g, dir); s.b = gd(SG, g == 0 ? 0 : 0, (dir + 1) % 3); s.t = gd(DG, t, dir); return s;
}
void reachOf(const Pts& p, int* r) { for (auto& q : p) for (int d = 0; d < 3; ++d) if (q.d[d]) r[d] = 1; }
template <class Dst, class E> void compare(mc::Ctx& c, const Shape& s, const Ref& r, E assign, const char* what) {
  Fld<Dst> t(s.n, s.bc, s.t); t.fill(11); auto was = t.mem; Box w; bool reject = false;
  for (int d = 0; d < 3; ++d) { if (s.n[d] == 1) { w.lo[d] = 0; w.hi[d] = 1; continue; } c.assume(r.m[d] >= 0 && r.p[d] >= 0); if (r.p[d] < t.extra[d]) reject = true; w.lo[d] = -std::min(r.m[d], t.goff[d]); w.hi[d] = s.n[d] + std::min(r.p[d], t.gd.get_plus(d) + t.extra[d]); }
  bool thrown = false; try { assign(t.f()); } catch (std::exception&) { thrown = true; } c.step();
  c.check(thrown == reject, "reject", "%s %s although its operand %s enough cells", what, thrown ? "rejected" : "accepted", reject ? "lacks" : "has");
  double eps = sizeof(typename Dst::value_type) == 4 ? 1e-6 : 1e-14;
  cells(t.whole(), [&](int i, int j, int k) {
    double got = t.at(i, j, k), old = was[Fld<Dst>::Z + t.flat(i, j, k)]; if (thrown || !w.has(i, j, k)) { c.check(got == old, "stray", "%s: cell (%d,%d,%d) outside the valid region changed to %g", what, i, j, k, got); return; }
    double e = r.f(i, j, k); c.check(close(got, e, eps, eps * 64), got == old ? "missed" : "value", "%s: cell (%d,%d,%d) is %.17g, expected %.17g", what, i, j, k, got, e);
  });
  c.check(t.guards_ok(), "bounds", "%s wrote outside the destination", what);
}
// one stencil over a field, an expression of two fields, a conditional
template <class Src, class Dst, class List, int FORMS> void one(mc::Ctx& c) {
  typedef typename List::type C; Pts pts = List::v(); int reach[3] = {0, 0, 0}; reachOf(pts, reach); Shape s = shape(c, reach, FORMS == 1);
  Fld<Src> a(s.n, s.bc, s.a), b(s.n, s.bc, s.b); a.fill(3); b.fill(5); auto a0 = a.mem, b0 = b.mem; const Src& A = a.f(); const Src& B = b.f();
  Ref rA = field(a), rB = field(b), rE = both(rA, rB, [](double x, double y) { return x * 2 + y; }), rC = both(rA, rB, [](double x, double y) { return x > y ? x : y; }); typedef typename Src::value_type T;
  NeboStencilBuilder<Interpolant, C, Src, Dst> w(Coef<List::N>::make()); NeboSumStencilBuilder<C, Src, Dst> sum; NeboAverageStencilBuilder<C, Src, Dst> avg;
  typedef Dst D;
  switch (c.pick("form", FORMS == 1 ? 5 : 9)) {
    case 0: compare<D>(c, s, apply(rA, pts, WEIGHT), [&](D& t) { t <<= w(A); }, "weighted"); break;
    case 1: compare<D>(c, s, apply(rE, pts, WEIGHT), [&](D& t) { t <<= w(A * (T)2 + B); }, "weighted of expression"); break;
    case 2: compare<D>(c, s, apply(rA, pts, SUM), [&](D& t) { t <<= sum(A); }, "sum"); break;
    case 3: compare<D>(c, s, apply(rA, pts, AVG), [&](D& t) { t <<= avg(A); }, "average"); break;
    case 4: { Ref x = apply(rA, pts, WEIGHT), y = apply(rB, pts, SUM); compare<D>(c, s, both(x, y, [](double p, double q) { return p - q; }), [&](D& t) { t <<= w(A) - sum(B); }, "difference of stencils"); } break;
#if PART >= 5
    case 5: compare<D>(c, s, apply(rE, pts, SUM), [&](D& t) { t <<= sum(A * (T)2 + B); }, "sum of expression"); break;
    case 6: compare<D>(c, s, apply(rE, pts, AVG), [&](D& t) { t <<= avg(A * (T)2 + B); }, "average of expression"); break;
    case 7: compare<D>(c, s, apply(rC, pts, WEIGHT), [&](D& t) { t <<= w(cond(A > B, A)(B)); }, "weighted of conditional"); break;
    case 8: { int k = c.pick("apply", 3); if (k == 0) compare<D>(c, s, apply(rA, pts, WEIGHT), [&](D& t) { w.apply_to_field(A, t); }, "apply weighted"); else if (k == 1) compare<D>(c, s, apply(rA, pts, SUM), [&](D& t) { sum.apply_to_field(A, t); }, "apply sum"); else compare<D>(c, s, apply(rA, pts, AVG), [&](D& t) { avg.apply_to_field(A, t); }, "apply average"); } break;
#endif
    default: c.assume(false);
  }
  c.check(a.mem == a0 && b.mem == b0, "operand", "operand modified");
}
// chains: outer(inner(operand)) equals the expansion and, where the stored inner has the ghosts, the stored form
template <class Src, class Mid, class Dst, class L1, class L2> void chain(mc::Ctx& c) {
  Pts p1 = L1::v(), p2 = L2::v(); int reach[3] = {0, 0, 0}; reachOf(p1, reach); reachOf(p2, reach); Shape s = shape(c, reach, true);
  Fld<Src> a(s.n, s.bc, s.a), b(s.n, s.bc, s.b); a.fill(3); b.fill(5); auto a0 = a.mem; const Src& A = a.f(); const Src& B = b.f(); Ref rA = field(a), rB = field(b); typedef Dst D; typedef typename Src::value_type T;
  NeboStencilBuilder<Gradient, typename L1::type, Src, Mid> in(Coef<L1::N>::make()); NeboSumStencilBuilder<typename L1::type, Src, Mid> insum; NeboStencilBuilder<Divergence, typename L2::type, Mid, Dst> out(Coef<L2::N>::make()); NeboAverageStencilBuilder<typename L2::type, Mid, Dst> outavg;
  switch (c.pick("form", 5)) {
    case 0: compare<D>(c, s, apply(apply(rA, p1, WEIGHT), p2, WEIGHT), [&](D& t) { t <<= out(in(A)); }, "chain"); break;
    case 1: compare<D>(c, s, apply(apply(rA, p1, SUM), p2, AVG), [&](D& t) { t <<= outavg(insum(A)); }, "chain of sum and average"); break;
    case 2: { Ref i = apply(rA, p1, WEIGHT), j = apply(rB, p1, SUM); compare<D>(c, s, apply(both(i, j, [](double x, double y) { return x * y; }), p2, WEIGHT), [&](D& t) { t <<= out(in(A) * insum(B)); }, "chain over a product"); } break;
    case 3: { Ref e = both(rA, rB, [](double x, double y) { return x + y; }); Ref o = apply(apply(e, p1, WEIGHT), p2, AVG); auto f = o.f; o.f = [f](int i, int j, int k) { return f(i, j, k) * 0.5; }; compare<D>(c, s, o, [&](D& t) { t <<= outavg(in(A + B)) * (T)0.5; }, "chain over an expression"); } break;
    case 4: {   // stored inner result
      Ref i = apply(rA, p1, WEIGHT); for (int d = 0; d < 3; ++d) c.assume(s.n[d] == 1 || (i.m[d] >= 0 && i.p[d] >= 0)); Fld<Mid> m(s.n, s.bc, GhostData(4)); m.fillConst(0); try { m.f() <<= in(A); } catch (std::exception&) { c.assume(false); }
      int v[6]; for (int d = 0; d < 3; ++d) { v[2 * d] = std::min(4, s.n[d] > 1 ? i.m[d] : 4); v[2 * d + 1] = std::min(4, s.n[d] > 1 ? i.p[d] - m.extra[d] : 4); } GhostData g(v[0], v[1], v[2], v[3], v[4], v[5]); m.f().reset_valid_ghosts(g); const Mid& M = m.f();
      compare<D>(c, s, apply(i, p2, WEIGHT), [&](D& t) { t <<= out(M); }, "stored inner"); } break;
  }
  c.check(a.mem == a0, "operand", "operand modified");
}
typedef void (*Fn)(mc::Ctx&);
template <class S, class D, int F, class... Ls> std::vector<Fn> fns() { return std::vector<Fn>{&one<S, D, Ls, F>...}; }
void runAny(mc::Ctx& c, const std::vector<Fn>& f) { f[c.pick("stencil", f.size())](c); }
#define SC(name, ...) static void name(mc::Ctx& c) { static std::vector<Fn> f = __VA_ARGS__; runAny(c, f); } MC_REGISTER(name, name)
#define ROW(Y, Z) L<P<-1, Y, Z>>, L<P<0, Y, Z>>, L<P<1, Y, Z>>
typedef P<0, 0, 0> O; typedef P<1, 0, 0> XP; typedef P<-1, 0, 0> XM; typedef P<0, 1, 0> YP; typedef P<0, -1, 0> YM; typedef P<0, 0, 1> ZP; typedef P<0, 0, -1> ZM;
#define PAIRS(A) L<A, O>, L<A, XP>, L<A, XM>, L<A, YP>, L<A, YM>, L<A, ZP>, L<A, ZM>
#if PART == 1
SC(points_svol, fns<SVolField, SVolField, 1, ROW(-1, -1), ROW(0, -1), ROW(1, -1), ROW(-1, 0), ROW(0, 0), ROW(1, 0), ROW(-1, 1), ROW(0, 1), ROW(1, 1)>())
#elif PART == 2
SC(points_ssurfx_svol, fns<SSurfXField, SVolField, 1, ROW(0, 0), ROW(1, -1), L<P<-2, 0, 0>>, L<P<2, 0, 0>>>())
SC(points_svol_yvol, fns<SVolField, YVolField, 1, ROW(0, 0), ROW(-1, 1), L<P<0, -2, 0>>, L<P<0, 2, 0>>>())
SC(points_zsurfz, fns<ZSurfZField, ZSurfZField, 1, L<P<0, 0, -2>>, L<P<0, 0, -1>>, L<P<0, 0, 1>>, L<P<0, 0, 2>>, L<P<0, 1, 1>>>())
#elif PART == 3
SC(pairs_svol_a, fns<SVolField, SVolField, 1, PAIRS(O), PAIRS(XP), PAIRS(XM)>())
#elif PART == 4
SC(pairs_xvol_ssurfx, fns<XVolField, SSurfXField, 1, PAIRS(YP), PAIRS(YM), PAIRS(ZP), PAIRS(ZM)>())
#elif PART == 5
SC(lists_svol, fns<SVolField, SVolField, 2, L<O>, L<XM, O, XP>, L<XP, O, XM>, L<P<-2, 0, 0>, XP>, L<YM, YP, ZM, ZP>, L<P<1, 1, 1>, P<-1, -1, -1>, O>, L<XP, XP, XP>>())
#elif PART == 6
typedef SpatialField<SVol, float> FloatField;
SC(lists_float, fns<FloatField, FloatField, 2, L<XM, O, XP>, L<YM, XP>>())
SC(lists_faces, fns<SSurfYField, YVolField, 2, L<O, YP>, L<YM, O>, L<P<1, 1, 0>, P<0, 1, 0>, P<1, 0, 0>, O>>())
#elif PART == 7
template <class C, int X, int Y, int Z> struct Filter { typedef typename C::StPtCollection type; enum { N = (1 + 2 * X) * (1 + 2 * Y) * (1 + 2 * Z) }; static Pts v() { Pts r; for (int k = -Z; k <= Z; ++k) for (int j = -Y; j <= Y; ++j) for (int i = -X; i <= X; ++i) r.push_back(P3{{i, j, k}}); return r; } };
SC(filters, fns<SVolField, SVolField, 1, Filter<BoxFilter3DStencilCollection, 1, 1, 1>, Filter<BoxFilter2DXYStencilCollection, 1, 1, 0>, Filter<BoxFilter2DXZStencilCollection, 1, 0, 1>, Filter<BoxFilter2DYZStencilCollection, 0, 1, 1>, Filter<BoxFilter1DXStencilCollection, 1, 0, 0>, Filter<BoxFilter1DYStencilCollection, 0, 1, 0>, Filter<BoxFilter1DZStencilCollection, 0, 0, 1>, Filter<NullStencilCollection, 0, 0, 0>>())
#elif PART == 8
#define CH(A, B) &chain<SVolField, SVolField, SVolField, A, B>
SC(chain_svol, {CH(L<XM>, L<XP>), CH(L<XP>, L<XP>), CH(L<XP>, L<XM>), CH(L<YM>, L<XP>), CH(L<ZP>, L<ZP>), CH(L<O>, L<YM>)})
#define X2 L<O, XP>
#define Y2 L<YM, O>
#define Z3 L<ZM, O, ZP>
SC(chain_lists, {CH(X2, X2), CH(X2, Y2), CH(Y2, X2), CH(Z3, X2), CH(X2, Z3)})
#elif PART == 9
#define X2 L<O, XP>
#define X0 L<XM, O>
#define Y0 L<YM, O>
#define Z0 L<ZM, O>
#define Z2 L<O, ZP>
#define Y2 L<O, YP>
SC(chain_faces, {&chain<SVolField, SSurfXField, SVolField, X0, X2>, &chain<SVolField, SSurfYField, SVolField, Y0, Y2>, &chain<SVolField, SSurfZField, SVolField, Z0, Z2>, &chain<SSurfXField, SVolField, SSurfXField, X2, X0>, &chain<SSurfXField, SVolField, SSurfYField, X2, Y0>})
#elif PART == 10
#define X2 L<O, XP>
#define X0 L<XM, O>
#define Y0 L<YM, O>
#define Z0 L<ZM, O>
#define Z2 L<O, ZP>
#define Y2 L<O, YP>
SC(chain_mesh, {&chain<XVolField, XSurfYField, XVolField, Y0, Y2>, &chain<SVolField, XVolField, SVolField, X0, X2>, &chain<YVolField, SVolField, SSurfYField, Y2, Y0>, &chain<SSurfZField, SVolField, SSurfZField, Z2, Z0>})
// three levels deep, one and two directions
static void deep(mc::Ctx& c) {
  int k = c.pick("kind", 2); int reach[3] = {1, k, 0}; Shape s = shape(c, reach, true); Fld<SVolField> a(s.n, s.bc, s.a); a.fill(3); const SVolField& A = a.f(); Ref r = field(a); typedef SVolField D;
  NeboStencilBuilder<Gradient, X0::type, SVolField, SSurfXField> g(Coef<2>::make()); NeboStencilBuilder<Divergence, X2::type, SSurfXField, SVolField> d(Coef<2>::make()); NeboSumStencilBuilder<L<XP>::type, SVolField, SVolField> sh; NeboAverageStencilBuilder<Y0::type, SVolField, SVolField> av;
  if (k) compare<D>(c, s, apply(apply(apply(r, X0::v(), WEIGHT), X2::v(), WEIGHT), Y0::v(), AVG), [&](D& t) { t <<= av(d(g(A))); }, "three stencils");
  else compare<D>(c, s, apply(apply(apply(r, X0::v(), WEIGHT), X2::v(), WEIGHT), L<XP>::v(), SUM), [&](D& t) { t <<= sh(d(g(A))); }, "three stencils in one direction");
}
MC_REGISTER(deep, deep)
#elif PART == 11
template <int N> void list(mc::Ctx& c, const NeboStencilCoefCollection<N>& l, const std::vector<double>& v) {
  int i = c.range("index", -3, N + 3); bool thrown = false; double got = 0; try { got = l.get_coef(i); } catch (std::exception&) { thrown = true; } c.step();
  bool in = i >= 0 && i < N; c.check(thrown == !in, "range", "position %d of %d %s", i, N, thrown ? "rejected" : "accepted"); if (in) c.check(got == v[i], "coef", "position %d of %d holds %g, expected %g", i, N, got, v[i]); c.check(l.coef() == v[N - 1], "last", "last of %d is %g", N, l.coef());
}
template <int N> struct Up { template <class C> static void go(mc::Ctx& c, const C& l, std::vector<double> v, int n) { if ((int)v.size() == n) { list(c, l, v); return; } static const double X[3] = {0, -1.5, 7}; double x = N < 4 ? X[c.pick("coef", 3)] : co(N); v.push_back(x); Up<N + 1>::go(c, l(x), v, n); } };
template <> struct Up<9> { template <class C> static void go(mc::Ctx& c, const C& l, std::vector<double> v, int) { list(c, l, v); } };
static void coefs(mc::Ctx& c) {
  int n = c.range("length", 1, 9); double x = c.of("first", {0.25, -3.0}); int how = n == 2 || n == 4 ? c.pick("builder", 2) : 0;
  if (how && n == 2) list(c, build_two_point_coef_collection(x, 5), {x, 5}); else if (how) list(c, build_four_point_coef_collection(x, 5, -6, 0.5), {x, 5, -6, 0.5});
  else Up<1>::go(c, c.flip("ctor") ? NeboStencilCoefCollection<1>(x) : build_coef_collection(x), {x}, n);
}
static void others(mc::Ctx& c) { auto l = build_four_point_coef_collection(1, 2, 3, 4); int k = c.pick("drop", 4); if (k == 0) list(c, l, {1, 2, 3, 4}); else if (k == 1) list(c, l.others(), {1, 2, 3}); else if (k == 2) list(c, l.others().others(), {1, 2}); else list(c, l.others().others().others(), {1}); }
MC_REGISTER(coefs, coefs) MC_REGISTER(others, others)
#endif
}
