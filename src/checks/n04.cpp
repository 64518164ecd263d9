// N04: reductions.  Visited cells, order and values of every reduction form against the explicit valid region.
#include "nebo_ops.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
namespace nops { namespace {
typedef SpatialField<SVol, float> FloatField; typedef SpatialField<SSurfX, unsigned int> UIntField;
std::vector<double> tr;
template <class T> const int& foldRec(const int& n, const T& v) { tr.push_back(v); return n; }
template <class T> const T& redRef(const T& a, const T& b) { if (tr.empty()) tr.push_back(a); tr.push_back(b); return b; }
template <class T> T redVal(const T& a, const T& b) { if (tr.empty()) tr.push_back(a); tr.push_back(b); return b; }
template <class T> const double& foldMix(const double& a, const T& b) { static double r; r = a / 2 - b; return r; }   // order dependent, uses the initial value
template <class T> T mixVal(const T& a, const T& b) { return (T)(a * 3 - b * 2); }
template <class T> const T& mixRef(const T& a, const T& b) { static T r; r = (T)(a * 3 - b * 2); return r; }
struct G6 { int m[3], p[3]; GhostData gd() const { return GhostData(m[0], p[0], m[1], p[1], m[2], p[2]); } };
// all reduction forms of one operand against the expected sequence; interior: only interior cells
template <class FT, class E> void reduceAll(mc::Ctx& c, const E& x, const std::vector<double>& e, bool interior, bool haveExtra, const std::vector<double>& noExtra, const char* nm) {
  typedef typename FT::value_type T; typedef const int& (*FoldI)(const int&, const T&); typedef const double& (*FoldD)(const double&, const T&); typedef const T& (*RR)(const T&, const T&); typedef T (*RV)(const T&, const T&);
  const std::vector<double>* exp = &e; bool skipped = false;
  tr.clear(); int z = 7; int r = interior ? nebo_fold_interior((FoldI)&foldRec<T>, z, x) : nebo_fold((FoldI)&foldRec<T>, z, x); c.step();
  if (interior && haveExtra && tr != e && tr == noExtra) { exp = &noExtra; skipped = true; }   // reported at the end, after checking the remaining forms on those cells
  auto cmp = [&](const char* form) {
    c.check(tr.size() == exp->size(), interior ? "interior-cells" : "cells", "%s %s visits %zu cells, expected %zu", nm, form, tr.size(), exp->size());
    for (size_t i = 0; i < exp->size(); ++i) c.check(same((T)tr[i], (T)(*exp)[i]), interior ? "interior-cells" : "cells", "%s %s visits %g at position %zu, expected %g", nm, form, tr[i], i, (*exp)[i]);
  };
  cmp("fold"); c.check(r == 7, "fold-value", "fold lost its initial value");
  tr.clear(); T v = interior ? nebo_reduce_interior((RR)&redRef<T>, x) : nebo_reduce((RR)&redRef<T>, x); c.step(); if (exp->size() > 1) cmp("reduce by reference"); c.check(same(v, (T)exp->back()), "reduce-value", "%s: reduce returns %g, expected %g", nm, (double)v, exp->back());
  tr.clear(); v = interior ? nebo_reduce_interior((RV)&redVal<T>, x) : nebo_reduce((RV)&redVal<T>, x); c.step(); if (exp->size() > 1) cmp("reduce by value"); c.check(same(v, (T)exp->back()), "reduce-value", "%s: reduce returns %g, expected %g", nm, (double)v, exp->back());
  double d0 = 24, dm = 24; for (double q : *exp) { double t = dm / 2 - (T)q; dm = t; }
  double dr = interior ? nebo_fold_interior((FoldD)&foldMix<T>, d0, x) : nebo_fold((FoldD)&foldMix<T>, d0, x); c.step(); c.check(close(dr, dm, 1e-12, 1e-12), "fold-order", "%s: order-dependent fold %g, expected %g", nm, dr, dm);
  T m = (T)(*exp)[0], mx = m, mn = m, sm = m; double nn = double(m) * m, mag = std::fabs((double)m); for (size_t i = 1; i < exp->size(); ++i) { T q = (T)(*exp)[i]; m = (T)(m * 3 - q * 2); mx = std::max(mx, q); mn = std::min(mn, q); sm = sm + q; mag += std::fabs((double)q); nn += double(q) * q; }
  if (exp->size() < 24) { T g = interior ? nebo_reduce_interior((RV)&mixVal<T>, x) : nebo_reduce((RV)&mixVal<T>, x); c.check(same(g, m) || close(g, m, 1e-5), "reduce-order", "%s: order-dependent reduce %g, expected %g", nm, (double)g, (double)m);
    g = interior ? nebo_reduce_interior((RR)&mixRef<T>, x) : nebo_reduce((RR)&mixRef<T>, x); c.check(same(g, m) || close(g, m, 1e-5), "reduce-order", "%s: order-dependent reduce (reference) %g, expected %g", nm, (double)g, (double)m); }
  T gmx = interior ? nebo_max_interior(x) : nebo_max(x), gmn = interior ? nebo_min_interior(x) : nebo_min(x), gs = interior ? nebo_sum_interior(x) : nebo_sum(x); c.step(3);
  c.check(gmx == mx, "max", "%s: max %g, expected %g", nm, (double)gmx, (double)mx); c.check(gmn == mn, "min", "%s: min %g, expected %g", nm, (double)gmn, (double)mn);
  c.check(close(gs, sm, sizeof(T) == 4 ? 1e-5 : 1e-13, mag * 1e-13), "sum", "%s: sum %g, expected %g", nm, (double)gs, (double)sm);
  if constexpr (!std::is_integral<T>::value) { T gn = interior ? nebo_norm_interior(x) : nebo_norm(x); c.step(); c.check(close(gn, std::sqrt(nn), sizeof(T) == 4 ? 1e-5 : 1e-13), "norm", "%s: norm %g, expected %g", nm, (double)gn, std::sqrt(nn)); }
  if (skipped) c.fail("interior-skips-extra", "%s: the interior reductions combine %zu of the %zu interior cells, skipping those beyond the boundary face", nm, noExtra.size(), e.size());
}
// region: per direction low/high cell bounds of an operand with valid ghosts v
template <class FT> Box region(const Fld<FT>& f, const GhostData& v) { Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = f.n[d] > 1 ? -v.get_minus(d) : 0; b.hi[d] = f.n[d] > 1 ? f.n[d] + f.extra[d] + v.get_plus(d) : 1; } return b; }
Box meet(const Box& a, const Box& b) { Box r; for (int d = 0; d < 3; ++d) { r.lo[d] = std::max(a.lo[d], b.lo[d]); r.hi[d] = std::min(a.hi[d], b.hi[d]); } return r; }
Box inner(const IntVec& n, const IntVec& ex) { Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = 0; b.hi[d] = n[d] > 1 ? n[d] + ex[d] : 1; } return b; }
template <class V> std::vector<double> seq(const Box& b, V v) { std::vector<double> s; cells(b, [&](int i, int j, int k) { s.push_back(v(i, j, k)); }); return s; }
void pickN(mc::Ctx& c, int m, IntVec& n) { n[0] = c.range("nx", 1, m); n[1] = c.range("ny", 1, m); n[2] = c.range("nz", 1, m); }
enum Operand { FIELD, SUM, FUNC, SINGLEMUL, CONDMASK, CONDBOOL, POWER, NOPER };
template <class FT> void plain(mc::Ctx& c) {
  typedef typename FT::value_type T; typedef SpatialField<SingleValue, T> SV;
  IntVec n; pickN(c, c.bound(2, 3), n); IntVec ba(c.flip("bcx"), c.flip("bcy"), c.flip("bcz")); int db = c.pick("other-bc", 4); IntVec bb = ba; if (db < 3) { c.assume(n[db] > 1); bb[db] = !bb[db]; }
  G6 full = {{2, 1, 2}, {1, 2, 2}}, l1 = {{1, 0, 2}, {0, 1, 1}}, l2 = {{2, 1, 0}, {1, 2, 0}}, l0 = {{0, 0, 0}, {0, 0, 0}}; const G6* opt[] = {&l0, &l1, &l2, &full};
  const G6 &ga = *opt[c.pick("ghosts", 4)], &gb = *opt[c.pick("ghosts2", 3)]; int mode = c.pick("reduced", 2); int op = c.pick("operand", NOPER); bool in = c.flip("interior");
  if (op == FIELD || op == FUNC || op == SINGLEMUL) c.assume(db == 3 && &gb == &l0);
  if (std::is_integral<T>::value) c.assume(op != FUNC && op != POWER);
  Fld<FT> a(n, ba, mode ? full.gd() : ga.gd()), b(n, bb, mode ? full.gd() : gb.gd()); a.fill(2); b.fill(3); if (std::is_integral<T>::value) for (auto* p : {&a, &b}) for (size_t i = 0; i < p->size(); ++i) p->data()[i] = (T)((i * 37 + 11) % 64);
  if (mode) { a.f().reset_valid_ghosts(ga.gd()); b.f().reset_valid_ghosts(gb.gd()); }
  std::vector<T> a0 = a.mem, b0 = b.mem;
  T svm = (T)2; SV sv(MemoryWindow(IntVec(1, 1, 1)), BoundaryCellInfo::build<SV>(false, false, false), GhostData(0), &svm, ExternalStorage);
  Box w = region(a, ga.gd()); bool both = op == SUM || op == CONDBOOL || op == POWER || op == CONDMASK; if (both) w = meet(w, region(b, gb.gd()));
  IntVec ex; bool have = false; for (int d = 0; d < 3; ++d) { ex[d] = both ? std::min(a.extra[d], b.extra[d]) : a.extra[d]; if (ex[d]) have = true; }
  std::vector<IntVec> pts; cells(a.whole(), [&](int i, int j, int k) { bool ok = true; int q[3] = {i, j, k}; for (int d = 0; d < 3; ++d) { int lo = a.n[d] > 1 ? -ga.gd().get_minus(d) : 0, hi = a.n[d] > 1 ? a.n[d] + a.extra[d] + ga.gd().get_plus(d) : 1; if (q[d] < lo || q[d] >= hi) ok = false; } if (ok && (i + 2 * j + k) % 3 == 0) pts.push_back(IntVec(i, j, k)); });
  auto inPts = [&](int i, int j, int k) { for (auto& p : pts) if (p == IntVec(i, j, k)) return true; return false; };
  auto val = [&](int i, int j, int k) -> double { T x = a.at(i, j, k), y = b.inArray(i, j, k) ? b.at(i, j, k) : (T)0; switch (op) { case FIELD: return x; case SUM: return (T)(x + y); case FUNC: return -x; case SINGLEMUL: return (T)(x * svm); case CONDMASK: return inPts(i, j, k) ? y : (T)5; case CONDBOOL: return x > y ? (T)(x + (T)1) : y; default: return std::pow(x, (T)2) - y; } };
  const FT &A = a.f(), &B = b.f();
  if (op == CONDMASK) w = meet(region(a, ga.gd()), region(b, gb.gd()));
  Box r = in ? inner(n, ex) : w; std::vector<double> e = seq(r, val), ne = seq(inner(n, IntVec(0, 0, 0)), val);
#define GO(X) reduceAll<FT>(c, X, e, in, have, ne, on[op])
  static const char* on[] = {"field", "sum", "negation", "single-value product", "masked conditional", "conditional", "power"};
  switch (op) {
    case FIELD: GO(A); break; case SUM: GO(A + B); break; case FUNC: if constexpr (!std::is_integral<T>::value) GO(-A); break; case SINGLEMUL: GO(A * sv); break;
    case CONDMASK: { SpatialMask<FT> m(A, pts); GO(cond(m, B)(5.0)); } break; case CONDBOOL: GO(cond(A > B, A + (T)1)(B)); break; case POWER: if constexpr (!std::is_integral<T>::value) GO(pow(A, (T)2) - B); break;
  }
  c.check(a.mem == a0 && b.mem == b0, "operand", "operand modified");
}
// extremum placed at each position
template <class FT> void extremum(mc::Ctx& c) {
  typedef typename FT::value_type T; IntVec n; pickN(c, 3, n); IntVec bc(c.flip("bcx"), 0, 0); int g = c.pick("ghosts", 2); Fld<FT> a(n, bc, GhostData(g));
  bool neg = c.flip("negative"); size_t pos = c.pick("position", a.size()); a.fillConst(neg ? (T)-3 : (T)3); a.data()[pos] = c.flip("high") ? a.data()[pos] + (T)1 : a.data()[pos] - (T)1;
  T mx = *std::max_element(a.data(), a.data() + a.size()), mn = *std::min_element(a.data(), a.data() + a.size()); const FT& A = a.f();
  c.check(nebo_max(A) == mx && nebo_min(A) == mn, "extremum", "extremum at position %zu missed: max %g min %g", pos, (double)nebo_max(A), (double)nebo_min(A)); c.check(nebo_max(A * (T)1) == mx && nebo_min(A * (T)1) == mn, "extremum", "extremum of an expression at position %zu missed", pos); c.step(4);
}
// reductions of stencil expressions
template <class P, class Dst, class Src> struct Bld { typedef NeboStencilBuilder<Interpolant, P, Src, Dst> W; typedef NeboSumStencilBuilder<P, Src, Dst> S; typedef NeboAverageStencilBuilder<P, Src, Dst> A; };
template <class Src, class Dst, int AX> void stencil(mc::Ctx& c) {
  typedef typename Stencil2Collection<Interpolant, Src, Dst>::StPtCollection P2; typedef typename NEBO_FIRST_IJK(0, 0, 0)::NEBO_ADD_IJK(AX == 0, AX == 1, AX == 2) P3;
  IntVec n; pickN(c, 3, n); c.assume(n[AX] > 1); IntVec bc(0, 0, 0); bc[AX] = c.flip("bc"); int gl = c.pick("ghosts", 3); G6 g = {{gl, gl, gl}, {gl, gl, gl}}; if (gl == 2) { g.m[AX] = 1; g.p[AX] = 2; g.m[(AX + 1) % 3] = 0; } bool in = c.flip("interior"); int form = c.pick("form", 6);
  Fld<Src> a(n, bc, g.gd()); a.fill(4); auto a0 = a.mem; const Src& A = a.f(); Box w = region(a, g.gd());
  int p0, p1;   // the two shifts along AX
  IntVec lo, hi; bool ijk = form >= 4; { int so = Src::Location::Offset::int_vec()[AX], dO = Dst::Location::Offset::int_vec()[AX]; if (ijk) { p0 = 0; p1 = 1; } else { p0 = so > dO ? -1 : 0; p1 = so < dO ? 1 : 0; } }
  Box r = w; r.lo[AX] = w.lo[AX] - std::min(0, p0); r.hi[AX] = w.hi[AX] - std::max(0, p1); Box ri = inner(n, IntVec(0, 0, 0));
  if (in) for (int d = 0; d < 3; ++d) c.assume(ri.lo[d] >= r.lo[d] && ri.hi[d] <= r.hi[d]);
  if (in) { c.assume(!bc[AX]); r = ri; }
  c.assume(w.lo[AX] <= std::min(0, p0) && w.hi[AX] - n[AX] >= std::max(0, p1));   // fewer ghosts than the stencil reaches are rejected
  double c0 = form == 0 || form == 3 || form == 4 ? 0.75 : form == 2 ? 0.5 : 1, c1 = form == 0 || form == 3 || form == 4 ? -2.0 : form == 2 ? 0.5 : 1;
  auto val = [&](int i, int j, int k) -> double { int q[3] = {i, j, k}, s[3] = {i, j, k}; q[AX] += p0; s[AX] += p1; double x = a.at(q[0], q[1], q[2]), y = a.at(s[0], s[1], s[2]); if (form == 3) { x = x * 2; y = y * 2; } return c0 * x + c1 * y; };
  std::vector<double> e = seq(r, val), ne;
  auto co = build_two_point_coef_collection(0.75, -2.0);
#undef GO
#define GO(X) reduceAll<Dst>(c, X, e, in, false, ne, "stencil")
  switch (form) {
    case 0: { typename Bld<P2, Dst, Src>::W o(co); GO(o(A)); } break; case 1: { typename Bld<P2, Dst, Src>::S o; GO(o(A)); } break; case 2: { typename Bld<P2, Dst, Src>::A o; GO(o(A)); } break;
    case 3: { typename Bld<P2, Dst, Src>::W o(co); GO(o(A * 2.0)); } break; case 4: { typename Bld<P3, Dst, Src>::W o(co); GO(o(A)); } break; case 5: { typename Bld<P3, Dst, Src>::S o; GO(o(A)); } break;
  }
  c.check(a.mem == a0, "operand", "operand modified");
}
// shape where every operand is a view
template <class FT> void views(mc::Ctx& c) {
  IntVec n, o, e; pickN(c, 3, n); Fld<FT> a(n, IntVec(0, 0, 0), GhostData(c.pick("ghosts", 2))); a.fill(6);
  for (int d = 0; d < 3; ++d) { o[d] = c.range(d == 0 ? "ox" : d == 1 ? "oy" : "oz", 0, a.glob[d] - 1); e[d] = c.range(d == 0 ? "ex" : d == 1 ? "ey" : "ez", 1, a.glob[d] - o[d]); }
  FT v(MemoryWindow(a.glob, o, e), a.f()); const FT& V = v; std::vector<double> s; for (int k = 0; k < e[2]; ++k) for (int j = 0; j < e[1]; ++j) for (int i = 0; i < e[0]; ++i) s.push_back(a.data()[o[0] + i + a.glob[0] * (o[1] + j + size_t(a.glob[1]) * (o[2] + k))]);
  reduceAll<FT>(c, V, s, false, false, s, "view"); for (double& x : s) x = x + 1; reduceAll<FT>(c, V + (typename FT::value_type)1, s, false, false, s, "view expression");
}
} }
using namespace nops;
#if PART == 1
MC_REGISTER(plain_svol, plain<SVolField>) MC_REGISTER(extremum_svol, extremum<SVolField>)
#elif PART == 2
MC_REGISTER(plain_ssurfx, plain<SSurfXField>) MC_REGISTER(extremum_ssurfx, extremum<SSurfXField>)
#elif PART == 3
MC_REGISTER(plain_float, plain<FloatField>) MC_REGISTER(plain_uint, plain<UIntField>)
#elif PART == 4
static void stencil_x(mc::Ctx& c) { stencil<SVolField, SSurfXField, 0>(c); } static void stencil_back(mc::Ctx& c) { stencil<SSurfYField, SVolField, 1>(c); }
MC_REGISTER(stencil_svol_ssurfx, stencil_x) MC_REGISTER(stencil_ssurfy_svol, stencil_back) MC_REGISTER(views_svol, views<SVolField>)
#endif
