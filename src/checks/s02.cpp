// S02: boundary-condition operators and setters against the defining equation, cell by cell.
#include "faces.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <spatialops/structured/stencil/FVStaggeredBCOp.h>
#include <spatialops/structured/FVStaggeredBCTools.h>
#include <spatialops/OperatorDatabase.h>
#include <map>
using namespace sops;
#ifndef PART
#define PART 1
#endif
namespace {
struct RefEval { const double* v; double operator()() const { return *v; } };   // value looked up when the condition is applied
static const int G[4][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}};
const OperatorDatabase& db(const IntVec& n, const double* h) {
  static std::map<std::vector<int>, std::shared_ptr<OperatorDatabase> > dbs; auto& d = dbs[{n[0], n[1], n[2]}];
  if (!d) { d.reset(new OperatorDatabase()); build_stencils(n[0], n[1], n[2], n[0] * h[0], n[1] * h[1], n[2] * h[2], *d); }
  return *d;
}
// all destination indices whose two source cells the array holds
template <class F> std::vector<IntVec> points(Fld<F>& s, const int* a, const int* b) {
  std::vector<IntVec> r; Box w = s.whole();
  for (int k = w.lo[2] - 2; k < w.hi[2] + 2; ++k) for (int j = w.lo[1] - 2; j < w.hi[1] + 2; ++j) for (int i = w.lo[0] - 2; i < w.hi[0] + 2; ++i)
    if (w.has(i + a[0], j + a[1], k + a[2]) && w.has(i + b[0], j + b[1], k + b[2])) r.push_back(IntVec(i, j, k));
  return r;
}
enum { ONE, LIST, LIST_FULL };   // single point; point list over the interior window; point list over the whole window
// lo/hi: relative source cells of the operator's first and second coefficient
template <class Op> void opbc(mc::Ctx& c, const int* lo, const int* hi, bool pairs) {
  typedef typename Op::SrcFieldType Src; typedef typename Op::DestFieldType Dst;
  IntVec n, bc(0, 0, 0); int axis = 0; for (int d = 0; d < 3; ++d) if (lo[d] != hi[d]) axis = d;
  if (pairs) { n = IntVec(2, 1, 1); n[axis] = 3; n[(axis + 1) % 3] = 2; n[(axis + 2) % 3] = c.range("n", 1, 2); }
  else for (int d = 0; d < 3; ++d) { static const char* l[] = {"nx", "ny", "nz"}; n[d] = c.range(l[d], d == axis ? 2 : 1, d == axis ? c.bound(3, 4) : c.bound(2, 3)); }
  if (c.thorough()) { for (int d = 0; d < 3; ++d) if (n[d] > 1) bc[d] = c.pick("bc", 2); }
  else { int b = c.pick("bc", pairs ? 2 : 3); for (int d = 0; d < 3; ++d) bc[d] = n[d] > 1 && (b == 2 || (b == 1 && d == axis)); }
  int g = c.pick("ghosts", pairs ? c.bound(1, 2) : c.bound(2, 4)), gdir = g ? c.pick("ghost-dir", pairs ? 1 : c.bound(2, 3)) : 0; int m[3], p[3]; for (int d = 0; d < 3; ++d) { m[d] = G[d == (gdir + axis) % 3 ? g : 0][0]; p[d] = G[d == (gdir + axis) % 3 ? g : 0][1]; }
  GhostData gd(m[0], p[0], m[1], p[1], m[2], p[2]);
  static const double h[3] = {0.5, 0.125, 4.0}; const OperatorDatabase& o = db(n, h); const Op* op = o.retrieve_operator<Op>();
  Fld<Src> s(n, bc, gd); s.fill(3);
  static const BCSide SD[3] = {MINUS_SIDE, PLUS_SIDE, NO_SIDE}; bool wideOp = hi[axis] - lo[axis] > 1; int sd = c.pick("side", pairs && !wideOp ? c.bound(2, 3) : pairs ? 2 : 3); BCSide side = pairs && wideOp && sd == 0 ? NO_SIDE : SD[sd]; int form = pairs ? 1 + c.pick("form", 2) : c.pick("form", 3);
  const int* a = side == PLUS_SIDE ? hi : lo; const int* b = side == PLUS_SIDE ? lo : hi;
  std::vector<IntVec> all = points(s, a, b), pts; pts.push_back(c.in("point", all)); if (pairs) { pts.push_back(c.in("second", all)); IntVec e = pts[1] - pts[0]; bool far = e == IntVec(0, 0, 0); for (int d = 0; d < 3; ++d) if (d != axis && e[d]) far = true; c.assume(far || std::abs(e[axis]) >= 3); }
  double want = !pairs && g == 0 ? c.of("value", {2.5, -16.0}) : 2.5, bound = 1e9; RefEval ev = {&bound};
  std::vector<double> ref = s.mem, was = s.mem; double ca = op->coefs().get_coef(side == PLUS_SIDE ? 1 : 0), cb = op->coefs().get_coef(side == PLUS_SIDE ? 0 : 1);
  for (auto& q : pts) ref[Fld<Src>::Z + s.flat(q[0] + a[0], q[1] + a[1], q[2] + a[2])] = (want - cb * s.at(q[0] + b[0], q[1] + b[1], q[2] + b[2])) / ca;
  std::vector<IntVec> given = pts; if (form == LIST_FULL) for (auto& q : given) q = q + s.goff;
  typedef BoundaryConditionOp<Op, RefEval> BC;
  if (form == LIST_FULL) for (auto& q : given) for (int d = 0; d < 3; ++d) c.assume(s.glob[d] == 1 || (q[d] + a[d] < s.glob[d] && q[d] + b[d] < s.glob[d]));
  std::unique_ptr<BC> cond(form == ONE ? new BC(pts[0], side, ev, o) : new BC(form == LIST ? s.f().window_without_ghost() : s.f().window_with_ghost(), given, side, ev, o));
  c.check(s.mem == was, "early", "building the condition changed the field"); bound = want; (*cond)(s.f()); c.step();
  cells(s.whole(), [&](int i, int j, int k) {
    double got = s.at(i, j, k), e = ref[Fld<Src>::Z + s.flat(i, j, k)], w = was[Fld<Src>::Z + s.flat(i, j, k)];
    if (e == w) c.check(got == w || close(got, e, 1e-14), "stray", "cell (%d,%d,%d) changed from %g to %g", i, j, k, w, got);
    else c.check(close(got, e, 1e-13, 1e-13), got == w ? "missed" : "value", "ghost-side cell (%d,%d,%d) is %.17g, expected %.17g", i, j, k, got, e);
  });
  c.check(s.guards_ok(), "bounds", "write outside the field");
  // the operator now gives the value at every listed point it can be applied at
  Fld<Dst> t(n, bc, GhostData(1)); t.fillConst(-4242); op->apply_to_field(s.f(), t.f());
  for (auto& q : pts) if (t.interior().has(q[0], q[1], q[2])) c.check(close(t.at(q[0], q[1], q[2]), want, 1e-12, 1e-12), "applied", "operator gives %.17g at (%d,%d,%d) where %g was imposed", t.at(q[0], q[1], q[2]), q[0], q[1], q[2], want);
}
template <class Op> void face(mc::Ctx& c, bool pairs) {
  typedef typename Op::SrcFieldType Src; typedef typename Op::DestFieldType Dst; int lo[3], hi[3];
  for (int d = 0; d < 3; ++d) { int s = Face<Src>::at(d), t = Face<Dst>::at(d); lo[d] = s == t ? 0 : t ? -1 : 0; hi[d] = s == t ? 0 : lo[d] + 1; }
  opbc<Op>(c, lo, hi, pairs);
}
template <class Op, int D> void wide(mc::Ctx& c, bool pairs) { int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0}; lo[D] = -1; hi[D] = 1; opbc<Op>(c, lo, hi, pairs); }
template <class O, class S, class D> struct T { typedef typename OperatorTypeBuilder<O, S, D>::type type; };
typedef void (*Fn)(mc::Ctx&, bool);
struct Entry { Fn fn; const char* name; };
std::vector<Entry> table() {
  std::vector<Entry> t;
#define E(O, S, D) t.push_back(Entry{&face<T<O, S, D>::type>, #O " " #S " " #D});
#define W(O, V, D) t.push_back(Entry{&wide<T<O, V, V>::type, D>, #O " " #V});
#if PART == 1
  E(Interpolant, SVolField, SSurfXField) E(Interpolant, SVolField, SSurfYField) E(Interpolant, SVolField, SSurfZField) E(Gradient, SVolField, SSurfXField) E(Gradient, SVolField, SSurfYField) E(Gradient, SVolField, SSurfZField)
#elif PART == 2
  E(Divergence, SSurfXField, SVolField) E(Divergence, SSurfYField, SVolField) E(Divergence, SSurfZField, SVolField) E(Interpolant, SSurfXField, SVolField) E(Interpolant, SSurfYField, SVolField) E(Interpolant, SSurfZField, SVolField)
#elif PART == 3
  E(Interpolant, SVolField, XVolField) E(Interpolant, SVolField, YVolField) E(Interpolant, SVolField, ZVolField) E(Gradient, SVolField, XVolField) E(Gradient, SVolField, YVolField) E(Gradient, SVolField, ZVolField)
#elif PART == 4
  E(Interpolant, XVolField, SVolField) E(Interpolant, YVolField, SVolField) E(Interpolant, ZVolField, SVolField) E(Gradient, XVolField, SVolField) E(Gradient, YVolField, SVolField) E(Gradient, ZVolField, SVolField)
#elif PART == 5
  W(InterpolantX, SVolField, 0) W(InterpolantY, SVolField, 1) W(InterpolantZ, SVolField, 2) W(GradientX, SVolField, 0) W(GradientY, SVolField, 1) W(GradientZ, SVolField, 2)
#elif PART == 6
  E(Gradient, XVolField, XSurfXField) E(Gradient, XVolField, XSurfYField) E(Gradient, YVolField, YSurfYField) E(Gradient, ZVolField, ZSurfZField) E(Divergence, ZSurfXField, ZVolField) W(GradientY, XVolField, 1)
#endif
  return t;
}
void single(mc::Ctx& c) { static std::vector<Entry> t = table(); if (t.empty()) return; auto& e = t[c.pick("operator", t.size())]; c.note("%s", e.name); e.fn(c, false); }
void listed(mc::Ctx& c) { static std::vector<Entry> t = table(); if (t.empty()) return; auto& e = t[c.pick("operator", t.size())]; c.note("%s", e.name); e.fn(c, true); }
#if PART == 7
// directly set values: exactly the listed cells take the value
template <class F> void setter(mc::Ctx& c) {
  IntVec n, bc; for (int d = 0; d < 3; ++d) { static const char* l[] = {"nx", "ny", "nz"}; n[d] = c.range(l[d], 1, c.bound(2, 3)); bc[d] = n[d] > 1 ? c.pick("bc", 2) : 0; }
  int g = c.pick("ghosts", 4); int gdir = g ? c.pick("ghost-dir", 3) : 0; static const int GG[4][2] = {{1, 1}, {0, 0}, {2, 1}, {0, 1}}; int m[3], p[3]; for (int d = 0; d < 3; ++d) { m[d] = GG[d == gdir ? g : 0][0]; p[d] = GG[d == gdir ? g : 0][1]; }
  Fld<F> s(n, bc, GhostData(m[0], p[0], m[1], p[1], m[2], p[2])); s.fill(4); auto ref = s.mem; int form = c.pick("form", 4);
  std::vector<IntVec> all; cells(s.whole(), [&](int i, int j, int k) { all.push_back(IntVec(i, j, k)); });
  std::vector<IntVec> pts; int cnt = form == 0 ? 1 : form == 1 ? (n == IntVec(2, 2, 1) || n == IntVec(1, 2, 2) ? 2 : 1) : c.pick("empty", 2) ? 0 : 1;
  for (int i = 0; i < cnt; ++i) pts.push_back(c.in("point", all)); double v = 0, val = c.of("value", {2.5, -0.0625}); RefEval ev = {&v};
  for (auto& q : pts) ref[Fld<F>::Z + s.flat(q[0], q[1], q[2])] = val;
  std::vector<IntVec> given = pts; if (form == 2) for (auto& q : given) q = q + s.goff;
  typedef BoundaryCondition<F, RefEval> BC; std::unique_ptr<BC> b;
  if (form == 3) { BoundaryCondition<F, ConstValEval> k(s.f().window_without_ghost(), pts, ConstValEval(val)); k(s.f()); }
  else { b.reset(form == 0 ? new BC(pts[0], ev) : new BC(form == 1 ? s.f().window_without_ghost() : s.f().window_with_ghost(), given, ev)); v = val; (*b)(s.f()); }
  c.step(); c.check(s.mem == ref, "set", "field differs from the one with exactly the %zu listed cells set to %g", pts.size(), val);
}
void setters(mc::Ctx& c) { switch (c.pick("type", 4)) { case 0: setter<SVolField>(c); break; case 1: setter<SSurfXField>(c); break; case 2: setter<YVolField>(c); break; default: setter<ZSurfZField>(c); } }
MC_REGISTER(setters, setters)
#elif PART >= 8
// the Nebo form: points given as a mask of gamma cells
template <class Dp, class Sp, class Phi, class Gam> void nebo(mc::Ctx& c, bool minus) {
  const int* dp; { static int v[3]; IntVec x = Dp::int_vec(); for (int d = 0; d < 3; ++d) v[d] = x[d]; dp = v; } IntVec sp = Sp::int_vec(); int axis = 0; for (int d = 0; d < 3; ++d) if (dp[d] != sp[d]) axis = d;
  IntVec n, bc; int shape = c.pick("shape", c.bound(4, 6)); static const int SH[6][3] = {{3, 1, 1}, {2, 2, 1}, {3, 2, 2}, {4, 1, 2}, {3, 3, 2}, {6, 2, 1}}; for (int d = 0; d < 3; ++d) n[(axis + d) % 3] = SH[shape][d];
  int b = c.pick("bc", 8); for (int d = 0; d < 3; ++d) { bc[d] = b >> d & 1; if (bc[d]) c.assume(n[d] > 1); }
  int gp = c.pick("phi-ghosts", 3), gg = c.pick("gamma-ghosts", 3), gdir = gp || gg ? c.pick("ghost-dir", 3) : 0; int pm[3], pp[3], gm[3], gq[3]; for (int d = 0; d < 3; ++d) { int e = d == gdir; pm[d] = G[e ? gp : 0][0]; pp[d] = G[e ? gp : 0][1]; gm[d] = G[e ? gg : 0][0]; gq[d] = G[e ? gg : 0][1]; }
  Fld<Phi> s(n, bc, GhostData(pm[0], pp[0], pm[1], pp[1], pm[2], pp[2])); Fld<Gam> t(n, bc, GhostData(gm[0], gq[0], gm[1], gq[1], gm[2], gq[2])); s.fill(2); t.fill(6);
  // cells the assignment can reach: gamma (and its mask) at -dp, phi at sp-dp
  Box w = s.whole(); for (int d = 0; d < 3; ++d) if (n[d] > 1) {
    int x = -dp[d], y = sp[d] - dp[d]; auto nar = [&](int m, int p, int r) { w.lo[d] = std::max(w.lo[d], -(m - std::max(0, -r))); w.hi[d] = std::min(w.hi[d], n[d] + p - std::max(0, r)); };
    nar(gm[d], gq[d] + t.extra[d], x); nar(pm[d], pp[d] + s.extra[d], y);
  }
  std::vector<IntVec> all; cells(t.interior(), [&](int i, int j, int k) { if (w.has(i + dp[0], j + dp[1], k + dp[2])) all.push_back(IntVec(i, j, k)); });
  std::vector<IntVec> pts; int cnt = c.range("points", 0, shape < 2 ? 2 : 1); bool sheet = cnt == 0 && c.flip("sheet");
  for (int i = 0; i < cnt; ++i) pts.push_back(c.in("point", all)); if (cnt == 2) { IntVec e = pts[1] - pts[0]; bool far = false; for (int d = 0; d < 3; ++d) if (d != axis && e[d]) far = true; c.assume(far || e == IntVec(0, 0, 0) || std::abs(e[axis]) >= 2); }
  if (sheet) { int at = c.range("at", 0, n[axis] - 1); for (auto& q : all) if (q[axis] == at) pts.push_back(q); }
  int cf = c.pick("coefs", 3); double cd = cf == 0 ? 1 : cf == 1 ? 0.5 : -2.0, cs = cf == 1 ? 2.0 : 1.0; int form = c.pick("gamma", 3); double gs = 2.5;
  auto ref = s.mem, tm = t.mem; for (auto& q : pts) { double g = form == 0 ? gs : form == 1 ? t.at(q[0], q[1], q[2]) : t.at(q[0], q[1], q[2]) * 2.0 + 1.0; ref[Fld<Phi>::Z + s.flat(q[0] + dp[0], q[1] + dp[1], q[2] + dp[2])] = (g - s.at(q[0] + sp[0], q[1] + sp[1], q[2] + sp[2]) * cs) / cd; }
  NeboBoundaryConditionBuilder<Dp, Sp, Phi, Gam> bcond(cd, cs); SpatialMask<Gam> mask(t.f(), pts);
  if (form == 0) bcond(mask, s.f(), gs, minus); else if (form == 1) bcond(mask, s.f(), t.f(), minus); else bcond(mask, s.f(), t.f() * 2.0 + 1.0, minus);
  c.step(); cells(s.whole(), [&](int i, int j, int k) { size_t q = Fld<Phi>::Z + s.flat(i, j, k); c.check(close(s.mem[q], ref[q], 1e-14), "nebo", "cell (%d,%d,%d) is %g, expected %g (%zu points)", i, j, k, s.mem[q], ref[q], pts.size()); });
  c.check(s.guards_ok() && t.mem == tm, "operand", "gamma modified or write outside the field");
}
// every side, either operand order: phi one half cell left or right of gamma
#define M1X IndexTriplet<-1, 0, 0>
#define M1Y IndexTriplet<0, -1, 0>
#define M1Z IndexTriplet<0, 0, -1>
#define P1X IndexTriplet<1, 0, 0>
#define P1Y IndexTriplet<0, 1, 0>
#define P1Z IndexTriplet<0, 0, 1>
#define O IndexTriplet<0, 0, 0>
void neboBC(mc::Ctx& c) {
  switch (c.pick("kind", 6)) {
#if PART == 8
    case 0: nebo<M1X, O, SVolField, SSurfXField>(c, true); break; case 1: nebo<O, M1X, SVolField, SSurfXField>(c, false); break;
    case 2: nebo<M1Y, O, SVolField, SSurfYField>(c, true); break; case 3: nebo<O, M1Y, SVolField, SSurfYField>(c, false); break;
    case 4: nebo<M1Z, O, SVolField, SSurfZField>(c, true); break; case 5: nebo<O, M1Z, SVolField, SSurfZField>(c, false); break;
#elif PART == 9
    case 0: nebo<O, P1X, SSurfXField, SVolField>(c, true); break; case 1: nebo<P1X, O, SSurfXField, SVolField>(c, false); break;
    case 2: nebo<O, P1Y, SSurfYField, SVolField>(c, true); break; case 3: nebo<P1Y, O, SSurfYField, SVolField>(c, false); break;
    case 4: nebo<O, P1Z, XSurfZField, XVolField>(c, true); break; case 5: nebo<P1Z, O, XSurfZField, XVolField>(c, false); break;
#elif PART == 10
    case 0: nebo<M1X, O, SVolField, XVolField>(c, true); break; case 1: nebo<O, M1X, SVolField, XVolField>(c, false); break;
    case 2: nebo<O, P1X, XVolField, SVolField>(c, true); break; case 3: nebo<P1X, O, XVolField, SVolField>(c, false); break;
    case 4: nebo<M1Z, O, YVolField, YSurfZField>(c, true); break; case 5: nebo<O, M1Z, YVolField, YSurfZField>(c, false); break;
#endif
  }
}
MC_REGISTER(neboBC, neboBC)
#endif
}
#if PART < 7
MC_REGISTER(single, single) MC_REGISTER(listed, listed)
#endif
