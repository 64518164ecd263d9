// S01: every operator built by build_stencils against the stencil derived from where its source and destination types sit.
#include "faces.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <spatialops/OperatorDatabase.h>
#include <map>
using namespace sops;
#ifndef PART
#define PART 1
#endif
namespace {
struct Pt { int s[3]; double w; };
enum Style { INTERP, GRAD, FDI, FDG, FILTER };
// the expected stencil: weight per relative source cell
template <class Src, class Dst> std::vector<Pt> expected(Style st, int dir, const double* h) {
  std::vector<Pt> p; p.push_back(Pt{{0, 0, 0}, 1});
  auto spread = [&](int d, std::initializer_list<std::pair<int, double> > l) { std::vector<Pt> q; for (auto& x : p) for (auto& e : l) { Pt y = x; y.s[d] += e.first; y.w *= e.second; q.push_back(y); } p = q; };
  for (int d = 0; d < 3; ++d) {
    int fs = Face<Src>::at(d), fd = Face<Dst>::at(d);
    if (st == FILTER) spread(d, {{-1, 1.0 / 3}, {0, 1.0 / 3}, {1, 1.0 / 3}});
    else if (st == FDI) { if (d == dir) spread(d, {{-1, .5}, {1, .5}}); }
    else if (st == FDG) { if (d == dir) spread(d, {{-1, -.5 / h[d]}, {1, .5 / h[d]}}); }
    else if (fs != fd) { int lo = fd ? -1 : 0; if (st == INTERP) spread(d, {{lo, .5}, {lo + 1, .5}}); else spread(d, {{lo, -1 / h[d]}, {lo + 1, 1 / h[d]}}); }
  }
  return p;
}
void pickCommon(mc::Ctx& c, IntVec& n, IntVec& bc, const int* need, int m) {
  for (int d = 0; d < 3; ++d) { static const char* l[] = {"nx", "ny", "nz"}; n[d] = need[d] ? c.range(l[d], 2, m) : c.range(l[d], 1, m); }
  int b = c.pick("bc", 8); for (int d = 0; d < 3; ++d) { bc[d] = b >> d & 1; if (bc[d]) c.assume(n[d] > 1); }
}
template <class Op> void op(mc::Ctx& c, Style st, int dir) {
  typedef typename Op::SrcFieldType Src; typedef typename Op::DestFieldType Dst;
  double h1[3] = {1, 1, 1}; auto probe = expected<Src, Dst>(st, dir, h1); int rm[3] = {0, 0, 0}, rp[3] = {0, 0, 0};
  for (auto& p : probe) for (int d = 0; d < 3; ++d) { rm[d] = std::max(rm[d], -p.s[d]); rp[d] = std::max(rp[d], p.s[d]); }
  int need[3] = {rm[0] | rp[0], rm[1] | rp[1], rm[2] | rp[2]};
  IntVec n, bc; pickCommon(c, n, bc, need, c.bound(2, 3)); if (!c.thorough()) { int g = c.pick("grow", 4); if (g < 3) { c.assume(n[g] > 1); n[g] = 3 + (g == 1); } }
  // ghosts: source and destination, a base layout with one direction varied
  static const int S[5][2] = {{1, 1}, {2, 1}, {1, 2}, {0, 1}, {1, 0}}; static const int D[4][2] = {{1, 1}, {0, 0}, {2, 0}, {1, 2}};
  int gs = c.pick("src-ghosts", 5), gd = c.pick("dest-ghosts", 4), gdir = gs || gd ? c.pick("ghost-dir", 3) : 0;
  int sm[3], sp[3], dm[3], dp[3]; for (int d = 0; d < 3; ++d) { int a = d == gdir ? gs : 0, b = d == gdir ? gd : 0; sm[d] = S[a][0]; sp[d] = S[a][1]; dm[d] = D[b][0]; dp[d] = D[b][1]; }
  bool reduced = c.flip("reduced"); int sp_ = c.pick("spacing", 2);
  double h[3]; for (int d = 0; d < 3; ++d) { static const double H[2][3] = {{0.5, 0.125, 4.0}, {0.3, 0.7, 1.1}}; h[d] = H[sp_][d]; }
  Fld<Src> s(n, bc, reduced ? GhostData(2) : GhostData(sm[0], sp[0], sm[1], sp[1], sm[2], sp[2])); Fld<Dst> t(n, bc, GhostData(dm[0], dp[0], dm[1], dp[1], dm[2], dp[2]));
  if (reduced) s.f().reset_valid_ghosts(GhostData(sm[0], sp[0], sm[1], sp[1], sm[2], sp[2]));
  s.fill(3); t.fill(8);
  // expected region; too few source cells for the reach -> outside the domain, too few for the boundary face -> rejected
  Box w; bool reject = false;
  for (int d = 0; d < 3; ++d) {
    if (n[d] == 1) { w.lo[d] = 0; w.hi[d] = 1; continue; }
    int m = sm[d] - rm[d], p = sp[d] + s.extra[d] - rp[d]; c.assume(m >= 0 && p >= 0);
    if (p < t.extra[d]) reject = true;
    w.lo[d] = -std::min(m, dm[d]); w.hi[d] = n[d] + std::min(p, dp[d] + t.extra[d]);
  }
  static std::map<std::vector<double>, std::shared_ptr<OperatorDatabase> > dbs; auto& db = dbs[{(double)n[0], (double)n[1], (double)n[2], h[0], h[1], h[2]}];
  if (!db) { db.reset(new OperatorDatabase()); build_stencils(n[0], n[1], n[2], n[0] * h[0], n[1] * h[1], n[2] * h[2], *db); }
  for (int d = 0; d < 3; ++d) h[d] = (n[d] * h[d]) / n[d];
  auto pts = expected<Src, Dst>(st, dir, h);
  const Op* o = db->retrieve_operator<Op>(); std::vector<double> s0 = s.mem, t0 = t.mem; bool thrown = false;
  int form = gs == 0 ? c.pick("form", 2) : 0; const Src& cs = s.f();
  try { if (form) t.f() <<= (*o)(cs); else o->apply_to_field(cs, t.f()); } catch (std::exception&) { thrown = true; }
  c.step(); c.check(thrown == reject, "reject", "%s although the source %s enough cells", thrown ? "rejected" : "accepted", reject ? "lacks" : "has");
  cells(t.whole(), [&](int i, int j, int q) {
    double got = t.at(i, j, q), was = t0[Fld<Dst>::Z + t.flat(i, j, q)];
    if (thrown || !w.has(i, j, q)) { c.check(got == was, "stray", "cell (%d,%d,%d) outside the valid region changed to %g", i, j, q, got); return; }
    double e = 0, mag = 0; for (auto& p : pts) { double v = p.w * s.at(i + p.s[0], j + p.s[1], q + p.s[2]); e += v; mag += std::fabs(v); }
    c.check(close(got, e, 1e-14, 1e-14 * mag), got == was ? "missed" : "value", "cell (%d,%d,%d): %.17g, expected %.17g", i, j, q, got, e);
  });
  c.check(s.mem == s0 && t.guards_ok(), "operand", "source modified or write outside the destination");
}
// unit impulse at every source cell of one shape, and linear functions of position
template <class Op> void impulse(mc::Ctx& c, Style st, int dir) {
  typedef typename Op::SrcFieldType Src; typedef typename Op::DestFieldType Dst;
  IntVec n(2, 3, 2), bc; int b = c.pick("bc", 2); bc = IntVec(b, b, b); double h[3] = {0.5, 0.125, 4.0};
  Fld<Src> s(n, bc, GhostData(1)); Fld<Dst> t(n, bc, GhostData(1)); static std::unique_ptr<OperatorDatabase> db; if (!db) { db.reset(new OperatorDatabase()); build_stencils(2, 3, 2, 1, 0.375, 8, *db); }
  auto pts = expected<Src, Dst>(st, dir, h); const Op* o = db->retrieve_operator<Op>(); size_t at = c.pick("cell", s.size() + 4); t.fillConst(-4242);
  if (at < s.size()) { s.fillConst(0); s.data()[at] = 1; }
  else { int d = at - s.size(); cells(s.whole(), [&](int i, int j, int k) { int q[3] = {i, j, k}; s.at(i, j, k) = d == 3 ? 1 : (q[d] + (Face<Src>::at(d) ? 0 : 0.5)) * h[d]; }); }
  o->apply_to_field(s.f(), t.f()); c.step();
  cells(t.interior(), [&](int i, int j, int k) {
    double got = t.at(i, j, k); bool ok = true; double e = 0; for (auto& p : pts) { int x = i + p.s[0], y = j + p.s[1], z = k + p.s[2]; if (!s.inArray(x, y, z)) { ok = false; break; } if (at < s.size()) { if (s.flat(x, y, z) == at) e += p.w; } }
    if (!ok) c.fail("region", "interior destination cell (%d,%d,%d) has no valid source", i, j, k);
    if (at < s.size()) c.check(close(got, e, 1e-14, 1e-15), "impulse", "cell (%d,%d,%d) reacts %g to source cell %zu, expected %g", i, j, k, got, at, e);
    else { int d = at - s.size(); int q[3] = {i, j, k}; bool slope = st == GRAD || st == FDG; int gd = dir; if (st == GRAD) for (int a = 0; a < 3; ++a) if (Face<Src>::at(a) != Face<Dst>::at(a)) gd = a;
      double x = d == 3 ? (slope ? 0 : 1) : slope ? (d == gd ? 1 : 0) : (q[d] + (Face<Dst>::at(d) ? 0 : 0.5)) * h[d]; c.check(close(got, x, 1e-13, 1e-13), "linear", "cell (%d,%d,%d) of a linear source gives %g, expected %g", i, j, k, got, x); }
  });
}
template <class O, class S, class D> struct T { typedef typename OperatorTypeBuilder<O, S, D>::type type; };
struct Entry { void (*fn)(mc::Ctx&, Style, int); void (*imp)(mc::Ctx&, Style, int); Style st; int dir; const char* name; };
std::vector<Entry> table() {
  std::vector<Entry> t;
#define E(O, S, D, ST, DIR) t.push_back(Entry{&op<T<O, S, D>::type>, &impulse<T<O, S, D>::type>, ST, DIR, #O " " #S " " #D});
#define VOLX(V, XF, YF, ZF) E(Interpolant, V, XF, INTERP, 0) E(Interpolant, V, YF, INTERP, 0) E(Interpolant, V, ZF, INTERP, 0) E(Gradient, V, XF, GRAD, 0) E(Gradient, V, YF, GRAD, 0) E(Gradient, V, ZF, GRAD, 0)
#define VOLB(V, XF, YF, ZF) E(Interpolant, XF, V, INTERP, 0) E(Interpolant, YF, V, INTERP, 0) E(Interpolant, ZF, V, INTERP, 0) E(Divergence, XF, V, GRAD, 0) E(Divergence, YF, V, GRAD, 0) E(Divergence, ZF, V, GRAD, 0)
#define FD(V) E(InterpolantX, V, V, FDI, 0) E(InterpolantY, V, V, FDI, 1) E(InterpolantZ, V, V, FDI, 2) E(GradientX, V, V, FDG, 0) E(GradientY, V, V, FDG, 1) E(GradientZ, V, V, FDG, 2)
#define IG(S, D) E(Interpolant, S, D, INTERP, 0) E(Gradient, S, D, GRAD, 0)
#define I(S, D) E(Interpolant, S, D, INTERP, 0)
#if PART == 1
  VOLX(SVolField, SSurfXField, SSurfYField, SSurfZField) VOLX(XVolField, XSurfXField, XSurfYField, XSurfZField)
#elif PART == 2
  VOLX(YVolField, YSurfXField, YSurfYField, YSurfZField) VOLX(ZVolField, ZSurfXField, ZSurfYField, ZSurfZField)
#elif PART == 3
  VOLB(SVolField, SSurfXField, SSurfYField, SSurfZField) VOLB(XVolField, XSurfXField, XSurfYField, XSurfZField)
#elif PART == 4
  VOLB(YVolField, YSurfXField, YSurfYField, YSurfZField) VOLB(ZVolField, ZSurfXField, ZSurfYField, ZSurfZField)
#elif PART == 5
  FD(SVolField) FD(XVolField) I(SVolField, SVolField) I(XVolField, XVolField) I(YVolField, YVolField) I(ZVolField, ZVolField)
#elif PART == 6
  FD(YVolField) FD(ZVolField)
#elif PART == 7
  IG(XVolField, YSurfXField) IG(XVolField, ZSurfXField) IG(YVolField, XSurfYField) IG(YVolField, ZSurfYField) IG(ZVolField, XSurfZField) IG(ZVolField, YSurfZField)
  IG(SVolField, XVolField) IG(SVolField, YVolField) IG(SVolField, ZVolField) IG(XVolField, SVolField) IG(YVolField, SVolField) IG(ZVolField, SVolField)
#elif PART == 8
  I(XVolField, SSurfXField) I(YVolField, SSurfYField) I(ZVolField, SSurfZField) I(SVolField, XSurfXField) I(SVolField, YSurfYField) I(SVolField, ZSurfZField) I(XSurfXField, SVolField) I(YSurfYField, SVolField) I(ZSurfZField, SVolField)
  I(XVolField, YVolField) I(XVolField, ZVolField) I(YVolField, XVolField) I(YVolField, ZVolField) I(ZVolField, XVolField) I(ZVolField, YVolField)
#elif PART == 9
  I(SVolField, XSurfYField) I(SVolField, XSurfZField) I(SVolField, YSurfXField) I(SVolField, YSurfZField) I(SVolField, ZSurfXField) I(SVolField, ZSurfYField)
  I(XSurfYField, SVolField) I(XSurfZField, SVolField) I(YSurfXField, SVolField) I(YSurfZField, SVolField) I(ZSurfXField, SVolField) I(ZSurfYField, SVolField)
#elif PART == 10
  E(Filter, SVolField, SVolField, FILTER, 0) E(Filter, XVolField, XVolField, FILTER, 0) E(Filter, YVolField, YVolField, FILTER, 0) E(Filter, ZVolField, ZVolField, FILTER, 0)
#endif
  return t;
}
void shapes(mc::Ctx& c) { static std::vector<Entry> t = table(); auto& e = t[c.pick("operator", t.size())]; c.note("%s", e.name); e.fn(c, e.st, e.dir); }
void impulses(mc::Ctx& c) { static std::vector<Entry> t = table(); auto& e = t[c.pick("operator", t.size())]; c.note("%s", e.name); e.imp(c, e.st, e.dir); }
}
MC_REGISTER(shapes, shapes) MC_REGISTER(impulses, impulses)
