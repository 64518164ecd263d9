// N01: footprint and location of field assignment.
#include "sops.h"
#include <spatialops/structured/SpatialMask.h>
using namespace sops;
namespace {
typedef SpatialField<SVol, float> FloatField;
typedef SpatialField<SSurfX, unsigned int> UIntField;
struct G6 { int m[3], p[3]; GhostData gd() const { return GhostData(m[0], p[0], m[1], p[1], m[2], p[2]); } };
static const int INF = 1000;
enum Rhs { SCALAR, FIELD, SUM, SELF, SINGLE, CONDMASK, CONDBOOL, FUNC, SINGLEEXPR, THREE, NRHS };
template <class FT> struct Case {
  typedef typename FT::value_type T;
  Fld<FT> l, a, b;
  Case(const IntVec& n, const IntVec& bl, const IntVec& ba, const IntVec& bb, const G6& gl, const G6& ga, const G6& gb) : l(n, bl, gl.gd()), a(n, ba, ga.gd()), b(n, bb, gb.gd()) { l.fill(1); a.fill(2); b.fill(3); }
};
template <class FT> int avail(const Fld<FT>& f, const GhostData& v, int d, bool plus) { return plus ? v.get_plus(d) + f.extra[d] : v.get_minus(d); }
// runs one assignment and checks footprint, values, operands
template <class FT> void run(mc::Ctx& c, Case<FT>& k, int rhs, bool interior, const GhostData& gl, const GhostData& ga, const GhostData& gb) {   // valid ghosts of each
  typedef typename FT::value_type T; typedef SpatialField<SingleValue, T> SV;
  auto &l = k.l, &a = k.a, &b = k.b;
  bool useA = rhs != SCALAR && rhs != SINGLE && rhs != SELF && rhs != SINGLEEXPR, useB = rhs == SUM || rhs == THREE || rhs == CONDBOOL;
  // expected region
  Box w; bool reject = false;
  for (int d = 0; d < 3; ++d) {
    if (l.n[d] == 1) { w.lo[d] = 0; w.hi[d] = 1; continue; }
    int m = l.gd.get_minus(d), p = l.gd.get_plus(d) + l.extra[d];   // every layer the destination holds
    if (rhs == SELF || rhs == THREE) { m = std::min(m, avail(l, gl, d, false)); p = std::min(p, avail(l, gl, d, true)); }
    if (useA) { m = std::min(m, avail(a, ga, d, false)); p = std::min(p, avail(a, ga, d, true)); }
    if (useB) { m = std::min(m, avail(b, gb, d, false)); p = std::min(p, avail(b, gb, d, true)); }
    if (p < l.extra[d]) reject = true;
    if (interior) { m = 0; p = l.extra[d]; }
    w.lo[d] = -m; w.hi[d] = l.n[d] + p;
  }
  std::vector<T> l0 = l.mem, a0 = a.mem, b0 = b.mem;
  T svmem = (T)2.5; SV sv(MemoryWindow(IntVec(1, 1, 1)), BoundaryCellInfo::build<SV>(false, false, false), GhostData(0), &svmem, ExternalStorage);
  std::vector<IntVec> pts; Box am = a.whole(); if (rhs == CONDMASK) cells(a.interior(), [&](int i, int j, int q) { if ((i + j + q) % 2 == 0) pts.push_back(IntVec(i, j, q)); });
  // mask points in ghost cells too
  if (rhs == CONDMASK) for (int d = 0; d < 3; ++d) if (a.n[d] > 1 && ga.get_minus(d) > 0) { IntVec q(0, 0, 0); q[d] = -1; pts.push_back(q); }
  FT& L = l.f(); const FT &A = a.f(), &B = b.f(); bool thrown = false;
#define ASSIGN(E) do { if (interior) interior_assign(L, E); else L <<= E; } while (0)
  try {
    switch (rhs) {
      case SCALAR: ASSIGN((T)7.25); break;
      case FIELD: ASSIGN(A); break;
      case SUM: ASSIGN(A + B); break;
      case SELF: ASSIGN(L + (T)1); break;
      case SINGLE: ASSIGN(sv); break;
      case CONDMASK: { SpatialMask<FT> m(A, pts); ASSIGN(cond(m, A)((T)9)); } break;
      case CONDBOOL: ASSIGN(cond(A > B, A)(B)); break;
      case FUNC: ASSIGN(-A); break;
      case SINGLEEXPR: ASSIGN(sv + (T)1); break;
      case THREE: ASSIGN((A + (T)2) * B + L); break;
    }
  } catch (std::exception&) { thrown = true; }
  c.step();
  c.check(thrown == reject, "reject", "%s although the operands %s enough cells", thrown ? "rejected" : "accepted", reject ? "lack" : "have");
  auto lat = [&](int i, int j, int q) { return l0[Fld<FT>::Z + l.flat(i, j, q)]; };
  cells(l.whole(), [&](int i, int j, int q) {
    T got = l.at(i, j, q);
    if (thrown || !w.has(i, j, q)) { c.check(got == lat(i, j, q), "stray", "cell (%d,%d,%d) outside the valid region changed", i, j, q); return; }
    T e = 0;
    switch (rhs) {
      case SCALAR: e = (T)7.25; break; case FIELD: e = a.at(i, j, q); break; case SUM: e = a.at(i, j, q) + b.at(i, j, q); break; case SELF: e = lat(i, j, q) + (T)1; break;
      case SINGLE: e = svmem; break; case CONDMASK: { bool in = false; for (auto& p : pts) if (p == IntVec(i, j, q)) in = true; e = in ? a.at(i, j, q) : (T)9; } break;
      case CONDBOOL: e = a.at(i, j, q) > b.at(i, j, q) ? a.at(i, j, q) : b.at(i, j, q); break; case FUNC: e = -a.at(i, j, q); break; case SINGLEEXPR: e = svmem + (T)1; break;
      case THREE: e = (a.at(i, j, q) + (T)2) * b.at(i, j, q) + lat(i, j, q); break;
    }
    c.check(got == e, got == lat(i, j, q) ? "missed" : "value", "cell (%d,%d,%d): %g, expected %g", i, j, q, (double)got, (double)e);
  });
  c.check(a.mem == a0 && b.mem == b0 && svmem == (T)2.5, "operand", "an operand was modified"); c.check(l.guards_ok(), "stray", "write outside the destination");
}
void pickN(mc::Ctx& c, int m, IntVec& n) { n[0] = c.range("nx", 1, m); n[1] = c.range("ny", 1, m); n[2] = c.range("nz", 1, m); }
void pickBC(mc::Ctx& c, IntVec& bc) { bc[0] = c.flip("bcx"); bc[1] = c.flip("bcy"); bc[2] = c.flip("bcz"); }
// full cross product of per-face ghosts 0..1 of destination and one operand
template <class FT> void faces(mc::Ctx& c) {
  SOPS_PARTITIONS(c, 2);
  IntVec n, bc; pickN(c, 2, n); pickBC(c, bc);
  G6 l, a; int x = c.pick("lhs-faces", 64), y = c.pick("rhs-faces", 64);
  for (int d = 0; d < 3; ++d) { l.m[d] = x >> (2 * d) & 1; l.p[d] = x >> (2 * d + 1) & 1; a.m[d] = y >> (2 * d) & 1; a.p[d] = y >> (2 * d + 1) & 1; }
  int r = c.of("rhs", {(int)FIELD, (int)SUM}); bool in = c.flip("interior");
  Case<FT> k(n, bc, bc, bc, l, a, l); run(c, k, r, in, l.gd(), a.gd(), l.gd());
}
// every expression kind; wider ghosts, varied one direction at a time; boundary flags of the operand may differ
template <class FT> void kinds(mc::Ctx& c) {
  SOPS_PARTITIONS(c, 3);
  int rhs = c.pick("rhs", NRHS); IntVec n; pickN(c, 2, n); if (c.thorough()) { int g = c.pick("grow", 4); if (g < 3 && n[g] > 1) n[g] = 4; }
#ifdef FIELD_EXPRESSION_THREADS
  IntVec bl, ba; { bool b = c.flip("bc"); bl = IntVec(b, b, b); } ba = bl;
#else
  IntVec bl, ba; pickBC(c, bl); ba = bl;
#endif
  int db = c.pick("other-bc", 4); if (db < 3) { c.assume(n[db] > 1); ba[db] = !ba[db]; }
  int d = c.pick("dir", 3), base = c.pick("others", 2); G6 l, a, b;
  for (int e = 0; e < 3; ++e) { l.m[e] = base; l.p[e] = base; a.m[e] = 1; a.p[e] = 1; b.m[e] = base; b.p[e] = 1; }
  l.m[d] = c.range("lm", 0, 2); l.p[d] = c.range("lp", 0, 2); a.m[d] = c.range("am", 0, 2); a.p[d] = c.range("ap", 0, 2);
  bool in = c.flip("interior");
  Case<FT> k(n, bl, ba, ba, l, a, b); run(c, k, rhs, in, l.gd(), a.gd(), b.gd());
}
// destination and operands whose valid ghosts were reduced beforehand; assignment sequences
template <class FT> void reduced(mc::Ctx& c) {
  SOPS_PARTITIONS(c, 2);
  int rhs = c.pick("rhs", NRHS); IntVec n; pickN(c, 3, n); int bcv = c.pick("bc", 3); IntVec bc(bcv > 0, bcv > 1, bcv > 0);
  G6 g2 = {{2, 2, 2}, {2, 2, 2}}, g1 = {{1, 0, 1}, {0, 1, 1}}, g0 = {{0, 0, 0}, {0, 0, 0}}; const G6* opt[3] = {&g2, &g1, &g0};
  const G6 &l = *opt[c.pick("lhs-valid", 3)], &a = *opt[c.pick("rhs-valid", 3)], &b = *opt[c.pick("rhs2-valid", 2)];
  bool in = c.flip("interior");
  Case<FT> k(n, bc, bc, bc, g2, g2, g2); k.l.f().reset_valid_ghosts(l.gd()); k.a.f().reset_valid_ghosts(a.gd()); k.b.f().reset_valid_ghosts(b.gd());
  run(c, k, rhs, in, l.gd(), a.gd(), b.gd());
  int again = c.pick("again", 3); if (again) { k.l.fill(5); run(c, k, again == 1 ? rhs : (int)FIELD, !in, l.gd(), a.gd(), b.gd()); }
}
// sub-window views of destination and operand
template <class FT> void views(mc::Ctx& c) {
  SOPS_PARTITIONS(c, 1, 2, 3);
  typedef typename FT::value_type T;
  IntVec n, o, e; pickN(c, 3, n); G6 g = {{1, 0, 1}, {1, 1, 0}}; int gs = c.pick("ghosts", 2); if (!gs) g = G6{{0, 0, 0}, {0, 0, 0}};
  Fld<FT> l(n, IntVec(0, 0, 0), g.gd()), a(n, IntVec(0, 0, 0), g.gd()); l.fill(1); a.fill(2);
  for (int d = 0; d < 3; ++d) { o[d] = c.range(d == 0 ? "ox" : d == 1 ? "oy" : "oz", 0, l.glob[d] - 1); e[d] = c.range(d == 0 ? "ex" : d == 1 ? "ey" : "ez", 1, l.glob[d] - o[d]); }
  int rhs = c.pick("rhs", 4); std::vector<T> l0 = l.mem, a0 = a.mem;
  MemoryWindow w(l.glob, o, e); FT lv(w, l.f()), av(w, a.f()); const FT& ca = av;
  switch (rhs) { case 0: lv <<= (T)3; break; case 1: lv <<= ca; break; case 2: lv <<= ca + lv; break; case 3: lv <<= cond(ca > (T)0, ca)(lv); break; }
  c.step();
  for (int k = 0; k < l.glob[2]; ++k) for (int j = 0; j < l.glob[1]; ++j) for (int i = 0; i < l.glob[0]; ++i) {
    size_t q = i + l.glob[0] * (j + size_t(l.glob[1]) * k); T was = l0[Fld<FT>::Z + q], av_ = a.data()[q]; bool in = i >= o[0] && i < o[0] + e[0] && j >= o[1] && j < o[1] + e[1] && k >= o[2] && k < o[2] + e[2];
    T exp = !in ? was : rhs == 0 ? (T)3 : rhs == 1 ? av_ : rhs == 2 ? (T)(av_ + was) : av_ > (T)0 ? av_ : was; 
    c.check(l.data()[q] == exp, in ? "value" : "stray", "array cell (%d,%d,%d): %g, expected %g", i, j, k, (double)l.data()[q], (double)exp);
  }
  c.check(a.mem == a0 && l.guards_ok(), "operand", "operand or memory outside modified");
}
// single-value destinations
MC_SCENARIO(single_value) {
  typedef SpatialField<SingleValue, double> SV; double m[4] = {-1, 2, -1, 3}, m0[4]; memcpy(m0, m, sizeof m);
  BoundaryCellInfo bi = BoundaryCellInfo::build<SV>(false, false, false); MemoryWindow w(IntVec(1, 1, 1)); SV a(w, bi, GhostData(0), m + 1, ExternalStorage), b(w, bi, GhostData(0), m + 3, ExternalStorage);
  int rhs = c.pick("rhs", 4); bool in = c.flip("interior"); double e = 0;
#define SVA(E) do { if (in) interior_assign(a, E); else a <<= E; } while (0)
  switch (rhs) { case 0: SVA(5.0); e = 5; break; case 1: SVA(b); e = 3; break; case 2: SVA(a * b); e = 6; break; case 3: SVA(b - a + 1.0); e = 2; break; }
  c.step(); c.check(m[1] == e && m[0] == -1 && m[2] == -1 && m[3] == 3, "value", "single value %g, expected %g", m[1], e);
}
}
#ifndef FIELD_EXPRESSION_THREADS
MC_REGISTER(faces_ssurfx, faces<SSurfXField>)
#endif
MC_REGISTER_DEEP(faces_xvol, faces<XVolField>)
#ifndef FIELD_EXPRESSION_THREADS
MC_REGISTER(kinds_svol, kinds<SVolField>)
#endif
MC_REGISTER(kinds_ssurfy, kinds<SSurfYField>)
MC_REGISTER_DEEP(kinds_xsurfz, kinds<XSurfZField>)
MC_REGISTER_DEEP(kinds_float, kinds<FloatField>)
MC_REGISTER(reduced_svol, reduced<SVolField>)
MC_REGISTER(reduced_ysurfx, reduced<YSurfXField>)
MC_REGISTER(views_svol, views<SVolField>)
MC_REGISTER(views_float, views<FloatField>)
