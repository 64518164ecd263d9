// N01: footprint and values of assignments whose expression holds one operand that has fewer cells than all others.
#include "sops.h"
#include <functional>
#include <spatialops/structured/SpatialMask.h>
using namespace sops;
namespace {
struct G6 { int m[3], p[3]; GhostData gd() const { return GhostData(m[0], p[0], m[1], p[1], m[2], p[2]); } };
template <class FT> struct Case {
  Fld<FT> l, a, b;
  Case(const IntVec& n, const IntVec& bl, const IntVec& ba, const IntVec& bb, const G6& gl, const G6& ga, const G6& gb) : l(n, bl, gl.gd()), a(n, ba, ga.gd()), b(n, bb, gb.gd()) {}
};
// every place an operand can take in an expression: the operand with fewer cells than all others bounds what is assigned
template <class FT> struct Form { const char* name; std::function<void(FT&, const FT&, const FT&, bool, const SpatialMask<FT>&)> run; std::function<double(double, double, bool)> ref; };
template <class FT> const std::vector<Form<FT> >& forms() {
  static std::vector<Form<FT> > v;
  if (!v.empty()) return v;
#define FORM(E, R) v.push_back(Form<FT>{#E, [](FT& L, const FT& A, const FT& B, bool in, const SpatialMask<FT>& m) { (void)A; (void)B; (void)m; if (in) interior_assign(L, E); else L <<= E; }, [](double a, double b, bool m) -> double { (void)a; (void)b; (void)m; return R; }});
#define BOTH(OP) FORM(A OP B, a OP b) FORM(B OP A, b OP a) FORM((A + 1.0) OP (B + 2.0), (a + 1) OP (b + 2)) FORM((B + 1.0) OP (A + 2.0), (b + 1) OP (a + 2)) FORM((B * 2.0) OP A, (b * 2) OP a) FORM(A OP (B * 2.0), a OP (b * 2)) FORM(B OP 3.0, b OP 3) FORM(3.0 OP B, 3 OP b)
  BOTH(+) BOTH(-) BOTH(*) BOTH(/)
#define BOTHF(F, S) FORM(F(A, B), S(a, b)) FORM(F(B, A), S(b, a)) FORM(F(A, B + 1.0), S(a, b + 1)) FORM(F(B + 1.0, A), S(b + 1, a)) FORM(F(B, 3.0), S(b, 3.0)) FORM(F(3.0, B), S(3.0, b))
  BOTHF(pow, std::pow) BOTHF(max, std::max<double>) BOTHF(min, std::min<double>)
#define ONE(F, S) FORM(F(B), S(b)) FORM(A + F(B * 0.5), a + S(b * 0.5))
  ONE(sin, std::sin) ONE(cos, std::cos) ONE(tan, std::tan) ONE(exp, std::exp) ONE(tanh, std::tanh) ONE(abs, std::fabs) ONE(sqrt, std::sqrt) ONE(log, std::log) ONE(log10, std::log10) ONE(erf, std::erf) ONE(erfc, std::erfc) ONE(-, -)
#define TEST(OP) FORM(cond(A OP B, 7.0)(8.0), (a OP b) ? 7 : 8) FORM(cond(B OP A, 7.0)(8.0), (b OP a) ? 7 : 8) FORM(cond(B OP 3.0, 7.0)(8.0), (b OP 3) ? 7 : 8) FORM(cond(3.0 OP B, A)(8.0), (3 OP b) ? a : 8) FORM(cond(A OP (B + 1.0), A)(8.0), (a OP (b + 1)) ? a : 8) FORM(cond(!(B OP A), A)(8.0), !(b OP a) ? a : 8)
  TEST(==) TEST(!=) TEST(<) TEST(<=) TEST(>) TEST(>=)
  FORM(cond(A > 3.0 && B > 3.0, A)(8.0), (a > 3 && b > 3) ? a : 8) FORM(cond(B > 3.0 && A > 3.0, A)(8.0), (a > 3 && b > 3) ? a : 8) FORM(cond(A > 3.0 || B > 3.0, A)(8.0), (a > 3 || b > 3) ? a : 8) FORM(cond(B > 3.0 || A > 3.0, A)(8.0), (a > 3 || b > 3) ? a : 8)
  FORM(cond(B > 3.0, A)(8.0), b > 3 ? a : 8) FORM(cond(B > 3.0, A)(A + 1.0), b > 3 ? a : a + 1) FORM(cond(A > 3.0, B)(8.0), a > 3 ? b : 8) FORM(cond(A > 3.0, 8.0)(B), a > 3 ? 8 : b) FORM(cond(A > 3.0, A)(B), a > 3 ? a : b) FORM(cond(A > 3.0, B)(A), a > 3 ? b : a) FORM(cond(A > 3.0, B + 1.0)(A), a > 3 ? b + 1 : a) FORM(cond(A > 3.0, A)(B + 1.0), a > 3 ? a : b + 1)
  FORM(cond(A > 4.0, 1.0)(B > 3.0, A)(9.0), a > 4 ? 1 : b > 3 ? a : 9) FORM(cond(A > 4.0, 1.0)(A > 3.0, B)(9.0), a > 4 ? 1 : a > 3 ? b : 9) FORM(cond(A > 4.0, 1.0)(A > 3.0, 2.0)(B), a > 4 ? 1 : a > 3 ? 2 : b) FORM(cond(B > 4.0, 1.0)(A > 3.0, 2.0)(9.0), b > 4 ? 1 : a > 3 ? 2 : 9) FORM(cond(A > 4.0, B)(A > 3.0, A)(9.0), a > 4 ? b : a > 3 ? a : 9)
  FORM(cond(A > 4.0, A)(A > 3.0, 2.0)(A > 2.0, B)(A), a > 4 ? a : a > 3 ? 2 : a > 2 ? b : a) FORM(cond(A > 4.0, A)(B > 3.0, A)(A > 2.0, 5.0)(A), a > 4 ? a : b > 3 ? a : a > 2 ? 5 : a)
  FORM(cond(m, A)(8.0), m ? a : 8) FORM(cond(m, 7.0)(8.0), m ? 7 : 8) FORM(cond(A > 3.0, 8.0)(m, A)(7.0), a > 3 ? 8 : m ? a : 7) FORM(cond(m && A > 3.0, A)(8.0), m && a > 3 ? a : 8) FORM(cond(A > 3.0 || m, A)(8.0), m || a > 3 ? a : 8) FORM(cond(!(m), A)(8.0), !m ? a : 8)
  FORM(A + (A * (B + 1.0)) / A, a + (a * (b + 1)) / a) FORM((A + A) * (A - (A + B)), (a + a) * (a - (a + b))) FORM(A + cond(B > 3.0, 2.0)(A), a + (b > 3 ? 2 : a))
  return v;
}
template <class FT> void places(mc::Ctx& c) {
  SOPS_PARTITIONS(c, 2);
  const std::vector<Form<FT> >& fs = forms<FT>(); int q = c.pick("form", (int)fs.size());
  int faces = c.pick("narrow-faces", 63) + 1, less = c.pick("left", 2), how = c.pick("valid", 2), sh = c.pick("one-cell", 8), x = c.pick("extra", 4); bool in = c.flip("interior");
  if (!c.thorough()) { c.assume(!less || faces % 7 == 0); c.assume(!in || sh == 0); }
  IntVec n(2, 2, 2), bc(0, 0, 0); for (int d = 0; d < 3; ++d) if (sh >> d & 1) n[d] = 1; if (x < 3) { c.assume(n[x] > 1); bc[x] = 1; }
  G6 w = {{2, 2, 2}, {2, 2, 2}}, b = w; for (int d = 0; d < 3; ++d) { if (faces >> (2 * d) & 1) b.m[d] = less; if (faces >> (2 * d + 1) & 1) b.p[d] = less; }
  Case<FT> k(n, bc, bc, bc, w, w, how ? b : w);
  if (!how) k.b.f().reset_valid_ghosts(b.gd());
  static const double tab[5] = {1.5, 2.5, 3.0, 3.5, 4.5};
  auto av = [&](int i, int j, int z) { return tab[((i + 5) + 2 * (j + 5) + 3 * (z + 5)) % 5]; }; auto bv = [&](int i, int j, int z) { return tab[((i + 5) * 2 + (j + 5) + 4 * (z + 5)) % 5]; };
  cells(k.a.whole(), [&](int i, int j, int z) { k.a.at(i, j, z) = av(i, j, z); }); cells(k.b.whole(), [&](int i, int j, int z) { k.b.at(i, j, z) = bv(i, j, z); }); cells(k.l.whole(), [&](int i, int j, int z) { k.l.at(i, j, z) = -777; });
  auto inm = [](int i, int j, int z) { return (i + j + z) % 2 == 0; };
  std::vector<IntVec> pts; cells(k.b.interior(), [&](int i, int j, int z) { if (inm(i, j, z)) pts.push_back(IntVec(i, j, z)); });
  bool masked = strstr(fs[q].name, "(m") || strstr(fs[q].name, " m"); c.assume(!(masked && !how));   // a mask takes its ghosts from the field as it was built
  SpatialMask<FT> m(k.b.f(), pts); std::vector<typename FT::value_type> a0 = k.a.mem, b0 = k.b.mem;
  bool thrown = false; try { fs[q].run(k.l.f(), k.a.f(), k.b.f(), in, m); } catch (std::exception& e) { thrown = true; c.fail("throw", "%s: %s", fs[q].name, e.what()); }
  c.step();
  Box r; for (int e = 0; e < 3; ++e) { int lo = b.m[e], hi = b.p[e] + k.l.extra[e]; if (in) { lo = 0; hi = k.l.extra[e]; } if (n[e] == 1) lo = hi = 0; r.lo[e] = -lo; r.hi[e] = n[e] + hi; }
  cells(k.l.whole(), [&](int i, int j, int z) {
    double got = k.l.at(i, j, z), e = r.has(i, j, z) ? fs[q].ref(av(i, j, z), bv(i, j, z), k.b.interior().has(i, j, z) && inm(i, j, z)) : -777;
    c.check(e == -777 ? got == -777 : close(got, e, 1e-13, 1e-300), e == -777 ? "stray" : got == -777 ? "missed" : "value", "%s, cell (%d,%d,%d): %g, expected %g", fs[q].name, i, j, z, got, e);
  });
  c.check(k.a.mem == a0 && k.b.mem == b0 && k.l.guards_ok(), "operand", "%s modified an operand or memory outside of the destination", fs[q].name);
}
}
MC_REGISTER(places_svol, places<SVolField>)
