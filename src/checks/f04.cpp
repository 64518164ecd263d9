// F04: field comparisons against the documented inequalities, evaluated independently in long double / ordered bit patterns.
#include "sops.h"
#include <spatialops/structured/FieldComparisons.h>
using namespace sops;
namespace {
typedef SpatialField<SVol, float> FloatField;
template <class T> struct Ord;
template <> struct Ord<double> { static __int128 of(double d) { int64_t b; memcpy(&b, &d, 8); return b >= 0 ? (__int128)b : -(__int128)(b & INT64_MAX); } };
template <> struct Ord<float> { static __int128 of(float d) { int32_t b; memcpy(&b, &d, 4); return b >= 0 ? (__int128)b : -(__int128)(b & INT32_MAX); } };
enum Kind { EXACT, REL, RELABS, ABS, ULP, NKIND };
// verdict: 1 equal, 0 unequal, -1 within rounding of the threshold (either accepted)
int cmp(long double lhs, long double rhs, double eps) {   // lhs <= rhs ?
  if (lhs == rhs) return 1;
  if (fabsl(lhs - rhs) <= eps * std::max(fabsl(lhs), fabsl(rhs))) return -1;
  return lhs <= rhs;
}
template <class T> int expect(Kind k, const std::vector<T>& a, const std::vector<T>& b, double tol, double abs_, unsigned ulps) {
  double eps = std::numeric_limits<T>::epsilon(); bool unsure = false, rounded = false;
  long double floor_ = 0;
  if (k == REL) { long double s = 0; for (T v : a) s += (long double)v * v; floor_ = sqrtl(s) * fabsl((long double)tol) * (long double)FIELDCOMPARISONS_ABS_ERROR_CONST; rounded = true; }
  if (k == RELABS) floor_ = abs_;
  for (size_t i = 0; i < a.size(); ++i) {
    long double d = fabsl((long double)a[i] - (long double)b[i]); int v;
    if (k == ULP) { __int128 x = Ord<T>::of(a[i]) - Ord<T>::of(b[i]); if (x < 0) x = -x; v = x <= (__int128)ulps; }
    else if (k == EXACT || tol == 0) v = a[i] == b[i];
    else if (k == ABS) { T r = a[i] - b[i]; v = (long double)(r < 0 ? -r : r) == d ? (d <= fabsl((long double)tol)) : cmp(d, fabsl((long double)tol), 4 * eps); }
    else { long double r = fabsl((long double)tol) * (fabsl((long double)a[i]) + floor_); v = cmp(d, r, 8 * eps); T fl = a[i] - b[i]; bool exact = (long double)(fl < 0 ? -fl : fl) == d; if (v == 1 && d == r && (rounded || !exact) && d != 0) v = -1; }
    if (v == 0) return 0;
    if (v < 0) unsure = true;
  }
  return unsure ? -1 : 1;
}
template <class F> std::vector<typename F::value_type> vals(Fld<F>& f) { return std::vector<typename F::value_type>(f.data(), f.data() + f.size()); }
template <class F> void judge(mc::Ctx& c, Fld<F>& f, Fld<F>& g, Kind k, double tol, double abs_, unsigned ulps) {
  typedef typename F::value_type T;
  std::vector<T> a = vals(f), b = vals(g); int e = expect<T>(k, a, b, tol, abs_, ulps);
  bool eq = false, ne = false; const F &cf = f.f(), &cg = g.f();
  switch (k) {
    case EXACT: eq = field_equal(cf, cg); ne = field_not_equal(cf, cg); break;
    case REL: eq = field_equal(cf, cg, tol); ne = field_not_equal(cf, cg, tol); break;
    case RELABS: eq = field_equal(cf, cg, tol, abs_); ne = field_not_equal(cf, cg, tol, abs_); break;
    case ABS: eq = field_equal_abs(cf, cg, tol); ne = field_not_equal_abs(cf, cg, tol); break;
    default: eq = field_equal_ulp(cf, cg, ulps); ne = field_not_equal_ulp(cf, cg, ulps);
  }
  c.step(2);
  c.check(eq == !ne, "negation", "kind %d: equal=%d and not_equal=%d", k, (int)eq, (int)ne);
  if (e >= 0) c.check(eq == (e != 0), "verdict", "kind %d tol=%g abs=%g ulps=%u: answered %d, expected %d (first cells %g %g | %g %g)", k, tol, abs_, ulps, (int)eq, e, (double)a[0], (double)a[a.size() - 1], (double)b[0], (double)b[b.size() - 1]);
  c.check(memcmp(a.data(), f.data(), a.size() * sizeof(T)) == 0 && memcmp(b.data(), g.data(), b.size() * sizeof(T)) == 0 && f.guards_ok() && g.guards_ok(), "modified", "an argument was modified");
}
template <class F> void judge_scalar(mc::Ctx& c, double d, Fld<F>& g, Kind k, double tol, double abs_, unsigned ulps) {
  typedef typename F::value_type T;
  std::vector<T> b = vals(g), a(b.size(), (T)d); if ((double)(T)d != d) return;
  // the documented floor of the scalar form is the norm of the field
  std::vector<double> ad(a.begin(), a.end()), bd(b.begin(), b.end());
  int e;
  if (k == REL && tol != 0) { long double s = 0; for (T v : b) s += (long double)v * v; double fl = (double)(sqrtl(s) * fabsl((long double)tol) * (long double)FIELDCOMPARISONS_ABS_ERROR_CONST); e = 1;
    for (T v : b) { int r = cmp(fabsl((long double)d - v), fabsl((long double)tol) * (fabsl((long double)d) + fl), 8 * std::numeric_limits<T>::epsilon()); if (r == 1 && d != v) { if (fabsl((long double)d - v) == fabsl((long double)tol) * (fabsl((long double)d) + fl)) r = -1; } if (r == 0) { e = 0; break; } if (r < 0) e = -1; } }
  else e = expect<double>(k, ad, bd, tol, abs_, ulps);
  bool eq = false, ne = false; const F& cg = g.f();
  switch (k) {
    case EXACT: eq = field_equal(d, cg); ne = field_not_equal(d, cg); break;
    case REL: eq = field_equal(d, cg, tol); ne = field_not_equal(d, cg, tol); break;
    case RELABS: eq = field_equal(d, cg, tol, abs_); ne = field_not_equal(d, cg, tol, abs_); break;
    case ABS: eq = field_equal_abs(d, cg, tol); ne = field_not_equal_abs(d, cg, tol); break;
    default: if constexpr (sizeof(T) == sizeof(double)) { eq = field_equal_ulp(d, cg, ulps); ne = field_not_equal_ulp(d, cg, ulps); } else return;
  }
  c.step(2);
  c.check(eq == !ne, "negation", "scalar, kind %d: equal=%d and not_equal=%d", k, (int)eq, (int)ne);
  if (e >= 0) c.check(eq == (e != 0), "verdict", "scalar %g, kind %d tol=%g abs=%g ulps=%u: answered %d, expected %d", d, k, tol, abs_, ulps, (int)eq, e);
  c.check(memcmp(b.data(), g.data(), b.size() * sizeof(T)) == 0 && g.guards_ok(), "modified", "the field was modified");
}
template <class T> T up(T v, int n) { while (n-- > 0) v = std::nextafter(v, std::numeric_limits<T>::infinity()); return v; }
template <class T> T dn(T v, int n) { while (n-- > 0) v = std::nextafter(v, -std::numeric_limits<T>::infinity()); return v; }
template <class T> std::vector<T> V(int set) {
  switch (set) {
    case 0: return {T(0), T(-0.0), T(1), T(-1), T(1.5), T(2), T(3), T(0.5)};
    case 1: return {T(1), up(T(1), 1), up(T(1), 2), up(T(1), 3), dn(T(1), 1), dn(T(1), 2), T(-1)};
    case 2: return {T(0), T(-0.0), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(), up(T(0), 3), std::numeric_limits<T>::min(), T(1e-30)};
    case 3: return {T(-2), T(-3), up(T(-3), 1), dn(T(-3), 1), T(-4), dn(T(-4), 2), T(4)};
    case 4: return {T(1000), T(1001), T(1010), up(T(1010), 1), T(999), T(990), T(0.125)};
    default: return {std::numeric_limits<T>::max() / 4, dn(std::numeric_limits<T>::max() / 4, 1), -std::numeric_limits<T>::max() / 4, T(1), T(0)};
  }
}
struct Tol { Kind k; double tol, abs_; unsigned ulps; };
template <class F> Tol pickTol(mc::Ctx& c, int set, bool zeros) {
  Tol t = {EXACT, 0, 0, 0}; t.k = (Kind)c.pick("kind", NKIND);
  static const double tv[] = {0.5, 1.0, -0.5, 0.01, -0.01, 0.25, 2.0, 0.0, 1e-15};
  (void)zeros;
  if (t.k == REL) { t.tol = tv[c.pick("tol", 9)]; c.assume(set != 5); }
  if (t.k == RELABS) { t.tol = tv[c.pick("tol", 9)]; static const double av[] = {0, 1, 0.5, 1e-30}; t.abs_ = av[c.pick("abs", 4)]; c.assume(set != 5); }
  if (t.k == ABS) { static const double av[] = {0, 0.5, -0.5, 1, 2, 10, -10, 1e-30, 5e-324, 2e-16}; t.tol = av[c.pick("tol", 10)]; }
  if (t.k == ULP) { static const unsigned uv[] = {0, 1, 2, 3, 4, 100}; t.ulps = uv[c.pick("ulps", 6)]; }
  return t;
}
template <class F> bool domain(Fld<F>& f, const Tol& t) {   // documented: undefined for an all-zero first field with a derived floor
  if (t.tol == 0) return true;
  if (t.k == REL || (t.k == RELABS && t.abs_ == 0)) { for (size_t i = 0; i < f.size(); ++i) if (f.data()[i] != 0) { if (t.k == REL) return std::fabs((double)f.data()[i]) > 1e-10; } else if (t.k == RELABS) return false; return t.k == RELABS; }
  return true;
}
// every pair of two-cell fields over the value sets
template <class F> void values(mc::Ctx& c) {
  typedef typename F::value_type T;
  int set = c.pick("set", 6); std::vector<T> v = V<T>(set);
  Tol t = pickTol<F>(c, set, false);
  Fld<F> f(IntVec(2, 1, 1), IntVec(0, 0, 0), GhostData(0)), g(IntVec(2, 1, 1), IntVec(0, 0, 0), GhostData(0));
  f.data()[0] = c.in("a0", v); f.data()[1] = c.in("a1", v); g.data()[0] = c.in("b0", v); g.data()[1] = c.in("b1", v);
  c.assume(domain(f, t)); judge(c, f, g, t.k, t.tol, t.abs_, t.ulps);
}
template <class F> void scalars(mc::Ctx& c) {
  typedef typename F::value_type T;
  int set = c.pick("set", 6); std::vector<T> v = V<T>(set);
  Tol t = pickTol<F>(c, set, false);
  if (t.k == ULP) c.assume(sizeof(T) == sizeof(double));
  Fld<F> g(IntVec(2, 1, 1), IntVec(0, 0, 0), GhostData(0));
  double d = (double)c.in("d", v); g.data()[0] = c.in("b0", v); g.data()[1] = c.in("b1", v);
  if (t.tol != 0 && t.k == REL) c.assume(domain(g, t)); if (t.tol != 0 && t.k == RELABS) c.assume(t.abs_ != 0 || d != 0);
  judge_scalar(c, d, g, t.k, t.tol, t.abs_, t.ulps);
}
// exactly one deciding cell, anywhere (ghosts and extra cells included)
template <class F> void positions(mc::Ctx& c) {
  typedef typename F::value_type T;
  IntVec n(c.range("nx", 1, 3), c.range("ny", 1, 2), c.range("nz", 1, 2)); GhostData gd = c.flip("ghosts") ? GhostData(1, 0, 1, 1, 0, 1) : GhostData(0);
  int bc = c.flip("bc"); Fld<F> f(n, IntVec(bc, bc, bc), gd), g(n, IntVec(bc, bc, bc), gd); f.fillConst(T(2)); g.fillConst(T(2));
  size_t i = c.pick("cell", (int)f.size()); int delta = c.pick("delta", 4); T d = delta == 0 ? up(T(2), 1) : delta == 1 ? T(2.5) : delta == 2 ? T(-2) : T(2);
  bool inFirst = c.flip("in-first"); (inFirst ? f : g).data()[i] = d;
  static const Tol ts[] = {{EXACT, 0, 0, 0}, {REL, 0.125, 0, 0}, {RELABS, 0.125, 0.125, 0}, {ABS, 0.25, 0, 0}, {ABS, -0.5, 0, 0}, {ULP, 0, 0, 0}, {ULP, 0, 0, 1}};
  const Tol& t = ts[c.pick("tol", 7)];
  judge(c, f, g, t.k, t.tol, t.abs_, t.ulps);
  if (t.k != ULP || sizeof(T) == sizeof(double)) judge_scalar(c, 2.0, inFirst ? f : g, t.k, t.tol, t.abs_, t.ulps);
}
// windows: views, mismatches
MC_SCENARIO(windows) {
  IntVec p(3, 2, 1); GhostData g0(0); BoundaryCellInfo bi = BoundaryCellInfo::build<SVolField>();
  std::vector<double> ma(6, 1), mb(6, 1); for (int i = 0; i < 6; ++i) ma[i] = mb[i] = i + 1;
  SVolField A(MemoryWindow(p), bi, g0, ma.data(), ExternalStorage), B(MemoryWindow(p), bi, g0, mb.data(), ExternalStorage);
  IntVec oa(c.range("ao", 0, 2), 0, 0), ea(c.range("ae", 1, 3 - oa[0]), c.range("aey", 1, 2), 1), ob(c.range("bo", 0, 2), 0, 0), eb(c.range("be", 1, 3 - ob[0]), c.range("bey", 1, 2), 1);
  int cell = c.pick("changed", 7); if (cell < 6) mb[cell] = -7;
  MemoryWindow wa(p, oa, ea), wb(p, ob, eb); SVolField va(wa, A), vb(wb, B); bool same = oa == ob && ea == eb;
  int k = c.pick("kind", 4); bool thrown = false, eq = false, ne = true;
  try { eq = k == 0 ? field_equal(va, vb) : k == 1 ? field_equal(va, vb, 0.5, 1e-3) : k == 2 ? field_equal_abs(va, vb, 0.25) : field_equal_ulp(va, vb, 2u); } catch (std::exception&) { thrown = true; }
  bool thrown2 = false; try { ne = k == 0 ? field_not_equal(va, vb) : k == 1 ? field_not_equal(va, vb, 0.5, 1e-3) : k == 2 ? field_not_equal_abs(va, vb, 0.25) : field_not_equal_ulp(va, vb, 2u); } catch (std::exception&) { thrown2 = true; }
  c.step(2); c.check(thrown == !same && thrown2 == !same, "reject", "windows %s but exception %d/%d", same ? "equal" : "differ", (int)thrown, (int)thrown2);
  if (same) { int x = cell % 3, y = cell / 3; bool in = cell < 6 && x >= oa[0] && x < oa[0] + ea[0] && y < ea[1]; c.check(eq == !in && ne == in, "verdict", "cells outside the window decide (changed %d)", cell);
    double m = 0; bool all1 = true; for (int j = 0; j < ea[1]; ++j) for (int i = 0; i < ea[0]; ++i) { m = ma[oa[0] + i + 3 * j]; if (m != ma[oa[0]]) all1 = false; } c.check(field_equal(ma[oa[0]], va) == all1, "verdict", "scalar comparison of a view"); }
  std::vector<double> m3(8, 1); SVolField C(MemoryWindow(IntVec(4, 2, 1)), bi, g0, m3.data(), ExternalStorage); bool t3 = false; try { field_equal(A, C); } catch (std::exception&) { t3 = true; } c.check(t3, "reject", "fields of different dimensions compared");
}
}
MC_REGISTER(values_double, values<SVolField>)
MC_REGISTER(values_float, values<FloatField>)
MC_REGISTER(scalars_double, scalars<SVolField>)
MC_REGISTER(scalars_float, scalars<FloatField>)
MC_REGISTER(positions_svol, positions<SVolField>)
MC_REGISTER(positions_xvol, positions<XVolField>)
MC_REGISTER(positions_float, positions<FloatField>)
