// O02: every small table, evaluation point, order and monomial on the real Lagrange interpolation and derivative.
#include "mc.h"
#include <spatialops/structured/onedim/LagrangePoly.h>
#include <cmath>
#include <set>
namespace {
struct Table { std::vector<double> x, at; double unit = 1; };
Table table(mc::Ctx& c, int lo, int hi) {
  static const double gaps[3] = {1, 0.5, 2.25}; Table t; int n = c.range("points", lo, hi); double x = c.of("start", {-2.5, 0.0}); t.x.push_back(x);
  for (int i = 1; i < n; ++i) { x += gaps[c.pick("gap", 3)]; t.x.push_back(x); }
  if (n <= c.bound(4, 5)) { t.unit = c.of("unit", {1.0, 1.0 / (1 << 30), 1048576.0}); for (double& v : t.x) v *= t.unit; } else t.unit = 1;
  for (int i = 0; i < n; ++i) { t.at.push_back(t.x[i]); if (i + 1 < n) { double g = t.x[i + 1] - t.x[i]; t.at.push_back(t.x[i] + g * 0.25); t.at.push_back(t.x[i] + g * 0.5); t.at.push_back(t.x[i] + g * 0.875); } }
  t.at.push_back(t.x[0] - 0.125 * t.unit); t.at.push_back(t.x[0] - 3 * t.unit); t.at.push_back(t.x.back() + 0.125 * t.unit); t.at.push_back(t.x.back() + 3 * t.unit); return t;
}
// admissible first points of the n+1 point window around x
std::set<int> windows(const std::vector<double>& X, double x, int order) {
  int nx = X.size(), np = order + 1; std::set<int> s; auto clip = [&](int a) { s.insert(std::max(0, std::min(a, nx - np))); };
  if (x < X[0]) { clip(-nx); return s; } if (x > X[nx - 1]) { clip(2 * nx); return s; }
  for (int i = 0; i + 1 < nx; ++i) if (X[i] <= x && x <= X[i + 1]) { int h = np / 2; if (np % 2 == 0) clip(i + 1 - h); else { double a = x - X[i], b = X[i + 1] - x; if (a <= b) clip(i - h); if (b <= a) clip(i + 1 - h); } }
  return s;
}
double mono(double x, int d) { double r = 1; for (int i = 0; i < d; ++i) r *= x; return r; }
void run(mc::Ctx& c, const Table& t, int order, double x, bool deriv) {
  int np = order + 1; double mid = t.x[t.x.size() / 2]; std::vector<double> co; std::vector<int> in;
  LagrangeCoefficients lc(t.x); LagrangeCoefficients lp(t.x.data(), t.x.data() + t.x.size()); co.assign(3, 99); in.assign(2, 99);
  if (deriv) lc.get_derivative_coefs_indices(x, order, co, in); else lc.get_interp_coefs_indices(x, order, co, in);
  std::vector<double> co2; std::vector<int> in2; if (deriv) lp.get_derivative_coefs_indices(x, order, co2, in2); else lp.get_interp_coefs_indices(x, order, co2, in2);
  c.check(co == co2 && in == in2, "forms", "range and vector tables differ"); c.check(lc.get_x() == t.x, "table", "table changed"); c.step(2);
  c.check((int)co.size() == np && (int)in.size() == np, "count", "order %d gives %zu coefficients and %zu indices", order, co.size(), in.size());
  for (int i = 0; i < np; ++i) { c.check(in[i] >= 0 && in[i] < (int)t.x.size(), "range", "index %d outside the table of %zu", in[i], t.x.size()); if (i) c.check(in[i] == in[i - 1] + 1, "consecutive", "indices not consecutive"); }
  auto w = windows(t.x, x, order); c.check(w.count(in[0]), "bracket", "order %d at %g uses points %d..%d", order, x, in[0], in[0] + order);
  for (int d = 0; d <= order; ++d) {
    std::vector<double> y; for (double v : t.x) y.push_back(mono((v - mid) / t.unit, d) * 2); double z = (x - mid) / t.unit, e = deriv ? (d ? 2 * d * mono(z, d - 1) / t.unit : 0) : 2 * mono(z, d), sum = 0, mag = deriv ? 1 / t.unit : 1; for (int i = 0; i < np; ++i) { sum += co[i] * y[in[i]]; mag += std::fabs(co[i] * y[in[i]]); }
    double tol = 1e-12 * mag; c.check(std::fabs(sum - e) <= tol, "coefs", "coefficients give %.15g for degree %d at %g (order %d), expected %.15g", sum, d, x, order, e);
    double v, v2, v3, v4;
    if (deriv) { LagrangeDerivative L(t.x, y), M(t.x, y, order); v = L.value(x, order); v2 = M.value(x); L.value(t.x[0], 1); v3 = L.value(x, order); std::vector<double> k; std::vector<int> j; M.get_coefs_indices(x, order, k, j); c.check(k == co && j == in, "forms", "derivative coefficient forms differ"); v4 = t.x.size() > 2 && order == 2 ? L.value(x) : v; }
    else { LagrangeInterpolant L(t.x, y), M(t.x, y, order); v = L.value(x, order); v2 = M.value(x); L.value(t.x[0], 1); v3 = L.value(x, order); std::vector<double> k; std::vector<int> j; M.get_coefs_indices(x, order, k, j); c.check(k == co && j == in, "forms", "interpolant coefficient forms differ"); v4 = t.x.size() > 2 && order == 2 ? L.value(x) : v; }
    c.check(std::fabs(v - e) <= tol, "value", "degree %d at %g (order %d): %.15g, expected %.15g", d, x, order, v, e); c.check(v == v2 && v == v3 && v == v4, "forms", "value forms differ: %.15g %.15g %.15g %.15g", v, v2, v3, v4); c.step(4);
  }
}
void interp(mc::Ctx& c) { Table t = table(c, 2, c.bound(6, 7)); int order = c.range("order", 0, t.x.size() - 1); double x = t.at[c.pick("at", t.at.size())]; run(c, t, order, x, false); }
void deriv(mc::Ctx& c) { Table t = table(c, 2, c.bound(6, 7)); int order = c.range("order", 0, t.x.size() - 1); double x = t.at[c.pick("at", t.at.size())]; run(c, t, order, x, true); }
// long tables of irregular spacing, every order up to 5
void longTables(mc::Ctx& c) {
  Table t; int n = c.of("points", {12, 21}), pat = c.pick("pattern", 3); double x = -1; for (int i = 0; i < n; ++i) { t.x.push_back(x); x += pat == 0 ? 0.5 : pat == 1 ? (i % 3 ? 0.25 : 1) : 0.125 * (i + 1); }
  for (int i = 0; i < n; ++i) { t.at.push_back(t.x[i]); if (i + 1 < n) for (double f : {0.0625, 0.5, 0.75}) t.at.push_back(t.x[i] + (t.x[i + 1] - t.x[i]) * f); } t.at.push_back(t.x[0] - 0.25); t.at.push_back(t.x.back() + 0.25);
  bool d = c.flip("derivative"); int order = c.range("order", 0, 5); run(c, t, order, t.at[c.pick("at", t.at.size())], d);
}
}
MC_REGISTER(interp, interp) MC_REGISTER(deriv, deriv) MC_REGISTER(long_tables, longTables)
