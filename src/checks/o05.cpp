// O05: analytic field functions and their derivatives, every cell, shape and parameter combination.
#include "sops.h"
#include <functional>
#include <cassert>
#include <spatialops/FieldFunctions.h>
using namespace sops;
namespace {
typedef std::function<double(double)> Fn;
struct Exp { Fn f; double mag; };
// x takes values across the interesting range in every cell order: pattern rotates which cell holds which coordinate
static const double XS[] = {-3.5, -1.0, -0.25, 0, 0.125, 0.5, 0.75, 1.0, 1.5, 2.0, 3.25, 10.0, 40.0, -40.0};
template <class F> struct Case {
  std::unique_ptr<Fld<F> > x, f; Box w; std::vector<typename F::value_type> x0, f0;
  Case(mc::Ctx& c) {
    static const int SH[4][3] = {{5, 1, 1}, {1, 3, 1}, {3, 2, 1}, {2, 2, 3}}; int s = c.pick("shape", 4); IntVec n(SH[s][0], SH[s][1], SH[s][2]), bc(0, 0, 0); int b = c.pick("bc", 2); for (int d = 0; d < 3; ++d) bc[d] = b && n[d] > 1; int g = c.pick("ghosts", 4);
    GhostData gx = g == 1 ? GhostData(0) : g == 3 ? GhostData(2, 1, 0, 1, 1, 2) : GhostData(1), gf = g == 2 ? GhostData(2) : g == 3 ? GhostData(1, 1, 1, 1, 0, 0) : gx;
    x.reset(new Fld<F>(n, bc, gx)); f.reset(new Fld<F>(n, bc, gf)); int rot = c.pick("rotation", 3) * 5; for (size_t i = 0; i < x->size(); ++i) x->data()[i] = XS[(i + rot) % 14]; f->fill(4); x0 = x->mem; f0 = f->mem;
    for (int d = 0; d < 3; ++d) { if (n[d] == 1) { w.lo[d] = 0; w.hi[d] = 1; continue; } w.lo[d] = -std::min(gx.get_minus(d), gf.get_minus(d)); w.hi[d] = n[d] + x->extra[d] + std::min(gx.get_plus(d), gf.get_plus(d)); }
  }
  // constant: independent of x, so every cell of f is written
  void verify(mc::Ctx& c, const char* what, Fn e, double scale, bool constant) {
    c.step(); c.check(x->mem == x0, "coordinate", "%s modified the coordinate field", what); Box r = constant ? f->whole() : w;
    cells(f->whole(), [&](int i, int j, int k) { double got = f->at(i, j, k); if (!r.has(i, j, k)) { c.check(got == f0[Fld<F>::Z + f->flat(i, j, k)], "stray", "%s changed cell (%d,%d,%d), which has no coordinate", what, i, j, k); return; }
      double xv = x->inArray(i, j, k) ? x->at(i, j, k) : 0, v = e(xv); c.check(close(got, v, 1e-13, 1e-14 * scale), "value", "%s at x=%g, cell (%d,%d,%d): %.17g, expected %.17g", what, xv, i, j, k, got, v); });
    c.check(f->guards_ok(), "bounds", "%s wrote outside the field", what); f->mem = f0;
  }
};
template <class F, class Func> void derivs(mc::Ctx& c, Case<F>& k, const Func& fn, Fn f, Fn d1, Fn d2, double scale, bool lin, const char* name) {
  c.check(&fn.get_x() == &k.x->f(), "coordinate", "%s: get_x is not the field given", name); const FieldFunction1D<F>& base = fn; std::string n(name);
  int which = c.pick("op", 3); bool virt = c.flip("through base");
  if (which == 0) { if (virt) base.evaluate(k.f->f()); else fn.evaluate(k.f->f()); k.verify(c, (n + " value").c_str(), f, scale, false); } else if (which == 1) { if (virt) base.dx(k.f->f()); else fn.dx(k.f->f()); k.verify(c, (n + " first derivative").c_str(), d1, scale, lin); } else { if (virt) base.d2x(k.f->f()); else fn.d2x(k.f->f()); k.verify(c, (n + " second derivative").c_str(), d2, scale, lin); }
}
template <class F> void linear(mc::Ctx& c) { Case<F> k(c); double m = c.of("slope", {0.0, 1.0, -2.5}), b = c.of("intercept", {0.0, 3.0, -1.25}); LinearFunction1D<F> fn(k.x->f(), m, b); derivs(c, k, fn, [=](double x) { return m * x + b; }, [=](double) { return m; }, [=](double) { return 0.0; }, 100, true, "linear"); }
template <class F> void sine(mc::Ctx& c) {
  Case<F> k(c); double a = c.of("amplitude", {1.0, 2.5, -3.0}), b = c.of("period", {1.0, 0.5, -4.0, 0.0}), s = c.of("base", {0.0, 1.5}); bool def = s == 0 && c.flip("default base"); std::unique_ptr<SinFunction<F> > fn(def ? new SinFunction<F>(k.x->f(), a, b) : new SinFunction<F>(k.x->f(), a, b, s));
  derivs(c, k, *fn, [=](double x) { return a * std::sin(b * x) + s; }, [=](double x) { return a * b * std::cos(b * x); }, [=](double x) { return -a * b * b * std::sin(b * x); }, 1000, false, "sine");
}
template <class F> void gauss(mc::Ctx& c) {
  Case<F> k(c); double a = c.of("amplitude", {1.0, -2.5}), s = c.of("deviation", {1.0, 0.5, 3.0}), m = c.of("mean", {0.0, 0.75, -2.0}), y = c.of("base", {0.0, 1.5}); bool def = y == 0 && c.flip("default base"); std::unique_ptr<GaussianFunction<F> > fn(def ? new GaussianFunction<F>(k.x->f(), a, s, m) : new GaussianFunction<F>(k.x->f(), a, s, m, y)); double v = s * s;
  auto g = [=](double x) { return a * std::exp(-(x - m) * (x - m) / (2 * v)); };
  derivs(c, k, *fn, [=](double x) { return g(x) + y; }, [=](double x) { return -(x - m) / v * g(x); }, [=](double x) { return ((x - m) * (x - m) / (v * v) - 1 / v) * g(x); }, 100, false, "Gaussian");
}
template <class F> void hyper(mc::Ctx& c) {
  Case<F> k(c); double a = c.of("amplitude", {1.0, -3.0}), w = c.of("width", {1.0, 0.25, 2.0}), l = c.of("L1", {0.0, -1.0}), u = c.of("L2", {1.0, 0.5}); HyperTanFunction<F> fn(k.x->f(), a, w, l, u); c.check(&fn.get_x() == &k.x->f(), "coordinate", "get_x"); fn.evaluate(k.f->f());
  k.verify(c, "hyperbolic tangent", [=](double x) { return a / 4 * (1 + std::tanh((x - l) / w)) * (1 - std::tanh((x - u) / w)); }, 10, false);
}
// user functions of two and three coordinates see the fields they were given
template <class F> struct F2 : FieldFunction2D<F> { F2(const F& x, const F& y) : FieldFunction2D<F>(x, y) {} void evaluate(F& f) const { this->set_fields(); f <<= this->get_x() * 2.0 + this->get_y(); } };
template <class F> struct F3 : FieldFunction3D<F> { F3(const F& x, const F& y, const F& z) : FieldFunction3D<F>(x, y, z) {} void evaluate(F& f) const { f <<= this->get_x() * 2.0 + this->get_y() - this->get_z() * 4.0; } };
template <class F> void user(mc::Ctx& c) {
  Case<F> k(c); Fld<F> y(k.x->n, k.x->extra, k.x->gd), z(k.x->n, k.x->extra, k.x->gd); y.fill(7); z.fill(9); auto y0 = y.mem, z0 = z.mem; auto cell = [&](int i, int j, int l, bool three) { return k.x->at(i, j, l) * 2 + y.at(i, j, l) - (three ? z.at(i, j, l) * 4 : 0); }; bool three = c.flip("three");
  if (three) { F3<F> f(k.x->f(), y.f(), z.f()); c.check(&f.get_x() == &k.x->f() && &f.get_y() == &y.f() && &f.get_z() == &z.f(), "coordinate", "coordinates mixed up"); f.evaluate(k.f->f()); } else { F2<F> f(k.x->f(), y.f()); c.check(&f.get_x() == &k.x->f() && &f.get_y() == &y.f(), "coordinate", "coordinates mixed up"); f.evaluate(k.f->f()); }
  c.step(); cells(k.w, [&](int i, int j, int l) { c.check(close(k.f->at(i, j, l), cell(i, j, l, three)), "value", "user function at (%d,%d,%d)", i, j, l); }); c.check(y.mem == y0 && z.mem == z0 && k.x->mem == k.x0, "coordinate", "coordinates modified");
}
}
MC_REGISTER(linear_svol, linear<SVolField>) MC_REGISTER(linear_ssurfx, linear<SSurfXField>) MC_REGISTER(sine_svol, sine<SVolField>) MC_REGISTER(sine_yvol, sine<YVolField>) MC_REGISTER(gauss_svol, gauss<SVolField>) MC_REGISTER(gauss_zsurfz, gauss<ZSurfZField>) MC_REGISTER(hyper_svol, hyper<SVolField>) MC_REGISTER(hyper_ssurfy, hyper<SSurfYField>) MC_REGISTER(user_svol, user<SVolField>)
