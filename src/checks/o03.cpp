// O03: particle <-> mesh transfer against the exact overlap of intervals.
#include "sops.h"
#include <spatialops/particles/ParticleFieldTypes.h>
#include <spatialops/particles/ParticleOperators.h>
using namespace sops; using namespace SpatialOps::Particle;
namespace {
struct Part { double x, size, v; };
template <class F> struct Mesh {
  std::unique_ptr<Fld<F> > x; int cells; double lo, h;
  Mesh(int axis, int n, int gm, int gp, double x0, double dx) { IntVec d(1, 1, 1); d[axis] = n; int g[6] = {0, 0, 0, 0, 0, 0}; g[2 * axis] = gm; g[2 * axis + 1] = gp; x.reset(new Fld<F>(d, IntVec(0, 0, 0), GhostData(g[0], g[1], g[2], g[3], g[4], g[5]))); cells = x->size(); h = dx; for (int i = 0; i < cells; ++i) x->data()[i] = x0 + i * dx; lo = x0 - dx / 2; }
};
double overlap(double a, double b, double c, double d) { return std::max(0.0, std::min(b, d) - std::max(a, c)); }
// transfers of a list of particles both ways
template <class F> void both(mc::Ctx& c, Mesh<F>& m, const std::vector<Part>& ps, int axis, int n, int gm, int gp, bool inside) {
  int np = ps.size(); IntVec pn(np, 1, 1); Fld<ParticleField> px(pn, IntVec(0, 0, 0), GhostData(0)), psz(pn, IntVec(0, 0, 0), GhostData(0)), pv(pn, IntVec(0, 0, 0), GhostData(0)), out(pn, IntVec(0, 0, 0), GhostData(0));
  for (int i = 0; i < np; ++i) { px.data()[i] = ps[i].x; psz.data()[i] = ps[i].size; pv.data()[i] = ps[i].v; } out.fillConst(-77);
  Mesh<F> src(axis, n, gm, gp, 0, 1), dst(axis, n, gm, gp, 0, 1); src.x->fill(5); dst.x->fillConst(-55); auto mx = m.x->mem, sv = src.x->mem, a = px.mem, b = psz.mem, v = pv.mem;
  typedef ParticleToCell<F> P2C; typedef CellToParticle<F> C2P; P2C p2c(m.x->f()); C2P c2p(m.x->f()); bool t1 = false, t2 = false;
  try { p2c.apply_to_field(px.f(), psz.f(), pv.f(), dst.x->f()); } catch (std::exception&) { t1 = true; }
  try { c2p.apply_to_field(px.f(), psz.f(), src.x->f(), out.f()); } catch (std::exception&) { t2 = true; } c.step(2);
  c.check(t1 == !inside && t2 == !inside, "domain", "particles %s the mesh %s/%s (to mesh/to particles)", inside ? "inside" : "outside", t1 ? "rejected" : "accepted", t2 ? "rejected" : "accepted");
  c.check(m.x->mem == mx && src.x->mem == sv && px.mem == a && psz.mem == b && pv.mem == v && dst.x->guards_ok() && out.guards_ok(), "operand", "input modified or write outside a field"); if (!inside) return;
  double tot = 0, want = 0, mag = 1;
  for (int i = 0; i < m.cells; ++i) { double e = 0, l = m.lo + i * m.h; for (auto& p : ps) e += p.v * overlap(l, l + m.h, p.x - p.size / 2, p.x + p.size / 2) / p.size; double got = dst.x->data()[i]; c.check(std::fabs(got - e) <= 1e-10, "deposit", "cell %d gets %.15g, expected %.15g", i, got, e); tot += got; }
  for (auto& p : ps) { want += p.v; mag += std::fabs(p.v); } c.check(std::fabs(tot - want) <= 1e-13 * mag * m.cells, "conserve", "mesh total %.17g, particle total %.17g", tot, want);
  for (int k = 0; k < np; ++k) { double e = 0; for (int i = 0; i < m.cells; ++i) { double l = m.lo + i * m.h; e += src.x->data()[i] * overlap(l, l + m.h, ps[k].x - ps[k].size / 2, ps[k].x + ps[k].size / 2) / ps[k].size; } c.check(std::fabs(out.data()[k] - e) <= 1e-10, "gather", "particle %d gets %.15g, expected %.15g", k, (double)out.data()[k], e); }
  src.x->fillConst(6.5); c2p.apply_to_field(px.f(), psz.f(), src.x->f(), out.f()); for (int k = 0; k < np; ++k) c.check(close(out.data()[k], 6.5, 1e-13), "constant", "particle %d in a constant field gets %.17g", k, (double)out.data()[k]);
}
struct Geo { int n, gm, gp, axis; double x0, h; };
Geo geo(mc::Ctx& c, int nlo, int nhi) {
  Geo g; g.n = c.range("n", nlo, nhi); int k = g.n > 1 ? c.pick("ghosts", 3) : 0; g.gm = k > 0; g.gp = k == 1; g.axis = c.pick("axis", 3); if (g.axis) c.assume(g.n > 1);
  g.h = c.of("dx", {1.0, 0.5, 3.0, 0.1}); g.x0 = g.h * c.of("origin", {-0.5, 0.0, 0.5, 3.25, -7.0, -1.0}); return g;
}
// one particle: every position and size on a lattice of 1/4 cell, inside or reaching outside
template <class F> void one(mc::Ctx& c, int nhi) {
  Geo g = geo(c, 2, nhi); Mesh<F> m(g.axis, g.n, g.gm, g.gp, g.x0, g.h); int q = 4 * m.cells, l = c.range("left", -6, q + 2), s = c.of("size", {1, 2, 3, 4, 5, 7, 8, 11, 12, 16}); bool inside = l >= 0 && l + s <= q;
  std::vector<Part> p(1, Part{m.lo + (l + s / 2.0) * g.h / 4, s * g.h / 4, c.of("value", {8.0, -3.0, 0.0})}); both(c, m, p, g.axis, g.n, g.gm, g.gp, inside);
}
// several particles: overlapping, nested, equal, adjacent, one of them outside
void many(mc::Ctx& c) {
  Geo g; g.n = 3; g.gm = g.gp = c.pick("ghosts", 2); g.axis = 0; g.h = c.of("dx", {1.0, 0.25}); g.x0 = g.h * c.of("origin", {-0.5, 2.0, -3.0}); Mesh<SVolField> m(0, 3, g.gm, g.gp, g.x0, g.h); int q = 2 * m.cells; std::vector<Part> p; bool in = true;
  int np = c.range("particles", 2, c.bound(2, 3)); for (int i = 0; i < np; ++i) { int l = c.range("left", i ? -1 : 0, q - 1), s = c.of("size", {1, 2, 5}); p.push_back(Part{m.lo + (l + s / 2.0) * g.h / 2, s * g.h / 2, i == 1 ? c.of("value", {-2.5, 0.0}) : i ? -2.5 : 4}); if (l < 0 || l + s > q) in = false; }
  both(c, m, p, 0, 3, g.gm, g.gp, in);
}
// operators are built exactly on uniform meshes
template <class Op, class F> bool builds(Fld<F>& x) { try { Op o(x.f()); return true; } catch (std::exception&) { return false; } }
void uniform(mc::Ctx& c) {
  Geo g = geo(c, 2, c.bound(4, 6)); Mesh<SVolField> m(g.axis, g.n, g.gm, g.gp, g.x0, g.h); int at = c.range("at", -1, m.cells - 1); double off = at < 0 ? 0 : c.of("shift", {1e-3, -1e-3, 0.5, -0.5, 1e-9, -1e-9}); if (at >= 0) m.x->data()[at] += off * g.h;
  bool ok = at < 0 || std::fabs(off) < 1e-8 || m.cells == 2; bool a = builds<ParticleToCell<SVolField> >(*m.x), b = builds<CellToParticle<SVolField> >(*m.x); c.step(2); c.check(a == ok && b == ok, "uniform", "%s mesh %s/%s", ok ? "uniform" : "non-uniform", a ? "accepted" : "rejected", b ? "accepted" : "rejected");
}
void one_svol(mc::Ctx& c) { one<SVolField>(c, c.bound(3, 5)); }
void one_xvol(mc::Ctx& c) { one<XVolField>(c, 2); }
}
MC_REGISTER(one_svol, one_svol) MC_REGISTER(one_xvol, one_xvol) MC_REGISTER(many, many) MC_REGISTER(uniform, uniform)
