// F05: Grid coordinates and spacings for all sixteen staggered types.
#include "faces.h"
#include <spatialops/structured/Grid.h>
using namespace sops;
namespace {
const double LEN[] = {1.0, 3.0, 0.1, 1e6, 7.5};
template <class F, class Dir> void one(mc::Ctx& c, const Grid& g, const double* L, const IntVec& n, const IntVec& bc, const GhostData& gd, const GhostData* valid, int dir) {
  Fld<F> f(n, bc, gd); f.fillConst(-12345);
  Box w = f.whole(), in = f.interior();
  if (valid) { f.f().reset_valid_ghosts(*valid); for (int d = 0; d < 3; ++d) if (n[d] > 1) { w.lo[d] = -valid->get_minus(d); w.hi[d] = in.hi[d] + valid->get_plus(d); } }
  g.set_coord<Dir>(f.f()); c.step();
  double dx = L[dir] / n[dir];
  c.check(g.spacing<Dir>() == dx, "spacing", "spacing %g, expected %g", g.spacing<Dir>(), dx);
  cells(f.whole(), [&](int i, int j, int k) {
    int q[3] = {i, j, k}; double x = (q[dir] + (Face<F>::at(dir) ? 0.0 : 0.5)) * dx, got = f.at(i, j, k);
    if (!w.has(i, j, k)) { c.check(got == -12345, "stray", "cell (%d,%d,%d) outside the field's window was written: %g", i, j, k, got); return; }
    c.check(close(got, x, 1e-14, 1e-15 * L[dir]), "coordinate", "cell (%d,%d,%d): %.17g, expected %.17g (spacing %g)", i, j, k, got, x, dx);
  });
  c.check(f.guards_ok(), "stray", "write outside the field");
}
template <class F> void coords(mc::Ctx& c) {
  int m = c.bound(3, 4); IntVec n(c.range("nx", 1, m), c.range("ny", 1, m), c.range("nz", 1, m)), bc;
  int ls = c.pick("lengths", 4); double L[3]; for (int d = 0; d < 3; ++d) L[d] = LEN[(ls + d) % 5];
  for (int d = 0; d < 3; ++d) bc[d] = c.flip(d == 0 ? "bcx" : d == 1 ? "bcy" : "bcz");
  int gs = c.pick("ghosts", 6);
  GhostData gd = gs == 0 ? GhostData(0) : gs == 1 ? GhostData(1) : gs == 2 ? GhostData(2, 0, 1, 2, 0, 1) : gs == 3 ? GhostData(0, 1, 2, 0, 1, 2) : GhostData(2);
  GhostData v = gs == 4 ? GhostData(1) : GhostData(0, 2, 1, 0, 2, 1);
  Grid g(n, std::vector<double>(L, L + 3));
  for (int d = 0; d < 3; ++d) c.check(g.extent(d) == n[d] && g.length(d) == L[d] && g.extent()[d] == n[d] && g.length()[d] == L[d], "accessor", "extent/length");
  const GhostData* pv = gs >= 4 ? &v : NULL;
  one<F, XDIR>(c, g, L, n, bc, gd, pv, 0); one<F, YDIR>(c, g, L, n, bc, gd, pv, 1); one<F, ZDIR>(c, g, L, n, bc, gd, pv, 2);
}
}
#define R(T) MC_REGISTER(coords_##T, coords<T##Field>)
R(SVol) R(SSurfX) R(SSurfY) R(SSurfZ) R(XVol) R(XSurfX) R(XSurfY) R(XSurfZ) R(YVol) R(YSurfX) R(YSurfY) R(YSurfZ) R(ZVol) R(ZSurfX) R(ZSurfY) R(ZSurfZ)
