// O04: point gather and scatter for every selection of cells.
#include "sops.h"
#include <spatialops/pointfield/PointFieldTypes.h>
#include <spatialops/pointfield/PointOperators.h>
using namespace sops; using namespace SpatialOps::Point;
namespace {
static const int SH[6][3] = {{4, 1, 1}, {2, 2, 1}, {1, 3, 1}, {2, 1, 2}, {3, 2, 2}, {5, 4, 3}};
struct Sel { std::vector<size_t> ix; };
template <class F> void run(mc::Ctx& c, Fld<F>& a, const std::vector<size_t>& ix, int form) {
  int np = ix.size(); Fld<PointField> p(IntVec(np, 1, 1), IntVec(0, 0, 0), GhostData(0)); p.fillConst(-31); Fld<F> mark(a.n, a.extra, a.gd); mark.fillConst(0); static const typename F::value_type MV[3] = {1, (typename F::value_type)-0.5, 1000}; int q = 0; for (size_t i : ix) mark.data()[i] = MV[q++ % 3];
  auto a0 = a.mem, m0 = mark.mem; std::unique_ptr<FieldToPoint<F> > get; std::unique_ptr<PointToField<F> > put;
  if (form & 1) get.reset(new FieldToPoint<F>(mark.f())); else get.reset(new FieldToPoint<F>(ix)); if (form & 2) put.reset(new PointToField<F>(mark.f())); else put.reset(new PointToField<F>(ix));
  get->apply_to_field(a.f(), p.f()); c.step(); for (int i = 0; i < np; ++i) c.check(p.data()[i] == a.data()[ix[i]], "gather", "point %d is %g, cell %zu holds %g", i, (double)p.data()[i], ix[i], (double)a.data()[ix[i]]);
  c.check(a.mem == a0 && mark.mem == m0 && p.guards_ok(), "operand", "source or markers modified, or write outside the point field");
  put->apply_to_field(p.f(), a.f()); c.step(); c.check(a.mem == a0, "identity", "putting the extracted points back changed the field");
  auto e = a0; for (int i = 0; i < np; ++i) { p.data()[i] = 100 + i; e[Fld<F>::Z + ix[i]] = 100 + i; } auto p0 = p.mem; put->apply_to_field(p.f(), a.f()); c.check(a.mem == e, "scatter", "field differs from the one with exactly the %d selected cells replaced", np);
  c.check(p.mem == p0, "operand", "point field modified"); put->apply_to_field(p.f(), a.f()); c.check(a.mem == e, "scatter", "second put differs"); p.fillConst(0); get->apply_to_field(a.f(), p.f()); for (int i = 0; i < np; ++i) c.check(p.data()[i] == 100 + i, "gather", "point %d does not see the new value", i);
}
template <class F> Fld<F>* make(mc::Ctx& c, int s, int ghosts, int bc) { IntVec n(SH[s][0], SH[s][1], SH[s][2]), b(0, 0, 0); for (int d = 0; d < 3; ++d) b[d] = n[d] > 1 && (bc >> d & 1); GhostData g = ghosts == 0 ? GhostData(0) : ghosts == 1 ? GhostData(1, 0, 0, 1, 0, 0) : GhostData(1); Fld<F>* f = new Fld<F>(n, b, g); f->fill(3); return f; }
// every non-empty subset of small fields
template <class F> void subsets(mc::Ctx& c) {
  int s = c.pick("shape", 4), g = c.pick("ghosts", 2), bc = c.pick("bc", 2) * 7; std::unique_ptr<Fld<F> > a(make<F>(c, s, g, bc)); c.assume(a->size() <= (size_t)c.bound(9, 12)); int form = c.pick("form", 4); std::vector<size_t> ix; int sub = 1 + c.pick("subset", (1 << a->size()) - 1); for (size_t i = 0; i < a->size(); ++i) if (sub >> i & 1) ix.push_back(i); run(c, *a, ix, form);
}
// every ordered list of up to three distinct cells (index form keeps the given order)
template <class F> void orders(mc::Ctx& c) {
  int s = c.pick("shape", 5); std::unique_ptr<Fld<F> > a(make<F>(c, s, c.pick("ghosts", 2), c.pick("bc", 2) * 7)); c.assume(a->size() <= (size_t)c.bound(14, 24)); int k = c.range("count", 1, 3); std::vector<size_t> ix; for (int i = 0; i < k; ++i) { size_t x = c.pick("cell", a->size()); for (size_t y : ix) c.assume(x != y); ix.push_back(x); } run(c, *a, ix, 0);
}
// pairs of cells, a full selection, everything but one, on larger ghosted fields with boundary cells
template <class F> void large(mc::Ctx& c) {
  int s = 4 + c.pick("shape", 2); std::unique_ptr<Fld<F> > a(make<F>(c, s, 2, c.pick("bc", 8))); int k = c.pick("kind", 3); std::vector<size_t> ix; size_t N = a->size();
  if (k == 0) { size_t x = c.pick("cell", N), y = x + 1 + c.pick("gap", 7); c.assume(y < N); ix = {x, y}; } else { size_t skip = k == 1 ? N : c.pick("cell", N); for (size_t i = 0; i < N; ++i) if (i != skip) ix.push_back(i); } run(c, *a, ix, c.pick("form", 4));
}
}
MC_REGISTER(subsets_svol, subsets<SVolField>) MC_REGISTER(subsets_ssurfy, subsets<SSurfYField>) MC_REGISTER(orders_svol, orders<SVolField>) MC_REGISTER(large_xvol, large<XVolField>) MC_REGISTER(large_ssurfz, large<SSurfZField>)
