// M04: FieldIterator / ConstFieldIterator against an index into the ordered list of window cells.
#include "mc.h"
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <vector>
#include <algorithm>
using namespace SpatialOps; using namespace SpatialOps::structured;
typedef SVolField F;

struct Cells { std::vector<double*> p; std::vector<IntVec> loc; };
static Cells cells(double* base, const IntVec& g, const IntVec& o, const IntVec& e) {
  Cells r;
  for (int k = 0; k < e[2]; ++k) for (int j = 0; j < e[1]; ++j) for (int i = 0; i < e[0]; ++i) {
    r.p.push_back(base + (i + o[0]) + (j + o[1]) * g[0] + (k + o[2]) * g[0] * g[1]); r.loc.push_back(IntVec(i, j, k));
  }
  return r;
}
// check that iterator `it` behaves as position `pos`
template <class It> static void at(mc::Ctx& c, It it, int pos, const Cells& L, const It& b, const It& e, const char* how) {
  int n = (int)L.p.size();
  c.check(it - b == pos, "difference", "%s: it-begin=%ld, expected %d", how, (long)(it - b), pos);
  c.check(e - it == n - pos, "difference", "%s: end-it=%ld, expected %d", how, (long)(e - it), n - pos);
  c.check((it == b) == (pos == 0) && (it != b) == (pos != 0) && (it == e) == (pos == n) && (it != e) == (pos != n), "equality", "%s: (in)equality with begin/end wrong at %d of %d", how, pos, n);
  c.check((it < e) == (pos < n) && (it <= e) && !(it > e) && (it >= e) == (pos >= n) && (it > b) == (pos > 0) && it >= b && !(it < b) && (it <= b) == (pos <= 0), "order", "%s: ordering wrong at %d of %d", how, pos, n);
  if (pos < n) {
    const It& ci = it;
    c.check(&*it == L.p[pos], "dereference", "%s: dereference at %d yields another cell", how, pos);
    c.check((const double*)&*ci == L.p[pos], "dereference", "%s: const dereference at %d yields another cell", how, pos);
    c.check(it.location() == L.loc[pos], "location", "%s: location at %d", how, pos);
  }
}
template <class It> static It reach(mc::Ctx& c, const It& b, const It& e, int n, int pos, int way) {
  It it = b;
  switch (way) {
    case 0: for (int i = 0; i < pos; ++i) ++it; break;
    case 1: it += pos; break;
    case 2: it = e; for (int i = n; i > pos; --i) --it; break;
    case 3: it = e - (n - pos); break;
    case 4: it = b + n; it -= (n - pos); break;
    case 5: for (int i = 0; i < pos; ++i) it++; break;
    case 6: it = e; for (int i = n; i > pos; --i) it--; break;
  }
  return it;
}
template <class It> static void walk(mc::Ctx& c, const It& b, const It& e, const Cells& L) {
  int n = (int)L.p.size();
  c.check(e - b == n, "count", "end-begin is %ld for a window of %d cells", (long)(e - b), n);
  int way = c.pick("reached", 7);
  for (int p = 0; p <= n; ++p) {
    It it = reach(c, b, e, n, p, way); c.step();
    at(c, it, p, L, b, e, "reach");
    for (int q = 0; q <= n; ++q) {
      It jt = it; jt += q - p; at(c, jt, q, L, b, e, "+=");
      // internal state must stay consistent: step off in both directions afterwards
      if (q < n) { It x = jt; ++x; at(c, x, q + 1, L, b, e, "+= then ++"); }
      if (q > 0) { It x = jt; --x; at(c, x, q - 1, L, b, e, "+= then --"); }
      It kt = it; kt -= p - q; at(c, kt, q, L, b, e, "-=");
      at(c, it + (q - p), q, L, b, e, "+"); at(c, it - (p - q), q, L, b, e, "-");
      if (q < n) c.check(&it[q - p] == L.p[q], "subscript", "it[%d] at %d yields another cell", q - p, p);
      c.check(jt - it == q - p && it - jt == p - q, "difference", "difference of two iterators");
      c.check((it == jt) == (p == q) && (it != jt) == (p != q) && (it < jt) == (p < q) && (it > jt) == (p > q) && (it <= jt) == (p <= q) && (it >= jt) == (p >= q), "order", "comparison of positions %d and %d", p, q);
      c.step(8);
    }
    if (p < n) { It x = it; It y = x++; at(c, x, p + 1, L, b, e, "post++"); at(c, y, p, L, b, e, "value of post++"); It z = it; It& r = ++z; c.check(&r == &z, "ref", "++ does not return itself"); }
    if (p > 0) { It x = it; It y = x--; at(c, x, p - 1, L, b, e, "post--"); at(c, y, p, L, b, e, "value of post--"); }
    at(c, it, p, L, b, e, "unchanged");
  }
}
static void pickWin(mc::Ctx& c, int m, IntVec& g, IntVec& o, IntVec& e) {
  static const char* nn[3] = {"nx", "ny", "nz"}; static const char* on[3] = {"ox", "oy", "oz"}; static const char* en[3] = {"ex", "ey", "ez"};
  for (int i = 0; i < 3; ++i) { g[i] = c.range(nn[i], 1, m); o[i] = c.range(on[i], 0, g[i] - 1); e[i] = c.range(en[i], 1, g[i] - o[i]); }
}
MC_SCENARIO(iterator_positions) {
  IntVec g, o, e; pickWin(c, 3, g, o, e);
  int kind = c.pick("kind", 3);
  std::vector<double> mem(g[0] * g[1] * g[2]);
  Cells L = cells(mem.data(), g, o, e);
  MemoryWindow w(g, o, e);
  int n = (int)L.p.size();
  if (kind == 0) { FieldIterator<F> b(mem.data(), w), en = b; for (int i = 0; i < n; ++i) ++en; walk(c, b, en, L); }
  else if (kind == 1) { ConstFieldIterator<F> b(mem.data(), w), en = b; for (int i = 0; i < n; ++i) ++en; walk(c, b, en, L); }
  else { FieldIterator<F> b0(mem.data(), w), e0 = b0 + n; ConstFieldIterator<F> b(b0), en(e0); walk(c, b, en, L); }
}
#define ABS(x) ((x) < 0 ? -(x) : (x))
// begin/end of real fields: ghosts, extra cells, views
template <class FT> static void field_iter(mc::Ctx& c) {
  IntVec n, gm, gp, bc;
  static const char* nn[3] = {"nx", "ny", "nz"}; static const char* bn[3] = {"bcx", "bcy", "bcz"};
  int big = c.bound(2, 3);
  for (int i = 0; i < 3; ++i) n[i] = c.range(nn[i], 1, big);
  for (int i = 0; i < 3; ++i) bc[i] = c.flip(bn[i]);
  int gsel = c.pick("ghosts", 5);
  GhostData gd = gsel == 0 ? GhostData(0) : gsel == 1 ? GhostData(1) : gsel == 2 ? GhostData(1, 0, 0, 1, 1, 1) : gsel == 3 ? GhostData(0, 2, 1, 0, 0, 1) : GhostData(2, 1, 0, 0, 1, 0);
  BoundaryCellInfo bi = BoundaryCellInfo::build<FT>(bc[0], bc[1], bc[2]);
  MemoryWindow w = get_window_with_ghost(n, gd, bi);
  std::vector<typename FT::value_type> mem(w.glob_npts());
  for (size_t i = 0; i < mem.size(); ++i) mem[i] = i;
  FT f(w, bi, gd, mem.data(), ExternalStorage);
  const FT& cf = f;
  IntVec g = w.glob_dim(), o(0, 0, 0), e = g, io(0, 0, 0), ie = g;
  for (int i = 0; i < 3; ++i) if (n[i] > 1) { io[i] = gd.get_minus(i); ie[i] = g[i] - gd.get_minus(i) - gd.get_plus(i); }
  auto verify = [&](auto b, auto en, const IntVec& oo, const IntVec& ee, const char* what) {
    Cells L = cells((double*)0 , g, oo, ee); (void)L;
    size_t cnt = 0; auto it = b;
    for (int k = 0; k < ee[2]; ++k) for (int j = 0; j < ee[1]; ++j) for (int i = 0; i < ee[0]; ++i) {
      c.check(it != en, "short", "%s: end reached after %zu cells", what, cnt);
      const auto* p = &mem[0] + (i + oo[0]) + (j + oo[1]) * g[0] + (k + oo[2]) * g[0] * g[1];
      c.check((const void*)&*it == (const void*)p, "visit", "%s: cell %zu visited out of place", what, cnt);
      ++it; ++cnt; c.step();
    }
    c.check(it == en, "long", "%s: end not reached after the last cell", what);
    c.check((size_t)(en - b) == cnt, "count", "%s: end-begin %ld for %zu cells", what, (long)(en - b), cnt);
    auto r = en; for (size_t q = 0; q < cnt; ++q) --r;
    c.check(r == b, "reverse", "%s: walking back from end misses begin", what);
  };
  verify(f.begin(), f.end(), o, e, "mutable"); verify(cf.begin(), cf.end(), o, e, "const");
  verify(f.interior_begin(), f.interior_end(), io, ie, "interior"); verify(cf.interior_begin(), cf.interior_end(), io, ie, "const interior");
  // a writable iterator writes exactly the visited cells
  typename FT::value_type v = -1; for (typename FT::interior_iterator it = f.interior_begin(); it != f.interior_end(); ++it) *it = v;
  for (int k = 0; k < g[2]; ++k) for (int j = 0; j < g[1]; ++j) for (int i = 0; i < g[0]; ++i) {
    bool in = i >= io[0] && i < io[0] + ie[0] && j >= io[1] && j < io[1] + ie[1] && k >= io[2] && k < io[2] + ie[2];
    size_t q = i + j * g[0] + k * g[0] * g[1];
    c.check(mem[q] == (in ? v : (typename FT::value_type)q), "write", "interior iteration wrote/missed cell (%d,%d,%d)", i, j, k);
  }
  // std algorithms on iterators
  std::vector<typename FT::value_type> cp(f.begin(), f.end());
  c.check(cp.size() == w.local_npts(), "copy", "range construction copied %zu cells", cp.size());
  // windowed view
  int vd = c.pick("view-dir", 3);
  if (g[vd] > 1) {
    IntVec vo(0, 0, 0), ve = g; vo[vd] = 1; ve[vd] -= 1;
    FT view(MemoryWindow(g, vo, ve), f); const FT& cview = view;
    verify(view.begin(), view.end(), vo, ve, "view"); verify(cview.begin(), cview.end(), vo, ve, "const view");
  }
}
typedef SpatialField<SVol, float> SVolFloat;
typedef SpatialField<SSurfX, unsigned int> SSurfXUInt;
MC_REGISTER(field_svol, field_iter<SVolField>)
MC_REGISTER(field_xvol, field_iter<XVolField>)
MC_REGISTER(field_ssurfy, field_iter<SSurfYField>)
MC_REGISTER(field_zsurfx, field_iter<ZSurfXField>)
MC_REGISTER(field_float, field_iter<SVolFloat>)
MC_REGISTER(field_uint, field_iter<SSurfXUInt>)
