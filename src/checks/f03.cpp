// F03: SpatialMask / BitField / ConstMaskIterator against an explicit set of points.
#include "sops.h"
#include <spatialops/structured/SpatialMask.h>
#include <set>
#include <tuple>
using namespace sops;
namespace {
typedef std::tuple<int, int, int> Pt;
typedef std::set<Pt> PtSet;
struct Shape { int n[3]; int gm[3], gp[3]; int bc[3]; };
GhostData ghosts(const Shape& s) { return GhostData(s.gm[0], s.gp[0], s.gm[1], s.gp[1], s.gm[2], s.gp[2]); }
// make the pool hand out dirty storage
void dirty_pool(size_t npts) {
  size_t words = (npts + 31) / 32; unsigned* p = Pool<unsigned int>::self().get(LOCAL_RAM, words);
  for (size_t i = 0; i < words; ++i) p[i] = ~0u;
  Pool<unsigned int>::self().put(LOCAL_RAM, p);
}
std::vector<bool> expected(const Box& b, const PtSet& s) { std::vector<bool> r; cells(b, [&](int i, int j, int k) { r.push_back(s.count(Pt(i, j, k)) > 0); }); return r; }
template <class It> void run(mc::Ctx& c, It b, It e, const std::vector<bool>& v, const char* what) {
  c.check((size_t)(e - b) == v.size(), "count", "%s: end-begin=%ld, expected %zu", what, (long)(e - b), v.size());
  size_t n = 0; for (It it = b; it != e; ++it, ++n) { c.check(n < v.size(), "long", "%s: too many cells", what); c.check(*it == v[n], "value", "%s: cell %zu is %d, expected %d", what, n, (int)*it, (int)v[n]); }
  c.check(n == v.size(), "short", "%s: %zu cells visited of %zu", what, n, v.size()); c.step((unsigned)n);
}
Box box(const IntVec& lo, const IntVec& hi) { Box b; b.lo = lo; b.hi = hi; return b; }
// every observation of one mask
template <class FT> void observe(mc::Ctx& c, const SpatialMask<FT>& m, const Box& q, const Box& in, const PtSet& s, const char* what) {
  cells(q, [&](int i, int j, int k) {
    bool want = s.count(Pt(i, j, k)) > 0;
    c.check(m(IntVec(i, j, k)) == want, "query", "%s: point (%d,%d,%d) answers %d", what, i, j, k, (int)!want);
    if (i >= 0 && j >= 0 && k >= 0) c.check(m(i, j, k) == want, "query", "%s: (i,j,k) form at (%d,%d,%d)", what, i, j, k);
    c.step();
  });
  run(c, m.begin(), m.end(), expected(q, s), what);
  run(c, m.interior_begin(), m.interior_end(), expected(in, s), "interior");
}
template <class FT> struct Sys {
  Shape s; GhostData gd; Fld<FT> proto; Box q, in;
  Sys(const Shape& sh, const GhostData* valid) : s(sh), gd(ghosts(sh)), proto(IntVec(sh.n[0], sh.n[1], sh.n[2]), IntVec(sh.bc[0], sh.bc[1], sh.bc[2]), gd), in(proto.interior()) {
    q = proto.whole();
    if (valid) { proto.f().reset_valid_ghosts(*valid); for (int i = 0; i < 3; ++i) if (sh.n[i] > 1) { q.lo[i] = -valid->get_minus(i); q.hi[i] = in.hi[i] + valid->get_plus(i); } }
  }
};
template <class FT> void subset(mc::Ctx& c, const Shape& sh, const GhostData* valid, unsigned maxpts) {
  Sys<FT> y(sh, valid); std::vector<IntVec> all; cells(y.q, [&](int i, int j, int k) { all.push_back(IntVec(i, j, k)); });
  c.assume(all.size() <= maxpts);
  unsigned hi = c.pick("subset-high", 1 << (all.size() - all.size() / 2)), lo = c.pick("subset-low", 1 << (all.size() / 2));
  unsigned bits = (hi << (all.size() / 2)) | lo;
  PtSet s; std::vector<IntVec> pts;
  for (size_t i = 0; i < all.size(); ++i) if (bits >> i & 1) { pts.push_back(all[i]); s.insert(Pt(all[i][0], all[i][1], all[i][2])); }
  dirty_pool(y.proto.size()); size_t act = Pool<unsigned int>::self().active();
  std::vector<double> before(y.proto.mem.begin(), y.proto.mem.end());
  { SpatialMask<FT> m(y.proto.f(), pts); observe(c, m, y.q, y.in, s, "mask");
    { SpatialMask<FT> cp(m); observe(c, cp, y.q, y.in, s, "copy"); }
    observe(c, m, y.q, y.in, s, "mask after copy died"); }
  c.check(Pool<unsigned int>::self().active() == act, "pool", "mask storage not returned");
  c.check(std::vector<double>(y.proto.mem.begin(), y.proto.mem.end()) == before, "proto", "prototype field changed");
}
const Shape SM[] = {
  {{2, 1, 1}, {1, 0, 0}, {1, 0, 0}, {0, 0, 0}}, {{3, 2, 1}, {0, 1, 0}, {1, 0, 0}, {0, 0, 0}}, {{1, 2, 2}, {0, 0, 1}, {0, 1, 0}, {0, 0, 0}},
  {{2, 2, 2}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{2, 2, 2}, {0, 0, 0}, {0, 0, 1}, {1, 0, 0}}, {{2, 2, 1}, {1, 1, 0}, {0, 1, 0}, {0, 0, 0}},
  {{4, 3, 1}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {0, 0, 0}}, {{2, 1, 2}, {1, 1, 1}, {0, 1, 0}, {0, 0, 1}},
  {{2, 2, 1}, {1, 1, 0}, {1, 1, 0}, {0, 0, 0}}, {{3, 3, 1}, {0, 1, 0}, {1, 1, 0}, {0, 0, 0}}};
// larger: storage of several words, sizes around word boundaries
const Shape LG[] = {
  {{8, 4, 1}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{11, 3, 1}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{31, 1, 1}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}},
  {{4, 4, 4}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{3, 3, 3}, {1, 1, 1}, {1, 1, 1}, {0, 0, 0}}, {{4, 3, 2}, {1, 0, 2}, {0, 2, 0}, {1, 1, 1}},
  {{1, 6, 7}, {0, 1, 1}, {0, 1, 0}, {0, 0, 0}}, {{5, 1, 6}, {2, 0, 1}, {1, 0, 1}, {1, 0, 0}}, {{5, 4, 3}, {1, 2, 0}, {2, 0, 1}, {0, 1, 0}}};
template <class FT> void subsets(mc::Ctx& c) {
  const Shape& sh = SM[c.pick("shape", sizeof(SM) / sizeof(*SM))];
  subset<FT>(c, sh, NULL, c.bound(16, 20));
}
template <class FT> void pairs(mc::Ctx& c) {
  const Shape& sh = LG[c.pick("shape", sizeof(LG) / sizeof(*LG))];
  int vsel = c.pick("valid", 3); GhostData v0(0), v1 = ghosts(sh);
  if (vsel == 2) v1.set_minus(IntVec(0, 0, 0));
  Sys<FT> y(sh, vsel == 0 ? NULL : vsel == 1 ? &v0 : &v1); std::vector<IntVec> all; cells(y.q, [&](int i, int j, int k) { all.push_back(IntVec(i, j, k)); });
  int a = c.pick("first", (int)all.size()), b = c.pick("second", (int)all.size());
  bool inv = c.flip("complement");
  PtSet s; std::vector<IntVec> pts;
  if (!inv) { pts.push_back(all[a]); pts.push_back(all[b]); }
  else for (int i = (int)all.size() - 1; i >= 0; --i) if (i != a && i != b) pts.push_back(all[i]);
  for (auto& p : pts) s.insert(Pt(p[0], p[1], p[2]));
  dirty_pool(y.proto.size());
  SpatialMask<FT> m(y.proto.f(), pts); observe(c, m, y.q, y.in, s, "mask");
  c.check(m.get_valid_ghost_data() == y.proto.f().get_valid_ghost_data() && m.get_ghost_data() == y.gd && m.window_with_ghost() == y.proto.f().window_with_ghost() && m.window_without_ghost() == y.proto.f().window_without_ghost(), "shape", "mask shape differs from its prototype's");
}
// iterator algebra: every pair of positions, on every window kind
template <class It> void at(mc::Ctx& c, It it, int pos, const std::vector<bool>& v, const It& b, const It& e, const char* how) {
  int n = (int)v.size();
  c.check(it - b == pos && e - it == n - pos, "difference", "%s: it-begin=%ld, expected %d", how, (long)(it - b), pos);
  c.check((it == b) == (pos == 0) && (it != b) == (pos != 0) && (it == e) == (pos == n) && (it != e) == (pos != n), "equality", "%s: (in)equality at %d of %d", how, pos, n);
  c.check((it < e) == (pos < n) && (it <= e) && !(it > e) && (it >= e) == (pos >= n) && (it > b) == (pos > 0) && it >= b && !(it < b) && (it <= b) == (pos <= 0), "order", "%s: ordering at %d of %d", how, pos, n);
  if (pos < n) c.check(*it == v[pos], "value", "%s: position %d of %d answers %d", how, pos, n, (int)!v[pos]);
}
template <class It> void walk(mc::Ctx& c, const It& b, const It& e, const std::vector<bool>& v) {
  int n = (int)v.size(); c.check(e - b == n, "count", "end-begin %ld, expected %d", (long)(e - b), n);
  int way = c.pick("reached", 4);
  for (int p = 0; p <= n; ++p) {
    It it = b;
    if (way == 0) for (int i = 0; i < p; ++i) ++it; else if (way == 1) it += p; else if (way == 2) { it = e; for (int i = n; i > p; --i) it--; } else { it = e; it -= n - p; }
    at(c, it, p, v, b, e, "reach");
    for (int q = 0; q <= n; ++q) {
      It jt = it; jt += q - p; at(c, jt, q, v, b, e, "+=");
      if (q < n) { It x = jt; ++x; at(c, x, q + 1, v, b, e, "+= then ++"); }
      if (q > 0) { It x = jt; --x; at(c, x, q - 1, v, b, e, "+= then --"); }
      It kt = it; kt -= p - q; at(c, kt, q, v, b, e, "-=");
      at(c, it + (q - p), q, v, b, e, "+"); at(c, it - (p - q), q, v, b, e, "-");
      if (q < n) c.check(it[q - p] == v[q], "subscript", "it[%d] at %d", q - p, p);
      c.check(jt - it == q - p, "difference", "difference of positions %d,%d", p, q);
      c.check((it == jt) == (p == q) && (it != jt) == (p != q) && (it < jt) == (p < q) && (it > jt) == (p > q) && (it <= jt) == (p <= q) && (it >= jt) == (p >= q), "order", "comparison of positions %d and %d", p, q);
      c.step(8);
    }
    if (p < n) { It x = it, y = x++; at(c, x, p + 1, v, b, e, "post++"); at(c, y, p, v, b, e, "value of post++"); }
    if (p > 0) { It x = it, y = x--; at(c, x, p - 1, v, b, e, "post--"); at(c, y, p, v, b, e, "value of post--"); }
  }
}
template <class FT> void moves(mc::Ctx& c) {
  int si = c.pick("shape", 20); const Shape& sh = si < 11 ? SM[si] : LG[si - 11];
  int pat = c.pick("pattern", c.bound(5, 9));
  Sys<FT> y(sh, NULL); PtSet s; std::vector<IntVec> pts; int n = 0;
  cells(y.q, [&](int i, int j, int k) { ++n; if (pat == 0 ? n % 2 : pat == 1 ? (n * n) % 3 == 1 : pat == 2 ? i == 0 : pat == 3 ? (n * 2654435761u >> 13) & 1 : (unsigned(n) * (2246822519u + 2 * pat) >> 17) & 1) { pts.push_back(IntVec(i, j, k)); s.insert(Pt(i, j, k)); } });
  SpatialMask<FT> m(y.proto.f(), pts);
  int win = c.pick("window", 2 + 6 + 6);
  if (win == 0) walk(c, m.begin(), m.end(), expected(y.q, s));
  else if (win == 1) walk(c, m.interior_begin(), m.interior_end(), expected(y.in, s));
  else if (win < 8) {          // views trimmed at one side
    int d = (win - 2) / 2, side = (win - 2) % 2; c.assume(y.q.hi[d] - y.q.lo[d] > 1);
    IntVec em(0, 0, 0), sf(0, 0, 0); em[d] = -1; if (side == 0) sf[d] = 1;
    Box b = y.q; if (side == 0) b.lo[d]++; else b.hi[d]--;
    SpatialMask<FT> v = m.reshape(em, sf); walk(c, v.begin(), v.end(), expected(b, s)); c.check(v(pts.empty() ? IntVec(0, 0, 0) : pts[0]) == !pts.empty() , "query", "view answers differently");
  } else {                      // single layers
    int d = (win - 8) / 2, side = (win - 8) % 2; int ext = y.q.hi[d] - y.q.lo[d]; c.assume(ext > 2);
    IntVec em(0, 0, 0), sf(0, 0, 0); em[d] = 1 - ext; sf[d] = side ? ext - 1 : 1;
    Box b = y.q; b.lo[d] += sf[d]; b.hi[d] = b.lo[d] + 1;
    SpatialMask<FT> v = m.reshape(em, sf); walk(c, v.begin(), v.end(), expected(b, s));
  }
}
// two masks alive together, and re-use of released storage, in every order
MC_SCENARIO(lifetimes) {
  Sys<SVolField> y(LG[4], NULL); std::vector<IntVec> all; cells(y.q, [&](int i, int j, int k) { all.push_back(IntVec(i, j, k)); });
  struct M { SpatialMask<SVolField>* m; PtSet s; }; std::vector<M> live; int seed = 0;
  dirty_pool(y.proto.size());
  for (int d = 0; d < c.bound(5, 6); ++d) {
    int op = c.pick("op", 4); c.step();
    if (op < 2) { c.assume(live.size() < 3); M m; std::vector<IntVec> p; ++seed; for (size_t i = 0; i < all.size(); ++i) if (((i * 31 + seed * 17) % 7 < 3) == (op == 0)) { p.push_back(all[i]); m.s.insert(Pt(all[i][0], all[i][1], all[i][2])); } m.m = new SpatialMask<SVolField>(y.proto.f(), p); live.push_back(m); }
    else { c.assume(!live.empty()); int i = op == 2 ? 0 : (int)live.size() - 1; c.assume(op == 2 || i > 0); delete live[i].m; live.erase(live.begin() + i); }
    for (auto& m : live) observe(c, *m.m, y.q, y.in, m.s, "live mask");
  }
  for (auto& m : live) delete m.m;
}
}
MC_REGISTER(subsets_svol, subsets<SVolField>)
MC_REGISTER(subsets_xsurfy, subsets<XSurfYField>)
MC_REGISTER(pairs_svol, pairs<SVolField>)
MC_REGISTER(pairs_ssurfx, pairs<SSurfXField>)
MC_REGISTER(moves_svol, moves<SVolField>)
MC_REGISTER(moves_zvol, moves<ZVolField>)
