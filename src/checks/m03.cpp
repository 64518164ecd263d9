// M03: MemoryWindow index maps, refine partitions, IntVec arithmetic: every window of every array up to the bound.
#include "mc.h"
#include <spatialops/structured/MemoryWindow.h>
#include <spatialops/structured/GhostData.h>
#include <vector>
using namespace SpatialOps; using namespace SpatialOps::structured;
typedef Numeric3Vec<double> DV;

static IntVec pickDims(mc::Ctx& c, int m) { int x = c.range("nx", 1, m), y = c.range("ny", 1, m), z = c.range("nz", 1, m); return IntVec(x, y, z); }
static void pickWin(mc::Ctx& c, const IntVec& g, IntVec& off, IntVec& ext) {
  static const char* on[3] = {"ox", "oy", "oz"}; static const char* en[3] = {"ex", "ey", "ez"};
  for (int i = 0; i < 3; ++i) { off[i] = c.range(on[i], 0, g[i] - 1); ext[i] = c.range(en[i], 1, g[i] - off[i]); }
}
static bool eq(const IntVec& a, int x, int y, int z) { return a[0] == x && a[1] == y && a[2] == z; }

static void maps_body(mc::Ctx& c, const IntVec& g) {
  IntVec o, e; pickWin(c, g, o, e);
  MemoryWindow w(g, o, e);
  int ga[3] = {g[0], g[1], g[2]}, oa[3] = {o[0], o[1], o[2]}, ea[3] = {e[0], e[1], e[2]};
  MemoryWindow w2(ga, oa, ea), w3(w), w4(g); w4 = w;
  c.check(w.sanity_check(), "sane", "sanity_check() false for a valid window");
  for (const MemoryWindow* q : {(const MemoryWindow*)&w, (const MemoryWindow*)&w2, (const MemoryWindow*)&w3, (const MemoryWindow*)&w4}) {
    c.check(eq(q->glob_dim(), g[0], g[1], g[2]) && eq(q->offset(), o[0], o[1], o[2]) && eq(q->extent(), e[0], e[1], e[2]), "getters", "stored dims/offset/extent differ from the arguments");
    c.check(*q == w && !(*q != w), "equality", "window not equal to its copy");
    for (int i = 0; i < 3; ++i) c.check(q->glob_dim(i) == (size_t)g[i] && q->offset(i) == (size_t)o[i] && q->extent(i) == (size_t)e[i], "getters", "component getters wrong");
  }
  c.check(w.glob_npts() == (size_t)(g[0] * g[1] * g[2]), "npts", "glob_npts %zu", w.glob_npts());
  c.check(w.local_npts() == (size_t)(e[0] * e[1] * e[2]), "npts", "local_npts %zu", w.local_npts());
  int l = 0;
  for (int k = 0; k < e[2]; ++k) for (int j = 0; j < e[1]; ++j) for (int i = 0; i < e[0]; ++i, ++l) {
    int flat = w.flat_index(IntVec(i, j, k)); c.step();
    int want = (i + o[0]) + (j + o[1]) * g[0] + (k + o[2]) * g[0] * g[1];
    c.check(flat == want, "flat_index", "flat_index(%d,%d,%d)=%d, expected %d", i, j, k, flat, want);
    IntVec b = w.ijk_index_from_local(l);
    c.check(eq(b, i, j, k), "from_local", "ijk_index_from_local(%d)=(%d,%d,%d), expected (%d,%d,%d)", l, b[0], b[1], b[2], i, j, k);
    IntVec h = w.ijk_index_from_global(flat);
    c.check(eq(h, i + o[0], j + o[1], k + o[2]), "from_global", "ijk_index_from_global(%d)=(%d,%d,%d)", flat, h[0], h[1], h[2]);
  }
  for (int f = 0; f < g[0] * g[1] * g[2]; ++f) {
    IntVec h = flat_to_ijk(g, f); c.step();
    c.check(eq(h, f % g[0], (f / g[0]) % g[1], f / (g[0] * g[1])), "flat_to_ijk", "flat_to_ijk(%d)", f);
    c.check(ijk_to_flat(g, h) == f, "ijk_to_flat", "ijk_to_flat not the inverse at %d", f);
    IntVec h2 = w.ijk_index_from_global(f);
    c.check(h2 == h, "from_global", "ijk_index_from_global(%d) wrong", f);
  }
  // equality distinguishes every single-component change
  MemoryWindow whole(g), wholea(ga);
  c.check(whole == wholea && whole.offset() == IntVec(0, 0, 0) && whole.extent() == g, "whole", "windowless constructor wrong");
  for (int i = 0; i < 3; ++i) {
    IntVec g2 = g; g2[i] += 1; MemoryWindow a(g2, o, e);
    c.check(a != w && !(a == w), "inequality", "windows differing in glob_dim(%d) compare equal", i);
    if (e[i] > 1) { IntVec e2 = e; e2[i] -= 1; MemoryWindow b(g, o, e2); c.check(b != w && !(b == w), "inequality", "windows differing in extent(%d) compare equal", i); }
    if (o[i] > 0) { IntVec o2 = o; o2[i] -= 1; MemoryWindow b(g, o2, e); c.check(b != w && !(b == w), "inequality", "windows differing in offset(%d) compare equal", i); }
  }
  // refine: every split pattern
  for (int sx = 1; sx <= e[0]; ++sx) for (int sy = 1; sy <= e[1]; ++sy) for (int sz = 1; sz <= e[2]; ++sz) {
    std::vector<int> cover(g[0] * g[1] * g[2], 0);
    int mn[3] = {1 << 20, 1 << 20, 1 << 20}, mx[3] = {0, 0, 0};
    for (int z = 0; z < sz; ++z) for (int y = 0; y < sy; ++y) for (int x = 0; x < sx; ++x) {
      MemoryWindow r = w.refine(IntVec(sx, sy, sz), IntVec(x, y, z)); c.step();
      c.check(r.glob_dim() == g, "refine-glob", "refined window has a different parent array");
      for (int i = 0; i < 3; ++i) {
        int a = (int)r.offset(i), b = (int)r.extent(i);
        c.check(b >= 1 && a >= o[i] && a + b <= o[i] + e[i], "refine-inside", "refine leaves the window in direction %d: offset %d extent %d", i, a, b);
        if (b < mn[i]) mn[i] = b; if (b > mx[i]) mx[i] = b;
      }
      for (size_t k = r.offset(2); k < r.offset(2) + r.extent(2); ++k) for (size_t j = r.offset(1); j < r.offset(1) + r.extent(1); ++j)
        for (size_t i = r.offset(0); i < r.offset(0) + r.extent(0); ++i) ++cover[i + j * g[0] + k * g[0] * g[1]];
    }
    for (int k = 0; k < g[2]; ++k) for (int j = 0; j < g[1]; ++j) for (int i = 0; i < g[0]; ++i) {
      bool in = i >= o[0] && i < o[0] + e[0] && j >= o[1] && j < o[1] + e[1] && k >= o[2] && k < o[2] + e[2];
      int n = cover[i + j * g[0] + k * g[0] * g[1]];
      c.check(n == (in ? 1 : 0), "refine-partition", "split (%d,%d,%d): cell (%d,%d,%d) covered %d times", sx, sy, sz, i, j, k, n);
    }
    for (int i = 0; i < 3; ++i) c.check(mx[i] - mn[i] <= 1, "refine-balance", "split (%d,%d,%d): extents differ by %d in direction %d", sx, sy, sz, mx[i] - mn[i], i);
  }
}
MC_SCENARIO(window_maps) { maps_body(c, pickDims(c, c.bound(3, 4))); }
// long thin arrays: many cells in one direction, so that remainders and offsets take larger values
MC_SCENARIO(refine_long) {
  int dir = c.pick("dir", 3), n = c.range("n", 1, c.bound(14, 24));
  IntVec g(2, 2, 2); g[dir] = n;
  IntVec o(0, 0, 0), e(1, 1, 1);
  o[dir] = c.range("off", 0, n - 1); e[dir] = c.range("ext", 1, n - o[dir]);
  int od = (dir + 1) % 3; o[od] = c.range("off2", 0, 1);
  MemoryWindow w(g, o, e);
  for (int s = 1; s <= e[dir]; ++s) {
    int pos = o[dir], lo = 1 << 20, hi = 0;
    for (int l = 0; l < s; ++l) {
      IntVec sp(1, 1, 1), lc(0, 0, 0); sp[dir] = s; lc[dir] = l;
      MemoryWindow r = w.refine(sp, lc); c.step();
      c.check((int)r.offset(dir) == pos, "refine-partition", "piece %d of %d starts at %d, previous ended at %d", l, s, (int)r.offset(dir), pos);
      pos += r.extent(dir); lo = std::min(lo, (int)r.extent(dir)); hi = std::max(hi, (int)r.extent(dir));
      c.check(r.offset(od) == (size_t)o[od] && r.extent(od) == 1, "refine-other", "refine changed an unsplit direction");
    }
    c.check(pos == o[dir] + e[dir] && lo >= 1 && hi - lo <= 1, "refine-partition", "%d pieces of [%d,+%d) end at %d (extents %d..%d)", s, o[dir], e[dir], pos, lo, hi);
  }
}
// repeated refinement stays a partition (a refined window refined again)
MC_SCENARIO(refine_twice) {
  int nx = c.range("nx", 1, c.bound(4, 6)), ny = c.range("ny", 1, c.bound(3, 4)), off = c.range("off", 0, 1);
  IntVec g(nx + off, ny, 2), o(off, 0, 0), e(nx, ny, 2);
  int sx = c.range("sx", 1, nx), sy = c.range("sy", 1, ny);
  std::vector<int> cover(g[0] * g[1] * g[2], 0);
  MemoryWindow w(g, o, e);
  for (int y = 0; y < sy; ++y) for (int x = 0; x < sx; ++x) {
    MemoryWindow r = w.refine(IntVec(sx, sy, 1), IntVec(x, y, 0));
    IntVec s2((int)r.extent(0) > 1 ? 2 : 1, 1, 2);
    for (int b = 0; b < 2; ++b) for (int a = 0; a < s2[0]; ++a) {
      MemoryWindow q = r.refine(s2, IntVec(a, 0, b)); c.step();
      for (int l = 0; l < (int)q.local_npts(); ++l) ++cover[q.flat_index(q.ijk_index_from_local(l))];
    }
  }
  for (int k = 0; k < 2; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < g[0]; ++i)
    c.check(cover[i + j * g[0] + k * g[0] * g[1]] == (i >= off ? 1 : 0), "refine-partition", "cell (%d,%d,%d) covered %d times", i, j, k, cover[i + j * g[0] + k * g[0] * g[1]]);
}
MC_SCENARIO(intvec) {
  int m = c.bound(2, 3);
  int a[3], b[3];
  a[0] = c.range("a0", -m, m); a[1] = c.range("a1", -m, m); a[2] = c.range("a2", -m, m);
  IntVec A(a[0], a[1], a[2]);
  std::vector<int> va(a, a + 3); IntVec A2(a), A3(va), A4(A), A5; A5 = A;
  c.check(A == A2 && A == A3 && A == A4 && A == A5, "construct", "constructors disagree");
  IntVec Z; c.check(Z[0] == 0 && Z[1] == 0 && Z[2] == 0, "construct", "default not zero");
  c.check(A.sum() == a[0] + a[1] + a[2], "sum", "sum()");
  DV D(A); c.check(D[0] == a[0] && D[1] == a[1] && D[2] == a[2], "convert", "int->double conversion");
  DV H(a[0] + 0.25, a[1] + 0.25, a[2] + 0.25); IntVec HI(H);
  c.check(HI[0] == (int)(a[0] + 0.25) && HI[1] == (int)(a[1] + 0.25) && HI[2] == (int)(a[2] + 0.25), "convert", "double->int conversion");
  DV sc = D * 0.5; c.check(sc[0] == a[0] * 0.5 && sc[1] == a[1] * 0.5 && sc[2] == a[2] * 0.5, "scale", "vector*scalar");
  for (b[0] = -m; b[0] <= m; ++b[0]) for (b[1] = -m; b[1] <= m; ++b[1]) for (b[2] = -m; b[2] <= m; ++b[2]) {
    IntVec B(b[0], b[1], b[2]); c.step();
    IntVec s = A + B, d = A - B, p = A * B, mn = min(A, B), pe = A, me = A; pe += B; me -= B;
    bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    c.check((A == B) == same && (A != B) == !same, "compare", "comparison of (%d,%d,%d) and (%d,%d,%d)", a[0], a[1], a[2], b[0], b[1], b[2]);
    for (int i = 0; i < 3; ++i) {
      c.check(s[i] == a[i] + b[i] && pe[i] == a[i] + b[i], "add", "component %d of the sum", i);
      c.check(d[i] == a[i] - b[i] && me[i] == a[i] - b[i], "subtract", "component %d of the difference", i);
      c.check(p[i] == a[i] * b[i], "multiply", "component %d of the product", i);
      c.check(mn[i] == (a[i] < b[i] ? a[i] : b[i]), "min", "component %d of the minimum", i);
    }
    if (b[0] && b[1] && b[2]) { IntVec q = A / B; for (int i = 0; i < 3; ++i) c.check(q[i] == a[i] / b[i], "divide", "component %d of the quotient", i); }
    IntVec ps = A + b[0], ms = A * b[0];
    for (int i = 0; i < 3; ++i) { c.check(ps[i] == a[i] + b[0], "add-scalar", "component %d", i); c.check(ms[i] == a[i] * b[0], "multiply-scalar", "component %d", i); }
    if (b[0]) { IntVec ds = A / b[0]; for (int i = 0; i < 3; ++i) c.check(ds[i] == a[i] / b[0], "divide-scalar", "component %d", i); }
    IntVec W; for (int i = 0; i < 3; ++i) W[i] = b[i]; c.check(W == B, "index", "mutable index");
  }
}
