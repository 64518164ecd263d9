// F02: field copies, views, ghost-resized views, reshapes and whole-field assignment against an explicit array model.
#include "sops.h"
#include <spatialops/structured/MemoryPool.h>
#include <stdexcept>
using namespace sops;

// a handle (field object) and the model of what it may touch
template <class FT> struct Handle {
  std::unique_ptr<FT> f; int store; IntVec off, ext; bool interior; IntVec ioff, iext; GhostData valid; bool reshaped;
};
template <class FT> struct World {
  typedef typename FT::value_type T;
  IntVec n, glob; GhostData gd; BoundaryCellInfo bi;
  std::vector<T> ext_[2]; std::vector<T> model[2]; T* base[2];
  std::vector<Handle<FT> > h; size_t pool0;
  bool external;
  World() : gd(0), bi(BoundaryCellInfo::build<FT>()) {}
};
template <class FT> static void verify(mc::Ctx& c, World<FT>& w) {
  typedef typename FT::value_type T;
  IntVec g = w.glob;
  for (size_t x = 0; x < w.h.size(); ++x) {
    Handle<FT>& H = w.h[x]; FT& f = *H.f; const FT& cf = f;
    std::vector<T>& m = w.model[H.store];
    c.check(f.window_with_ghost() == MemoryWindow(g, H.off, H.ext), "window", "handle %zu has another window than it was given", x);
    c.check(cf.field_values() == w.base[H.store], "alias", "handle %zu does not use its parent's memory", x);
    typename FT::const_iterator it = cf.begin(); typename FT::iterator jt = f.begin();
    for (int k = 0; k < H.ext[2]; ++k) for (int j = 0; j < H.ext[1]; ++j) for (int i = 0; i < H.ext[0]; ++i, ++it, ++jt) {
      size_t fl = (i + H.off[0]) + size_t(g[0]) * ((j + H.off[1]) + size_t(g[1]) * (k + H.off[2]));
      c.check(*it == m[fl] && *jt == m[fl], "value", "handle %zu reads %g at (%d,%d,%d), expected %g", x, (double)*it, i, j, k, (double)m[fl]);
      c.check(cf(i, j, k) == m[fl] && f(i, j, k) == m[fl] && cf(IntVec(i, j, k)) == m[fl] && f(IntVec(i, j, k)) == m[fl], "ijk", "handle %zu: (i,j,k) access at (%d,%d,%d) disagrees with the iterator", x, i, j, k);
      c.check(cf[fl] == m[fl] && f[fl] == m[fl] && &f[fl] == &*jt && &f(i, j, k) == &f[fl], "flat", "handle %zu: flat access disagrees with the iterator", x);
    }
    c.check(it == cf.end() && jt == f.end(), "count", "handle %zu iterates a different number of cells", x);
    c.step();
    bool threw = false; size_t cnt = 0;
    try { for (typename FT::const_interior_iterator q = cf.interior_begin(); q != cf.interior_end(); ++q, ++cnt) {
        int i = cnt % H.iext[0], j = (cnt / H.iext[0]) % H.iext[1], k = cnt / (H.iext[0] * H.iext[1]);
        c.check(k < H.iext[2], "interior", "handle %zu: too many interior cells", x);
        size_t fl = (i + H.ioff[0]) + size_t(g[0]) * ((j + H.ioff[1]) + size_t(g[1]) * (k + H.ioff[2]));
        c.check(&*q == w.base[H.store] + fl, "interior", "handle %zu: interior iteration visits another cell", x);
      } } catch (std::runtime_error&) { threw = true; }
    c.check(threw == !H.interior, "interior", "handle %zu: interior iterators %s although the view %s the interior", x, threw ? "refused" : "given", H.interior ? "contains" : "cuts into");
    if (H.interior) c.check(cnt == size_t(H.iext[0] * H.iext[1] * H.iext[2]), "interior", "handle %zu: %zu interior cells", x, cnt);
    c.check(f.get_ghost_data() == w.gd, "ghost", "handle %zu: ghost data changed", x);
    if (!H.reshaped) c.check(f.get_valid_ghost_data() == H.valid, "ghost", "handle %zu: valid ghost data wrong", x);
    c.check(f.boundary_info().has_bc() == w.bi.has_bc() && f.boundary_info().has_extra() == w.bi.has_extra(), "bc", "handle %zu: boundary info wrong", x);
  }
  // cells outside every window, guard zones
  for (int s = 0; s < 2; ++s) {
    for (size_t i = 0; i < w.model[s].size(); ++i) c.check(w.base[s][i] == w.model[s][i], "stray-write", "storage %d cell %zu holds %g, expected %g", s, i, (double)w.base[s][i], (double)w.model[s][i]);
    if (w.external) for (int z = 0; z < 8; ++z) c.check(w.ext_[s][z] == (T)-555 && w.ext_[s][w.ext_[s].size() - 1 - z] == (T)-555, "guard", "memory outside the wrapped array was written");
  }
}
template <class FT> static void history(mc::Ctx& c, int depth, bool fixed = false) {
  typedef typename FT::value_type T;
  World<FT> w;
  w.pool0 = Pool<T>::self().active();
  int sh = fixed ? 1 : c.pick("shape", 3);
  w.n = sh == 0 ? IntVec(2, 1, 1) : sh == 1 ? IntVec(2, 3, 1) : IntVec(1, 2, 2);
  int g = fixed ? 1 : c.pick("ghost", 3);
  w.gd = g == 0 ? GhostData(1) : g == 1 ? GhostData(0, 1, 1, 0, 1, 2) : GhostData(0);
  bool bc = fixed ? true : c.flip("bc");
  w.bi = BoundaryCellInfo::build<FT>(bc, bc, bc);
  w.external = fixed ? false : c.flip("external");
  MemoryWindow win = get_window_with_ghost(w.n, w.gd, w.bi);
  w.glob = win.glob_dim();
  size_t N = win.glob_npts();
  for (int s = 0; s < 2; ++s) {
    std::vector<T> init(N); for (size_t i = 0; i < N; ++i) init[i] = (T)(100 * (s + 1) + i);
    std::unique_ptr<FT> p;
    if (w.external) {
      w.ext_[s].assign(N + 16, (T)-555); for (size_t i = 0; i < N; ++i) w.ext_[s][8 + i] = init[i];
      p.reset(new FT(win, w.bi, w.gd, &w.ext_[s][8], ExternalStorage));
      w.base[s] = &w.ext_[s][8];
      c.check(p->field_values() == w.base[s], "external", "field does not use the caller's memory");
    } else {
      p.reset(new FT(win, w.bi, w.gd, init.data(), InternalStorage));
      w.base[s] = p->field_values();
      c.check(w.base[s] != init.data(), "internal", "internally stored field aliases the caller's memory");
    }
    w.model[s] = init;
    Handle<FT> H; H.store = s; H.off = IntVec(0, 0, 0); H.ext = w.glob; H.interior = true; H.reshaped = false; H.valid = w.gd;
    for (int i = 0; i < 3; ++i) { H.ioff[i] = w.n[i] > 1 ? w.gd.get_minus(i) : 0; H.iext[i] = w.n[i] > 1 ? w.glob[i] - w.gd.get_minus(i) - w.gd.get_plus(i) : 1; }
    H.f = std::move(p);
    w.h.push_back(std::move(H));
  }
  if (!w.external) c.check(Pool<T>::self().active() == w.pool0 + 2, "pool", "two fields hold %zu pool blocks", Pool<T>::self().active() - w.pool0);
  verify(c, w);
  int serial = 0;
  for (int d = 0; d < depth; ++d) {
    int op = c.pick("op", 8), x = c.pick("handle", (int)w.h.size());
    c.step();
    auto cut = [&](Handle<FT>& H) { H.interior = H.interior; for (int i = 0; i < 3; ++i) if (H.off[i] > H.ioff[i] || H.off[i] + H.ext[i] < H.ioff[i] + H.iext[i]) H.interior = false; };
    auto clone = [&](Handle<FT>& P) { Handle<FT> H; H.store = P.store; H.off = P.off; H.ext = P.ext; H.interior = P.interior; H.ioff = P.ioff; H.iext = P.iext; H.valid = P.valid; H.reshaped = P.reshaped; return H; };
    if (op == 0) { // shallow copy
      Handle<FT> H = clone(w.h[x]); H.f.reset(new FT(*w.h[x].f)); w.h.push_back(std::move(H)); c.note("copy %d", x);
    } else if (op == 1) { // windowed view
      Handle<FT> H = clone(w.h[x]);
      int v = c.pick("view", 5); int dir = v % 2 == 0 ? 0 : 1; if (w.glob[dir] == 1) dir = 2;
      H.off = w.h[x].off; H.ext = w.h[x].ext;
      if (v == 4) { H.off = H.ioff; H.ext = H.iext; }
      else if (v < 2) { c.assume(H.ext[dir] > 1); H.off[dir] += 1; H.ext[dir] -= 1; }
      else { c.assume(H.ext[dir] > 1); H.ext[dir] -= 1; }
      H.valid = w.gd; H.reshaped = true;   // valid ghosts of a view are not part of the claim
      cut(H);
      H.f.reset(new FT(MemoryWindow(w.glob, H.off, H.ext), *w.h[x].f)); w.h.push_back(std::move(H)); c.note("view %d of %d", v, x);
    } else if (op == 2) { // ghost-resized copy
      Handle<FT>& P = w.h[x]; c.assume(!P.reshaped);
      Handle<FT> H = clone(P);
      int m[3], p[3]; int v = c.pick("shrink", 3);
      for (int i = 0; i < 3; ++i) { m[i] = P.valid.get_minus(i); p[i] = P.valid.get_plus(i); if (v != 1) m[i] = 0; if (v != 2) p[i] = 0; }
      H.valid = GhostData(m[0], p[0], m[1], p[1], m[2], p[2]);
      for (int i = 0; i < 3; ++i) if (w.n[i] > 1) { int dm = P.valid.get_minus(i) - m[i], dp = P.valid.get_plus(i) - p[i]; H.off[i] += dm; H.ext[i] -= dm + dp; }
      H.f.reset(new FT(*P.f)); H.f->reset_valid_ghosts(H.valid); w.h.push_back(std::move(H)); c.note("reset_valid_ghosts %d of %d", v, x);
    } else if (op == 3) { // reshape
      Handle<FT> H = clone(w.h[x]); int v = c.pick("reshape", 4); int dir = v & 1 ? 0 : 1; if (w.glob[dir] == 1) dir = 2;
      c.assume(H.ext[dir] > 1);
      IntVec dE(0, 0, 0), sh_(0, 0, 0); dE[dir] = -1; if (v >= 2) sh_[dir] = 1;
      H.off = H.off + sh_; H.ext = H.ext + dE; H.reshaped = true; H.valid = w.gd; cut(H);
      H.f.reset(new FT(w.h[x].f->reshape(dE, sh_))); w.h.push_back(std::move(H)); c.note("reshape %d of %d", v, x);
    } else if (op == 4) { // write through a handle, three ways
      Handle<FT>& H = w.h[x]; int way = c.pick("way", 4); ++serial;
      if (way == 0) { T v = (T)(1000 * serial); for (typename FT::iterator it = H.f->begin(); it != H.f->end(); ++it, v += 1) *it = v;
        v = (T)(1000 * serial); for (int k = 0; k < H.ext[2]; ++k) for (int j = 0; j < H.ext[1]; ++j) for (int i = 0; i < H.ext[0]; ++i, v += 1)
          w.model[H.store][(i + H.off[0]) + size_t(w.glob[0]) * ((j + H.off[1]) + size_t(w.glob[1]) * (k + H.off[2]))] = v;
      } else {
        IntVec l(H.ext[0] - 1, H.ext[1] / 2, H.ext[2] - 1); T v = (T)(-1000 * serial);
        size_t fl = (l[0] + H.off[0]) + size_t(w.glob[0]) * ((l[1] + H.off[1]) + size_t(w.glob[1]) * (l[2] + H.off[2]));
        if (way == 1) (*H.f)(l) = v; else if (way == 2) (*H.f)(l[0], l[1], l[2]) = v; else (*H.f)[fl] = v;
        w.model[H.store][fl] = v;
      }
      c.note("write via %d way %d", x, way);
    } else if (op == 5 || op == 6) { // whole-field assignment
      int y = c.pick("from", (int)w.h.size()); Handle<FT>&A = w.h[x], &B = w.h[y];
      bool match = A.off == B.off && A.ext == B.ext, threw = false;
      c.assume(op == 5 || match);   // op 6: keep the matching case well represented at the last level
      try { FT& r = (*A.f = *B.f); c.check(&r == A.f.get(), "assign", "assignment does not return its target"); } catch (std::runtime_error&) { threw = true; }
      c.check(threw == !match, "assign-window", "assignment between %s windows %s", match ? "equal" : "different", threw ? "threw" : "was accepted");
      if (match) for (int k = 0; k < A.ext[2]; ++k) for (int j = 0; j < A.ext[1]; ++j) for (int i = 0; i < A.ext[0]; ++i) {
        size_t fl = (i + A.off[0]) + size_t(w.glob[0]) * ((j + A.off[1]) + size_t(w.glob[1]) * (k + A.off[2])); w.model[A.store][fl] = w.model[B.store][fl]; }
      c.note("%d = %d%s", x, y, match ? "" : " (rejected)");
    } else { // destroy a child; the parents stay
      c.assume(x >= 2); w.h.erase(w.h.begin() + x); c.note("destroy %d", x);
      if (!w.external) c.check(Pool<T>::self().active() == w.pool0 + 2, "pool", "destroying a view changed the pool's active count");
    }
    verify(c, w);
  }
  while (w.h.size() > 2) w.h.pop_back();
  verify(c, w); w.h.clear();
  c.check(Pool<T>::self().active() == w.pool0, "pool", "storage not returned to the pool exactly once");
  if (w.external) for (int s = 0; s < 2; ++s) for (size_t i = 0; i < w.model[s].size(); ++i) c.check(w.ext_[s][8 + i] == w.model[s][i], "external", "caller's memory changed when the field was destroyed");
}
MC_SCENARIO(history_svol) { history<SVolField>(c, c.bound(2, 3)); }
MC_SCENARIO(history_deep) { history<SSurfYField>(c, c.bound(3, 4), true); }
typedef SpatialField<XVol, float> XF;
MC_SCENARIO(history_xvol_float) { history<XF>(c, c.bound(2, 3)); }
typedef SpatialField<SSurfY, unsigned int> YU;
MC_SCENARIO(history_ssurfy_uint) { history<YU>(c, c.bound(2, 3)); }
