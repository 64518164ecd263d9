// F06: device-residency requests on fields, copies, views and masks of a host-only build: truthful answers, refused requests without side effects.
#include "sops.h"
#include <spatialops/structured/MemoryPool.h>
#include <spatialops/structured/SpatialMask.h>
#include <list>
using namespace sops;
namespace {
const MemoryType ALL[] = {LOCAL_RAM, EXTERNAL_CUDA_GPU, LOCAL_VECTOR_INST, EXTERNAL_OPENCL_GPU, EXTERNAL_INTEL_MIK, DEBUG_TEST_OPT};
template <class FT> struct World {
  typedef typename FT::value_type T; typedef SpatialMask<FT> M;
  IntVec glob; GhostData gd; BoundaryCellInfo bi; unsigned short dev; int how;
  std::vector<T> ext, model; SpatFldPtr<FT> store; std::unique_ptr<FT> own; FT* f;
  struct View { std::unique_ptr<FT> p; IntVec off, ext; };
  std::vector<View> v; std::vector<std::unique_ptr<M> > m; std::vector<IntVec> pts; int wr = 0;
  size_t act, tot, mact, mtot;
  World() : gd(0), bi(BoundaryCellInfo::build<FT>()), dev(0), how(0), f(0) {}
  size_t flat(const IntVec& o, int i, int j, int k) const { return i + o[0] + size_t(glob[0]) * (j + o[1] + size_t(glob[1]) * (k + o[2])); }
  void pools() { act = Pool<T>::self().active(); tot = Pool<T>::self().total(); mact = Pool<unsigned>::self().active(); mtot = Pool<unsigned>::self().total(); }
  bool same() const { return act == Pool<T>::self().active() && tot == (size_t)Pool<T>::self().total() && mact == Pool<unsigned>::self().active() && mtot == (size_t)Pool<unsigned>::self().total(); }
};
template <class L> bool threw(L l) { try { l(); } catch (std::exception&) { return true; } return false; }
// every handle reads the model's values, every way of writing through every handle reaches the storage
template <class FT> void usable(mc::Ctx& c, World<FT>& w, bool write) {
  typedef typename FT::value_type T;
  c.check(w.same(), "pool", "storage pool counts changed");
  for (size_t x = 0; x < w.v.size(); ++x) {
    FT& f = *w.v[x].p; const FT& cf = f; IntVec o = w.v[x].off, e = w.v[x].ext;
    c.check(f.memory_device_type() == LOCAL_RAM && f.device_index() == w.dev, "type", "handle %zu reports another memory type or device", x);
    c.check(!f.has_consumers(), "consumers", "handle %zu has consumers", x);
    c.check(f.find_consumer(LOCAL_RAM, w.dev), "available", "handle %zu is not available where it lives", x);
    bool bad = threw([&] {
      c.check(cf.field_values() == &w.f->operator[](0) && f.field_values() == cf.field_values() && cf.field_values(LOCAL_RAM, w.dev) == cf.field_values() && f.field_values(LOCAL_RAM, w.dev) == cf.field_values(), "storage", "handle %zu hands out other storage", x);
      for (int way = 0; way < (write ? 5 : 0); ++way) {
        T val = (T)(++w.wr % 97 + 0.25); int i = w.wr % e[0], j = w.wr % e[1], k = w.wr % e[2]; size_t fl = w.flat(o, i, j, k);
        if (way == 0) f(i, j, k) = val; else if (way == 1) f(IntVec(i, j, k)) = val; else if (way == 2) f[fl] = val; else if (way == 3) f.field_values()[fl] = val;
        else { typename FT::iterator it = f.begin(); it += i + e[0] * (j + e[1] * k); c.check(f.end() - f.begin() == e[0] * e[1] * e[2], "iterate", "handle %zu iterates another number of cells", x); *it = val; }
        w.model[fl] = val; c.step();
      }
      if (write && x == 0) { T val = (T)(++w.wr % 97 + 0.5); for (typename FT::interior_iterator it = f.interior_begin(); it != f.interior_end(); ++it) *it = val;
        IntVec lo = f.window_without_ghost().offset(), n = f.window_without_ghost().extent(); for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) w.model[w.flat(lo, i, j, k)] = val;
        FT tmp(f.window_with_ghost(), f.boundary_info(), f.get_ghost_data(), NULL); T t2 = (T)(++w.wr % 97 + 0.75); tmp <<= t2; for (typename FT::iterator it = tmp.begin(); it != tmp.end(); ++it) *it = t2; f = tmp; for (auto& q : w.model) q = t2;
        T t3 = (T)(++w.wr % 97); f <<= t3; for (auto& q : w.model) q = t3; c.step(3); }
    });
    if (write && x == 0) w.pools();
    c.check(!bad, "usable", "handle %zu refuses ordinary access", x);
  }
  for (size_t x = 0; x < w.v.size(); ++x) {
    FT& f = *w.v[x].p; const FT& cf = f; IntVec o = w.v[x].off, e = w.v[x].ext;
    bool bad = threw([&] { typename FT::const_iterator it = cf.begin(); for (int k = 0; k < e[2]; ++k) for (int j = 0; j < e[1]; ++j) for (int i = 0; i < e[0]; ++i, ++it) { size_t fl = w.flat(o, i, j, k); c.check(*it == w.model[fl] && cf(i, j, k) == w.model[fl] && cf[fl] == w.model[fl], "value", "handle %zu cell (%d,%d,%d) is %g, expected %g", x, i, j, k, (double)*it, (double)w.model[fl]); } c.check(it == cf.end(), "count", "handle %zu iterates another number of cells", x); });
    c.check(!bad, "usable", "handle %zu refuses reading", x); c.step();
  }
  for (size_t x = 0; x < w.m.size(); ++x) {
    auto& m = *w.m[x]; c.check(m.memory_device_type() == LOCAL_RAM && m.device_index() == w.dev && !m.has_consumers() && m.find_consumer(LOCAL_RAM, w.dev), "mask", "mask %zu misreports where it lives", x);
    bool bad = threw([&] { c.check(m.mask_values() == w.m[0]->mask_values() && m.mask_values(LOCAL_RAM, w.dev) == m.mask_values(), "mask", "mask %zu hands out other storage", x); IntVec lo = w.f->window_without_ghost().offset(); auto it = m.begin(); for (int k = 0; k < w.glob[2]; ++k) for (int j = 0; j < w.glob[1]; ++j) for (int i = 0; i < w.glob[0]; ++i, ++it) { bool want = false; for (auto& p : w.pts) if (p == IntVec(i - lo[0], j - lo[1], k - lo[2])) want = true; c.check(*it == want, "mask", "mask %zu answers %d at (%d,%d,%d)", x, (int)!want, i, j, k); } });
    c.check(!bad, "usable", "mask %zu refuses reading", x); c.step();
  }
}
template <class FT> void history(mc::Ctx& c, int depth, int types, bool wide) {
  typedef typename FT::value_type T; World<FT> w;
  w.how = c.pick("made", 3); w.dev = w.how == 2 ? 0 : c.pick("device", 2); int sh = c.pick("shape", wide ? 2 : 1);
  w.glob = sh ? IntVec(1, 4, 3) : IntVec(4, 3, 1); w.gd = sh ? GhostData(0, 0, 1, 0, 1, 1) : GhostData(1, 1, 0, 1, 0, 0);
  MemoryWindow win(w.glob); size_t n = win.glob_npts();
  if (w.how == 0) { w.own.reset(new FT(win, w.bi, w.gd, NULL, InternalStorage, LOCAL_RAM, w.dev)); w.f = w.own.get(); }
  else if (w.how == 1) { w.ext.assign(n, (T)0); w.own.reset(new FT(win, w.bi, w.gd, w.ext.data(), ExternalStorage, LOCAL_RAM, w.dev)); w.f = w.own.get(); }
  else { w.store = SpatialFieldStore::get_from_window<FT>(win, w.bi, w.gd, LOCAL_RAM, 0); w.f = &*w.store; }
  for (size_t i = 0; i < n; ++i) { (*w.f)[i] = (T)(i * 0.5 + 1); w.model.push_back((T)(i * 0.5 + 1)); }
  w.v.emplace_back(); w.v[0].p.reset(new FT(*w.f)); w.v[0].off = IntVec(0, 0, 0); w.v[0].ext = w.glob;   // handle 0: a copy of everything
  w.pts.push_back(IntVec(0, 0, 0)); w.pts.push_back(IntVec(0, 1, 0)); w.m.emplace_back(new SpatialMask<FT>(*w.f, w.pts));
  { FT warm(win, w.bi, w.gd, NULL); }  // the temporary used while writing comes from the pool
  w.pools(); usable(c, w, true);
  for (int d = 0; d < depth; ++d) {
    int obj = c.pick("object", (int)(1 + w.v.size() + w.m.size())), op = c.pick("op", 5); MemoryType t = LOCAL_RAM; unsigned short x = 0;
    FT* f = obj == 0 ? w.f : obj <= (int)w.v.size() ? w.v[obj - 1].p.get() : NULL; SpatialMask<FT>* m = f ? NULL : w.m[obj - 1 - w.v.size()].get();
    if (op < 3) { t = ALL[c.pick("type", types)]; x = c.pick("index", 2); }
    bool here = t == LOCAL_RAM && x == w.dev;
    if (op == 0) { bool e = threw([&] { f ? f->add_consumer(t, x) : m->add_consumer(t, x); }); c.check(e == !here, "add", "making it available on %d/%d %s", (int)t, x, e ? "refused" : "accepted"); }
    else if (op == 1) { bool yes = false; bool e = threw([&] { yes = f ? f->find_consumer(t, x) : m->find_consumer(t, x); }); c.check(here ? yes && !e : e || !yes, "find", "availability on %d/%d answered %d", (int)t, x, (int)yes); }
    else if (op == 2) { c.assume(t != LOCAL_RAM); bool e1, e2 = true, e3 = true; if (f) { const FT& cf = *f; e1 = threw([&] { (void)cf.field_values(t, x); }); e2 = threw([&] { (void)f->field_values(t, x); }); FT* made = NULL; e3 = threw([&] { made = new FT(win, w.bi, w.gd, NULL, InternalStorage, t, x); }) && threw([&] { made = new FT(win, w.bi, w.gd, w.model.data(), ExternalStorage, t, x); }) && threw([&] { SpatFldPtr<FT> p = SpatialFieldStore::get<FT>(*f, t, x); }) && threw([&] { SpatFldPtr<FT> p = SpatialFieldStore::get_from_window<FT>(win, w.bi, w.gd, t, x); }); } else e1 = threw([&] { (void)m->mask_values(t, x); });
      c.check(e1 && e2 && e3, "fetch", "storage on %d/%d was handed out", (int)t, x); }
    else if (op == 3) { if (f) f->remove_consumers(); else m->remove_consumers(); }
    else { if (f) { c.assume(w.v.size() < 3); typename World<FT>::View v; v.off = IntVec(0, 0, 0); v.ext = w.glob; bool sub = c.flip("view"); if (sub) { int dd = sh ? 1 : 0; v.off[dd] = 1; v.ext[dd] -= 1; } v.p.reset(sub ? new FT(MemoryWindow(w.glob, v.off, v.ext), *f) : new FT(*f)); if (!sub && obj > 0) { v.off = w.v[obj - 1].off; v.ext = w.v[obj - 1].ext; } w.v.push_back(std::move(v)); } else { c.assume(w.m.size() < 2); w.m.emplace_back(new SpatialMask<FT>(*m)); } }
    c.step(); usable(c, w, d + 1 == depth);
  }
  w.v.clear(); while (w.m.size()) w.m.pop_back(); size_t a = Pool<T>::self().active(); w.own.reset(); w.store.detach(); c.check(Pool<T>::self().active() == a - (w.how == 1 ? 0 : 1), "release", "storage not released once");
}
void histories(mc::Ctx& c) { history<SVolField>(c, c.bound(3, 4), 2, false); }
void types_xsurfy(mc::Ctx& c) { history<XSurfYField>(c, 2, 6, true); }
}
MC_REGISTER(histories, histories) MC_REGISTER(types, types_xsurfy)
