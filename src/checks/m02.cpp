// M02: SpatFldPtr histories against a model of shared objects.
#include "sops.h"
#include <spatialops/structured/MemoryPool.h>
#include <new>
#include <set>
#include <map>
#include <cstdlib>
using namespace sops;
typedef SVolField F;
typedef SpatFldPtr<F> P;
// outstanding heap objects of the two sizes the handles allocate
static std::map<size_t, long>* live() { static std::map<size_t, long>* m = nullptr; return m; }
static long g_live_field = 0, g_live_int = 0;
struct H { size_t n; size_t magic; };
void* operator new(std::size_t n) {
  H* h = (H*)malloc(n + sizeof(H)); if (!h) throw std::bad_alloc(); h->n = n; h->magic = 0x5150;
  if (n == sizeof(F)) ++g_live_field; if (n == sizeof(int)) ++g_live_int; return h + 1;
}
void operator delete(void* p) noexcept {
  if (!p) return; H* h = (H*)p - 1; if (h->magic != 0x5150) abort();
  if (h->n == sizeof(F)) --g_live_field; if (h->n == sizeof(int)) --g_live_int; free(h);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }

namespace {
struct Obj { double* mem; double val; int refs; bool store; size_t n; };
struct Sys {
  static const int S = 3;
  alignas(P) char raw[S][sizeof(P)];
  int who[S];                 // object index or -1
  std::vector<Obj> obj;
  P& p(int i) { return *reinterpret_cast<P*>(raw[i]); }
  void drop(int i) { if (who[i] >= 0) { --obj[who[i]].refs; who[i] = -1; } }
};
GhostData gh(1);
F* rawField(mc::Ctx&, const MemoryWindow& w, const BoundaryCellInfo& bc) { return new F(w, bc, gh, NULL, InternalStorage); }
void fill(F& f, double v) { for (F::iterator i = f.begin(); i != f.end(); ++i) *i = v; }

void history(mc::Ctx& c, int depth) {
  const BoundaryCellInfo bc = BoundaryCellInfo::build<F>();
  const MemoryWindow w = get_window_with_ghost(IntVec(2, 1, 1), gh, bc);
  F proto(w, bc, gh, NULL, InternalStorage);
  const size_t pool0 = Pool<double>::self().active();
  const long f0 = g_live_field, i0 = g_live_int;
  {
    Sys s; double next = 1;
    for (int i = 0; i < Sys::S; ++i) { new (s.raw[i]) P(); s.who[i] = -1; }
    auto attach = [&](int i, bool store) { Obj o = {s.p(i)->field_values(), next, 1, store, s.p(i)->window_with_ghost().glob_npts()}; next += 1; s.obj.push_back(o); s.who[i] = (int)s.obj.size() - 1; fill(*s.p(i), o.val); };
    for (int d = 0; d <= depth; ++d) {
      // ---- oracle
      size_t alive = 0; long fl = 0;
      for (size_t k = 0; k < s.obj.size(); ++k) if (s.obj[k].refs > 0) { ++alive; ++fl; }
      c.check(Pool<double>::self().active() == pool0 + alive, "pool", "%zu live fields but %ld pool blocks in use", alive, (long)Pool<double>::self().active() - (long)pool0);
      c.check(g_live_field - f0 == fl, "objects", "%ld field objects exist, %ld are referred to", g_live_field - f0, fl);
      for (int i = 0; i < Sys::S; ++i) {
        c.check(s.p(i).isnull() == (s.who[i] < 0), "null", "handle %d: isnull()=%d", i, (int)s.p(i).isnull());
        if (s.who[i] < 0) continue;
        Obj& o = s.obj[s.who[i]]; const P& cp = s.p(i);
        c.check(s.p(i).count() == o.refs, "count", "handle %d reports %d references, %d are attached", i, s.p(i).count(), o.refs);
        c.check(s.p(i).built_from_store() == o.store, "from-store", "handle %d: built_from_store()", i);
        c.check(s.p(i)->field_values() == o.mem && &*cp == &*s.p(i) && cp.operator->() == &*s.p(i), "identity", "handle %d refers to another field", i);
        for (F::const_iterator q = cp->begin(); q != cp->end(); ++q) c.check(*q == o.val, "value", "handle %d: value %g, expected %g", i, *q, o.val);
      }
      for (size_t a = 0; a < s.obj.size(); ++a) for (size_t b = a + 1; b < s.obj.size(); ++b)
        if (s.obj[a].refs > 0 && s.obj[b].refs > 0) c.check(s.obj[a].mem + s.obj[a].n <= s.obj[b].mem || s.obj[b].mem + s.obj[b].n <= s.obj[a].mem, "share", "two live fields share storage");
      if (d == depth) break;
      // ---- operation
      int op = c.pick("op", 12), i = c.pick("slot", Sys::S);
      c.step();
      switch (op) {
        case 0: s.p(i) = SpatialFieldStore::get<F>(proto); s.drop(i); attach(i, true); c.note("h%d = store.get", i); break;
        case 1: { int j = c.pick("from", Sys::S); s.p(i) = s.p(j); int o = s.who[j]; if (o >= 0) ++s.obj[o].refs; s.drop(i); s.who[i] = o; c.note("h%d = h%d", i, j); } break;
        case 2: { int j = c.pick("from", Sys::S); c.assume(i != j); s.p(i).~P(); s.drop(i); new (s.raw[i]) P(s.p(j)); s.who[i] = s.who[j]; if (s.who[j] >= 0) ++s.obj[s.who[j]].refs; c.note("h%d(h%d)", i, j); } break;
        case 3: s.p(i).detach(); s.drop(i); c.note("h%d.detach", i); break;
        case 4: s.p(i).~P(); s.drop(i); new (s.raw[i]) P(); c.note("~h%d", i); break;
        case 5: s.p(i) = rawField(c, w, bc); s.drop(i); attach(i, false); c.note("h%d = raw", i); break;
        case 6: s.p(i) = (F*)NULL; s.drop(i); c.note("h%d = NULL", i); break;
        case 7: c.assume(s.who[i] >= 0); s.p(i) = &*s.p(i); c.note("h%d = own raw field", i);
          // still the same handle on the same field
          break;
        case 8: s.p(i).~P(); s.drop(i); new (s.raw[i]) P(rawField(c, w, bc)); attach(i, false); c.note("h%d(raw)", i); break;
        case 9: c.assume(s.who[i] >= 0); s.obj[s.who[i]].val = next; fill(*s.p(i), next); next += 1; c.note("write h%d", i); break;
        case 10: { s.p(i).~P(); s.drop(i); P tmp = SpatialFieldStore::get_from_window<F>(w, bc, gh); new (s.raw[i]) P(tmp); c.check(tmp.count() == 2, "count", "count %d with two handles", tmp.count()); s.who[i] = -1; attach(i, true); } c.note("h%d(copy of temporary)", i); break;
        case 11: { P tmp(s.p(i)); P t2; t2 = tmp; tmp.detach(); if (s.who[i] >= 0) c.check(t2.count() == s.obj[s.who[i]].refs + 1, "count", "count %d after detaching a copy", t2.count()); } c.note("copies of h%d come and go", i); break;
      }
    }
    int order = c.pick("teardown", 2);
    for (int k = 0; k < Sys::S; ++k) { int i = order ? Sys::S - 1 - k : k; s.p(i).~P(); s.drop(i); }
    for (auto& o : s.obj) c.check(o.refs == 0, "harness", "model");
  }
  c.check(Pool<double>::self().active() == pool0, "pool", "storage not returned exactly once");
  c.check(g_live_field == f0, "leak", "%ld field objects leaked", g_live_field - f0);
  c.check(g_live_int == i0, "leak", "%ld reference counts leaked", g_live_int - i0);
}
}
MC_SCENARIO(handles) { history(c, c.bound(3, 4)); }
// longer histories over the operations that share and release
MC_SCENARIO(reuse) {
  const BoundaryCellInfo bc = BoundaryCellInfo::build<F>();
  const MemoryWindow w1 = get_window_with_ghost(IntVec(2, 1, 1), gh, bc), w2 = get_window_with_ghost(IntVec(3, 3, 1), gh, bc);
  size_t pool0 = Pool<double>::self().active();
  { P h[3]; double val[3] = {0, 0, 0}; int grp[3] = {-1, -1, -1}; int ng = 0;
    for (int d = 0; d < c.bound(5, 6); ++d) {
      int i = c.pick("slot", 3), op = c.pick("op", 4); c.step();
      if (op < 2) { h[i] = SpatialFieldStore::get_from_window<F>(op ? w2 : w1, bc, gh); grp[i] = ng++; val[i] = 10 + d; fill(*h[i], val[i]); }
      else if (op == 2) { int j = (i + 1) % 3; c.assume(grp[j] >= 0); h[i] = h[j]; grp[i] = grp[j]; val[i] = val[j]; }
      else { h[i].detach(); grp[i] = -1; }
      std::set<int> gs; for (int g : grp) if (g >= 0) gs.insert(g);
      c.check(Pool<double>::self().active() == pool0 + gs.size(), "pool", "%zu live fields but %ld blocks in use", gs.size(), (long)Pool<double>::self().active() - (long)pool0);
      for (int k = 0; k < 3; ++k) if (grp[k] >= 0) for (F::const_iterator q = ((const P&)h[k])->begin(); q != ((const P&)h[k])->end(); ++q) c.check(*q == val[k], "value", "a held field changed: %g, expected %g", *q, val[k]);
    } }
  c.check(Pool<double>::self().active() == pool0, "pool", "storage not returned exactly once");
}
