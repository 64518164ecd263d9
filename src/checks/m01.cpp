// M01: Pool<T> against a set-of-intervals model, all get/put histories, fresh pool per history.
#include "mc.h"
#include <spatialops/structured/MemoryPool.h>
#include <new>
#include <cstdlib>
#include <cstring>
#include <set>
#include <stdexcept>
using namespace SpatialOps; using namespace SpatialOps::structured;

static bool g_arm = false;  // fail the next array allocation
static bool g_fired = false;
// array allocations carry red zones, so that a block shorter than promised is noticed without ASan's fork cost
struct Hdr { std::size_t n; unsigned char z[56]; };
static std::set<void*>* g_live() { static std::set<void*>* s = new std::set<void*>; return s; }
void* operator new[](std::size_t n) {
  if (g_arm) { g_arm = false; g_fired = true; throw std::bad_alloc(); }
  Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n + 64); if (!h) throw std::bad_alloc();
  h->n = n; memset(h->z, 0xA5, sizeof h->z); memset((char*)(h + 1) + n, 0xA5, 64);
  g_live()->insert(h + 1);
  return h + 1;
}
static bool zones_ok() {
  for (void* p : *g_live()) {
    Hdr* h = (Hdr*)p - 1;
    for (unsigned char ch : h->z) if (ch != 0xA5) return false;
    for (int i = 0; i < 64; ++i) if (((unsigned char*)p)[h->n + i] != 0xA5) return false;
  }
  return true;
}
void operator delete[](void* p) noexcept { if (!p) return; if (!g_live()->erase(p)) abort(); free((Hdr*)p - 1); }
void operator delete[](void* p, std::size_t) noexcept { operator delete[](p); }

namespace {
template <class T> struct Blk { T* p; size_t n; unsigned tag; bool after10; };
template <class T> void fill(Blk<T>& b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = (T)(b.tag * 1000u + i); }
template <class T> bool intact(const Blk<T>& b) { for (size_t i = 0; i < b.n; ++i) if (b.p[i] != (T)(b.tag * 1000u + i)) return false; return true; }

template <class T> void counts(mc::Ctx& c, Pool<T>& P, size_t out, size_t owned) {
  c.check(P.active() == out, "active-count", "active()=%zu but %zu blocks are outstanding", P.active(), out);
  c.check(P.total() == owned, "total-count", "total()=%zu but %zu blocks were allocated", P.total(), owned);
}

template <class T> void history(mc::Ctx& c, const std::vector<size_t>& sizes, int depth, bool faults) {
  Pool<T>& P = Pool<T>::self();
  std::vector<Blk<T> > out; std::set<T*> owned;
  size_t lastReturned = 0; bool lastRet = false, ten = false, faulted = false;
  unsigned tag = 1;
  for (int d = 0; d < depth; ++d) {
    int nops = (int)sizes.size() + (int)out.size() + 1 + (faults && !faulted ? (int)sizes.size() : 0);
    int op = c.pick("op", nops);
    c.step();
    if (op < (int)sizes.size()) {
      size_t n = sizes[op];
      size_t before = P.total();
      T* p = P.get(LOCAL_RAM, n);
      c.note("get(%zu)", n);
      c.check(p != NULL, "null", "get(%zu) returned null", n);
      if (n >= 10) ten = true;
      for (auto& b : out)
        c.check(p + n <= b.p || b.p + b.n <= p, "overlap", "get(%zu) returned a block overlapping an outstanding block of %zu elements", n, b.n);
      if (lastRet && lastReturned == n) c.check(P.total() == before, "recycle", "get(%zu) right after such a block was returned grew the pool", n);
      Blk<T> b = {p, n, tag++, ten}; fill(b); out.push_back(b);
      c.check(zones_ok(), "too-small", "block returned by get(%zu) is smaller than requested", n); owned.insert(p);
      lastRet = false;
    } else if (op < (int)(sizes.size() + out.size())) {
      size_t i = op - sizes.size();
      c.check(intact(out[i]), "clobbered", "contents of a held block of %zu elements changed", out[i].n);
      P.put(LOCAL_RAM, out[i].p);
      c.note("put(#%zu size %zu)", i, out[i].n);
      lastRet = out[i].after10; lastReturned = out[i].n;
      out.erase(out.begin() + i);
    } else if (op == (int)(sizes.size() + out.size())) {
      // unsupported memory type: rejected, nothing changes
      bool threw = false;
      try { P.get(EXTERNAL_CUDA_GPU, 7); } catch (std::exception&) { threw = true; }
      c.check(threw, "bad-type", "request for an unsupported memory type was not rejected");
      if (!out.empty()) {
        threw = false;
        try { P.put(EXTERNAL_CUDA_GPU, out[0].p); } catch (std::exception&) { threw = true; }
        c.check(threw, "bad-type", "return to an unsupported memory type was not rejected");
      }
      c.note("unsupported"); lastRet = false;
    } else {
      size_t n = sizes[op - sizes.size() - out.size() - 1];
      g_arm = true; g_fired = false; faulted = true; lastRet = false;
      bool threw = false; T* p = NULL;
      try { p = P.get(LOCAL_RAM, n); } catch (std::bad_alloc&) { threw = true; }
      g_arm = false;
      c.note("get(%zu) with failing allocation -> %s", n, threw ? "bad_alloc" : "ok");
      if (g_fired) c.check(threw, "alloc-fail", "get(%zu) did not report the failed allocation", n);
      else { // served from the free list
        for (auto& b : out) c.check(p + n <= b.p || b.p + b.n <= p, "overlap", "overlapping block");
        Blk<T> b = {p, n, tag++, false}; fill(b); out.push_back(b); owned.insert(p);
        if (n >= 10) ten = true;
      }
    }
    counts(c, P, out.size(), owned.size());
  }
  for (auto& b : out) c.check(intact(b), "clobbered", "contents of a held block of %zu elements changed", b.n);
  while (!out.empty()) { P.put(LOCAL_RAM, out.back().p); out.pop_back(); counts(c, P, out.size(), owned.size()); c.step(); }
}
}
MC_SCENARIO_ISOLATED(histories) {
  int t = c.pick("type", 3);
  static const std::vector<size_t> sz = {10, 4, 11, 40};
  int depth = c.bound(5, 6) + (t == 0 ? 1 : 0);
  if (t == 0) history<double>(c, sz, depth, false);
  else if (t == 1) history<float>(c, sz, depth, false);
  else history<unsigned int>(c, sz, depth, false);
}
MC_SCENARIO_ISOLATED(alloc_failure) {
  static const std::vector<size_t> sz = {10, 4, 30};
  history<double>(c, sz, c.bound(4, 6), true);
}
// the three pools are independent of each other
MC_SCENARIO_ISOLATED(cross_pool) {
  std::vector<Blk<double> > a; std::vector<Blk<float> > b; std::set<double*> oa; std::set<float*> ob; unsigned tag = 1;
  for (int d = 0; d < c.bound(5, 7); ++d) {
    int op = c.pick("op", 4); c.step();
    if (op == 0) { Blk<double> x = {Pool<double>::self().get(LOCAL_RAM, 12), 12, tag++, false}; fill(x); a.push_back(x); oa.insert(x.p); }
    else if (op == 1) { Blk<float> x = {Pool<float>::self().get(LOCAL_RAM, 12), 12, tag++, false}; fill(x); b.push_back(x); ob.insert(x.p); }
    else if (op == 2 && !a.empty()) { c.check(intact(a.front()), "clobbered", "double block changed"); Pool<double>::self().put(LOCAL_RAM, a.front().p); a.erase(a.begin()); }
    else if (op == 3 && !b.empty()) { c.check(intact(b.front()), "clobbered", "float block changed"); Pool<float>::self().put(LOCAL_RAM, b.front().p); b.erase(b.begin()); }
    counts(c, Pool<double>::self(), a.size(), oa.size()); counts(c, Pool<float>::self(), b.size(), ob.size());
  }
  for (auto& x : a) c.check(intact(x), "clobbered", "double block changed");
  for (auto& x : b) c.check(intact(x), "clobbered", "float block changed");
}

// many blocks at once: every count up to the bound, four release orders, several rounds with another mix of sizes each
MC_SCENARIO_ISOLATED(many) {
  static const size_t S[][3] = {{10, 4, 25}, {1000, 10, 1}, {30000, 1000, 64}, {7, 7, 7}};
  Pool<double>& P = Pool<double>::self(); const size_t* sz = S[c.pick("sizes", 4)]; unsigned tag = 1;
  int k = 1 + c.pick("count", c.bound(40, 80)), mix = c.pick("mix", 6), order = c.pick("order", 4);
  std::set<double*> owned; std::vector<Blk<double> > out;
  if (c.flip("large-first")) { Blk<double> b = {P.get(LOCAL_RAM, sz[2]), sz[2], tag++, false}; owned.insert(b.p); P.put(LOCAL_RAM, b.p); counts(c, P, 0, owned.size()); }
  for (int round = 0; round < 3; ++round) {
    size_t before = P.total();
    for (int i = 0; i < k; ++i) {
      size_t n = mix == 0 ? sz[0] : mix == 1 ? sz[i % 2] : mix == 2 ? sz[(round + 1) % 2] : mix == 3 ? sz[i % 3] : mix == 4 ? sz[(i + round) % 3] : sz[i < k / 2];
      Blk<double> b = {P.get(LOCAL_RAM, n), n, tag++, false}; c.step();
      for (auto& o : out) c.check(b.p + n <= o.p || o.p + o.n <= b.p, "overlap", "get(%zu) returned a block overlapping one of %zu elements", n, o.n);
      fill(b); out.push_back(b); owned.insert(b.p);
      counts(c, P, out.size(), owned.size());
    }
    c.check(zones_ok(), "too-small", "a block is smaller than requested (round %d)", round);
    if (round && mix == 0) c.check(P.total() == before, "recycle", "asking for %d blocks of the same sizes again grew the pool from %zu to %zu", k, before, P.total());
    while (!out.empty()) {
      size_t i = order == 0 ? 0 : order == 1 ? out.size() - 1 : order == 2 ? out.size() / 2 : (out.size() & 1 ? 0 : out.size() - 1);
      c.check(intact(out[i]), "clobbered", "contents of a held block of %zu elements changed", out[i].n);
      P.put(LOCAL_RAM, out[i].p); c.step(); out.erase(out.begin() + i);
      counts(c, P, out.size(), owned.size());
    }
  }
}
