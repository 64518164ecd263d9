// helpers shared by the field harnesses: field construction over caller-owned memory, reference arrays
#ifndef VERIF_SOPS_H
#define VERIF_SOPS_H
#include "mc.h"
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/Nebo.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <vector>
#include <memory>
#include <cmath>
#include <cstring>
#include <limits>
namespace SpatialOps { namespace structured {} }
using namespace SpatialOps;
using namespace SpatialOps::structured;

namespace sops {
struct Box { IntVec lo, hi; bool has(int i, int j, int k) const { return i >= lo[0] && i < hi[0] && j >= lo[1] && j < hi[1] && k >= lo[2] && k < hi[2]; } };

// threaded builds: number of partitions given to the fields constructed from here on (0: the default)
inline int& partitions() { static int p = 0; return p; }
#ifdef FIELD_EXPRESSION_THREADS
# define SOPS_PARTITIONS(c, ...) sops::partitions() = c.of("partitions", {__VA_ARGS__})
#else
# define SOPS_PARTITIONS(c, ...) ((void)0)
#endif
// A field over caller-owned memory with guard zones; index coordinates are relative to the first interior cell.
template <class FT> struct Fld {
  typedef typename FT::value_type T;
  IntVec n, glob, goff;          // interior (no extra), array dims, offset of interior cell 0
  GhostData gd; BoundaryCellInfo bi; IntVec extra;
  std::vector<T> mem;
  std::unique_ptr<FT> p;
  static const int Z = 16;
  T guard() const { return (T)-777; }
  Fld(const IntVec& n_, const IntVec& bc, const GhostData& g)
    : n(n_), gd(g), bi(BoundaryCellInfo::build<FT>(bc[0], bc[1], bc[2])) {
    for (int i = 0; i < 3; ++i) {
      extra[i] = (n[i] > 1 && bc[i]) ? FT::Location::BCExtra::int_vec()[i] : 0;
      glob[i] = n[i] > 1 ? n[i] + extra[i] + gd.get_minus(i) + gd.get_plus(i) : 1;
      goff[i] = n[i] > 1 ? gd.get_minus(i) : 0;
    }
    mem.assign(size_t(glob[0]) * glob[1] * glob[2] + 2 * Z, guard());
    p.reset(new FT(MemoryWindow(glob), bi, gd, mem.data() + Z, ExternalStorage));
#ifdef FIELD_EXPRESSION_THREADS
    if (partitions()) p->set_partition_count(partitions());
#endif
  }
  FT& f() { return *p; }
  T* data() { return mem.data() + Z; }
  size_t size() const { return mem.size() - 2 * Z; }
  size_t flat(int i, int j, int k) const { return (i + goff[0]) + size_t(glob[0]) * ((j + goff[1]) + size_t(glob[1]) * (k + goff[2])); }
  T& at(int i, int j, int k) { return data()[flat(i, j, k)]; }
  bool inArray(int i, int j, int k) const { return i + goff[0] >= 0 && i + goff[0] < glob[0] && j + goff[1] >= 0 && j + goff[1] < glob[1] && k + goff[2] >= 0 && k + goff[2] < glob[2]; }
  Box whole() const { Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = -goff[d]; b.hi[d] = glob[d] - goff[d]; } return b; }
  Box interior() const { Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = 0; b.hi[d] = n[d] > 1 ? n[d] + extra[d] : 1; } return b; }
  bool guards_ok() const { for (int i = 0; i < Z; ++i) if (mem[i] != guard() || mem[mem.size() - 1 - i] != guard()) return false; return true; }
  // distinct dyadic values, sign and magnitude varying
  void fill(int seed) {
    for (size_t i = 0; i < size(); ++i) { long h = long((i + 1) * 7919 + seed * 104729) % 509; data()[i] = (T)((h - 254) / 8.0); }
  }
  void fillConst(T v) { for (size_t i = 0; i < size(); ++i) data()[i] = v; }
};
template <class L> void cells(const Box& b, L l) {
  for (int k = b.lo[2]; k < b.hi[2]; ++k) for (int j = b.lo[1]; j < b.hi[1]; ++j) for (int i = b.lo[0]; i < b.hi[0]; ++i) l(i, j, k);
}
inline bool close(double a, double b, double rel = 4e-14, double abs_ = 0) {
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs_;
}
}
#endif
