// F01: GhostData algebra, BoundaryCellInfo per field type, window extents.
#include "mc.h"
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <spatialops/structured/GhostData.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <stdexcept>
using namespace SpatialOps; using namespace SpatialOps::structured;

static GhostData mk(const int g[6]) { return GhostData(g[0], g[3], g[1], g[4], g[2], g[5]); }   // minus xyz, plus xyz
static bool is(const GhostData& d, const int e[6]) {
  for (int i = 0; i < 3; ++i) if (d.get_minus(i) != e[i] || d.get_plus(i) != e[i + 3] || d.get_minus()[i] != e[i] || d.get_plus()[i] != e[i + 3]) return false;
  return true;
}
static const char* nm[6] = {"a-x", "a-y", "a-z", "a+x", "a+y", "a+z"};
static void algebra(mc::Ctx& c, int m, int mb) {
  int a[6], b[6];
  for (int i = 0; i < 6; ++i) a[i] = c.range(nm[i], 0, m);
  GhostData A = mk(a);
  GhostData A2(IntVec(a[0], a[1], a[2]), IntVec(a[3], a[4], a[5])), A3(A), A4; A4 = A;
  c.check(is(A, a) && is(A2, a) && is(A3, a) && is(A4, a), "construct", "constructors/copies disagree");
  c.check(A == A2 && A == A3 && A == A4, "equal", "copies not equal");
  GhostData S(5); S.set_minus(IntVec(a[0], a[1], a[2])); S.set_plus(IntVec(a[3], a[4], a[5]));
  c.check(is(S, a) && S == A, "set", "set_minus/set_plus");
  int tot = 1; for (int i = 0; i < 6; ++i) tot *= mb + 1;
  for (int q = 0; q < tot; ++q) {
    int r = q; bool ge = true, same = true; int s[6], d[6], mn[6];
    for (int i = 0; i < 6; ++i) { b[i] = r % (mb + 1); r /= mb + 1; s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; mn[i] = a[i] < b[i] ? a[i] : b[i]; ge = ge && d[i] >= 0; same = same && d[i] == 0; }
    GhostData B = mk(b), P = A; P += B; c.step(4);
    c.check(is(A + B, s) && is(P, s), "add", "sum wrong");
    c.check(is(min(A, B), mn), "min", "minimum wrong");
    c.check((A == B) == same, "equal", "comparison wrong");
    if (ge) { GhostData M = A; M -= B; c.check(is(A - B, d) && is(M, d), "subtract", "difference wrong"); }
    c.check(is(A, a) && is(B, b), "const", "an operand changed");
  }
}
MC_SCENARIO(ghost_algebra) { algebra(c, c.bound(2, 3), 2); }
MC_SCENARIO(ghost_unbounded) {
  int a[6]; for (int i = 0; i < 6; ++i) a[i] = c.range(nm[i], 0, 2);
  int how = c.pick("inf", 4);
  int inf[6]; for (int& x : inf) x = GHOST_MAX;
  GhostData I = how == 0 ? GhostData(GHOST_MAX) : how == 1 ? mk(inf) : how == 2 ? GhostData(IntVec(GHOST_MAX, GHOST_MAX, GHOST_MAX), IntVec(GHOST_MAX, GHOST_MAX, GHOST_MAX)) : GhostData(1);
  if (how == 3) { I.set_minus(IntVec(GHOST_MAX, GHOST_MAX, GHOST_MAX)); I.set_plus(IntVec(GHOST_MAX, GHOST_MAX, GHOST_MAX)); }
  int cp = c.pick("copied", 3); GhostData J(0); if (cp == 0) J = I; GhostData K(I); GhostData X = cp == 0 ? J : cp == 1 ? K : I;
  GhostData A = mk(a); GhostData big(GHOST_MAX);
  c.step(6);
  c.check(X + A == big, "absorb", "unbounded + finite is not unbounded");
  c.check(A + X == big, "absorb", "finite + unbounded is not unbounded");
  GhostData Y = A; Y += X; Y += A; c.check(Y == big, "absorb", "sum that became unbounded does not stay so");
  c.check(X + X == big, "absorb", "unbounded + unbounded");
  c.check(is(min(X, A), a) && is(min(A, X), a), "min", "min with unbounded is not the finite operand");
  GhostData Mx = min(X, A) + A; int t[6]; for (int i = 0; i < 6; ++i) t[i] = 2 * a[i];
  c.check(is(Mx, t), "min", "min with unbounded stays unbounded");
  for (int v = 0; v < 3; ++v) {
    bool threw = false; GhostData L = v == 1 ? X : A; GhostData before = L;
    try { if (v == 2) { GhostData R = L - X; (void)R; } else L -= X; } catch (std::exception&) { threw = true; }
    c.check(threw, "subtrahend", "unbounded ghost data accepted as a subtrahend");
    c.check(L == before, "subtrahend", "rejected subtraction changed its target");
  }
  // setting one side back to finite ends the unboundedness
  GhostData F = X; F.set_plus(IntVec(a[3], a[4], a[5])); F.set_minus(IntVec(a[0], a[1], a[2]));
  c.check(is(F + A, t), "set", "set_minus/set_plus to finite values keep the data unbounded");
}
MC_SCENARIO(point_to_ghost) {
  int m = c.bound(4, 6); int x = c.range("x", -m, m), y = c.range("y", -m, m), z = c.range("z", -m, m);
  int p[3] = {x, y, z}, e[6]; for (int i = 0; i < 3; ++i) { e[i] = p[i] < 0 ? -p[i] : 0; e[i + 3] = p[i] > 0 ? p[i] : 0; }
  c.step(); c.check(is(point_to_ghost(IntVec(x, y, z)), e), "point", "point_to_ghost(%d,%d,%d) wrong", x, y, z);
}
struct TypeRow { const char* name; int face; int off[3]; int extra[3]; };   // face: 0..2 or -1
template <class FT> static void type_case(mc::Ctx& c, const TypeRow& r) {
  int bcv[3] = {c.flip("bcx"), c.flip("bcy"), c.flip("bcz")};
  int n[3], g[6];
  static const char* nn[3] = {"nx", "ny", "nz"};
  for (int i = 0; i < 3; ++i) n[i] = c.range(nn[i], 1, 3);
  int gm = c.bound(1, 2); for (int i = 0; i < 6; ++i) g[i] = c.range(nm[i], 0, gm);
  BoundaryCellInfo b = BoundaryCellInfo::build<FT>((bool)bcv[0], (bool)bcv[1], (bool)bcv[2]);
  BoundaryCellInfo b2 = BoundaryCellInfo::build<FT>(IntVec(bcv[0], bcv[1], bcv[2])), b3(b), b0 = BoundaryCellInfo::build<FT>(); BoundaryCellInfo b4 = b0; b4 = b;
  GhostData gd = mk(g);
  for (int i = 0; i < 3; ++i) {
    int ex = bcv[i] ? r.extra[i] : 0;
    for (const BoundaryCellInfo* q : {(const BoundaryCellInfo*)&b, (const BoundaryCellInfo*)&b2, (const BoundaryCellInfo*)&b3, (const BoundaryCellInfo*)&b4}) {
      c.check(q->has_bc(i) == (bcv[i] != 0) && (q->has_bc()[i] != 0) == (bcv[i] != 0), "has_bc", "%s: has_bc(%d)", r.name, i);
      c.check(q->has_extra(i) == ex && q->has_extra()[i] == ex, "extra", "%s: extra(%d)=%d, expected %d", r.name, i, q->has_extra(i), ex);
    }
    c.check(!b0.has_bc(i) && b0.has_extra(i) == 0, "default", "%s: default boundary info claims a boundary", r.name);
    c.check(FT::Location::Offset::int_vec()[i] == r.off[i], "offset", "%s: offset", r.name);
    c.check(get_dim_with_ghost(n[i], g[i], g[i + 3], ex) == (n[i] > 1 ? n[i] + g[i] + g[i + 3] + ex : 1), "dim", "get_dim_with_ghost");
  }
  MemoryWindow w = get_window_with_ghost(IntVec(n[0], n[1], n[2]), gd, b); c.step();
  FT f(w, b, gd, NULL, InternalStorage); c.step();
  const MemoryWindow& in = f.window_without_ghost();
  for (int i = 0; i < 3; ++i) {
    int ex = bcv[i] ? r.extra[i] : 0, want = n[i] > 1 ? n[i] + g[i] + g[i + 3] + ex : 1;
    c.check((int)w.glob_dim(i) == want && (int)w.extent(i) == want && w.offset(i) == 0, "window", "%s: array extent %d in direction %d, expected %d", r.name, (int)w.extent(i), i, want);
    c.check((int)in.extent(i) == (n[i] > 1 ? n[i] + ex : 1) && (int)in.offset(i) == (n[i] > 1 ? g[i] : 0) && (int)in.glob_dim(i) == want, "interior", "%s: interior window extent %d offset %d in direction %d", r.name, (int)in.extent(i), (int)in.offset(i), i);
    c.check((int)f.window_with_ghost().extent(i) == want, "field-window", "%s: field window", r.name);
  }
  c.check(f.get_ghost_data() == gd && f.get_valid_ghost_data() == gd, "field-ghost", "%s: field ghost data", r.name);
  for (int i = 0; i < 3; ++i) c.check(f.boundary_info().has_extra(i) == b.has_extra(i), "field-bc", "%s: field boundary info", r.name);
}
MC_SCENARIO(field_types) {
  switch (c.pick("type", 17)) {
#define ROW(i, FT, face, a, b, cc, x, y, z) case i: { TypeRow r = {#FT, face, {a, b, cc}, {x, y, z}}; type_case<FT>(c, r); } break;
    ROW(0, SVolField, -1, 0, 0, 0, 0, 0, 0) ROW(1, SSurfXField, 0, -1, 0, 0, 1, 0, 0) ROW(2, SSurfYField, 1, 0, -1, 0, 0, 1, 0) ROW(3, SSurfZField, 2, 0, 0, -1, 0, 0, 1)
    ROW(4, XVolField, -1, -1, 0, 0, 1, 0, 0) ROW(5, XSurfXField, 0, 0, 0, 0, 0, 0, 0) ROW(6, XSurfYField, 1, -1, -1, 0, 0, 1, 0) ROW(7, XSurfZField, 2, -1, 0, -1, 0, 0, 1)
    ROW(8, YVolField, -1, 0, -1, 0, 0, 1, 0) ROW(9, YSurfXField, 0, -1, -1, 0, 1, 0, 0) ROW(10, YSurfYField, 1, 0, 0, 0, 0, 0, 0) ROW(11, YSurfZField, 2, 0, -1, -1, 0, 0, 1)
    ROW(12, ZVolField, -1, 0, 0, -1, 0, 0, 1) ROW(13, ZSurfXField, 0, -1, 0, -1, 1, 0, 0) ROW(14, ZSurfYField, 1, 0, -1, -1, 0, 1, 0) ROW(15, ZSurfZField, 2, 0, 0, 0, 0, 0, 0)
    case 16: { // single-value fields never grow
      BoundaryCellInfo b = BoundaryCellInfo::build<SingleValueField>(c.flip("bcx"), c.flip("bcy"), c.flip("bcz"));
      MemoryWindow w = get_window_with_ghost(IntVec(1, 1, 1), GhostData(0), b);
      c.check(w.local_npts() == 1 && b.has_extra() == IntVec(0, 0, 0), "window", "single-value field window");
    } break;
  }
}

// fields obtained from the store in the shape of another field type
template <class To, class From> static void store_case(mc::Ctx& c, const char* name) {
  int bcv[3] = {c.flip("bcx"), c.flip("bcy"), c.flip("bcz")}, n[3], g = c.pick("ghost", 3);
  static const char* nn[3] = {"nx", "ny", "nz"};
  for (int i = 0; i < 3; ++i) n[i] = c.range(nn[i], 1, 3);
  GhostData gd = g == 0 ? GhostData(1) : g == 1 ? GhostData(0) : GhostData(1, 0, 0, 2, 1, 1);
  BoundaryCellInfo bf = BoundaryCellInfo::build<From>((bool)bcv[0], (bool)bcv[1], (bool)bcv[2]);
  From proto(get_window_with_ghost(IntVec(n[0], n[1], n[2]), gd, bf), bf, gd, NULL, InternalStorage);
  SpatialOps::SpatFldPtr<To> p = SpatialOps::SpatialFieldStore::get<To>(proto); c.step();
  const To& f = *p;
  for (int i = 0; i < 3; ++i) {
    int ex = bcv[i] ? To::Location::BCExtra::int_vec()[i] : 0;
    int want = n[i] > 1 ? n[i] + ex + gd.get_minus(i) + gd.get_plus(i) : 1;
    c.check((int)f.window_with_ghost().extent(i) == want && f.window_with_ghost().offset(i) == 0 && (int)f.window_with_ghost().glob_dim(i) == want, "store-window", "%s: store field has extent %d in direction %d, expected %d", name, (int)f.window_with_ghost().extent(i), i, want);
    c.check((int)f.window_without_ghost().extent(i) == (n[i] > 1 ? n[i] + ex : 1), "store-window", "%s: interior extent in direction %d", name, i);
    c.check(f.boundary_info().has_bc(i) == (bcv[i] != 0) && f.boundary_info().has_extra(i) == ex, "store-bc", "%s: boundary info in direction %d", name, i);
  }
  c.check(f.get_ghost_data() == gd, "store-ghost", "%s: ghost data", name);
}
MC_SCENARIO(store_shapes) {
  switch (c.pick("pair", 33)) {
#define PR(i, A, B) case i: store_case<A, B>(c, #A " from " #B); break;
    PR(0, SVolField, SVolField) PR(1, SSurfXField, SVolField) PR(2, SSurfYField, SVolField) PR(3, SSurfZField, SVolField)
    PR(4, XVolField, SVolField) PR(5, XSurfXField, SVolField) PR(6, XSurfYField, SVolField) PR(7, XSurfZField, SVolField)
    PR(8, YVolField, SVolField) PR(9, YSurfXField, SVolField) PR(10, YSurfYField, SVolField) PR(11, YSurfZField, SVolField)
    PR(12, ZVolField, SVolField) PR(13, ZSurfXField, SVolField) PR(14, ZSurfYField, SVolField) PR(15, ZSurfZField, SVolField)
    PR(16, SVolField, SSurfXField) PR(17, SVolField, SSurfYField) PR(18, SVolField, SSurfZField) PR(19, SVolField, XVolField)
    PR(20, SVolField, XSurfXField) PR(21, SVolField, XSurfYField) PR(22, SVolField, YVolField) PR(23, SVolField, YSurfZField)
    PR(24, SVolField, ZVolField) PR(25, SVolField, ZSurfZField) PR(26, XVolField, YVolField) PR(27, YVolField, ZVolField) PR(28, ZVolField, XVolField)
    PR(29, XSurfYField, YSurfXField) PR(30, SSurfXField, SSurfYField) PR(31, SSurfZField, XVolField) PR(32, ZSurfXField, ZSurfZField)
  }
}
