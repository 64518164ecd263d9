// N02: every operator over every operand-kind combination, and two-level compositions.  PART selects the group (compile time).
#include "nebo_ops.h"
using namespace nops;
#ifndef PART
#define PART 1
#endif
namespace nops { namespace {
typedef SVolField FD; typedef SpatialField<SSurfY, float> FF;
enum Kind { SC, FI, SE, SV, SVE };
static const char* kn[] = {"Scalar", "Field", "SubExpr", "SingleValue", "SingleValueExpr"};
template <class FT> struct Env {
  typedef typename FT::value_type T; typedef SpatialField<SingleValue, T> S;
  std::vector<T> v; Fld<FT> a, b, d; T sm[2]; S s0, s1; std::vector<T> a0, b0; T sm0[2]; T ca, cb;
  static S mk(T* m) { return S(MemoryWindow(IntVec(1, 1, 1)), BoundaryCellInfo::build<S>(false, false, false), GhostData(0), m, ExternalStorage); }
  Env(const std::vector<T>& v_, T ca_, T cb_) : v(v_), a(IntVec(v.size(), v.size(), 1), IntVec(0, 0, 0), GhostData(0)), b(a.n, IntVec(0, 0, 0), GhostData(0)), d(a.n, IntVec(0, 0, 0), GhostData(0)), s0(mk(&sm[0])), s1(mk(&sm[1])), ca(ca_), cb(cb_) {
    cells(a.whole(), [&](int i, int j, int k) { a.at(i, j, k) = v[i]; b.at(i, j, k) = v[j]; }); d.fillConst((T)-4242);
    sm[0] = sm0[0] = ca; sm[1] = sm0[1] = cb; a0 = a.mem; b0 = b.mem;
  }
};
template <class FT, int K, int W> struct Op;   // operand of kind K in position W
template <class FT, int W> struct Op<FT, SC, W> { typedef typename FT::value_type T; static T get(Env<FT>& e) { return W ? e.cb : e.ca; } };
template <class FT, int W> struct Op<FT, FI, W> { static const FT& get(Env<FT>& e) { return W ? e.b.f() : e.a.f(); } };
template <class FT, int W> struct Op<FT, SE, W> { static auto get(Env<FT>& e) { const FT& f = W ? e.b.f() : e.a.f(); return f * (typename FT::value_type)1; } };
template <class FT, int W> struct Op<FT, SV, W> { static auto& get(Env<FT>& e) { return W ? e.s1 : e.s0; } };
template <class FT, int W> struct Op<FT, SVE, W> { static auto get(Env<FT>& e) { return (W ? e.s1 : e.s0) * (typename FT::value_type)1; } };
template <class T> T val(int kind, T field, T constant) { return kind == FI || kind == SE ? field : constant; }
// compare the assigned destination and the recorded fold with the reference, and check operands
template <class FT, class R> void verify(mc::Ctx& c, Env<FT>& e, const char* op, const std::vector<double>* tr, R ref) {
  typedef typename FT::value_type T; size_t n = 0;
  cells(e.d.whole(), [&](int i, int j, int k) {
    undef = false; T x = ref(e.a.at(i, j, k), e.b.at(i, j, k)); size_t q = n++; if (undef) return;
    c.check(same(e.d.at(i, j, k), x), "value", "%s(%.9g, %.9g) at cell (%d,%d): %.17g, expected %.17g", op, (double)e.a.at(i, j, k), (double)e.b.at(i, j, k), i, j, (double)e.d.at(i, j, k), (double)x);
    if (tr) c.check(q < tr->size() && same((T)(*tr)[q], x), "reduced-value", "%s(%.9g, %.9g) folded at position %zu: %.17g, expected %.17g", op, (double)e.a.at(i, j, k), (double)e.b.at(i, j, k), q, q < tr->size() ? (*tr)[q] : 0.0, (double)x);
  });
  if (tr) c.check(tr->size() == n, "fold-count", "%s: fold visited %zu cells of %zu", op, tr->size(), n);
  c.check(e.a.mem == e.a0 || std::memcmp(e.a.mem.data(), e.a0.data(), e.a0.size() * sizeof(T)) == 0, "operand", "%s modified its left operand", op);
  c.check(std::memcmp(e.b.mem.data(), e.b0.data(), e.b0.size() * sizeof(T)) == 0 && !std::memcmp(e.sm, e.sm0, sizeof e.sm), "operand", "%s modified an operand", op);
  c.check(e.d.guards_ok(), "stray", "%s wrote outside the destination", op);
}
template <class FT, class E> std::vector<double> folded(const E& x) { std::vector<double> t; trace = &t; int z = 0; nebo_fold(&record<typename FT::value_type>, z, x); return t; }
template <class E> struct is_sv : std::false_type {};
template <class X, class T> struct is_sv<NeboSingleValueExpression<X, T> > : std::true_type {};
template <class FT, class E> void assignAndFold(mc::Ctx& c, Env<FT>& e, const E& x, std::vector<double>& t, bool& hasTrace) {
  e.d.f() <<= x; c.step();
  if constexpr (!is_sv<E>::value) { t = folded<FT>(x); hasTrace = true; c.step(); } else hasTrace = false;
}
template <class FT> std::vector<typename FT::value_type> vals() {
  typedef typename FT::value_type T; const T inf = std::numeric_limits<T>::infinity();
  return {(T)-2.5, (T)-1, (T)-0.0, (T)0.5, (T)1, (T)3, (T)1e30, std::numeric_limits<T>::denorm_min() * 3, -inf, inf, std::numeric_limits<T>::quiet_NaN()};
}
// ---- binary operator over one pair of operand kinds
template <class FT, class O, int KA, int KB, bool CMPOP> void bin(mc::Ctx& c) {
  typedef typename FT::value_type T; auto v = vals<FT>();
  T ca = 0, cb = 0; if (KA == SC || KA == SV || KA == SVE) ca = c.in("left", v); if (KB == SC || KB == SV || KB == SVE) cb = c.in("right", v);
  Env<FT> e(v, ca, cb); std::vector<double> t; bool ht; char nm[80]; if (KA != FI || KB != FI) snprintf(nm, sizeof nm, "%s[%s=%g x %s=%g]", O::name(), kn[KA], (double)ca, kn[KB], (double)cb); else snprintf(nm, sizeof nm, "%s[Field x Field]", O::name());
  const auto& l = Op<FT, KA, 0>::get(e); const auto& r = Op<FT, KB, 1>::get(e);
  if constexpr (CMPOP) assignAndFold(c, e, cond(O::f(l, r), (T)1)((T)0), t, ht);
  else assignAndFold(c, e, O::f(l, r), t, ht);
  verify<FT>(c, e, nm, ht ? &t : nullptr, [&](T x, T y) { T p = val(KA, x, ca), q = val(KB, y, cb); return (T)O::ref(p, q); });
  if constexpr (!CMPOP && KA != FI && KA != SE && KB != FI && KB != SE) {   // single-valued result into a single-value destination
    T dm = (T)-4242; auto d = Env<FT>::mk(&dm); d <<= O::f(l, r); c.step(); undef = false; T x = O::ref(ca, cb);
    if (!undef) c.check(same(dm, x), "value", "%s into a single value: %.17g, expected %.17g", nm, (double)dm, (double)x);
  }
}
typedef void (*Fn)(mc::Ctx&);
template <class FT, class O, bool CMPOP, int KA, int KB> constexpr bool usable() { return !(KA == SC && KB == SC) && !(CMPOP && (KA == SC || KA >= SV) && (KB == SC || KB >= SV)); }
template <class FT, class O, bool CMPOP, int... P> void binTable(std::vector<Fn>& t, std::integer_sequence<int, P...>) {
  auto add = [&](auto p) { constexpr int q = decltype(p)::value; if constexpr (usable<FT, O, CMPOP, q / 5, q % 5>()) t.push_back(&bin<FT, O, q / 5, q % 5, CMPOP>); };
  (add(std::integral_constant<int, P>()), ...);
}
template <class FT, class O, bool CMPOP> void binOp(mc::Ctx& c) { std::vector<Fn> t; binTable<FT, O, CMPOP>(t, std::make_integer_sequence<int, 25>()); t[c.pick("kinds", t.size())](c); }
// ---- unary
template <class FT, class O, int K> void una(mc::Ctx& c) {
  typedef typename FT::value_type T; auto v = vals<FT>(); for (T x : {(T)0.25, (T)-0.75, (T)2, (T)-7, (T)40}) v.push_back(x);
  T ca = 0; if (K == SV || K == SVE) ca = c.in("value", v);
  Env<FT> e(v, ca, ca); std::vector<double> t; bool ht; char nm[60]; snprintf(nm, sizeof nm, "%s[%s=%g]", O::name(), kn[K], (double)ca);
  const auto& l = Op<FT, K, 0>::get(e); assignAndFold(c, e, O::f(l), t, ht);
  verify<FT>(c, e, nm, ht ? &t : nullptr, [&](T x, T) { return O::ref(val(K, x, ca)); });
  if constexpr (K >= SV) { T dm = (T)-4242; auto d = Env<FT>::mk(&dm); d <<= O::f(l); c.step(); c.check(same(dm, O::ref(ca)), "value", "%s into a single value: %.17g, expected %.17g", nm, (double)dm, (double)O::ref(ca)); }
}
template <class FT, class... O> void unaAll(mc::Ctx& c, List<O...>) {
  static const Fn t[] = {&una<FT, O, FI>..., &una<FT, O, SE>..., &una<FT, O, SV>..., &una<FT, O, SVE>...};
  t[c.pick("function-and-kind", 4 * sizeof...(O))](c);
}
typedef List<Sin, Cos, Tan, Exp, Tanh, Abs, Neg, Sqrt, Log, Log10, Erf, Erfc> Unary;
// ---- logical
enum { BO, BE, MA };
template <class O> void logical(mc::Ctx& c) {   // all kinds; 4-cell fields whose cells hold all truth pairs
  typedef FD F; int ka = c.pick("left-kind", 3), kb = c.pick("right-kind", 3); c.assume(ka || kb);
  bool ca = ka == BO ? c.flip("left") : false, cb = kb == BO ? c.flip("right") : false;
  Env<F> e({0.0, 1.0}, 0, 0); std::vector<IntVec> pa, pb; cells(e.a.whole(), [&](int i, int j, int k) { if (e.a.at(i, j, k) == 1) pa.push_back(IntVec(i, j, k)); if (e.b.at(i, j, k) == 1) pb.push_back(IntVec(i, j, k)); });
  SpatialMask<F> ma(e.a.f(), pa), mb(e.b.f(), pb); const F &A = e.a.f(), &B = e.b.f(); std::vector<double> t; bool ht;
#define L(X) assignAndFold(c, e, cond(X, 1.0)(0.0), t, ht)
  auto xa = A > 0.5; auto xb = B > 0.5;
  switch (ka * 3 + kb) {
    case BO * 3 + BE: L(O::f(ca, xb)); break; case BO * 3 + MA: L(O::f(ca, mb)); break;
    case BE * 3 + BO: L(O::f(xa, cb)); break; case BE * 3 + BE: L(O::f(xa, xb)); break; case BE * 3 + MA: L(O::f(xa, mb)); break;
    case MA * 3 + BO: L(O::f(ma, cb)); break; case MA * 3 + BE: L(O::f(ma, xb)); break; case MA * 3 + MA: L(O::f(ma, mb)); break;
  }
  verify<F>(c, e, O::name(), ht ? &t : nullptr, [&](double x, double y) { return (double)O::ref(ka == BO ? ca : x == 1, kb == BO ? cb : y == 1); });
}
void negation(mc::Ctx& c) {
  typedef FD F; Env<F> e({0.0, 1.0}, 0, 0); std::vector<IntVec> pa; cells(e.a.whole(), [&](int i, int j, int k) { if (e.a.at(i, j, k) == 1) pa.push_back(IntVec(i, j, k)); });
  SpatialMask<F> ma(e.a.f(), pa); const F& A = e.a.f(); std::vector<double> t; bool ht; auto xa = A > 0.5;
  int k = c.pick("kind", 4);
  switch (k) { case 0: L(!xa); break; case 1: L(!ma); break; case 2: L(!(!xa)); break; case 3: L(!(!ma)); break; }
  verify<F>(c, e, "Not", &t, [&](double x, double) { return k < 2 ? (double)!(x == 1) : x; });
}
// ---- two-level compositions over fields
template <class T> std::vector<T> nestVals() { return {(T)-1.5, (T)0, (T)0.5, (T)2}; }
template <class FT, class X, class R> void nest(mc::Ctx& c, Env<FT>& e, Fld<FT>&, const char* nm, const X& x, R r) { std::vector<double> t; bool ht; assignAndFold(c, e, x, t, ht); verify<FT>(c, e, nm, &t, r); }
#define NENV typedef typename FT::value_type T; Env<FT> e(nestVals<T>(), 0, 0); Fld<FT>& dummy = e.d; const FT &A = e.a.f(), &B = e.b.f(); char nm[60]; const T k = (T)1.25;
template <class FT, class O, class I> void bb(mc::Ctx& c) {
  NENV int w = c.pick("shape", 4); snprintf(nm, sizeof nm, "%s over %s shape %d", O::name(), I::name(), w);
  switch (w) {
    case 0: nest(c, e, dummy, nm, O::f(I::f(A, B), k), [&](T x, T y) { return O::ref(I::ref(x, y), k); }); break;
    case 1: nest(c, e, dummy, nm, O::f(k, I::f(A, B)), [&](T x, T y) { return O::ref(k, I::ref(x, y)); }); break;
    case 2: nest(c, e, dummy, nm, O::f(A, I::f(k, B)), [&](T x, T y) { return O::ref(x, I::ref(k, y)); }); break;
    case 3: nest(c, e, dummy, nm, O::f(I::f(A, k), I::f(B, A)), [&](T x, T y) { return O::ref(I::ref(x, k), I::ref(y, x)); }); break;
  }
}
template <class FT, class O, class I> void bu(mc::Ctx& c) {
  NENV int w = c.pick("shape", 2); snprintf(nm, sizeof nm, "%s over %s shape %d", O::name(), I::name(), w);
  if (w == 0) nest(c, e, dummy, nm, O::f(I::f(A), B), [&](T x, T y) { return O::ref(I::ref(x), y); });
  else nest(c, e, dummy, nm, O::f(A, I::f(B)), [&](T x, T y) { return O::ref(x, I::ref(y)); });
}
template <class FT, class O, class I> void ub(mc::Ctx& c) { NENV snprintf(nm, sizeof nm, "%s over %s", O::name(), I::name()); nest(c, e, dummy, nm, O::f(I::f(A, B)), [&](T x, T y) { return O::ref(I::ref(x, y)); }); }
template <class FT, class O, class I> void uu(mc::Ctx& c) { NENV snprintf(nm, sizeof nm, "%s over %s", O::name(), I::name()); nest(c, e, dummy, nm, O::f(I::f(A)), [&](T x, T y) { return O::ref(I::ref(x)); }); }
template <class FT, class O, class I> void cb(mc::Ctx& c) { NENV snprintf(nm, sizeof nm, "%s over %s", O::name(), I::name()); if (c.flip("right")) nest(c, e, dummy, nm, cond(O::f(A, I::f(k, B)), (T)1)((T)0), [&](T x, T y) { return (T)O::ref(x, I::ref(k, y)); }); else nest(c, e, dummy, nm, cond(O::f(I::f(A, B), k), (T)1)((T)0), [&](T x, T y) { return (T)O::ref(I::ref(x, y), k); }); }
template <class FT, class O, class I, class J> void lcc(mc::Ctx& c) { NENV snprintf(nm, sizeof nm, "%s of %s and %s", O::name(), I::name(), J::name()); if (c.flip("not")) nest(c, e, dummy, nm, cond(O::f(!I::f(A, B), J::f(A, k)), (T)1)((T)0), [&](T x, T y) { return (T)O::ref(!I::ref(x, y), J::ref(x, k)); }); else nest(c, e, dummy, nm, cond(O::f(I::f(A, B), J::f(B, k)), (T)1)((T)0), [&](T x, T y) { return (T)O::ref(I::ref(x, y), J::ref(y, k)); }); }
template <class FT, template <class, class, class> class W, class O, class... I> void row(std::vector<Fn>& t, List<I...>) { (t.push_back(&W<FT, O, I>::go), ...); }
#define WRAP(F_) template <class FT, class O, class I> struct W_##F_ { static void go(mc::Ctx& c) { F_<FT, O, I>(c); } };
WRAP(bb) WRAP(bu) WRAP(ub) WRAP(uu) WRAP(cb)
typedef List<Add, Sub, Mul, Div, Pow, Max, Min> Binary; typedef List<Eq, Ne, Lt, Le, Gt, Ge> Compare;
template <class FT, template <class, class, class> class W, class... O, class IL> void table(mc::Ctx& c, List<O...>, IL il) { static std::vector<Fn> t; if (t.empty()) (row<FT, W, O>(t, il), ...); t[c.pick("operators", t.size())](c); }
template <class FT, class O, class I, class... J> void lrow(std::vector<Fn>& t, List<J...>) { (t.push_back(&lcc<FT, O, I, J>), ...); }
template <class FT, class... I> void ltable(mc::Ctx& c, List<I...> l) { static std::vector<Fn> t; if (t.empty()) { (lrow<FT, And, I>(t, l), ...); (lrow<FT, Or, I>(t, l), ...); } t[c.pick("operators", t.size())](c); }
#define TAB(N, W, OL, IL) static void N(mc::Ctx& c) { table<FD, W>(c, OL(), IL()); }
#if PART == 7
TAB(n_bb, W_bb, Binary, Binary)
#elif PART == 8
TAB(n_bu, W_bu, Binary, Unary)
#elif PART == 9
TAB(n_ub, W_ub, Unary, Binary) TAB(n_cb, W_cb, Compare, Binary)
#elif PART == 10
TAB(n_uu, W_uu, Unary, Unary) static void n_lcc(mc::Ctx& c) { ltable<FD>(c, Compare()); }
#endif
#define B(O_, FT, C_) static void b_##O_##_##FT(mc::Ctx& c) { binOp<FT, O_, C_>(c); } MC_REGISTER(O_##_##FT, b_##O_##_##FT)
#if PART == 1
B(Add, FD, false) B(Sub, FD, false)
#elif PART == 2
B(Mul, FD, false) B(Div, FD, false)
#elif PART == 3
B(Pow, FD, false) B(Max, FD, false) B(Min, FD, false)
#elif PART == 4
B(Eq, FD, true) B(Ne, FD, true) B(Lt, FD, true)
#elif PART == 5
B(Le, FD, true) B(Gt, FD, true) B(Ge, FD, true)
#elif PART == 6
static void unary_d(mc::Ctx& c) { unaAll<FD>(c, Unary()); }
static void unary_f(mc::Ctx& c) { unaAll<FF>(c, List<Exp, Abs, Neg, Sqrt>()); }
MC_REGISTER(unary_double, unary_d) MC_REGISTER(unary_float, unary_f)
MC_REGISTER(and_kinds, logical<And>) MC_REGISTER(or_kinds, logical<Or>) MC_REGISTER(not_kinds, negation)
#elif PART == 7
MC_REGISTER(binary_of_binary, n_bb)
#elif PART == 8
MC_REGISTER(binary_of_unary, n_bu)
#elif PART == 9
MC_REGISTER(unary_of_binary, n_ub) MC_REGISTER(compare_of_binary, n_cb)
#elif PART == 10
MC_REGISTER(unary_of_unary, n_uu) MC_REGISTER(logic_of_compare, n_lcc)
#elif PART == 11
B(Add, FF, false) B(Div, FF, false)
#elif PART == 12
B(Max, FF, false) B(Lt, FF, true)
#endif
} }
