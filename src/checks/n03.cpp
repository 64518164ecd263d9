// N03: conditional expressions.  Every clause chain to the length bound over condition kinds x value kinds, all truth assignments.
#include "nebo_ops.h"
namespace nops { namespace {
#ifndef PART
#define PART 1
#endif
#ifdef USE_FLOAT
typedef SpatialField<XSurfY, float> FT;
#else
typedef SVolField FT;
#endif
typedef FT::value_type T;
static const int L = 4, NC = 1 << L;
enum CK { BOOL, BEXPR, MASK }; enum VK { CONST, FIELD, EXPR };
struct Env {
  Fld<FT> d; std::unique_ptr<Fld<FT> > cnd[L], val[L + 1]; std::unique_ptr<SpatialMask<FT> > m[L]; bool b[L]; std::vector<std::vector<T> > keep;
  // layout: the NC truth combinations, x-fastest, over shape s
  explicit Env(const IntVec& s) : d(s, IntVec(0, 0, 0), GhostData(0)) {
    d.fillConst((T)-4242);
    for (int q = 0; q <= L; ++q) { val[q].reset(new Fld<FT>(s, IntVec(0, 0, 0), GhostData(0))); for (int n = 0; n < NC; ++n) val[q]->data()[n] = (T)(100 * (q + 1) + n); }
    for (int q = 0; q < L; ++q) {
      cnd[q].reset(new Fld<FT>(s, IntVec(0, 0, 0), GhostData(0))); std::vector<IntVec> p; int n = 0;
      cells(d.whole(), [&](int i, int j, int k) { bool t = n++ >> q & 1; cnd[q]->at(i, j, k) = (T)t; if (t) p.push_back(IntVec(i, j, k)); });
      m[q].reset(new SpatialMask<FT>(d.f(), p)); b[q] = false;
    }
    for (int q = 0; q < L; ++q) keep.push_back(cnd[q]->mem); for (int q = 0; q <= L; ++q) keep.push_back(val[q]->mem);
  }
  bool operands_ok() { for (int q = 0; q < L; ++q) if (keep[q] != cnd[q]->mem) return false; for (int q = 0; q <= L; ++q) if (keep[L + q] != val[q]->mem) return false; return true; }
};
template <int K> auto condition(Env& e, int q) { if constexpr (K == BOOL) return e.b[q]; else if constexpr (K == BEXPR) { const FT& f = e.cnd[q]->f(); return f > (T)0.5; } else return SpatialMask<FT>(*e.m[q]); }
template <int K> decltype(auto) value(Env& e, int q) { const FT& f = e.val[q]->f(); if constexpr (K == CONST) return (double)(-10 - q); else if constexpr (K == FIELD) return (f); else return f * (T)2; }
T refValue(int kind, int q, int n) { return kind == CONST ? (T)(-10 - q) : (T)((100 * (q + 1) + n) * (kind == EXPR ? 2 : 1)); }
// a clause is encoded as 3*CK+VK
template <int O, class Bld> auto ext(Bld b, Env& e, int) { return b(value<O>(e, L)); }
template <int O, int C, int... R, class Bld> auto ext(Bld b, Env& e, int q) { return ext<O, R...>(b(condition<C / 3>(e, q), value<C % 3>(e, q)), e, q + 1); }
template <int O, int C, int... R> auto build(Env& e) { return ext<O, R...>(cond(condition<C / 3>(e, 0), value<C % 3>(e, 0)), e, 1); }
T reference(Env& e, const int* cl, int len, int o, int n) {
  for (int q = 0; q < len; ++q) if (cl[q] / 3 == BOOL ? e.b[q] : (n >> q & 1)) return refValue(cl[q] % 3, q, n);
  return refValue(o, L, n);
}
template <class E> void use(mc::Ctx& c, Env& e, const E& x, const char* what, const int* cl, int len, int o) {
  FT& D = e.d.f(); const FT& A = e.val[0]->f(); std::vector<double> t; bool ht = false;
  int ctx = c.pick("use", 4); T (*post)(T, T) = 0;
  auto run = [&](const auto& y) { D <<= y; c.step(); if constexpr (!std::is_arithmetic<std::decay_t<decltype(y)> >::value) { trace = &t; int z = 0; nebo_fold(&record<T>, z, y); ht = true; c.step(); } };
  switch (ctx) {
    case 0: run(x); post = [](T v, T) { return v; }; break;
    case 1: if constexpr (std::is_arithmetic<E>::value) { run(A - (T)x); } else run(A - x); post = [](T v, T a) { return (T)(a - v); }; break;
    case 2: run(cond(A > (T)107, x)((T)3)); post = [](T v, T a) { return a > (T)107 ? v : (T)3; }; break;      // as a value of another conditional
    case 3: if constexpr (std::is_arithmetic<E>::value) throw mc::Prune(); else run(cond(x > (T)205, (T)1)(A)); post = [](T v, T a) { return v > (T)205 ? (T)1 : a; }; break;   // inside a condition
  }
  for (int n = 0; n < NC; ++n) {
    T r = post(reference(e, cl, len, o, n), (T)(100 + n));
    c.check(e.d.data()[n] == r, "clause", "%s, use %d, truth %x: %g, expected %g", what, ctx, n, (double)e.d.data()[n], (double)r);
    if (ht) c.check(n < (int)t.size() && t[n] == r, "folded-clause", "%s, use %d, truth %x folded: %g, expected %g", what, ctx, n, n < (int)t.size() ? t[n] : 0.0, (double)r);
  }
  if (ht) c.check((int)t.size() == NC, "fold-count", "%s: fold visited %zu cells", what, t.size());
  c.check(e.operands_ok(), "operand", "%s modified an operand", what); c.check(e.d.guards_ok(), "stray", "%s wrote outside", what);
}
template <int O, int... C> void chain(mc::Ctx& c) {
  SOPS_PARTITIONS(c, 2, 3, 4);
  static const IntVec shapes[] = {IntVec(NC, 1, 1), IntVec(4, 4, 1), IntVec(2, 2, 4)};
  Env e(shapes[c.pick("shape", 3)]); const int cl[] = {C...}; const int len = sizeof...(C);
  char nm[80]; int p = 0; for (int q = 0; q < len; ++q) { const char* cn[] = {"bool", "expr", "mask"}; const char* vn[] = {"const", "field", "subexpr"}; if (cl[q] / 3 == BOOL) e.b[q] = c.flip("bool"); p += snprintf(nm + p, sizeof nm - p, "(%s,%s)", cn[cl[q] / 3], vn[cl[q] % 3]); }
  auto x = build<O, C...>(e); use(c, e, x, nm, cl, len, O);
}
typedef void (*Fn)(mc::Ctx&);
template <int O, int... C> void one(std::vector<Fn>& t) { t.push_back(&chain<O, C...>); }
template <class F, int... I> void each(F f, std::integer_sequence<int, I...>) { (f(std::integral_constant<int, I>()), ...); }
#define EACH(N, V) each([&](auto V##_) { constexpr int V = decltype(V##_)::value;
#define END(N) }, std::make_integer_sequence<int, N>());
void chains(mc::Ctx& c) {
  static std::vector<Fn> t;
  if (t.empty()) {
#if PART == 1     // one clause; two clauses starting with a boolean constant
    EACH(9, a) EACH(3, o) one<o, a>(t); END(3) END(9)
    EACH(3, a) EACH(9, b) one<(a + b) % 3, a, b>(t); END(9) END(3)
#elif PART == 2
    EACH(3, a) EACH(9, b) one<(a + b) % 3, a + 3, b>(t); END(9) END(3)
#elif PART == 3
    EACH(3, a) EACH(9, b) one<(a + b) % 3, a + 6, b>(t); END(9) END(3)
#elif PART == 4   // three clauses: every middle clause between representative neighbours; condition kinds in every order
    EACH(9, b) one<CONST, 0, b, 4>(t); one<FIELD, 8, b, 0>(t); END(9)
#elif PART == 5
    EACH(27, q) one<q % 3, 3 * (q / 9) + (q + 1) % 3, 3 * (q / 3 % 3) + q / 9, 3 * (q % 3) + (q / 3) % 3>(t); END(27)
#elif PART == 6   // four clauses
    one<CONST, 0, 0, 0, 0>(t); one<FIELD, 0, 0, 0, 1>(t); one<CONST, 4, 4, 4, 4>(t); one<EXPR, 8, 8, 8, 8>(t); one<CONST, 6, 3, 0, 6>(t); one<CONST, 0, 4, 8, 0>(t); one<FIELD, 1, 6, 5, 7>(t); one<EXPR, 5, 2, 7, 3>(t);
#endif
  }
  t[c.pick("chain", t.size())](c);
}
#if PART == 1
// a conditional without clauses is its value
MC_SCENARIO(no_clause) {
  Env e(IntVec(NC, 1, 1)); int k = c.pick("value", 3); const FT& f = e.val[0]->f(); FT& D = e.d.f();
  switch (k) { case 0: D <<= cond(7.0); break; case 1: D <<= cond(f); break; case 2: D <<= cond(f * (T)2); break; }
  c.step(); for (int n = 0; n < NC; ++n) { T r = k == 0 ? (T)7 : (T)((100 + n) * k); c.check(e.d.data()[n] == r, "clause", "no clause, kind %d: %g, expected %g", k, (double)e.d.data()[n], (double)r); }
}
#endif
MC_REGISTER(chains, chains)
} }
