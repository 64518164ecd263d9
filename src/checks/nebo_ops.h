// operator table shared by the expression harnesses: every operator of the expression language with its reference meaning
#ifndef VERIF_NEBO_OPS_H
#define VERIF_NEBO_OPS_H
#include "sops.h"
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/NeboReductions.h>
namespace nops {
using namespace sops;
static bool undef;   // set by a reference operation whose meaning the C++ operation leaves open (extrema of NaN)
#define BIN(NAME, EXPR, REF) struct NAME { static const char* name() { return #NAME; } \
  template <class A, class B> static auto f(const A& a, const B& b) { return EXPR; } template <class T> static T ref(T a, T b) { return REF; } };
BIN(Add, a + b, a + b) BIN(Sub, a - b, a - b) BIN(Mul, a * b, a * b) BIN(Div, a / b, a / b)
BIN(Pow, pow(a, b), std::pow(a, b))
BIN(Max, max(a, b), (undef |= std::isnan(a) || std::isnan(b), a < b ? b : a)) BIN(Min, min(a, b), (undef |= std::isnan(a) || std::isnan(b), b < a ? b : a))
#define CMP(NAME, OP) struct NAME { static const char* name() { return #NAME; } \
  template <class A, class B> static auto f(const A& a, const B& b) { return a OP b; } template <class T> static bool ref(T a, T b) { return a OP b; } };
CMP(Eq, ==) CMP(Ne, !=) CMP(Lt, <) CMP(Le, <=) CMP(Gt, >) CMP(Ge, >=)
CMP(And, &&) CMP(Or, ||)
#define UN(NAME, EXPR, REF) struct NAME { static const char* name() { return #NAME; } \
  template <class A> static auto f(const A& a) { return EXPR; } template <class T> static T ref(T a) { return REF; } };
UN(Sin, sin(a), std::sin(a)) UN(Cos, cos(a), std::cos(a)) UN(Tan, tan(a), std::tan(a)) UN(Exp, exp(a), std::exp(a)) UN(Tanh, tanh(a), std::tanh(a))
UN(Abs, abs(a), std::fabs(a)) UN(Neg, -a, -a) UN(Sqrt, sqrt(a), std::sqrt(a)) UN(Log, log(a), std::log(a)) UN(Log10, log10(a), std::log10(a))
UN(Erf, erf(a), std::erf(a)) UN(Erfc, erfc(a), std::erfc(a))
UN(Not, !a, !a)
template <class... O> struct List {};
template <class T> bool same(T got, T e) { return std::isnan(e) ? std::isnan(got) : close(got, e, std::numeric_limits<T>::epsilon() * 8, std::numeric_limits<T>::min()); }
// a fold that records the values of an expression in the order it visits them
static std::vector<double>* trace;
template <class T> const int& record(const int& n, const T& v) { trace->push_back(v); return n; }
}
#endif
