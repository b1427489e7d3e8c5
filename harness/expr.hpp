// Simulated runs of expression evaluation and broadcast views. Shared by the OpenMP and GPU harnesses.
#ifndef VERIF_EXPR_HPP
#define VERIF_EXPR_HPP
#include "ekat_expression_eval.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_view.hpp"
#include "ekat_kernel_assert.hpp"
#include "ekat_view_broadcast.hpp"
#include "../sim/sim.hpp"
#include <array>
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace ex {
using sim::NoPreempt;
// What the formulas below mean for numbers.
inline double sqrt(double a) { return std::sqrt(a); } inline float sqrt(float a) { return std::sqrt(a); }
inline double exp(double a) { return std::exp(a); } inline float exp(float a) { return std::exp(a); }
inline double log(double a) { return std::log(a); } inline float log(float a) { return std::log(a); }
inline double sin(double a) { return std::sin(a); } inline float sin(float a) { return std::sin(a); }
inline double cos(double a) { return std::cos(a); } inline float cos(float a) { return std::cos(a); }
template <class A, class B, class = std::enable_if_t<std::is_arithmetic<A>::value && std::is_arithmetic<B>::value>> auto pow(A a, B b) { using C = std::common_type_t<A, B>; return C(std::pow(C(a), C(b))); }
template <class A, class B, class = std::enable_if_t<std::is_arithmetic<A>::value && std::is_arithmetic<B>::value>> auto max(A a, B b) { using C = std::common_type_t<A, B>; return C(a) < C(b) ? C(b) : C(a); }
template <class A, class B, class = std::enable_if_t<std::is_arithmetic<A>::value && std::is_arithmetic<B>::value>> auto min(A a, B b) { using C = std::common_type_t<A, B>; return C(b) < C(a) ? C(b) : C(a); }
template <class C, class A, class B, class = std::enable_if_t<std::is_arithmetic<C>::value && std::is_arithmetic<A>::value && std::is_arithmetic<B>::value>> auto if_then_else(C c, A a, B b) { using T = std::common_type_t<A, B>; return c ? T(a) : T(b); }

// The formulas: the same text for expressions and for numbers. a, b: numbers; n: an integer.
template <int K> struct Formula;
#define FORMULA(K, TEXT) template <> struct Formula<K> { static const char* text() { return #TEXT; } template <class X, class Y, class Z, class S> static auto f(const X& x, const Y& y, const Z& z, S a, S b, int n) { (void)x; (void)y; (void)z; (void)a; (void)b; (void)n; return TEXT; } };
FORMULA(0, x + y)
FORMULA(1, x * y - a / y + b * z)
FORMULA(2, (x - y) * (y - z) - (z - x) / (y + 20))
FORMULA(3, -x + a - (-(y * n)))
FORMULA(4, if_then_else(x > y, z, -z))
FORMULA(5, if_then_else(x <= a && y != z, x * b, if_then_else(z < b || x >= y, y, a)))
FORMULA(6, max(x, y) - min(z, a) + max(b, x) - min(y, x))
FORMULA(7, 2 * exp(-x / 8) * sin(y) + cos(z) * sqrt(x * x + 1) - log(y * y + 3))
FORMULA(8, pow(x, 2) + pow(2, y) - pow(max(z, a), n))
FORMULA(9, x)
FORMULA(10, if_then_else(x == y, a, b) + if_then_else(n > 2, x, y) * if_then_else(x != z, x, b))
FORMULA(11, (x + y) + (x + y) * (x - (y - (z - x))) / 7)
FORMULA(12, a - (b + x) - (n * y) / (z + 30))
FORMULA(13, x < y)
FORMULA(14, (x >= a) || ((y == z) && (b < y)))
FORMULA(15, if_then_else(x > 0, sqrt(max(x, 0)), -sqrt(max(-x, 0))))
FORMULA(16, if_then_else(x > 0, sqrt(x), -sqrt(-x)) + if_then_else(y == z, b, x / (y - z)))
FORMULA(17, x / 3 + y / 7 - z * x * b + (x - a) * n)
constexpr int NFORMULAS = 18;

// A number that counts how often it was written.
template <class T> struct Cell { T v; int writes; KOKKOS_INLINE_FUNCTION Cell& operator=(const T& x) { v = x; ++writes; return *this; } };

template <class T, int N> struct Rep { using type = typename Rep<T, N - 1>::type*; };
template <class T> struct Rep<T, 0> { using type = T; };
template <class T, int N, class Layout, class Dev> using View = Kokkos::View<typename Rep<T, N>::type, Layout, Dev, Kokkos::MemoryUnmanaged>;

template <int N> struct Ext { int x[N == 0 ? 1 : N]; int& operator[](size_t i) { return x[i]; } const int& operator[](size_t i) const { return x[i]; } };
template <int N> size_t total(const Ext<N>& e) { size_t n = 1; for (int i = 0; i < N; ++i) n *= size_t(e[size_t(i)]); return n; }
template <int N> Ext<N> index_of(const Ext<N>& e, size_t flat) { Ext<N> r{}; for (int i = N - 1; i >= 0; --i) { r[size_t(i)] = int(flat % size_t(e[size_t(i)])); flat /= size_t(e[size_t(i)]); } return r; }
template <class V, int N, size_t... I> auto& at_impl(const V& v, const Ext<N>& i, std::index_sequence<I...>) { return v(i[I]...); }
template <int N, class V> auto& at(const V& v, const Ext<N>& i) { return at_impl<V, N>(v, i, std::make_index_sequence<size_t(N)>()); }

// Memory and a view of it, perhaps strided: a view of every stride-th element of the last index, with guard elements around.
template <class T, int N, class Layout, class Dev> struct Array {
  static constexpr size_t G = 16; Ext<N> e; std::vector<unsigned char> raw; T* p; size_t n; View<T, N, Layout, Dev> v; std::vector<size_t> where;
  static Layout layout(const Ext<N>& e, int pad, Layout*, std::integral_constant<int, 0>) { Layout l; for (int i = 0; i < N; ++i) l.dimension[i] = size_t(e[size_t(i)]); (void)pad; return l; }
  static Kokkos::LayoutStride layout(const Ext<N>& e, int pad, Kokkos::LayoutStride*, std::integral_constant<int, 1>) { Kokkos::LayoutStride l; size_t s = size_t(pad); for (int i = N - 1; i >= 0; --i) { l.dimension[i] = size_t(e[size_t(i)]); l.stride[i] = s; s = s * size_t(e[size_t(i)]) + size_t(pad - 1); } return l; }
  Array(const Ext<N>& ext, int pad) : e(ext) {
    constexpr bool strided = std::is_same<Layout, Kokkos::LayoutStride>::value;
    Layout l = layout(e, pad, (Layout*)nullptr, std::integral_constant<int, strided>());
    n = total<N>(e) + 1; if (strided) { n = size_t(pad); for (int i = N - 1; i >= 0; --i) n = n * size_t(e[size_t(i)]) + size_t(pad - 1); ++n; }
    raw.assign((n + 2 * G) * sizeof(T) + 64, 0); p = (T*)((uintptr_t(raw.data()) + 63) & ~uintptr_t(63)) + G;
    v = View<T, N, Layout, Dev>(p, l);
    for (size_t k = 0; k < total<N>(e); ++k) where.push_back(size_t(&at<N>(v, index_of<N>(e, k)) - p));
  }
  T& operator[](size_t k) { return p[where[k]]; }
};
template <int N> std::string dims(const Ext<N>& e) { std::string s; for (int i = 0; i < N; ++i) s += (i ? "x" : "") + std::to_string(e[size_t(i)]); return N ? s : "scalar"; }
template <class T> T number(uint64_t& s) { s = sim::mix(s, 0x77); const int k = int((s >> 8) % 33) - 16; return std::is_integral<T>::value ? T(k) : T(k) / T((s >> 20) % 3 == 0 ? 1 : 4); }
template <class T> bool alike(T a, T b) {
  if (std::is_integral<T>::value) return a == b;
  const double tol = sizeof(T) == 4 ? 2e-3 : 1e-9; return a == b || std::fabs(double(a) - double(b)) <= tol * (1 + std::fabs(double(b)));
}
// the stack below the caller is overwritten: nothing may refer to what was there
__attribute__((noinline)) inline void clobber_stack() { volatile char junk[4096]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = char(0xa7); }
__attribute__((noinline)) inline void clobber_deep() { clobber_stack(); }

inline void (*fence)() = [] {};
// evaluate() with everything it was given gone when it returns
template <int K, class R, class X, class Y, class Z, class S> __attribute__((noinline)) void launch(const R& r, const X& x, const Y& y, const Z& z, S a, S b, int n) {
  using namespace ekat;
  auto e = Formula<K>::f(expression(x), expression(y), expression(z), a, b, n);
  evaluate(e, r);
}
template <class T, int N, int K, class LX, class LY, class LR, class Dev, class TX = T> void formula() {
  const bool large = sim::op(100) == 99;
  Ext<N> e{}; for (int i = 0; i < N; ++i) e[size_t(i)] = large ? (N == 1 ? sim::op_range(100, 5000) : N == 2 ? sim::op_range(10, 70) : N == 3 ? sim::op_range(5, 17) : sim::op_range(2, 5)) : N == 1 ? sim::op_range(sim::op(12) == 11 ? 0 : 1, 40) : sim::op_range(1, N == 2 ? 9 : N == 3 ? 5 : 3);
  if (N > 1 && sim::op(24) == 23) e[sim::op(uint32_t(N))] = 0;
  using R = decltype(Formula<K>::f(TX(), T(), T(), T(), T(), 1)); using C = Cell<R>;
  uint64_t s = sim::op64(); const bool in_place = std::is_same<R, TX>::value && sim::op(3) == 2; const int again = 1 + int(sim::op(2)), n = sim::op_range(0, 4);
  Array<TX, N, LX, Dev> x(e, sim::op_range(1, 3)); Array<T, N, LX, Dev> z(e, 1); Array<T, N, LY, Dev> y(e, sim::op_range(1, 3)); Array<C, N, LR, Dev> r(e, sim::op_range(1, 3));
  T a = number<T>(s), b = number<T>(s); const T a0 = a, b0 = b; const size_t tot = total<N>(e);
  // x, y and z in [-16, 16]: no formula divides by zero, other than those that divide by y
  for (size_t k = 0; k < tot; ++k) { x[k] = number<TX>(s); y[k] = sim::mix(s, k) % 3 ? number<T>(s) : T(x[k]); z[k] = sim::mix(s, k + 5) % 4 ? number<T>(s) : y[k]; if (y[k] == 0) y[k] = T(3); if (K == 7 || K == 8 || K == 15) { x[k] = x[k] / 3; y[k] = y[k] / 3; } }
  if (K == 8) for (size_t k = 0; k < tot; ++k) if (z[k] <= 0 && a <= 0) z[k] = T(1);
  std::vector<unsigned char> x0 = x.raw, y0 = y.raw, z0 = z.raw, r0 = r.raw;
  std::vector<R> want(tot); for (size_t k = 0; k < tot; ++k) want[k] = Formula<K>::f(x[k], y[k], z[k], a, b, n);
  const std::string what = std::string("evaluating ") + Formula<K>::text() + " over " + dims<N>(e) + (in_place ? " in place" : "");
  // an expression over a view of another size
  if (N > 0 && sim::op(10) == 9) {
    Ext<N> f = e; f[sim::op(uint32_t(N))] += 1 + int(sim::op(2)); Array<C, N, LR, Dev> w(f, 1); std::vector<unsigned char> w0 = w.raw; bool threw = false;
    try { launch<K>(w.v, x.v, y.v, z.v, a, b, n); } catch (const std::exception&) { threw = true; }
    fence();
    if (!threw) sim::fail("error-not-reported", "%s into %s reported no error", what.c_str(), dims<N>(f).c_str());
    if (w.raw != w0) sim::fail("written", "%s into %s reported an error and wrote", what.c_str(), dims<N>(f).c_str());
    sim::count("mismatches-reported");
  }
  if (in_place) {
    if constexpr (std::is_same<R, TX>::value) launch<K>(x.v, x.v, y.v, z.v, a, b, n);
    clobber_deep(); a = b = T(1e6); fence();
    NoPreempt np;
    for (size_t k = 0; k < tot; ++k) if (!alike<R>(R(x[k]), want[k])) sim::fail("wrong-value", "%s: element %zu is %.17g instead of %.17g", what.c_str(), k, double(x[k]), double(want[k]));
    for (size_t k = 0; k < tot; ++k) memcpy(&x[k], &x0[size_t((unsigned char*)&x[k] - x.raw.data())], sizeof(TX));
    if (x.raw != x0) sim::fail("memory-outside", "%s wrote outside of the result", what.c_str());
  } else {
    for (int q = 0; q < again; ++q) { launch<K>(r.v, x.v, y.v, z.v, a0, b0, n); clobber_deep(); }
    a = b = T(1e6); fence();
    NoPreempt np;
    for (size_t k = 0; k < tot; ++k) {
      if (r[k].writes != again) sim::fail("not-once", "%s: element %zu was written %d times by %d evaluations", what.c_str(), k, r[k].writes, again);
      if (!alike<R>(r[k].v, want[k])) sim::fail("wrong-value", "%s: element %zu is %.17g instead of %.17g", what.c_str(), k, double(r[k].v), double(want[k]));
      memcpy((void*)&r[k], &r0[size_t((unsigned char*)&r[k] - r.raw.data())], sizeof(C));
    }
    if (r.raw != r0) sim::fail("memory-outside", "%s wrote outside of the result", what.c_str());
    if (x.raw != x0) sim::fail("input-changed", "%s changed its input", what.c_str());
  }
  if (y.raw != y0 || z.raw != z0) sim::fail("input-changed", "%s changed its input", what.c_str());
  sim::count("elements-evaluated", tot); sim::count("evaluations", uint64_t(again));
}

// ---------------------------------------------------------- broadcast views
template <class BV, class RV, int N> struct BKernel {
  BV b; RV r; Ext<N> e; size_t per; 
  KOKKOS_INLINE_FUNCTION void operator()(const int flat) const { auto i = index_of<N>(e, size_t(flat)); go(i, std::make_index_sequence<size_t(N)>()); }
  template <size_t... I> void go(const Ext<N>& i, std::index_sequence<I...>) const { r(i[I]...) = b(i[I]...); }
};
template <class T, int F, int N, class Layout, class Dev, class From = Layout> void broadcast() {
  Ext<N> e{}; Ext<F> fe{}; std::vector<int> ext; std::vector<bool> from((size_t)N, false);
  for (int i = 0, left = F; i < N; ++i) { from[size_t(i)] = left > 0 && (left == N - i || sim::op(2)); if (from[size_t(i)]) --left; }
  for (int i = 0, f = 0; i < N; ++i) { e[size_t(i)] = sim::op_range(1, N <= 2 ? 9 : 4); if (from[size_t(i)]) { fe[size_t(f++)] = e[size_t(i)]; ext.push_back(-int(sim::op(2))); } else ext.push_back(e[size_t(i)]); }
  Array<T, F, From, Dev> src(fe, sim::op_range(1, 2)); Array<Cell<T>, N, Kokkos::LayoutRight, Dev> r(e, 1); uint64_t s = sim::op64();
  for (size_t k = 0; k < total<F>(fe); ++k) src[k] = number<T>(s) + T(k) / 64;
  using TV = Kokkos::View<typename Rep<T, N>::type, Layout, Dev>; using B = ekat::ViewBroadcast<TV>;
  std::string what = "broadcasting " + dims<F>(fe) + " to " + dims<N>(e);
  if (sim::op(6) == 5) {                       // extents that do not fit
    auto bad = ext; const uint32_t how = sim::op(3); if (how == 0) bad.push_back(2); else if (how == 1) { for (auto& x : bad) if (x <= 0) { x = 2; break; } } else { bool done = false; for (auto& x : bad) if (x > 0 && !done) { x = 0; done = true; } if (!done) bad.pop_back(); }
    bool threw = false; try { B b(src.v, bad); } catch (const std::exception&) { threw = true; }
    if (!threw) sim::fail("error-not-reported", "%s with extents that do not fit reported no error", what.c_str());
    sim::count("mismatches-reported");
  }
  // a source whose elements are not where the broadcast view would look for them
  bool fits = true; { size_t st = 1; for (int q = 0; q < F; ++q) { const int d = std::is_same<Layout, Kokkos::LayoutLeft>::value ? q : F - 1 - q; if (fe[size_t(d)] > 1 && src.v.stride(d) != st) fits = false; st *= size_t(fe[size_t(d)]); } }
  if (!fits) {
    bool threw = false; try { B b(src.v, ext); } catch (const std::exception&) { threw = true; }
    if (!threw) sim::fail("error-not-reported", "%s from a view with gaps or of another order reported no error", what.c_str());
    sim::count("layouts-reported"); return;
  }
  B b; if (sim::op(2)) b = ekat::broadcast<TV>(src.v, ext); else b.setup(src.v, ext);
  for (int i = 0; i < N; ++i) if (b.extent(i) != e[size_t(i)]) sim::fail("wrong-extent", "%s: extent %d is %d", what.c_str(), i, b.extent(i));
  const size_t tot = total<N>(e); auto s0 = src.raw;
  using K = BKernel<B, decltype(r.v), N>;
  { K k{b, r.v, e, 0}; Kokkos::parallel_for("broadcast", Kokkos::RangePolicy<typename Dev::execution_space>(0, int(tot)), k); }
  clobber_deep(); fence();
  NoPreempt np;
  for (size_t k = 0; k < tot; ++k) {
    auto i = index_of<N>(e, k); Ext<F> j{}; for (int q = 0, f = 0; q < N; ++q) if (from[size_t(q)]) j[size_t(f++)] = i[size_t(q)];
    const T w = at<F>(src.v, j);
    if (memcmp(&w, &r[k].v, sizeof w) != 0 || r[k].writes != 1) sim::fail("wrong-value", "%s: element %zu is %.17g instead of %.17g", what.c_str(), k, double(r[k].v), double(w));
  }
  // writing through it reaches the source
  if (src.raw != s0) sim::fail("input-changed", "%s changed the source", what.c_str());
  sim::count("elements-broadcast", tot);
}
template <class T, class Dev, int N> void ranked() {
  using LR = Kokkos::LayoutRight; using LL = Kokkos::LayoutLeft; using LS = Kokkos::LayoutStride;
  switch (sim::op(6)) {
    case 0: formula<T, N, 1, LR, LR, LR, Dev>(); break; case 1: formula<T, N, 4, LR, LL, LS, Dev>(); break; case 2: formula<T, N, 6, LS, LR, LL, Dev>(); break;
    case 3: formula<T, N, 11, LR, LR, LR, Dev>(); break; case 4: formula<T, N, 13, LL, LR, LR, Dev>(); break; default: formula<T, N, 9, LR, LR, LS, Dev>();
  }
}
template <class T, class Dev, int K> void shaped() {
  using LR = Kokkos::LayoutRight; using LL = Kokkos::LayoutLeft; using LS = Kokkos::LayoutStride;
  if (sim::op(4) == 3) formula<T, 1, K, LR, LR, LR, Dev, float>(); else if (sim::op(2)) formula<T, 1, K, LR, LS, LS, Dev>(); else formula<T, 2, K, LR, LL, LR, Dev>();
}
template <class T, class Dev, int... K> std::vector<void (*)()> table(std::integer_sequence<int, K...>) { return {&shaped<T, Dev, K>...}; }
}
#endif
