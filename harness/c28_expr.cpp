// Expression templates against the C++ formula on the scalars: the same generic functor builds the expression and computes the expected value.
#include "view_model.hpp"
#include "ekat_expression_eval.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_view.hpp"
#include "ekat_kokkos_types.hpp"
#include "ekat_pack.hpp"
#include <limits>
#include <cstring>
#ifndef MC_PART
#define MC_PART 0
#endif
using mc::Ctx; using namespace ekat;
namespace {
template <class T> constexpr bool ex = is_expr_v<std::decay_t<T>>;
[[gnu::noinline]] void cat(std::string& s, const char* t) { s += t; }
bool undefined_; // the formula itself is undefined on these scalars (integer division by zero)
// ---- operators; each works on scalars and on expressions
#define OP(N, S, TXT) struct N { static constexpr const char* text = TXT; template <class A, class B> auto operator()(const A& a, const B& b) const { return a S b; } };
OP(Add, +, "+") OP(Sub, -, "-") OP(Mul, *, "*") OP(Eq, ==, "==") OP(Ne, !=, "!=") OP(Gt, >, ">") OP(Ge, >=, ">=") OP(Lt, <, "<") OP(Le, <=, "<=") OP(And, &&, "&&") OP(Or, ||, "||")
struct Div { static constexpr const char* text = "/"; template <class A, class B> auto operator()(const A& a, const B& b) const {
  if constexpr (!ex<A> && !ex<B> && std::is_integral_v<A> && std::is_integral_v<B>) { if (b == 0) { undefined_ = true; return decltype(a / b)(0); } return a / b; } else return a / b; } };
struct Max { static constexpr const char* text = "max"; template <class A, class B> auto operator()(const A& a, const B& b) const { if constexpr (ex<A> || ex<B>) return ekat::max(a, b); else { using C = std::common_type_t<A, B>; return Kokkos::max(C(a), C(b)); } } };
struct Min { static constexpr const char* text = "min"; template <class A, class B> auto operator()(const A& a, const B& b) const { if constexpr (ex<A> || ex<B>) return ekat::min(a, b); else { using C = std::common_type_t<A, B>; return Kokkos::min(C(a), C(b)); } } };
struct Pow { static constexpr const char* text = "pow"; template <class A, class B> auto operator()(const A& a, const B& b) const { if constexpr (ex<A> || ex<B>) return pow(a, b); else { using C = std::common_type_t<A, B>; return std::pow(C(a), C(b)); } } };
struct Neg { static constexpr const char* text = "-"; template <class A> auto operator()(const A& a) const { return -a; } };
#define FN(N, F) struct N { static constexpr const char* text = #F; template <class A> auto operator()(const A& a) const { if constexpr (ex<A>) return F(a); else return std::F(a); } };
FN(Sqrt, sqrt) FN(Exp, exp) FN(Log, log) FN(Sin, sin) FN(Cos, cos)
struct If { template <class C, class A, class B> auto operator()(const C& c, const A& a, const B& b) const { if constexpr (ex<C> || ex<A> || ex<B>) return if_then_else(c, a, b); else return c ? a : b; } };
// ---- leaves: which of the arguments, or a constant
struct LX { static void put(std::string& s) { cat(s, "x"); } template <class E> auto operator()(const E& e) const { return e.x; } };
struct LY { static void put(std::string& s) { cat(s, "y"); } template <class E> auto operator()(const E& e) const { return e.y; } };
struct LN { static void put(std::string& s) { cat(s, "n"); } template <class E> auto operator()(const E& e) const { return e.n; } };
struct LB { static void put(std::string& s) { cat(s, "b"); } template <class E> auto operator()(const E& e) const { return e.b; } };
struct LS { static void put(std::string& s) { cat(s, "s"); } template <class E> auto operator()(const E& e) const { return e.s; } };
struct LF { static void put(std::string& s) { cat(s, "f"); } template <class E> auto operator()(const E& e) const { return e.f; } };
struct KD { static void put(std::string& s) { cat(s, "2.5"); } template <class E> double operator()(const E&) const { return 2.5; } };
struct KI { static void put(std::string& s) { cat(s, "3"); } template <class E> int operator()(const E&) const { return 3; } };
struct KT { static void put(std::string& s) { cat(s, "true"); } template <class E> bool operator()(const E&) const { return true; } };
// ---- trees
template <class O, class A> struct U { static void put(std::string& s) { cat(s, O::text); cat(s, "("); A::put(s); cat(s, ")"); } template <class E> auto operator()(const E& e) const { return O()(A()(e)); } };
template <class O, class A, class B> struct Bi { static void put(std::string& s) { cat(s, "("); A::put(s); cat(s, " "); cat(s, O::text); cat(s, " "); B::put(s); cat(s, ")"); } template <class E> auto operator()(const E& e) const { auto a = A()(e); auto b = B()(e); return O()(a, b); } };
template <class C, class A, class B> struct Co { static void put(std::string& s) { cat(s, "("); C::put(s); cat(s, " ? "); A::put(s); cat(s, " : "); B::put(s); cat(s, ")"); } template <class E> auto operator()(const E& e) const { auto c = C()(e); auto a = A()(e); auto b = B()(e); return If()(c, a, b); } };
template <class... T> struct List {}; template <class... T, class F> void each(List<T...>, F&& f) { (f(T()), ...); }
using Arith = List<Add, Sub, Mul, Div>; using Bins = List<Add, Sub, Mul, Div, Eq, Ne, Gt, Ge, Lt, Le, And, Or, Max, Min, Pow>; using Uns = List<Neg, Sqrt, Exp, Log, Sin, Cos>;
// ---- data: every combination of the alphabets of the leaves of a tree
template <class X, class Y, class N, class B, class S, class F> struct Env { X x; Y y; N n; B b; S s; F f; };
const double XS[] = {-2, -0.5, -0.0, 0.0, 0.5, 1, 3, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; const int NS[] = {-3, -1, 0, 1, 2}; const short SS[] = {-30000, 0, 7, 30000}; const float FS[] = {-1.5f, 0.1f, 16777216.f};
struct Data {
  template <class T> using V = Kokkos::View<T*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>>; long n = 0; V<double> x, y; V<int> i; V<bool> b; V<short> s; V<float> f;
  Data() {
    // x, y in all combinations; n, b, s, f run through all pairs with x and among themselves by co-prime strides
    n = 9 * 9 * 5 * 2; auto make = [&](auto& v) { using W = std::decay_t<decltype(v)>; v = W(new typename W::value_type[n], size_t(n)); }; make(x); make(y); make(i); make(b); make(s); make(f);
    for (long k = 0; k < n; ++k) { x(k) = XS[k % 9]; y(k) = XS[k / 9 % 9]; i(k) = NS[k / 81 % 5]; b(k) = k / 405; s(k) = SS[(k + k / 9) % 4]; f(k) = FS[(k + k / 81) % 3]; }
  }
  auto expr() const { auto X = expression(x), Y = expression(y); auto N = expression(i); auto B = expression(b); auto S = expression(s); auto F = expression(f); return Env<decltype(X), decltype(Y), decltype(N), decltype(B), decltype(S), decltype(F)>{X, Y, N, B, S, F}; }
  Env<double, double, int, bool, short, float> at(long k) const { return {x(k), y(k), i(k), b(k), s(k), f(k)}; }
};
template <class A, class B> bool same(const A& a, const B& b) { long double p = a, q = b; return std::isnan(p) ? std::isnan(q) : p == q && std::signbit(p) == std::signbit(q); }
[[gnu::noinline]] void shape_verdict(Ctx& ctx, void (*put)(std::string&), int rank, int base_rank, int extent, long n) { std::string t; put(t); MC_CHECK(ctx, rank == 1 && extent == n && base_rank == 1, "shape", t << " of rank-1 views has rank " << rank << ", extent " << extent); ctx.state(mc::hash_str(t)); }
[[gnu::noinline]] void verdict(Ctx& ctx, const Data& d, void (*put)(std::string&), const std::vector<long double>& got, const std::vector<long double>& want, const std::vector<char>& skip) {
  std::string t; put(t); uint64_t h = mc::hash_str(t);
  for (long k = 0; k < d.n; ++k) { if (skip[k]) continue; auto v = d.at(k); bool ok = same(got[k], want[k]);
    MC_CHECK(ctx, ok, "eval", t << " at x=" << v.x << " y=" << v.y << " n=" << v.n << " b=" << v.b << " s=" << v.s << " f=" << v.f << " is " << got[k] << ", expected " << want[k]); ctx.transition(); ctx.outcome(mc::mix(h, k)); }
}
template <class Tree> void check_eval(Ctx& ctx, const Data& d) {
  auto env = d.expr(); auto e = Tree()(env); shape_verdict(ctx, &Tree::put, e.rank(), std::decay_t<decltype(e.as_base())>::rank(), e.extent(0), d.n);
  static std::vector<long double> got, want; static std::vector<char> skip; got.assign(d.n, 0); want.assign(d.n, 0); skip.assign(d.n, 0);
  for (long k = 0; k < d.n; ++k) { undefined_ = false; auto w = Tree()(d.at(k)); if (undefined_) { skip[k] = 1; continue; } want[k] = w; got[k] = e.eval(k); }
  verdict(ctx, d, &Tree::put, got, want, skip);
}
const Data& data() { static Data d; return d; }
// runs over the trees of a family; one execution per choice of the outer operator
template <class L, class F> void by_operator(Ctx& ctx, L l, const char* label, F&& f) { int n = 0; each(l, [&](auto) { ++n; }); int w = ctx.choose(n, label), k = 0; each(l, [&](auto o) { if (k++ == w) f(o); }); }
template <class A> constexpr bool konst = std::is_same_v<A, KD> || std::is_same_v<A, KI> || std::is_same_v<A, KT>;
using Leaves = List<LX, LY, LN, LB, LS, LF, KD, KI>;
}
#if MC_PART == 0
MC_SCENARIO(depth_1, "every binary operator over every pair of leaves (double, int, bool, short, float views; double and int constants), every unary operator over every leaf; all combinations of values of the leaves") {
  if (ctx.flag("unary")) by_operator(ctx, Uns(), "operator", [&](auto o) { each(List<LX, LN, LB, LS, LF>(), [&](auto a) { check_eval<U<decltype(o), decltype(a)>>(ctx, data()); }); });
  else by_operator(ctx, Bins(), "operator", [&](auto o) { each(Leaves(), [&](auto a) { each(Leaves(), [&](auto b) { using A = decltype(a); using B = decltype(b); if constexpr (!(konst<A> && konst<B>)) check_eval<Bi<decltype(o), A, B>>(ctx, data()); }); }); });
}
#elif MC_PART == 5
MC_SCENARIO(conditional, "if_then_else with every kind of condition (comparison, bool, int and double view, true) and every pair of leaves or expressions as branches") {
  by_operator(ctx, List<Bi<Lt, LX, LY>, Bi<And, LB, LN>, LB, LN, LX, KT, Bi<Ge, LN, KI>>(), "condition", [&](auto c) { each(List<LX, LY, LN, LB, LS, KD, KI, U<Neg, LX>, Bi<Sub, LX, LN>>(), [&](auto a) { each(List<LX, LY, LN, LB, KD, KI, Bi<Div, LY, LX>>(), [&](auto b) {
    using C = decltype(c); using A = decltype(a); using B = decltype(b); if constexpr (!(konst<C> && konst<A> && konst<B>)) check_eval<Co<C, A, B>>(ctx, data()); }); }); });
}
#elif MC_PART == 1
MC_SCENARIO(depth_2_left, "op2(op1(a,b),c) for every pair of binary operators over the leaf patterns (x,y;n), (n,b;x), (x,2.5;y), (3,n;b)") {
  by_operator(ctx, Bins(), "outer", [&](auto o) { each(Bins(), [&](auto i) { using O = decltype(o); using I = decltype(i); check_eval<Bi<O, Bi<I, LX, LY>, LN>>(ctx, data()); check_eval<Bi<O, Bi<I, LN, LB>, LX>>(ctx, data()); check_eval<Bi<O, Bi<I, LX, KD>, LY>>(ctx, data()); check_eval<Bi<O, Bi<I, KI, LN>, LB>>(ctx, data()); }); });
}
#elif MC_PART == 2
MC_SCENARIO(depth_2_right, "op2(a,op1(b,c)) for every pair of binary operators over the leaf patterns (n;x,y), (x;b,n), (2.5;y,x), (3;n,n)") {
  by_operator(ctx, Bins(), "outer", [&](auto o) { each(Bins(), [&](auto i) { using O = decltype(o); using I = decltype(i); check_eval<Bi<O, LN, Bi<I, LX, LY>>>(ctx, data()); check_eval<Bi<O, LX, Bi<I, LB, LN>>>(ctx, data()); check_eval<Bi<O, KD, Bi<I, LY, LX>>>(ctx, data()); check_eval<Bi<O, KI, Bi<I, LN, LN>>>(ctx, data()); }); });
}
#elif MC_PART == 3
MC_SCENARIO(depth_2_unary, "unary of binary, binary of unary (either side), unary of unary, for all operators") {
  by_operator(ctx, Uns(), "unary", [&](auto u) { using O = decltype(u);
    each(Bins(), [&](auto i) { using I = decltype(i); check_eval<U<O, Bi<I, LX, LY>>>(ctx, data()); check_eval<U<O, Bi<I, LN, KD>>>(ctx, data()); check_eval<U<O, Bi<I, KI, LB>>>(ctx, data()); check_eval<Bi<I, U<O, LX>, LN>>(ctx, data()); check_eval<Bi<I, LY, U<O, LX>>>(ctx, data()); check_eval<Bi<I, KD, U<O, LB>>>(ctx, data()); check_eval<Bi<I, U<O, LN>, LX>>(ctx, data()); });
    each(Uns(), [&](auto v) { check_eval<U<O, U<decltype(v), LX>>>(ctx, data()); check_eval<U<O, U<decltype(v), LN>>>(ctx, data()); }); });
}
MC_SCENARIO(depth_2_conditional, "conditionals with a binary operator in every place, and as operands of every operator; nested conditionals") {
  by_operator(ctx, Bins(), "operator", [&](auto o) { using O = decltype(o); using C = Co<Bi<Gt, LX, KI>, LY, LN>;
    check_eval<Co<Bi<O, LX, LY>, LN, KD>>(ctx, data()); check_eval<Co<LB, Bi<O, LX, LN>, LY>>(ctx, data()); check_eval<Co<LB, LY, Bi<O, LN, LX>>>(ctx, data()); check_eval<Bi<O, C, LX>>(ctx, data()); check_eval<Bi<O, LN, C>>(ctx, data()); check_eval<Bi<O, KD, C>>(ctx, data());
    check_eval<Co<Bi<O, LN, LB>, C, LX>>(ctx, data()); check_eval<Co<LB, LX, C>>(ctx, data()); check_eval<U<Neg, C>>(ctx, data()); check_eval<Co<C, LX, LY>>(ctx, data()); });
}
MC_SCENARIO(depth_3, "op1(op2(op3(x,y),n),op2(b,x)) for all arithmetic op1, op2 and op3") {
  by_operator(ctx, Arith(), "op1", [&](auto a) { each(Arith(), [&](auto b) { each(Arith(), [&](auto c) { using A = decltype(a); using B = decltype(b); using C = decltype(c); check_eval<Bi<A, Bi<B, Bi<C, LX, LY>, LN>, Bi<B, LB, LX>>>(ctx, data()); check_eval<Bi<A, Bi<B, LN, U<Neg, LY>>, Bi<C, KD, Bi<B, LX, LN>>>>(ctx, data()); }); }); });
}
#else
namespace {
// an expression of a given rank that can be evaluated with any number of indices
template <int R> struct AnyIndex : ExpressionBase<AnyIndex<R>> { using return_type = double; static constexpr int rank() { return R; } int extent(int) const { return 2; } template <class... A> double eval(A...) const { return 1; } };
template <int R, class L> void shapes(Ctx& ctx, const std::vector<long>& given = {}) {
  int emax = R <= 2 ? 4 : R <= 4 ? 3 : 2; std::vector<long> e(R), pe(R), off(R); for (int k = 0; k < R; ++k) e[k] = given.empty() ? ctx.choose(emax + 1, "extent") : given[k]; long n = 1, pn = 1; for (int k = 0; k < R; ++k) { pe[k] = e[k] + (R <= 4 ? 2 : k % 3 == 0); off[k] = R <= 4 ? 1 : 0; n *= e[k]; pn *= pe[k]; }
  bool sub = ctx.flag("result is a part of a bigger view"); int kind = ctx.choose(3, "what"); // 0: evaluate; 1: in place; 2: one extent of the result differs
  using D = typename PtrN<double, R>::type; using VX = Kokkos::View<D, Kokkos::LayoutLeft, Kokkos::HostSpace>; using VY = Kokkos::View<typename PtrN<const double, R>::type, Kokkos::LayoutRight, Kokkos::HostSpace>; using VZ = Kokkos::View<D, L, Kokkos::HostSpace>;
  std::unique_ptr<double[]> xm(new double[n]), ym(new double[n]), zm(new double[pn]); for (long i = 0; i < n; ++i) { xm[i] = i + 1; ym[i] = 1000 * (i + 1); } for (long i = 0; i < pn; ++i) zm[i] = -1;
  VX x = make_view<VX>(xm.get(), e); VY y = make_view<VY>(ym.get(), e); auto ex_ = 2 * expression(x) - expression(y); std::string what = "rank " + std::to_string(R) + ", extents " + VM{0, 0, e, e}.show() + (sub ? ", part of a bigger view" : "") + (kind == 1 ? ", in place" : "");
  auto value = [&](const std::vector<long>& i) { long l = 0, r = 0; auto ls = left_strides(e), rs = right_strides(e); for (int k = 0; k < R; ++k) { l += i[k] * ls[k]; r += i[k] * rs[k]; } return 2. * (l + 1) - 1000. * (r + 1); };
  for (int k = 0; k < R; ++k) MC_CHECK(ctx, ex_.extent(k) == e[k] && ex_.rank() == R, "shape", what << ": extent " << k << " of the expression is " << ex_.extent(k));
  if (kind == 1) { evaluate(ex_, x); for_all(e, [&](const std::vector<long>& i) { MC_CHECK(ctx, elem(x, i) == value(i), "in-place", what << ": element " << mc::show(i) << " is " << elem(x, i) << ", expected " << value(i)); }); }
  else {
    std::vector<long> ze = e; if (kind == 2) { if (R == 0) return; int k = ctx.choose(R, "which extent"); ze[k] += ctx.flag("longer") ? 1 : -1; if (ze[k] < 0) return; what += ", result " + VM{0, 0, ze, ze}.show(); if (sub) return; }
    long zn = 1; for (long q : ze) zn *= q; std::unique_ptr<double[]> z2(new double[zn]); std::fill_n(z2.get(), zn, -1.);
    auto st = std::is_same_v<L, Kokkos::LayoutLeft> ? left_strides(sub ? pe : ze) : right_strides(sub ? pe : ze); long o = 0; if (sub) for (int k = 0; k < R; ++k) o += off[k] * st[k]; double* base = (sub ? zm.get() : z2.get()) + o;
    auto run = [&] { if (sub) { Kokkos::LayoutStride l; for (int k = 0; k < R; ++k) { l.dimension[k] = ze[k]; l.stride[k] = st[k]; } evaluate(ex_, Kokkos::View<D, Kokkos::LayoutStride, Kokkos::HostSpace>(base, l)); } else evaluate(ex_, make_view<VZ>(base, ze)); };
    if (kind == 2) { MC_CHECK(ctx, mc::rejects(run), "extent-accepted", what << ": the result view is not rejected"); for (long i = 0; i < zn; ++i) MC_CHECK(ctx, z2[i] == -1, "extent-written", what << ": the result was written"); }
    else { run(); std::vector<char> set(sub ? pn : zn, 0); for_all(e, [&](const std::vector<long>& i) { long q = o; for (int k = 0; k < R; ++k) q += i[k] * st[k]; set[q] = 1; double g = (sub ? zm.get() : z2.get())[q]; MC_CHECK(ctx, g == value(i), "evaluate", what << ": element " << mc::show(i) << " is " << g << ", expected " << value(i)); });
      for (size_t q = 0; q < set.size(); ++q) if (!set[q]) MC_CHECK(ctx, (sub ? zm.get() : z2.get())[q] == -1, "outside", what << ": memory outside of the result was written"); }
    for (long i = 0; i < n; ++i) MC_CHECK(ctx, xm[i] == i + 1 && ym[i] == 1000 * (i + 1), "operand-changed", what << ": an operand was changed");
  }
  ctx.transition(); ctx.state(mc::hash_str(what)); ctx.outcome(mc::hash_str(what));
}
template <int R> void shapes_large(Ctx& ctx, const std::vector<std::vector<long>>& es) { auto e = ctx.pick(es, "extents"); if (ctx.flag("column-major result")) shapes<R, Kokkos::LayoutLeft>(ctx, e); else shapes<R, Kokkos::LayoutRight>(ctx, e); }
template <int R> void shapes_any(Ctx& ctx) { if (ctx.flag("column-major result")) shapes<R, Kokkos::LayoutLeft>(ctx); else shapes<R, Kokkos::LayoutRight>(ctx); }
template <int A, int B> void ranks(Ctx& ctx) { using V = Kokkos::View<typename PtrN<double, B>::type, Kokkos::LayoutRight, Kokkos::HostSpace>; std::vector<long> e(B, 2); double m[64]; std::fill_n(m, 64, -1.); auto v = make_view<V>(m, e); bool rej = mc::rejects([&] { evaluate(AnyIndex<A>(), v); });
  MC_CHECK(ctx, rej == (A != B), "rank-mismatch", "an expression of rank " << A << (A == B ? " is rejected for" : " is accepted for") << " a view of rank " << B); for (int i = 0; i < 64; ++i) MC_CHECK(ctx, m[i] == (A == B && i < 1 << B ? 1 : -1), "rank-mismatch", "an expression of rank " << A << " evaluated to a view of rank " << B << " writes element " << i); ctx.state(A * 8 + B); ctx.outcome(A * 8 + B); }
}
MC_SCENARIO(evaluate_shapes, "ranks 0-6 (Kokkos has no kernels of higher rank), all extents up to 4 (rank 1-2), 3 (3-4), 2 (5-6), row- and column-major and strided results, in place, result with one extent off by one", 3) {
  switch (ctx.choose(7, "rank")) { case 0: shapes_any<0>(ctx); break; case 1: shapes_any<1>(ctx); break; case 2: shapes_any<2>(ctx); break; case 3: shapes_any<3>(ctx); break; case 4: shapes_any<4>(ctx); break; case 5: shapes_any<5>(ctx); break; default: shapes_any<6>(ctx); }
}
MC_SCENARIO(evaluate_large, "ranks 1-6 with extents up to 4097 around powers of two, long in each direction; row- and column-major and strided results, in place, result with one extent off by one", 2) {
  switch (1 + ctx.choose(6, "rank")) {
    case 1: shapes_large<1>(ctx, {{15}, {16}, {17}, {63}, {64}, {65}, {255}, {256}, {257}, {1024}, {4097}}); break;
    case 2: shapes_large<2>(ctx, {{1, 65}, {65, 1}, {16, 17}, {17, 16}, {33, 31}, {2, 257}, {257, 2}, {64, 64}, {5, 1000}, {1000, 5}}); break;
    case 3: shapes_large<3>(ctx, {{1, 1, 65}, {1, 65, 1}, {65, 1, 1}, {9, 17, 5}, {5, 9, 17}, {17, 5, 9}, {8, 8, 8}, {2, 3, 257}, {257, 2, 3}, {3, 257, 2}}); break;
    case 4: shapes_large<4>(ctx, {{5, 6, 7, 8}, {8, 7, 6, 5}, {2, 2, 2, 65}, {65, 2, 2, 2}, {2, 65, 2, 2}, {2, 2, 65, 2}, {1, 9, 1, 17}, {9, 1, 17, 1}}); break;
    case 5: shapes_large<5>(ctx, {{4, 5, 3, 4, 5}, {2, 2, 2, 2, 33}, {33, 2, 2, 2, 2}, {2, 2, 33, 2, 2}, {2, 33, 2, 2, 2}, {2, 2, 2, 33, 2}, {1, 9, 1, 9, 1}}); break;
    default: shapes_large<6>(ctx, {{3, 4, 3, 4, 3, 4}, {2, 2, 2, 2, 2, 17}, {17, 2, 2, 2, 2, 2}, {2, 2, 17, 2, 2, 2}, {2, 2, 2, 17, 2, 2}, {2, 17, 2, 2, 2, 2}, {2, 2, 2, 2, 17, 2}, {5, 1, 5, 1, 5, 1}});
  }
}
MC_SCENARIO(evaluate_ranks, "every pair of ranks 0-4 of the expression and the result") {
  int a = ctx.choose(5, "rank of the expression"), b = ctx.choose(5, "rank of the view");
#define RB(A) switch (b) { case 0: ranks<A, 0>(ctx); break; case 1: ranks<A, 1>(ctx); break; case 2: ranks<A, 2>(ctx); break; case 3: ranks<A, 3>(ctx); break; default: ranks<A, 4>(ctx); }
  switch (a) { case 0: RB(0) break; case 1: RB(1) break; case 2: RB(2) break; case 3: RB(3) break; default: RB(4) }
}
namespace {
template <class Tree, class R> void check_evaluate(Ctx& ctx, const char* type) {
  const Data& d = data(); undefined_ = false; std::string t; Tree::put(t); t += std::string(" evaluated to a view of ") + type; auto e = Tree()(d.expr()); Kokkos::View<R*, Kokkos::HostSpace> z("", d.n);
  for (long k = 0; k < d.n; ++k) { auto v = d.at(k); (void)Tree()(v); } if (undefined_) return; evaluate(e, z); ctx.transition();
  for (long k = 0; k < d.n; ++k) { auto v = d.at(k); R want = R(Tree()(v)); MC_CHECK(ctx, same(z(k), want), "evaluate-value", t << ": element " << k << " is " << +z(k) << ", expected " << +want); }
  ctx.state(mc::hash_str(t)); ctx.outcome(mc::hash_str(t));
}
}
MC_SCENARIO(evaluate_values, "every operator, and some deeper trees, evaluated to views of double, float and (comparisons, integers) int and bool") {
  if (ctx.flag("trees")) { check_evaluate<Bi<Sub, Bi<Mul, LX, LY>, Bi<Div, KI, LY>>, double>(ctx, "double"); check_evaluate<Bi<Add, Bi<Lt, LX, LY>, Bi<Lt, LN, KI>>, int>(ctx, "int"); check_evaluate<Co<Bi<Lt, LX, LY>, LN, Bi<Add, LN, LB>>, int>(ctx, "int"); check_evaluate<Bi<And, Bi<Lt, LX, LY>, Bi<Ge, LN, LB>>, bool>(ctx, "bool"); }
  else by_operator(ctx, Bins(), "operator", [&](auto o) { using O = decltype(o); check_evaluate<Bi<O, LX, LY>, double>(ctx, "double"); check_evaluate<Bi<O, LY, LN>, float>(ctx, "float"); check_evaluate<Bi<O, LB, LB>, int>(ctx, "int"); check_evaluate<Bi<O, LS, LS>, int>(ctx, "int"); check_evaluate<Bi<O, KI, LX>, double>(ctx, "double"); check_evaluate<Bi<O, LY, KD>, double>(ctx, "double"); });
}
namespace {
using P = Pack<double, 2>; using M = Mask<2>;
template <class F> void pack_op(Ctx& ctx, const char* name, F f) {
  Kokkos::View<P*, Kokkos::HostSpace> x("", 16), y("", 16), z("", 16); static const double A[] = {-2, 0.5, 1, 3}; for (int i = 0; i < 16; ++i) for (int l = 0; l < 2; ++l) { x(i)[l] = A[(i + l) % 4]; y(i)[l] = A[(i / 4 + 2 * l) % 4]; }
  auto a = expression(x); auto b = expression(y);
  auto go = [&](auto e, auto s, const char* form) { using R = std::decay_t<decltype(s(x(0), y(0)))>; Kokkos::View<R*, Kokkos::HostSpace> r("", 16); evaluate(e, r); ctx.transition(); for (int i = 0; i < 16; ++i) for (int l = 0; l < 2; ++l) MC_CHECK(ctx, r(i)[l] == s(x(i), y(i))[l], "pack", name << " (" << form << ") on packs: lane " << l << " of element " << i << " is " << r(i)[l]); ctx.outcome(mc::hash_str(std::string(name) + form)); };
  go(f(a, b), [&](const P& p, const P& q) { return f(p, q); }, "pack,pack"); go(f(a, 2.5), [&](const P& p, const P&) { return f(p, 2.5); }, "pack,scalar"); go(f(2.5, b), [&](const P&, const P& q) { return f(2.5, q); }, "scalar,pack"); ctx.state(mc::hash_str(name));
}
}
MC_SCENARIO(packs, "arithmetic and comparisons on views of packs, with packs and scalars") {
  switch (ctx.choose(10, "operator")) { case 0: pack_op(ctx, "+", Add()); break; case 1: pack_op(ctx, "-", Sub()); break; case 2: pack_op(ctx, "*", Mul()); break; case 3: pack_op(ctx, "/", Div()); break; case 4: pack_op(ctx, "==", Eq()); break; case 5: pack_op(ctx, "!=", Ne()); break; case 6: pack_op(ctx, ">", Gt()); break; case 7: pack_op(ctx, ">=", Ge()); break; case 8: pack_op(ctx, "<", Lt()); break; default: pack_op(ctx, "<=", Le()); }
}
MC_SCENARIO(memory_traits, "const, unmanaged, strided, random-access and atomic views as operands") {
  double m[12]; for (int i = 0; i < 12; ++i) m[i] = i + 1; Kokkos::View<double*, Kokkos::HostSpace> z("", 6);
  auto go = [&](auto v, int step, const char* name) { auto e = expression(v) * 2. - expression(v); auto e1 = expression(v); evaluate(e, z); for (int i = 0; i < 6; ++i) MC_CHECK(ctx, z(i) == m[i * step], "traits", "an operand of a " << name << " view: element " << i << " is " << z(i)); evaluate(e1, z); for (int i = 0; i < 6; ++i) MC_CHECK(ctx, z(i) == m[i * step], "traits", "a " << name << " view as expression: element " << i << " is " << z(i)); ctx.transition(); ctx.state(mc::hash_str(name)); ctx.outcome(mc::hash_str(name)); };
  using H = Kokkos::HostSpace; switch (ctx.choose(5, "kind")) {
    case 0: go(Kokkos::View<const double*, H>(m, 6), 1, "const"); break; case 1: go(Kokkos::View<double*, H, Kokkos::MemoryTraits<Kokkos::Unmanaged>>(m, 6), 1, "unmanaged"); break; case 2: go(Kokkos::View<double*, Kokkos::LayoutStride, H>(m, Kokkos::LayoutStride(6, 2)), 2, "strided"); break;
    case 3: go(Kokkos::View<const double*, H, Kokkos::MemoryTraits<Kokkos::Unmanaged | Kokkos::RandomAccess>>(m, 6), 1, "random-access"); break; default: go(Kokkos::View<double*, H, Kokkos::MemoryTraits<Kokkos::Atomic>>(m, 6), 1, "atomic"); }
}
namespace {
// every kind of node, over rank-3 operands with extents of their own: the expression has the shape of its operands, pairs up the entries with the same indices, and refuses another shape
template <class F> void node_shape(Ctx& ctx, const char* name, F f) {
  std::vector<long> e(3); for (long& q : e) q = ctx.choose(4, "extent"); using VX = Kokkos::View<int***, Kokkos::LayoutLeft, Kokkos::HostSpace>; using VY = Kokkos::View<const double***, Kokkos::LayoutRight, Kokkos::HostSpace>; long n = e[0] * e[1] * e[2];
  std::vector<int> xm(n + 1); std::vector<double> ym(n + 1); for (long i = 0; i < n; ++i) { xm[i] = i % 3; ym[i] = 1.5 + i; } VX x = make_view<VX>(xm.data(), e); VY y = make_view<VY>(ym.data(), e); auto E = f(expression(x), expression(y));
  std::string what = std::string(name) + " of views with extents " + VM{0, 0, e, e}.show(); static_assert(decltype(E)::rank() == 3); const ExpressionBase<decltype(E)>& B = E;
  for (int k = 0; k < 3; ++k) MC_CHECK(ctx, E.extent(k) == e[k] && B.extent(k) == e[k], "node-shape", what << ": extent " << k << " is " << E.extent(k));
  std::vector<long> ze = e; int d = ctx.choose(7, "shape of the result"); if (d) { ze[(d - 1) / 2] += d % 2 ? 1 : -1; for (long q : ze) if (q < 0) return; }
  Kokkos::View<double***, Kokkos::HostSpace> z("", ze[0], ze[1], ze[2]); Kokkos::deep_copy(z, -77); bool rej = mc::rejects([&] { evaluate(E, z); }); ctx.transition(); MC_CHECK(ctx, rej == (d > 0), "node-extent", what << (rej ? " cannot be" : " can be") << " evaluated to a view with extents " << (VM{0, 0, ze, ze}.show()));
  for_all(ze, [&](const std::vector<long>& i) { int xv = d ? 0 : x(i[0], i[1], i[2]); double yv = d ? 1 : y(i[0], i[1], i[2]); double w = d ? -77 : double(f(xv, yv)), g = z(i[0], i[1], i[2]); MC_CHECK(ctx, g == w || (g != g && w != w), "node-value", what << ": element " << mc::show(i) << " is " << g << ", expected " << w); });
  ctx.state(mc::hash_str(what) + d); ctx.outcome(mc::hash_str(what) + d);
}
}
MC_SCENARIO(node_shapes, "every kind of expression node with scalars in every place, over rank-3 views with all extents up to 3, results of the same shape and with one extent off by one", 4) {
#define NODE(X, T) node_shape(ctx, T, [](const auto& x, const auto& y) { using std::sqrt; using std::exp; using std::log; using std::sin; using std::cos; (void)x; (void)y; return X; })
  switch (ctx.choose(30, "node")) {
    case 0: NODE(x + y, "x+y"); break; case 1: NODE(x - 2, "x-2"); break; case 2: NODE(2.5 * y, "2.5*y"); break; case 3: NODE(x / y, "x/y"); break; case 4: NODE(-x, "-x"); break; case 5: NODE(-y, "-y"); break; case 6: NODE(-(x + y), "-(x+y)"); break;
    case 7: NODE(x < y, "x<y"); break; case 8: NODE(x == 1, "x==1"); break; case 9: NODE(4 >= y, "4>=y"); break; case 10: NODE(x && y, "x&&y"); break; case 11: NODE(x || false, "x||false"); break;
    case 12: NODE(sqrt(y), "sqrt(y)"); break; case 13: NODE(exp(x * 1.), "exp(x*1.)"); break; case 14: NODE(log(y), "log(y)"); break; case 15: NODE(sin(y), "sin(y)"); break; case 16: NODE(cos(y), "cos(y)"); break;
    case 17: NODE(Pow()(y, x), "pow(y,x)"); break; case 18: NODE(Pow()(y, 2), "pow(y,2)"); break; case 19: NODE(Pow()(2, x), "pow(2,x)"); break; case 20: NODE(Max()(x, y), "max(x,y)"); break; case 21: NODE(Min()(3, y), "min(3,y)"); break; case 22: NODE(Max()(x, 1), "max(x,1)"); break;
    case 23: NODE(If()(x > 0, x, y), "x>0?x:y"); break; case 24: NODE(If()(x > 0, 3, y), "x>0?3:y"); break; case 25: NODE(If()(x > 0, y, 3), "x>0?y:3"); break; case 26: NODE(If()(x > 0, 3, 4), "x>0?3:4"); break; case 27: NODE(If()(true, 3, y), "true?3:y"); break; case 28: NODE(If()(false, y, 4), "false?y:4"); break; default: NODE(If()(true, x, y), "true?x:y"); break;
  }
}
#endif
