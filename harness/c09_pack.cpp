// Pack arithmetic, math, reductions and shifts against the same operation on scalars. MC_T: the scalar type of this unit.
#include "pack_common.hpp"
#include "ekat_pack_utils.hpp"
#ifndef MC_T
#define MC_T double
#endif
namespace {
using namespace ekat;
using T = MC_T;
#define NOINL __attribute__((noinline))
enum Op { ADD, SUB, MUL, DIV }; const char* opn[] = {"+", "-", "*", "/"};
// the scalar operation: of volatile operands, so that nothing is folded
template <class A, class B> NOINL auto sop(int op, A a_, B b_) -> std::common_type_t<A, B> {
  volatile A a = a_; volatile B b = b_;
  switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; }
}
template <class A, class B> NOINL A scop(int op, A a_, B b_) {   // a op= b
  A a = a_; volatile B b = b_;
  switch (op) { case ADD: a += b; break; case SUB: a -= b; break; case MUL: a *= b; break; default: a /= b; }
  return a;
}
template <class A, class B> auto pop(int op, const A& a, const B& b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
template <class A, class B> A& pcop(int op, A& a, const B& b) { switch (op) { case ADD: return a += b; case SUB: return a -= b; case MUL: return a *= b; default: return a /= b; } }
// is the scalar operation defined for these operands?
template <class A, class B> bool defined(int op, A a, B b) {
  if constexpr (std::is_integral_v<A> && std::is_integral_v<B>) if (op == DIV && b == 0) return false;
  return true;
}
template <class C, class A> bool fits(A v) { if constexpr (std::is_integral_v<C> && std::is_floating_point_v<A>) return v == v && std::abs(v) < A(1e9); else return true; }
// run f<N>() for a chosen pack size
template <class F> void with_size(mc::Ctx& ctx, F f) {
  switch (ctx.choose(6, "log2 of the pack size")) { case 0: f(std::integral_constant<int, 1>()); break; case 1: f(std::integral_constant<int, 2>()); break; case 2: f(std::integral_constant<int, 4>()); break; case 3: f(std::integral_constant<int, 8>()); break; case 4: f(std::integral_constant<int, 16>()); break; default: f(std::integral_constant<int, 32>()); }
}
template <class P, class A, class B> void expect_lane(mc::Ctx& ctx, const char* key, const std::string& what, const P& r, int i, A e, const B& ops) {
  MC_EXPECT(ctx, same<typename P::scalar>(r[i], e), key, what << " on packs of " << int(P::n) << ": lane " << i << " of the result " << showp(r) << " is not " << mc::show(typename P::scalar(e)) << "; operands " << ops());
}
template <class S> void binary(mc::Ctx& ctx) {
  auto A = special<T>(); auto B = special<S>(); int np = int(A.size() * B.size());
  int op = ctx.choose(4, "operator"), r = ctx.choose(np, "operand pair of lane 0");
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using PT = Pack<T, N>; using PS = Pack<S, N>; using C = std::common_type_t<T, S>;
    PT a; PS b; T as[N]; S bs[N]; std::string ty = std::string(tname<T>()) + opn[op] + tname<S>();
    for (int i = 0; i < N; ++i) {
      int p = lane_pair(r, i, np); as[i] = A[p % A.size()]; bs[i] = B[p / A.size()];
      if (!defined(op, as[i], bs[i])) bs[i] = S(4);
      a[i] = as[i]; b[i] = bs[i];
    }
    auto ops = [&] { return showp(a) + " and " + showp(b); };
    const PT a0(a); const PS b0(b);
    auto c = pop(op, a, b);
    MC_EXPECT(ctx, (std::is_same_v<decltype(c), Pack<C, N>>), "type:pp", "the result type of " << ty << " is not the pack of the common type");
    for (int i = 0; i < N; ++i) expect_lane(ctx, "pp", ty, c, i, sop(op, as[i], bs[i]), ops);
    auto u = [&](int) { }; (void) u;
    for (int k = 0; k < N; k += (N > 4 ? 5 : 1)) {            // pack with scalar, scalar with pack
      T sa = as[k]; S sb = bs[k];
      bool ok = true; for (int i = 0; i < N; ++i) ok = ok && defined(op, as[i], sb);
      if (ok) {
        auto d = pop(op, a, sb); MC_EXPECT(ctx, (std::is_same_v<decltype(d), Pack<C, N>>), "type:ps", "the result type of " << ty << " is not the pack of the common type");
        for (int i = 0; i < N; ++i) expect_lane(ctx, "ps", ty + " (pack with scalar)", d, i, sop(op, as[i], sb), [&] { return showp(a) + " and " + mc::show(sb); });
      }
      ok = true; for (int i = 0; i < N; ++i) ok = ok && defined(op, sa, bs[i]);
      if (ok) {
        auto d = pop(op, sa, b); MC_EXPECT(ctx, (std::is_same_v<decltype(d), Pack<C, N>>), "type:sp", "the result type of " << ty << " is not the pack of the common type");
        for (int i = 0; i < N; ++i) expect_lane(ctx, "sp", ty + " (scalar with pack)", d, i, sop(op, sa, bs[i]), [&] { return mc::show(sa) + " and " + showp(b); });
      }
      ok = true; for (int i = 0; i < N; ++i) ok = ok && defined(op, as[i], sb) && fits<T>(sop(op, as[i], sb)) && fits<T>(sb);
      if (ok) {
        PT d(a); PT& e = pcop(op, d, sb); MC_EXPECT(ctx, &e == &d, "returns:cs", ty << "= does not return its left side");
        for (int i = 0; i < N; ++i) expect_lane(ctx, "cs", ty + " (compound, scalar)", d, i, scop(op, as[i], sb), [&] { return showp(a) + " and " + mc::show(sb); });
      }
    }
    bool ok = true; for (int i = 0; i < N; ++i) ok = ok && fits<T>(sop(op, as[i], bs[i])) && fits<T>(bs[i]);
    if (ok) {
      PT d(a); PT& e = pcop(op, d, b); MC_EXPECT(ctx, &e == &d, "returns:cp", ty << "= does not return its left side");
      for (int i = 0; i < N; ++i) expect_lane(ctx, "cp", ty + " (compound, pack)", d, i, scop(op, as[i], bs[i]), ops);
    }
    MC_EXPECT(ctx, same_bytes(a, a0) && same_bytes(b, b0), "inputs", ty << " changed an operand");
    uint64_t h = N * 4 + op; for (int i = 0; i < N; ++i) h = mc::mix(h, bits(c[i])); ctx.outcome(h); ctx.state(mc::mix(r, N * 4 + op)); ctx.transition(4);
  });
}
}
MC_SCENARIO(with_double, "operators + - * / and op=, pack-pack, pack-scalar, scalar-pack, other operand double: pack sizes 1,2,4,8,16,32, every pair of values of the alphabet in every lane", 2) { binary<double>(ctx); }
MC_SCENARIO(with_float, "the same with float", 2) { binary<float>(ctx); }
MC_SCENARIO(with_int, "the same with int", 2) { binary<int>(ctx); }
MC_SCENARIO(all_pairs_of_lanes, "packs of 2: all contents of both operands over ordinary values, zero, infinity and NaN, all operators", 2) {
  auto V = special<T>(); std::vector<T> A(V.begin(), V.begin() + 3); for (size_t i = 8; i < V.size() && i < 13; ++i) A.push_back(V[i]);
  int k = int(A.size()), op = ctx.choose(4, "operator"); T a0 = A[ctx.choose(k, "a0")], a1 = A[ctx.choose(k, "a1")];
  for (int x = 0; x < k * k; ++x) {
    T b0 = A[x % k], b1 = A[x / k]; if (!defined(op, a0, b0) || !defined(op, a1, b1)) continue;
    Pack<T, 2> a, b; a[0] = a0; a[1] = a1; b[0] = b0; b[1] = b1;
    auto c = pop(op, a, b); Pack<T, 2> d(a); pcop(op, d, b);
    MC_CHECK(ctx, same(c[0], sop(op, a0, b0)) && same(c[1], sop(op, a1, b1)), "pp2", showp(a) << opn[op] << showp(b) << " is " << showp(c));
    MC_CHECK(ctx, same(d[0], sop(op, a0, b0)) && same(d[1], sop(op, a1, b1)), "cp2", showp(a) << opn[op] << "= " << showp(b) << " is " << showp(d));
    ctx.transition();
  }
  ctx.state(mc::mix(bits(a0), mc::mix(bits(a1), op))); ctx.outcome(op);
}
// operands that are the pack itself or one of its lanes
MC_SCENARIO(aliasing, "p op= p, p op= p[k], p = p[k], q = p op p, p op p[k] for every size, k, operator and rotation of the values", 2) {
  int op = ctx.choose(5, "operator"), r = ctx.choose(8, "rotation"); auto V = ordinary<T>();
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P a; T s[N]; for (int i = 0; i < N; ++i) a[i] = s[i] = V[(i + r) % V.size()] + T(i / 8 * 16);
    for (int k = 0; k < N; ++k) {
      P d(a); P& dr = d;
      if (op == 4) { d = d[k]; for (int i = 0; i < N; ++i) expect_lane(ctx, "alias-assign", "p = p[" + std::to_string(k) + "]", d, i, s[k], [&] { return showp(a); }); continue; }
      pcop(op, d, dr[k]);
      for (int i = 0; i < N; ++i) expect_lane(ctx, "alias-lane", std::string("p ") + opn[op] + "= p[" + std::to_string(k) + "]", d, i, sop(op, s[i], s[k]), [&] { return showp(a); });
      P e = pop(op, a, a[k]); P f = pop(op, a[k], a);
      for (int i = 0; i < N; ++i) { expect_lane(ctx, "alias-ps", std::string("p ") + opn[op] + " p[k]", e, i, sop(op, s[i], s[k]), [&] { return showp(a); }); expect_lane(ctx, "alias-sp", std::string("p[k] ") + opn[op] + " p", f, i, sop(op, s[k], s[i]), [&] { return showp(a); }); }
    }
    P d(a); if (op == 4) { P& dr = d; d = dr; for (int i = 0; i < N; ++i) expect_lane(ctx, "alias-self", "p = p", d, i, s[i], [&] { return showp(a); }); }
    else { P& dr = d; pcop(op, d, dr); P e = pop(op, a, a); for (int i = 0; i < N; ++i) { expect_lane(ctx, "alias-self", std::string("p ") + opn[op] + "= p", d, i, sop(op, s[i], s[i]), [&] { return showp(a); }); expect_lane(ctx, "alias-pp", std::string("p ") + opn[op] + " p", e, i, sop(op, s[i], s[i]), [&] { return showp(a); }); } }
    ctx.state(mc::mix(N * 8 + op, r)); ctx.outcome(mc::mix(N * 8 + op, bits(d[N - 1])));
  });
}
namespace {
template <class S, int N> void convert(mc::Ctx& ctx, int r) {
  auto B = special<S>(); Pack<S, N> b; S s[N]; for (int i = 0; i < N; ++i) { S v = B[(r + 3 * i) % B.size()]; if (!fits<T>(v)) v = S(-7); b[i] = s[i] = v; }
  const Pack<S, N> b0(b); using P = Pack<T, N>; auto ops = [&] { return showp(b); }; std::string ty = std::string("of ") + tname<S>() + " to " + tname<T>();
  P c(b), d, e(d); d = b; P f(s[0]), g(T(9)); P& gr = (g = s[N - 1]); P h(d);
  for (int i = 0; i < N; ++i) {
    expect_lane(ctx, "convert", "conversion " + ty, c, i, T(s[i]), ops); expect_lane(ctx, "assign", "assignment " + ty, d, i, T(s[i]), ops);
    expect_lane(ctx, "default", "default construction", e, i, T(0), ops); expect_lane(ctx, "from-scalar", "construction from a scalar " + ty, f, i, T(s[0]), [&] { return mc::show(s[0]); });
    expect_lane(ctx, "assign-scalar", "assignment of a scalar " + ty, g, i, T(s[N - 1]), [&] { return mc::show(s[N - 1]); }); expect_lane(ctx, "copy", "copy", h, i, T(s[i]), ops);
  }
  const volatile P& hv = h; P hv2(hv); for (int i = 0; i < N; ++i) expect_lane(ctx, "copy-volatile", "copy of a volatile pack", hv2, i, T(s[i]), ops);
  MC_EXPECT(ctx, &gr == &g && same_bytes(b, b0), "inputs", "a conversion changed its operand");
  for (int i = 0; i < N; ++i) { P q(b); q[i] = T(77); for (int j = 0; j < N; ++j) expect_lane(ctx, "index", "assignment to lane " + std::to_string(i), q, j, j == i ? T(77) : T(s[j]), ops); }
  ctx.state(mc::mix(mc::hash_str(ty), r * 64 + N)); ctx.outcome(mc::mix(bits(c[0]), N));
}
}
MC_SCENARIO(conversions, "construction, copy and assignment from packs and scalars of double, float and int; access to each lane; all sizes, all rotations of the alphabet", 2) {
  int st = ctx.choose(3, "source type"), r = ctx.choose(16, "rotation");
  with_size(ctx, [&](auto n_) { constexpr int N = n_; if (st == 0) convert<double, N>(ctx, r); else if (st == 1) convert<float, N>(ctx, r); else convert<int, N>(ctx, r); });
}
namespace {
NOINL T sfn(int f, T x_) {
  volatile T v = x_; T x = v;
  switch (f) {
    case 0: return std::abs(x); case 1: return -x; case 2: return x * x; case 3: return x * x * x;
    case 4: return std::exp(x); case 5: return std::expm1(x); case 6: return std::log(x); case 7: return std::log10(x); case 8: return std::tgamma(x); case 9: return std::sqrt(x);
    case 10: return std::cbrt(x); case 11: return std::tanh(x); default: return std::erf(x);
  }
}
template <class P> P pfn(int f, const P& x) {
  switch (f) {
    case 0: return abs(x); case 1: return -x; case 2: return square(x); case 3: return cube(x);
    case 4: return exp(x); case 5: return expm1(x); case 6: return log(x); case 7: return log10(x); case 8: return tgamma(x); case 9: return sqrt(x);
    case 10: return cbrt(x); case 11: return tanh(x); default: return erf(x);
  }
}
const char* fnn[] = {"abs", "negation", "square", "cube", "exp", "expm1", "log", "log10", "tgamma", "sqrt", "cbrt", "tanh", "erf"};
}
MC_SCENARIO(functions, "unary minus, abs, square, cube and the math functions: all sizes, every value of the alphabet in every lane", 1) {
  int f = ctx.choose(std::is_integral_v<T> ? 4 : 13, "function"); auto V = special<T>(); int r = ctx.choose(int(V.size()), "rotation");
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P a; for (int i = 0; i < N; ++i) a[i] = V[(r + i) % V.size()];
    const P a0(a); P b = pfn(f, a); for (int i = 0; i < N; ++i) expect_lane(ctx, fnn[f], fnn[f], b, i, sfn(f, a0[i]), [&] { return showp(a0); });
    MC_EXPECT(ctx, same_bytes(a, a0), "inputs", fnn[f] << " changed its operand");
    ctx.state(mc::mix(f, r * 32 + N)); ctx.outcome(mc::mix(f, bits(b[0])));
  });
}
namespace {
template <class E> NOINL T spow(T a_, E b_) { volatile T a = a_; volatile E b = b_; T x = a; E y = b; return std::pow(x, y); }
template <class E> NOINL T spow2(E a_, T b_) { volatile E a = a_; volatile T b = b_; E x = a; T y = b; return std::pow(x, y); }
template <class E> void power(mc::Ctx& ctx) {
  auto V = special<T>(); std::vector<E> W = special<E>(); if (std::is_integral_v<T>) { V = {1, 2, 3, 4, -2, -1}; W = {E(0), E(1), E(2), E(3), E(4), E(5)}; }
  if (std::is_integral_v<E> && !std::is_integral_v<T>) W = {E(0), E(1), E(2), E(-1), E(3), E(-3), E(7)};
  int np = int(V.size() * W.size()), r = ctx.choose(np, "operand pair of lane 0");
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P a; E b0 = W[r / V.size()];
    for (int i = 0; i < N; ++i) a[i] = V[(r + i) % V.size()];
    const P a0(a);
    P c = pow(a, b0); for (int i = 0; i < N; ++i) expect_lane(ctx, "pow-ps", std::string("pow(pack of ") + tname<T>() + ", " + tname<E>() + ")", c, i, spow<E>(a0[i], b0), [&] { return showp(a0) + " and " + mc::show(b0); });
    if (!std::is_integral_v<T>) { P d = pow(b0, a); for (int i = 0; i < N; ++i) expect_lane(ctx, "pow-sp", std::string("pow(") + tname<E>() + ", pack of " + tname<T>() + ")", d, i, spow2<E>(b0, a0[i]), [&] { return mc::show(b0) + " and " + showp(a0); }); }
    if constexpr (std::is_same_v<E, T>) {
      P b; for (int i = 0; i < N; ++i) { int p = lane_pair(r, i, np); a[i] = V[p % V.size()]; b[i] = W[p / V.size()]; } const P a1(a), b1(b);
      P d = pow(a, b); for (int i = 0; i < N; ++i) expect_lane(ctx, "pow-pp", "pow of packs", d, i, spow<T>(a1[i], b1[i]), [&] { return showp(a1) + " and " + showp(b1); });
      MC_EXPECT(ctx, same_bytes(a, a1) && same_bytes(b, b1), "inputs", "pow changed an operand");
    }
    ctx.state(mc::mix(r, N + 100 * sizeof(E))); ctx.outcome(bits(c[0]));
  });
}
}
MC_SCENARIO(pow_same_type, "pow of packs, pack and scalar, scalar and pack of the same type: all sizes, every pair of values in every lane") { power<T>(ctx); }
MC_SCENARIO(pow_int, "pow of a pack and an int, an int and a pack") { power<int>(ctx); }
MC_SCENARIO(pow_double, "pow of a pack and a double, a double and a pack") { if (std::is_integral_v<T>) { ctx.choose(1); ctx.outcome(0); return; } power<double>(ctx); }
namespace {
// min/max: the lesser/greater operand; with NaN or equal operands either operand is allowed
bool is_minmax(bool mx, T r, T a, T b) { if (a != a || b != b) return same(r, a) || same(r, b); return r == (mx ? (a > b ? a : b) : (a < b ? a : b)); }
}
MC_SCENARIO(min_max, "min and max of packs, pack and scalar, scalar and pack: all sizes, every pair of values in every lane", 2) {
  bool mx = ctx.flag("max"); auto V = special<T>(); int np = int(V.size() * V.size()), r = ctx.choose(np, "operand pair of lane 0");
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P a, b; for (int i = 0; i < N; ++i) { int p = lane_pair(r, i, np); a[i] = V[p % V.size()]; b[i] = V[p / V.size()]; }
    const P a0(a), b0(b); P c = mx ? max(a, b) : min(a, b), d = mx ? max(a, b0[0]) : min(a, b0[0]), e = mx ? max(b0[N - 1], a) : min(b0[N - 1], a);
    for (int i = 0; i < N; ++i) {
      MC_EXPECT(ctx, is_minmax(mx, c[i], a0[i], b0[i]), "minmax-pp", (mx ? "max" : "min") << " of " << showp(a0) << " and " << showp(b0) << " is " << showp(c) << ", wrong in lane " << i);
      MC_EXPECT(ctx, is_minmax(mx, d[i], a0[i], b0[0]), "minmax-ps", (mx ? "max" : "min") << " of " << showp(a0) << " and " << mc::show(b0[0]) << " is " << showp(d) << ", wrong in lane " << i);
      MC_EXPECT(ctx, is_minmax(mx, e[i], b0[N - 1], a0[i]), "minmax-sp", (mx ? "max" : "min") << " of " << mc::show(b0[N - 1]) << " and " << showp(a0) << " is " << showp(e) << ", wrong in lane " << i);
    }
    MC_EXPECT(ctx, same_bytes(a, a0) && same_bytes(b, b0), "inputs", "min or max changed an operand");
    ctx.state(mc::mix(r, N * 2 + mx)); ctx.outcome(mc::mix(mx, bits(c[0])));
  });
}
namespace {
template <int N, class F> void fill_and(mc::Ctx& ctx, F f) {
  // N<=2: all contents; otherwise all contents of two chosen lanes over a background that each of them may beat or not
  auto V = special<T>(); V.erase(std::remove_if(V.begin(), V.end(), [](T x) { return x != x; }), V.end()); using P = Pack<T, N>;
  int k = int(V.size());
  if constexpr (N <= 2) { P p; for (int i = 0; i < N; ++i) p[i] = V[ctx.choose(k, "lane")]; f(p); }
  else { int i = ctx.choose(N, "first lane"), x = ctx.choose(k, "value"), bg = ctx.choose(4, "background");
    for (int j = 0; j < N; ++j) for (int y = 0; y < k; ++y) { P p; for (int l = 0; l < N; ++l) p[l] = V[bg]; p[j] = V[y]; p[i] = V[x]; f(p); } }
}
}
MC_SCENARIO(lane_reductions, "min, max over lanes, with every mask (sizes to 8; 16, 32: masks of up to 2 lanes and their complements) and initial value; all contents for sizes 1 and 2, all contents of two lanes over 4 backgrounds for larger packs", 3) {
  auto V = ordinary<T>();
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; std::vector<unsigned> masks;
    if (N <= 4) for (unsigned m = 0; m < unsigned(uint64_t(1) << N); ++m) masks.push_back(m);
    else { const unsigned all = unsigned((uint64_t(1) << N) - 1); for (int i = 0; i < N; ++i) { masks.push_back(1u << i); masks.push_back(all & ~(1u << i)); } masks.push_back(0); masks.push_back(all); }
    std::vector<Mask<N>> ms; for (unsigned mm : masks) { Mask<N> m(false); for (int l = 0; l < N; ++l) m.set(l, mm >> l & 1); ms.push_back(m); }
    fill_and<N>(ctx, [&](P p) {
      const P p0(p); T mn = p0[0], mx = p0[0]; for (int l = 1; l < N; ++l) { if (p0[l] < mn) mn = p0[l]; if (p0[l] > mx) mx = p0[l]; }
      MC_CHECK(ctx, min(p) == mn, "min", "min of the lanes of " << showp(p0) << " is " << mc::show(min(p)) << ", expected " << mc::show(mn));
      MC_CHECK(ctx, max(p) == mx, "max", "max of the lanes of " << showp(p0) << " is " << mc::show(max(p)) << ", expected " << mc::show(mx));
      for (size_t q = 0; q < ms.size(); ++q) for (T init : {T(3), T(-7), T(100)}) {
        T en = init, ex = init; for (int l = 0; l < N; ++l) if (masks[q] >> l & 1) { if (p0[l] < en) en = p0[l]; if (p0[l] > ex) ex = p0[l]; }
        T gn = min(ms[q], init, p), gx = max(ms[q], init, p);
        MC_CHECK(ctx, gn == en, "masked-min", "min from " << mc::show(init) << " of the lanes " << showm(ms[q]) << " of " << showp(p0) << " is " << mc::show(gn) << ", expected " << mc::show(en));
        MC_CHECK(ctx, gx == ex, "masked-max", "max from " << mc::show(init) << " of the lanes " << showm(ms[q]) << " of " << showp(p0) << " is " << mc::show(gx) << ", expected " << mc::show(ex));
      }
      MC_CHECK(ctx, same_bytes(p, p0), "inputs", "a reduction changed the pack"); ctx.transition();
      uint64_t h = N; for (int l = 0; l < N; ++l) h = mc::mix(h, bits(p0[l])); ctx.state(h); ctx.outcome(mc::mix(bits(mn), bits(mx)));
    });
  });
}
MC_SCENARIO(sums, "reduce_sum into and out of a scalar: serialized, bitwise the left fold of the lanes for every rotation of the alphabet; otherwise exact for small integers; all sizes, three initial values", 1) {
  auto V = special<T>(); V.erase(std::remove_if(V.begin(), V.end(), [](T x) { return x != x; }), V.end()); int k = int(V.size()), r = ctx.choose(k, "rotation"), step = 1 + 2 * ctx.choose(3, "step"), iv = ctx.choose(3, "initial value");
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P p, q; for (int l = 0; l < N; ++l) { p[l] = V[(r + l * step) % k]; q[l] = T((r + 1) * (l * l + 3) - 40 * iv); } const P p0(p);
    T init = iv == 0 ? T(0) : iv == 1 ? T(5) : T(-31);
    volatile T e = init, e0 = T(0); for (int l = 0; l < N; ++l) { e = e + p0[l]; e0 = e0 + p0[l]; } T ex = e, e0x = e0;
    T s1 = init, s2 = init; reduce_sum<true>(p, s1); reduce_sum<P, true>(p, s2); T s3 = reduce_sum<true>(p), s4 = reduce_sum<P, true>(p);
    MC_CHECK(ctx, same(s1, ex) && same(s2, ex), "serial-into", "the serialized sum of " << showp(p0) << " on top of " << mc::show(init) << " is " << mc::show(s1) << " and " << mc::show(s2) << ", expected " << mc::show(ex));
    MC_CHECK(ctx, same(s3, e0x) && same(s4, e0x), "serial", "the serialized sum of " << showp(p0) << " is " << mc::show(s3) << " and " << mc::show(s4) << ", expected " << mc::show(e0x));
    if (ekatBFB) { T d1 = init; reduce_sum(p, d1); T d2 = reduce_sum(p); MC_CHECK(ctx, same(d1, ex) && same(d2, e0x), "default-bfb", "the sum of " << showp(p0) << " is not the serialized one although EKAT_DEFAULT_BFB is set"); }
    long long i = 0; for (int l = 0; l < N; ++l) i += (long long) q[l];
    T t1 = init, t2 = init, t5 = init, t6 = init; reduce_sum<false>(q, t1); reduce_sum<P, false>(q, t2); reduce_sum(q, t5); T t3 = reduce_sum<false>(q), t4 = reduce_sum<P, false>(q); t6 = reduce_sum(q);
    MC_CHECK(ctx, t1 == T(i) + init && t2 == T(i) + init && t5 == T(i) + init && t3 == T(i) && t4 == T(i) && t6 == T(i), "sum", "a sum of the lanes of " << showp(q) << " (initial value " << mc::show(init) << ") is not " << i);
    MC_CHECK(ctx, same_bytes(p, p0), "inputs", "reduce_sum changed the pack");
    ctx.state(mc::mix(r * 9 + step, N * 3 + iv)); ctx.outcome(mc::mix(bits(ex), N));
  });
}
MC_SCENARIO(shifts_and_ranges, "shift_left, shift_right with a pack and with a scalar (also the pack itself), range, npack, invalid, printing: all sizes and rotations", 1) {
  auto V = special<T>(); int k = int(V.size()), r = ctx.choose(k, "rotation"), r2 = ctx.choose(k, "rotation of the neighbour");
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P p, o; for (int l = 0; l < N; ++l) { p[l] = V[(r + l) % k]; o[l] = V[(r2 + 3 * l + 1) % k]; } const P p0(p), o0(o);
    P a = shift_right(o, p), b = shift_left(o, p), c = shift_right(o0[N / 2], p), d = shift_left(o0[N / 2], p), e = shift_right(p, p), f = shift_left(p, p), g = shift_right(2, p), h = shift_left(2, p);
    auto ops = [&] { return showp(o0) + " and " + showp(p0); };
    for (int l = 0; l < N; ++l) {
      expect_lane(ctx, "shift-right", "shift_right", a, l, l ? p0[l - 1] : o0[N - 1], ops); expect_lane(ctx, "shift-left", "shift_left", b, l, l < N - 1 ? p0[l + 1] : o0[0], ops);
      expect_lane(ctx, "shift-right-s", "shift_right by a scalar", c, l, l ? p0[l - 1] : o0[N / 2], ops); expect_lane(ctx, "shift-left-s", "shift_left by a scalar", d, l, l < N - 1 ? p0[l + 1] : o0[N / 2], ops);
      expect_lane(ctx, "rotate-right", "shift_right(p,p)", e, l, p0[(l + N - 1) % N], ops); expect_lane(ctx, "rotate-left", "shift_left(p,p)", f, l, p0[(l + 1) % N], ops);
      expect_lane(ctx, "shift-right-i", "shift_right by an int", g, l, l ? p0[l - 1] : T(2), ops); expect_lane(ctx, "shift-left-i", "shift_left by an int", h, l, l < N - 1 ? p0[l + 1] : T(2), ops);
    }
    MC_CHECK(ctx, same_bytes(p, p0) && same_bytes(o, o0), "inputs", "a shift changed its operand");
    for (T s : {T(0), T(-3), T(100)}) { P q = range<P>(s); for (int l = 0; l < N; ++l) expect_lane(ctx, "range", "range", q, l, T(s + l), [&] { return mc::show(s); }); }
    for (int n = 0; n <= 40; ++n) { int e2 = 0; while (e2 * N < n) ++e2; MC_CHECK(ctx, npack<P>(n) == e2, "npack", "npack<Pack of " << N << ">(" << n << ") is " << npack<P>(n)); }
    P v = invalid<P>(); for (int l = 0; l < N; ++l) MC_CHECK(ctx, std::is_floating_point_v<T> ? v[l] != v[l] : v[l] == std::numeric_limits<T>::max(), "invalid", "invalid<Pack>() is " << showp(v));
    std::ostringstream os, eo; os << p; for (int l = 0; l < N; ++l) eo << p0[l] << ' '; MC_CHECK(ctx, os.str() == eo.str(), "print", "printed " << mc::show(os.str()) << ", expected " << mc::show(eo.str()));
    P z = Kokkos::reduction_identity<P>::sum(); for (int l = 0; l < N; ++l) MC_CHECK(ctx, same(z[l], Kokkos::reduction_identity<T>::sum()), "identity", "the identity of sums is " << showp(z));
    ctx.state(mc::mix(r * 64 + r2, N)); ctx.outcome(mc::mix(bits(a[0]), bits(b[0])));
  });
}
namespace {
NOINL T axpy(T y_, T x_, T al_, T be_) { volatile T y = y_, x = x_, al = al_, be = be_; return be * y + al * x; }
}
MC_SCENARIO(updates, "update(x), update(x,alpha), update(x,alpha,beta), add(x), add(x,alpha), update of a pack with itself: all sizes, every pair of values in every lane, coefficients {1,0,2,-1}; without beta the old value, even NaN, does not matter", 2) {
  auto V = special<T>(); int np = int(V.size() * V.size()), r = ctx.choose(np, "pair of lane 0"), ci = ctx.choose(16, "coefficients"); const T C[] = {T(1), T(0), T(2), T(-1)}; T al = C[ci % 4], be = C[ci / 4];
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P x, y; for (int l = 0; l < N; ++l) { int p = lane_pair(r, l, np); x[l] = V[p % V.size()]; y[l] = V[p / V.size()]; } const P x0(x), y0(y);
    auto ops = [&] { return "y = " + showp(y0) + ", x = " + showp(x0) + ", alpha = " + mc::show(al) + ", beta = " + mc::show(be); };
    P a(y0), b(y0), c(y0), d(y0), e(y0), f(x0); P& fr = f;
    bool ret = &a.update(x) == &a; ret = ret && &b.update(x, al) == &b; ret = ret && &c.update(x, al, be) == &c; ret = ret && &d.add(x) == &d; ret = ret && &e.add(x, al) == &e; f.update(fr, al, be);
    MC_CHECK(ctx, ret && same_bytes(x, x0), "inputs", "update changed its operand or does not return its pack");
    for (int l = 0; l < N; ++l) {
      expect_lane(ctx, "update-default", "y.update(x)", a, l, x0[l], ops);
      if (x0[l] == x0[l]) MC_EXPECT(ctx, b[l] == b[l] ? b[l] == axpy(T(0), x0[l], al, T(0)) : axpy(T(0), x0[l], al, T(0)) != axpy(T(0), x0[l], al, T(0)), "update-alpha", "y.update(x,alpha): lane " << l << " of " << showp(b) << "; " << ops());
      if (be != T(0)) expect_lane(ctx, "update", "y.update(x,alpha,beta)", c, l, axpy(y0[l], x0[l], al, be), ops);
      else MC_EXPECT(ctx, same(c[l], axpy(y0[l], x0[l], al, be)) || same(c[l], T(al * x0[l])), "update-beta0", "y.update(x,alpha,0): lane " << l << " of " << showp(c) << "; " << ops());
      expect_lane(ctx, "add-default", "y.add(x)", d, l, axpy(y0[l], x0[l], T(1), T(1)), ops); expect_lane(ctx, "add", "y.add(x,alpha)", e, l, axpy(y0[l], x0[l], al, T(1)), ops);
      if (be != T(0)) expect_lane(ctx, "update-self", "x.update(x,alpha,beta)", f, l, axpy(x0[l], x0[l], al, be), ops);
    }
    ctx.state(mc::mix(r, N * 16 + ci)); ctx.outcome(mc::mix(bits(c[0]), ci));
  });
}
MC_SCENARIO(mixed_updates, "update and add with x of another type (double, float, int) and coefficients of type double: all sizes and rotations of the ordinary values", 2) {
  int st = ctx.choose(3, "type of x"), r = ctx.choose(8, "rotation"); const double C[] = {1, 0, 2, -0.5}; int ci = ctx.choose(16, "coefficients"); double al = C[ci % 4], be = C[ci / 4];
  with_size(ctx, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; auto Y = ordinary<T>();
    auto run = [&](auto s0) {
      using S = decltype(s0); auto X = ordinary<S>(); Pack<S, N> x; P y; for (int l = 0; l < N; ++l) { x[l] = X[(r + l) % 8]; y[l] = Y[(3 * l + 1) % 8]; } const P y0(y);
      P a(y0), c(y0), d(y0), e(y0); a.update(x); c.update(x, al, be); d.add(x); e.add(x, al); auto ops = [&] { return "y = " + showp(y0) + ", x = " + showp(x) + ", alpha = " + mc::show(al) + ", beta = " + mc::show(be); };
      for (int l = 0; l < N; ++l) {
        expect_lane(ctx, "mixed-update-default", "y.update(x)", a, l, T(x[l]), ops);
        volatile double p = be * y0[l], q = al * x[l]; T ex = T(p + q); MC_EXPECT(ctx, c[l] == ex, "mixed-update", "y.update(x,alpha,beta): lane " << l << " of " << showp(c) << ", expected " << mc::show(ex) << "; " << ops());
        volatile double q2 = 1.0 * y0[l] + al * x[l]; MC_EXPECT(ctx, e[l] == T(q2), "mixed-add", "y.add(x,alpha): lane " << l << " of " << showp(e) << "; " << ops());
        volatile auto q3 = y0[l] + x[l]; MC_EXPECT(ctx, d[l] == T(q3), "mixed-add-default", "y.add(x): lane " << l << " of " << showp(d) << "; " << ops());
      }
      ctx.outcome(mc::mix(bits(c[0]), sizeof(S)));
    };
    if (st == 0) run(0.0); else if (st == 1) run(0.0f); else run(0);
    ctx.state(mc::mix(st * 8 + r, N * 16 + ci));
  });
}
