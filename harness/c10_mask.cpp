// Masks, comparisons and masked assignment of packs, where expressions. MC_T: the scalar type of this unit.
#include "pack_common.hpp"
#include "ekat_pack_where.hpp"
#include "ekat_where.hpp"
#ifndef MC_T
#define MC_T double
#endif
namespace {
using namespace ekat; using T = MC_T;
template <class F> void with_size(mc::Ctx& ctx, int max_log, F f) {
  switch (ctx.choose(max_log + 1, "log2 of the pack size")) { case 0: f(std::integral_constant<int, 1>()); break; case 1: f(std::integral_constant<int, 2>()); break; case 2: f(std::integral_constant<int, 4>()); break; case 3: f(std::integral_constant<int, 8>()); break; case 4: f(std::integral_constant<int, 16>()); break; default: f(std::integral_constant<int, 32>()); }
}
template <int N> Mask<N> mk(uint64_t bits) { Mask<N> m(false); for (int i = 0; i < N; ++i) m.set(i, bits >> i & 1); return m; }
template <int N> uint64_t bitsof(const Mask<N>& m) { uint64_t b = 0; for (int i = 0; i < N; ++i) b |= uint64_t(bool(m[i])) << i; return b; }
std::string bs(uint64_t b, int n) { std::string s; for (int i = 0; i < n; ++i) s += b >> i & 1 ? '1' : '0'; return s; }
// all masks up to 8 lanes; of 16 lanes, those with at most two or at least 14 lanes set, and runs; of 32, those with at most one or at least 31, and runs
template <int N> const std::vector<uint64_t>& masks() {
  static std::vector<uint64_t> v; if (!v.empty()) return v;
  if (N <= 8) for (uint64_t m = 0; m < (uint64_t(1) << N); ++m) v.push_back(m);
  else { const uint64_t all = (uint64_t(1) << N) - 1; v.push_back(0); v.push_back(all); for (int i = 0; i < N; ++i) { v.push_back(uint64_t(1) << i); v.push_back(all ^ (uint64_t(1) << i)); if (N <= 16) for (int j = 0; j < i; ++j) { v.push_back(uint64_t(1) << i | uint64_t(1) << j); v.push_back(all ^ (uint64_t(1) << i | uint64_t(1) << j)); } v.push_back((uint64_t(1) << i) - 1); v.push_back(all ^ ((uint64_t(1) << i) - 1)); } v.push_back(0x55555555u & all); v.push_back(0xaaaaaaaau & all); }
  return v;
}
}
MC_SCENARIO(mask_unary, "every mask of 1, 2, 4, 8 and 16 lanes, 130 of 32 lanes: construction, set, [], !, any, all, none, both masked loops, printing", 2) {
  int hi = ctx.choose(16, "part");
  with_size(ctx, 5, [&](auto n_) {
    constexpr int N = n_; const uint64_t all = (uint64_t(1) << N) - 1;
    std::vector<uint64_t> L; if (N <= 16) for (uint64_t b = hi; b <= all; b += 16) L.push_back(b); else for (size_t i = hi; i < masks<N>().size(); i += 16) L.push_back(masks<N>()[i]);
    for (uint64_t b : L) {
      const Mask<N> m = mk<N>(b);
      MC_CHECK(ctx, bitsof(m) == b, "set", "mask " << bs(b, N) << " reads as " << bs(bitsof(m), N));
      MC_CHECK(ctx, m.any() == (b != 0), "any", "any() of " << bs(b, N)); MC_CHECK(ctx, m.all() == (b == all), "all", "all() of " << bs(b, N)); MC_CHECK(ctx, m.none() == (b == 0), "none", "none() of " << bs(b, N));
      const Mask<N> q = !m; MC_CHECK(ctx, bitsof(q) == (all ^ b) && bitsof(m) == b, "not", "not " << bs(b, N) << " is " << bs(bitsof(q), N));
      uint64_t seen = 0, seen2 = 0; int c = 0, c2 = 0, last = -1; bool ord = true;
      ekat_masked_loop(m, s) { seen |= uint64_t(1) << s; ++c; } ekat_masked_loop_no_vec(m, s) { seen2 |= uint64_t(1) << s; ++c2; ord = ord && s > last; last = s; }
      MC_CHECK(ctx, seen == b && seen2 == b && c == __builtin_popcountll(b) && c2 == c && ord, "loop", "the masked loops over " << bs(b, N) << " visit " << bs(seen, N) << " and " << bs(seen2, N));
      for (int i = 0; i < N; ++i) for (int v = 0; v < 2; ++v) { Mask<N> w(m); w.set(i, v); uint64_t e = v ? b | uint64_t(1) << i : b & ~(uint64_t(1) << i); MC_CHECK(ctx, bitsof(w) == e, "set-one", "set(" << i << "," << v << ") on " << bs(b, N) << " gives " << bs(bitsof(w), N)); }
      for (int v = 0; v < 2; ++v) { uint64_t a = bitsof(m && bool(v)), o = bitsof(m || bool(v)); MC_CHECK(ctx, a == (v ? b : 0) && o == (v ? all : b), "with-bool", bs(b, N) << " with " << v << ": && gives " << bs(a, N) << ", || gives " << bs(o, N)); }
      std::ostringstream os, eo; os << m; for (int i = 0; i < N; ++i) eo << int(b >> i & 1) << ' '; MC_CHECK(ctx, os.str() == eo.str(), "print", "mask " << bs(b, N) << " is printed as " << mc::show(os.str()));
      ctx.transition(); ctx.state(b * 64 + N); ctx.outcome(bitsof(q) * 64 + N);
    }
    MC_CHECK(ctx, bitsof(Mask<N>(true)) == all && bitsof(Mask<N>(false)) == 0, "init", "Mask(true) or Mask(false) of " << N << " lanes");
  });
}
MC_SCENARIO(mask_binary, "every pair of masks of 1, 2, 4 and 8 lanes (16 lanes: every mask with 309 others; 130 masks of 32 lanes): &&, ||, ==", 2) {
  int hi = ctx.choose(16, "part");
  with_size(ctx, 5, [&](auto n_) {
    constexpr int N = n_; const uint64_t all = (uint64_t(1) << N) - 1; const auto& M = masks<N>();
    std::vector<uint64_t> L; if (N <= 16) for (uint64_t b = hi; b <= all; b += (N == 16 && !ctx.tier() ? 16 * 7 : 16)) L.push_back(b); else for (size_t i = hi; i < M.size(); i += 16) L.push_back(M[i]);
    for (uint64_t b : L) { const Mask<N> m = mk<N>(b); for (uint64_t c : M) {
      const Mask<N> k = mk<N>(c); uint64_t a = bitsof(m && k), o = bitsof(m || k);
      MC_CHECK(ctx, a == (b & c), "and", bs(b, N) << " && " << bs(c, N) << " is " << bs(a, N)); MC_CHECK(ctx, o == (b | c), "or", bs(b, N) << " || " << bs(c, N) << " is " << bs(o, N));
      MC_CHECK(ctx, (m == k) == (b == c), "eq", bs(b, N) << " == " << bs(c, N)); MC_CHECK(ctx, (k == m) == (b == c), "eq", bs(c, N) << " == " << bs(b, N)); ctx.transition();
    } MC_CHECK(ctx, bitsof(m) == b, "inputs", "a mask changed"); }
    ctx.state(hi * 64 + N); ctx.outcome(hi * 64 + N);
  });
}
namespace {
template <class A, class B> bool scmp(int op, A a_, B b_) { volatile A a = a_; volatile B b = b_; switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; } }
template <class A, class B> auto pcmp(int op, const A& a, const B& b) { switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; } }
const char* cn[] = {"==", "!=", "<", ">", "<=", ">="};
template <class S, int N> void cmp_scalar(mc::Ctx& ctx, int op, const Pack<T, N>& a, S b) {
  auto m = pcmp(op, a, b), k = pcmp(op, b, a);
  for (int i = 0; i < N; ++i) {
    MC_CHECK(ctx, bool(m[i]) == scmp(op, a[i], b), "cmp-ps", showp(a) << " " << cn[op] << " " << mc::show(b) << " (" << tname<S>() << ") is " << showm(m));
    MC_CHECK(ctx, bool(k[i]) == scmp(op, b, a[i]), "cmp-sp", mc::show(b) << " (" << tname<S>() << ") " << cn[op] << " " << showp(a) << " is " << showm(k));
  }
}
}
MC_SCENARIO(comparisons, "== != < > <= >= and isnan of packs with packs and with scalars of the same type and of double, float, int, both sides: all sizes, every pair of values (also NaN) in every lane", 2) {
  auto V = special<T>(); int np = int(V.size() * V.size()), op = ctx.choose(6, "operator"), r = ctx.choose(np, "pair of lane 0");
  with_size(ctx, 5, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P a, b; for (int l = 0; l < N; ++l) { int p = lane_pair(r, l, np); a[l] = V[p % V.size()]; b[l] = V[p / V.size()]; } const P a0(a), b0(b);
    auto m = pcmp(op, a, b); for (int i = 0; i < N; ++i) MC_CHECK(ctx, bool(m[i]) == scmp(op, a0[i], b0[i]), "cmp-pp", showp(a0) << " " << cn[op] << " " << showp(b0) << " is " << showm(m));
    cmp_scalar<T, N>(ctx, op, a, b0[0]); cmp_scalar<double, N>(ctx, op, a, 0.3); cmp_scalar<float, N>(ctx, op, a, 0.3f); cmp_scalar<int, N>(ctx, op, a, 3); cmp_scalar<int, N>(ctx, op, a, 0);
    if constexpr (std::is_floating_point_v<T>) { auto q = isnan(a); for (int i = 0; i < N; ++i) MC_CHECK(ctx, bool(q[i]) == (a0[i] != a0[i]), "isnan", "isnan(" << showp(a0) << ") is " << showm(q)); }
    const P& ar = a; auto s = pcmp(op, a, ar); for (int i = 0; i < N; ++i) MC_CHECK(ctx, bool(s[i]) == scmp(op, a0[i], a0[i]), "cmp-self", showp(a0) << " " << cn[op] << " itself is " << showm(s));
    MC_CHECK(ctx, same_bytes(a, a0) && same_bytes(b, b0), "inputs", "a comparison changed its operand");
    ctx.state(mc::mix(r, N * 8 + op)); ctx.outcome(mc::mix(bitsof(m), N * 8 + op));
  });
}
MC_SCENARIO(two_lanes, "comparisons of packs of 2: all contents of both", 2) {
  auto V = special<T>(); int k = int(V.size()), op = ctx.choose(6, "operator"); Pack<T, 2> a, b; a[0] = V[ctx.choose(k, "a0")]; a[1] = V[ctx.choose(k, "a1")];
  for (int x = 0; x < k * k; ++x) { b[0] = V[x % k]; b[1] = V[x / k]; auto m = pcmp(op, a, b); MC_CHECK(ctx, bool(m[0]) == scmp(op, a[0], b[0]) && bool(m[1]) == scmp(op, a[1], b[1]), "cmp-pp2", showp(a) << " " << cn[op] << " " << showp(b) << " is " << showm(m)); ctx.transition(); }
  ctx.state(mc::mix(bits(a[0]), bits(a[1]))); ctx.outcome(op);
}
namespace {
// compare p with the expected lanes: e(i) in selected lanes, o(i) elsewhere
template <class P, class E, class O, class W> void expect(mc::Ctx& ctx, const char* key, const P& p, uint64_t m, E e, O o, W what) {
  for (int i = 0; i < int(P::n); ++i) { typename P::scalar x = (m >> i & 1) ? typename P::scalar(e(i)) : typename P::scalar(o(i));
    MC_CHECK(ctx, same(p[i], x), key, what() << ", mask " << bs(m, P::n) << ": lane " << i << " of the result " << showp(p) << " is not " << mc::show(x)); }
}
template <class S, int N> void sets(mc::Ctx& ctx, int r) {
  using P = Pack<T, N>; using Q = Pack<S, N>; auto V = special<T>(); auto W = ordinary<S>(); if (std::is_same_v<S, T>) { auto X = special<T>(); W.assign(X.begin(), X.end()); }
  P y, z; Q x; Pack<int, N> w; for (int l = 0; l < N; ++l) { y[l] = V[(r + l) % V.size()]; x[l] = W[(5 * r + 3 * l + 2) % W.size()]; z[l] = V[(2 * r + 5 * l + 1) % V.size()]; w[l] = l * 3 - 7; } const P y0(y), z0(z); const Q x0(x); const S s = W[r % W.size()], s2 = W[(r + 3) % W.size()];
  for (uint64_t b : masks<N>()) {
    const auto m = mk<N>(b); auto Y = [&](int i) { return y0[i]; }; auto X = [&](int i) { return x0[i]; }; auto Z = [&](int i) { return z0[i]; }; auto K = [&](auto v) { return [v](int) { return v; }; }; std::string st = std::string(" of ") + tname<S>() + " into ";
    auto w0 = [&](const char* t) { return [=] { return std::string(t) + st + tname<T>() + " " + showp(y0) + ", source " + showp(x0) + ", scalar " + mc::show(s); }; };
    P p(y0); bool ret = &p.set(m, T(s)) == &p; expect(ctx, "set-scalar", p, b, K(s), Y, w0("set(mask,scalar)"));
    p = y0; ret = ret && &p.set(m, x) == &p; expect(ctx, "set-pack", p, b, X, Y, w0("set(mask,pack)"));
    p = y0; ret = ret && &p.set(m, T(s), T(s2)) == &p; expect(ctx, "set-2-scalars", p, b, K(s), K(s2), w0("set(mask,scalar,scalar)"));
    p = y0; ret = ret && &p.set(m, x, z) == &p; expect(ctx, "set-2-packs", p, b, X, Z, w0("set(mask,pack,pack)"));
    p = y0; p.set(m, z, x); expect(ctx, "set-2-packs", p, b, Z, X, w0("set(mask,pack,pack)")); p = y0; p.set(m, x, w); expect(ctx, "set-2-packs-mixed", p, b, X, [&](int i) { return w[i]; }, w0("set(mask,pack,pack of int)"));
    MC_CHECK(ctx, ret, "returns", "set does not return its pack");
    P c1(m, s), c2(m, s, s2), c3(m, x), c4(m, x, z), c5(m, z, x);
    expect(ctx, "ctor-scalar", c1, b, K(s), K(T(0)), w0("Pack(mask,scalar)")); expect(ctx, "ctor-2-scalars", c2, b, K(s), K(s2), w0("Pack(mask,scalar,scalar)")); expect(ctx, "ctor-pack", c3, b, X, K(T(0)), w0("Pack(mask,pack)"));
    expect(ctx, "ctor-2-packs", c4, b, X, Z, w0("Pack(mask,pack,pack)")); expect(ctx, "ctor-2-packs", c5, b, Z, X, w0("Pack(mask,pack,pack)"));
    p = y0; p.set(m, p, z); expect(ctx, "set-self", p, b, Y, Z, w0("p.set(mask,p,z)")); p = y0; p.set(m, z, p); expect(ctx, "set-self", p, b, Z, Y, w0("p.set(mask,z,p)")); p = y0; p.set(m, p); expect(ctx, "set-self", p, b, Y, Y, w0("p.set(mask,p)"));
    for (int k = 0; k < N; k += (N > 4 ? 3 : 1)) { p = y0; p.set(m, p[k]); expect(ctx, "set-lane", p, b, K(y0[k]), Y, w0("p.set(mask,p[k])")); for (int j = 0; j < N; j += (N > 4 ? 3 : 1)) { p = y0; p.set(m, p[k], p[j]); expect(ctx, "set-lanes", p, b, K(y0[k]), K(y0[j]), w0("p.set(mask,p[k],p[j])")); } }
    // masked updates, ordinary coefficients
    auto f = [](auto be, T y, auto al, auto x) { volatile auto u = be * y; volatile auto v = al * x; return T(u + v); };
    for (double al : {1.0, 2.0, -1.0}) for (double be : {1.0, 0.0, -1.0}) {
      bool small = true; if (std::is_integral_v<T>) for (int i = 0; i < N; ++i) small = small && std::abs(double(x0[i])) < 1e6 && std::abs(double(y0[i])) < 1e6; if (!small) continue;
      if (be == 0) { p = y0; p.update(m, x); expect(ctx, "update-default", p, b, X, Y, w0("update(mask,x)")); p = y0; p.update(m, x, z); expect(ctx, "update-2-default", p, b, X, Z, w0("update(mask,x,z)")); p = y0; p.add(m, x); expect(ctx, "add-default", p, b, [&](int i) { return f(T(1), y0[i], T(1), x0[i]); }, Y, w0("add(mask,x)")); p = y0; p.add(m, x, z); expect(ctx, "add-2-default", p, b, [&](int i) { return f(T(1), y0[i], T(1), x0[i]); }, [&](int i) { return f(T(1), y0[i], T(1), z0[i]); }, w0("add(mask,x,z)")); continue; }
      auto wu = [&](const char* t) { auto g = w0(t); return [=] { return g() + ", alpha " + mc::show(al) + ", beta " + mc::show(be); }; };
      if constexpr (std::is_same_v<S, T>) {
        T a = T(al), e = T(be); p = y0; p.update(m, x, a, e); expect(ctx, "update", p, b, [&](int i) { return f(e, y0[i], a, x0[i]); }, Y, wu("update(mask,x,alpha,beta)"));
        p = y0; p.update(m, x, z, a, e); expect(ctx, "update-2", p, b, [&](int i) { return f(e, y0[i], a, x0[i]); }, [&](int i) { return f(e, y0[i], a, z0[i]); }, wu("update(mask,x,z,alpha,beta)"));
        p = y0; p.add(m, x, a); expect(ctx, "add", p, b, [&](int i) { return f(T(1), y0[i], a, x0[i]); }, Y, wu("add(mask,x,alpha)")); p = y0; p.add(m, x, z, a); expect(ctx, "add-2", p, b, [&](int i) { return f(T(1), y0[i], a, x0[i]); }, [&](int i) { return f(T(1), y0[i], a, z0[i]); }, wu("add(mask,x,z,alpha)"));
      } else if (!std::is_integral_v<T>) {
        p = y0; p.update(m, x, al, be); expect(ctx, "update-mixed", p, b, [&](int i) { return f(be, y0[i], al, x0[i]); }, Y, wu("update(mask,x,alpha,beta)")); p = y0; p.update(m, x, z, al, be); expect(ctx, "update-2-mixed", p, b, [&](int i) { return f(be, y0[i], al, x0[i]); }, [&](int i) { return f(be, y0[i], al, z0[i]); }, wu("update(mask,x,z,alpha,beta)"));
      }
    }
    MC_CHECK(ctx, same_bytes(x, x0) && same_bytes(z, z0) && bitsof(m) == b, "inputs", "a masked assignment changed its source or mask"); ctx.transition(); ctx.state(mc::mix(b * 64 + N, r)); ctx.outcome(mc::mix(b, bits(c4[0])));
  }
}
}
MC_SCENARIO(masked_set, "set, masked construction, update and add with one and two sources, scalar and pack, of double, float and int: every mask of 1-8 lanes (16: 309 masks, 32: 130), rotations of the values", 2) {
  int st = ctx.choose(3, "source type"), r = ctx.choose(ctx.tier() ? 16 : 8, "rotation") * (ctx.tier() ? 1 : 2);
  with_size(ctx, 5, [&](auto n_) { constexpr int N = n_; if (st == 0) sets<double, N>(ctx, r); else if (st == 1) sets<float, N>(ctx, r); else sets<int, N>(ctx, r); });
}
namespace {
template <class A, class B> T sc(int op, A a_, B b_) { A a = a_; volatile B b = b_; switch (op) { case 0: a = b; break; case 1: a += b; break; case 2: a -= b; break; case 3: a *= b; break; default: a /= b; } return a; }
template <class W, class B> auto& wop(int op, W&& w, const B& b) { switch (op) { case 0: return w = b; case 1: return w += b; case 2: return w -= b; case 3: return w *= b; default: return w /= b; } }
template <class A, class B> A& lop(int op, A& a, const B& b) { switch (op) { case 1: return a += b; case 2: return a -= b; case 3: return a *= b; default: return a /= b; } }
const char* wn[] = {"=", "+=", "-=", "*=", "/="};
template <class S, int N> void wheres(mc::Ctx& ctx, int r) {
  using P = Pack<T, N>; using Q = Pack<S, N>; auto V = ordinary<T>(); auto W = ordinary<S>(); if (std::is_floating_point_v<T>) V = special<T>(); if (std::is_same_v<S, T> && std::is_floating_point_v<T>) { auto X = special<T>(); W.assign(X.begin(), X.end()); }
  P y; Q x; for (int l = 0; l < N; ++l) { y[l] = V[(r + l) % V.size()]; x[l] = W[(5 * r + 3 * l + 2) % W.size()]; } const P y0(y); const Q x0(x); const S s = W[r % W.size()];
  for (int op = 0; op < 5; ++op) for (uint64_t b : masks<N>()) {
    const auto m = mk<N>(b); auto Y = [&](int i) { return y0[i]; }; auto wh = [&](const char* t) { return [=] { return std::string("where(mask,p) ") + wn[op] + " " + t + " of " + tname<S>() + ", p = " + showp(y0) + ", right side " + showp(x0) + " or " + mc::show(s); }; };
    P p(y0); auto w = where(m, p); P& q = wop(op, w, s); MC_CHECK(ctx, &q == &p && &w.value() == &p && w.mask() == m, "returns", "where does not refer to its pack and mask");
    MC_CHECK(ctx, w.any() == (b != 0) && w.none() == (b == 0) && w.all() == (b + 1 == uint64_t(1) << N), "any", "any, all or none of a where expression with mask " << bs(b, N));
    expect(ctx, "where-scalar", p, b, [&](int i) { return sc(op, y0[i], s); }, Y, wh("scalar"));
    p = y0; wop(op, w, x); expect(ctx, "where-pack", p, b, [&](int i) { return sc(op, y0[i], x0[i]); }, Y, wh("pack"));
    p = y0; Q xz(x0); if (std::is_integral_v<T> && std::is_integral_v<S>) for (int i = 0; i < N; ++i) if (!(b >> i & 1)) xz[i] = 0;   // an unselected lane is not divided
    wop(op, where(m, p), xz); expect(ctx, "where-pack-zero", p, b, [&](int i) { return sc(op, y0[i], x0[i]); }, Y, wh("pack with zeros in other lanes"));
    P p2(y0); wop(op, where(m, p2), p2); expect(ctx, "where-self", p2, b, [&](int i) { return sc(op, y0[i], y0[i]); }, Y, wh("itself"));
    for (int k = 0; k < N; k += (N > 4 ? 5 : 1)) { P p3(y0); wop(op, where(m, p3), p3[k]); expect(ctx, "where-lane", p3, b, [&](int i) { return sc(op, y0[i], y0[k]); }, Y, wh("p[k]")); }
    wop(op, w, s); wop(op, w, x);     // the expression can be used again
    expect(ctx, "where-again", p, b, [&](int i) { return sc(op, sc(op, sc(op, y0[i], x0[i]), s), x0[i]); }, Y, wh("twice"));
    MC_CHECK(ctx, same_bytes(x, x0), "inputs", "where changed its right side"); ctx.transition(); ctx.state(mc::mix(b * 64 + N, r * 8 + op)); ctx.outcome(mc::mix(b, bits(p[N - 1])));
  }
}
}
MC_SCENARIO(where_packs, "where(mask,pack) = += -= *= /= scalar, pack, itself, own lane, of double, float and int: every mask of 1-8 lanes (16: 309 masks, 32: 130), rotations of the values", 2) {
  int st = ctx.choose(3, "source type"), r = ctx.choose(ctx.tier() ? 16 : 8, "rotation") * (ctx.tier() ? 1 : 2);
  with_size(ctx, 5, [&](auto n_) { constexpr int N = n_; if (st == 0) { if constexpr (!std::is_integral_v<T>) wheres<double, N>(ctx, r); else wheres<long, N>(ctx, r); } else if (st == 1) { if constexpr (!std::is_integral_v<T>) wheres<float, N>(ctx, r); } else wheres<int, N>(ctx, r); });
}
MC_SCENARIO(where_reductions, "max, min (members and functions) and scalar += -= *= /= where(mask,pack): every mask of 1-8 lanes (16: 309 masks, 32: 130), rotations of ordinary values, three initial values", 2) {
  auto V = ordinary<T>(); int r = ctx.choose(8, "rotation"), step = 1 + 2 * ctx.choose(2, "step");
  with_size(ctx, 5, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; P p, q; for (int l = 0; l < N; ++l) { p[l] = V[(r + l * step) % 8]; q[l] = T((l * step + r) % 5 - 2); if (q[l] == T(0)) q[l] = T(1); } const P p0(p), q0(q);
    for (uint64_t b : masks<N>()) for (T init : {T(3), T(-7), T(100)}) {
      const auto m = mk<N>(b); T mn = init, mx = init; for (int i = 0; i < N; ++i) if (b >> i & 1) { if (p0[i] < mn) mn = p0[i]; if (p0[i] > mx) mx = p0[i]; }
      const auto w = where(m, p);
      MC_CHECK(ctx, w.max(init) == mx && max(w, init) == mx, "where-max", "max from " << mc::show(init) << " of " << showp(p0) << " where " << bs(b, N) << " is " << mc::show(w.max(init)) << " / " << mc::show(max(w, init)) << ", expected " << mc::show(mx));
      MC_CHECK(ctx, w.min(init) == mn && min(w, init) == mn, "where-min", "min from " << mc::show(init) << " of " << showp(p0) << " where " << bs(b, N) << " is " << mc::show(w.min(init)) << " / " << mc::show(min(w, init)) << ", expected " << mc::show(mn));
      const auto wq = where(m, q);   // small integers and powers of 2: exact in any order
      for (int op = 1; op < 5; ++op) { T s = op == 4 ? T(1024) : init, e = s; for (int i = 0; i < N; ++i) if (b >> i & 1) { if (op == 1) e += q0[i]; else if (op == 2) e -= q0[i]; else if (op == 3) e *= q0[i]; else e /= q0[i]; }
        T s0 = s; T& rr = lop(op, s, wq); MC_CHECK(ctx, &rr == &s && s == e, "scalar-op-where", mc::show(s0) << " " << wn[op] << " " << showp(q0) << " where " << bs(b, N) << " is " << mc::show(s) << ", expected " << mc::show(e)); }
      ctx.transition(); ctx.outcome(mc::mix(b, bits(mn)));
    }
    MC_CHECK(ctx, same_bytes(p, p0) && same_bytes(q, q0), "inputs", "a reduction changed the pack"); ctx.state(mc::mix(r * 2 + step, N));
  });
}
MC_SCENARIO(where_scalars, "where(bool,scalar) = += -= *= /=, max, min, any, all, none, scalar op= where: both masks, every pair of values, right sides of double, float, int", 2) {
  auto V = std::is_integral_v<T> ? ordinary<T>() : special<T>(); bool b = ctx.flag("mask"); T y = ctx.pick(V, "value"), x = ctx.pick(V, "right side"); int op = ctx.choose(5, "operator");
  auto one = [&](auto s, const char* sn) { T v = y; auto w = where(b, v); T& r = wop(op, w, s); T e = b ? sc(op, y, s) : y;
    MC_CHECK(ctx, &r == &v && same(v, e), "where-bool", "where(" << b << "," << mc::show(y) << ") " << wn[op] << " " << mc::show(s) << " (" << sn << ") gives " << mc::show(v) << ", expected " << mc::show(e));
    MC_CHECK(ctx, w.any() == b && w.all() == b && w.none() == !b && w.mask() == b && &w.value() == &v, "where-bool-any", "any, all, none, mask or value of where(" << b << ",...)"); };
  one(x, "same type"); one(7, "int"); if (!std::is_integral_v<T>) { one(0.3, "double"); one(0.3f, "float"); }
  { T v = y; T vr = b ? sc(op, y, y) : y; wop(op, where(b, v), v); MC_CHECK(ctx, same(v, vr), "where-bool-self", "where(" << b << ",v) " << wn[op] << " v, v = " << mc::show(y)); }
  T v = y; const auto w = where(b, v);
  if (x == x && y == y) { T mx = b && y > x ? y : x, mn = b && y < x ? y : x; MC_CHECK(ctx, w.max(x) == mx && max(w, x) == mx && w.min(x) == mn && min(w, x) == mn, "where-bool-max", "max or min of " << mc::show(x) << " and " << mc::show(y) << " where " << b); }
  if (op) { T s = x; T e = b ? sc(op, x, y) : x; T& r = lop(op, s, w); MC_CHECK(ctx, &r == &s && same(s, e) && same(v, y), "scalar-op-where-bool", mc::show(x) << " " << wn[op] << " " << mc::show(y) << " where " << b << " gives " << mc::show(s)); }
  ctx.state(mc::mix(bits(x), mc::mix(bits(y), op * 2 + b))); ctx.outcome(bits(v));
}
