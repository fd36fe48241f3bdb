// Pack index arithmetic, scalarize, repack, gathers and adjacent differences against index formulas on plain arrays.
#include "view_model.hpp"
#include "pack_common.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_kokkos_types.hpp"
#ifndef MC_T
#define MC_T double
#endif
using mc::Ctx; using namespace ekat; using T = MC_T;
namespace {
template <class F> void with_size(Ctx& ctx, int max_log, F f) {
  switch (ctx.choose(max_log + 1, "log2 of the pack size")) { case 0: f(std::integral_constant<int, 1>()); break; case 1: f(std::integral_constant<int, 2>()); break; case 2: f(std::integral_constant<int, 4>()); break; case 3: f(std::integral_constant<int, 8>()); break; case 4: f(std::integral_constant<int, 16>()); break; default: f(std::integral_constant<int, 32>()); }
}
template <class A, class B> constexpr bool is = std::is_same_v<A, B>;
}
MC_SCENARIO(pack_info, "every array length 0-300 (thorough 3000) and pack size 1-32: number of packs, padding, ends, pack and lane of every index and back; types of scalarized arrays; genRandArray", 1) {
  int hi = ctx.choose(10, "part");
  with_size(ctx, 5, [&](auto n_) {
    constexpr int N = n_; using I = PackInfo<N>;
    for (int n = hi; n <= (ctx.tier() ? 3000 : 300); n += 10) {
      int np = 0; while (np * N < n) ++np; int pad = np * N - n;
      MC_CHECK(ctx, I::num_packs(n) == np && I::last_pack_idx(n) == np - 1, "num_packs", n << " entries in packs of " << N << ": " << I::num_packs(n) << " packs, last " << I::last_pack_idx(n) << ", expected " << np);
      MC_CHECK(ctx, I::has_padding(n) == (pad > 0) && I::padding(n) == pad, "padding", n << " entries in packs of " << N << ": padding " << I::padding(n) << ", expected " << pad);
      if (n > 0) { MC_CHECK(ctx, I::last_vec_end(n) == N - pad, "last_vec_end", n << " entries in packs of " << N << ": last lane ends at " << I::last_vec_end(n));
        for (int p = 0; p < np; ++p) { int e = 0; while (e < N && p * N + e < n) ++e; MC_CHECK(ctx, I::vec_end(n, p) == e, "vec_end", n << " entries in packs of " << N << ": pack " << p << " ends at " << I::vec_end(n, p) << ", expected " << e); } }
      int p = n / N, l = n - p * N; auto pv = I::pack_vec_idx(n);
      MC_CHECK(ctx, I::pack_idx(n) == p && I::vec_idx(n) == l && pv.first == p && pv.second == l, "pack_idx", "entry " << n << " in packs of " << N << " is at (" << I::pack_idx(n) << "," << I::vec_idx(n) << "), (" << pv.first << "," << pv.second << ")");
      MC_CHECK(ctx, I::array_idx(p, l) == n && I::array_idx(pv) == n && I::array_idx(std::make_pair(p, l)) == n, "array_idx", "lane " << l << " of pack " << p << " of " << N << " is entry " << I::array_idx(p, l));
      ctx.transition(); ctx.state(n * 64 + N); ctx.outcome(n * 64 + N);
    }
    using P = Pack<T, N>;
    bool t1 = is<typename ScalarizedDataType<P>::type, T[N]> && is<typename ScalarizedDataType<const P>::type, const T[N]> && is<typename ScalarizedDataType<P*>::type, T*> && is<typename ScalarizedDataType<const P***>::type, const T***> && is<typename ScalarizedDataType<P[3]>::type, T[3 * N]>;
    bool t2 = is<typename ScalarizedDataType<P* [4][3]>::type, T* [4][3 * N]> && is<typename ScalarizedDataType<P** [2]>::type, T** [2 * N]> && is<typename ScalarizedDataType<const P[2][5]>::type, const T[2][5 * N]> && is<typename ScalarizedDataType<T**>::type, T**> && is<typename ScalarizedDataType<const T* [7]>::type, const T* [7]>;
    MC_CHECK(ctx, t1 && t2, "scalarized-type", "a scalarized data type for packs of " << N << " is wrong");
    for (int n = 0; n < 5; ++n) { std::vector<P> a(n + 2); for (auto& p : a) p = P(T(-5)); int c = 0, e = 0; genRandArray(a.data() + 1, n, e, [&](int& g) { MC_CHECK(ctx, &g == &e, "gen-engine", "genRandArray does not use the engine"); return T(++c); });
      MC_CHECK(ctx, c == n * N, "gen-count", "genRandArray drew " << c << " numbers for " << n << " packs of " << N); for (int l = 0; l < (n + 2) * N; ++l) { T x = a[l / N][l % N]; MC_CHECK(ctx, x == (l < N || l >= (n + 1) * N ? T(-5) : T(l - N + 1)), "gen-value", "genRandArray: lane " << l % N << " of pack " << l / N - 1 << " is " << mc::show(x)); } }
  });
}
namespace {
template <class V> using LRV = V;
// memory of exactly n scalars, so that the sanitizer sees every access outside
struct Mem { std::unique_ptr<T[]> p; long n; explicit Mem(long n_) : p(new T[n_ ? n_ : 1]), n(n_) { for (long i = 0; i < n; ++i) p[i] = T(i + 1); } };
long prod(const std::vector<long>& e) { long n = 1; for (long x : e) n *= x; return n; }
template <int R, int N, bool C> void scalarize_right(Ctx& ctx, int emax) {
  using P = std::conditional_t<C, const Pack<T, N>, Pack<T, N>>; std::vector<long> e(R); for (auto& x : e) x = ctx.choose(emax + 1, "extent"); Mem mem(prod(e) * N);
  using V = Kokkos::View<typename PtrN<P, R>::type, Kokkos::LayoutRight, Kokkos::HostSpace>; V v = make_view<V>(reinterpret_cast<P*>(mem.p.get()), e);
  auto s = scalarize(v); std::vector<long> se = e; if (R) se.back() *= N; VM m{mem.p.get(), sizeof(T), se, right_strides(se)};
  std::string what = "scalarize of a rank-" + std::to_string(R) + " view " + VM{0, 0, e, e}.show() + " of packs of " + std::to_string(N);
  if constexpr (R == 0) { MC_CHECK(ctx, decltype(s)::rank == 1 && s.extent(0) == N && s.data() == mem.p.get(), "scalarize:rank0", what); for (int i = 0; i < N; ++i) MC_CHECK(ctx, &s(i) == mem.p.get() + i, "scalarize:rank0", what); }
  else verify(ctx, s, m, "scalarize", what);
  MC_CHECK(ctx, (is<typename decltype(s)::value_type, std::conditional_t<C, const T, T>>) && decltype(s)::memory_traits::is_unmanaged, "scalarize:type", what << ": wrong value type, or the view is managed");
  auto s2 = scalarize(s); if constexpr (R > 0) verify(ctx, s2, m, "scalarize-scalar", "scalarize of scalars: " + what); MC_CHECK(ctx, decltype(s2)::memory_traits::is_unmanaged, "scalarize:type", what << " twice is managed");
  V nv; auto sn = scalarize(nv); MC_CHECK(ctx, sn.data() == nullptr, "scalarize:null", "scalarize of an unallocated view");
  ctx.state(mc::hash_str(what)); ctx.outcome(mc::hash_str(what));
}
template <int N> void scalarize_rank(Ctx& ctx) {
  int r = ctx.choose(8, "rank"); bool c = ctx.flag("const"); int big = ctx.tier() ? 1 : 0;
#define R_CASE(R, E) case R: if (c) scalarize_right<R, N, true>(ctx, E); else scalarize_right<R, N, false>(ctx, E); break;
  switch (r) { R_CASE(0, 1) R_CASE(1, 6) R_CASE(2, 4) R_CASE(3, 3) R_CASE(4, 2 + big) R_CASE(5, 2) R_CASE(6, 2) R_CASE(7, 2) }
}
}
MC_SCENARIO(scalarize_views, "scalarize of row-major views of packs of 1-16, const and not, ranks 0-7, all extents from 0 to 6, 4, 3, 2 (by rank); twice; unallocated", 3) { with_size(ctx, 4, [&](auto n_) { scalarize_rank<n_>(ctx); }); }
MC_SCENARIO(scalarize_static, "views with compile-time trailing extents, column-major rank 1, KokkosTypes views") {
  with_size(ctx, 4, [&](auto n_) {
    constexpr int N = n_; using P = Pack<T, N>; int e = ctx.choose(4, "extent"); using H = Kokkos::HostSpace; using LRt = Kokkos::LayoutRight;
    { Mem m(e * 2 * 3 * N); Kokkos::View<P* [2][3], LRt, H> v(reinterpret_cast<P*>(m.p.get()), e); verify(ctx, scalarize(v), VM{m.p.get(), sizeof(T), {e, 2, 3 * N}, right_strides({e, 2, 3 * N})}, "scalarize-static", "scalarize of a view of packs [2][3]"); }
    { Mem m(e * 3 * N); Kokkos::View<const P* [3], LRt, H> v(reinterpret_cast<P*>(m.p.get()), e); verify(ctx, scalarize(v), VM{m.p.get(), sizeof(T), {e, 3 * N}, right_strides({e, 3 * N})}, "scalarize-static", "scalarize of a view of packs [3]"); }
    { Mem m(5 * N); Kokkos::View<P[5], LRt, H> v(reinterpret_cast<P*>(m.p.get())); verify(ctx, scalarize(v), VM{m.p.get(), sizeof(T), {5 * N}, {1}}, "scalarize-static", "scalarize of a static view"); }
    { Mem m(e * N); Kokkos::View<P*, Kokkos::LayoutLeft, H> v(reinterpret_cast<P*>(m.p.get()), e); verify(ctx, scalarize(v), VM{m.p.get(), sizeof(T), {e * N}, {1}}, "scalarize-left", "scalarize of a column-major rank-1 view"); }
    { typename KokkosTypes<DefaultDevice>::template view_3d<P> v("", 2, e, 3); verify(ctx, scalarize(v), VM{v.data(), sizeof(T), {2, e, 3 * N}, right_strides({2, e, 3 * N})}, "scalarize-managed", "scalarize of a managed view"); }
    ctx.state(N * 8 + e); ctx.outcome(N * 8 + e);
  });
}
// a rank-2 row-major view whose rows are longer than its extent: columns b..e-1 of rows r.. of a bigger view
MC_SCENARIO(strided_rows, "scalarize and repack of a rectangle of a row-major rank-2 view: every rectangle of a 3x4 array of packs, every pair of pack sizes 1-8", 2) {
  with_size(ctx, 3, [&](auto n_) { with_size(ctx, 3, [&](auto m_) {
    constexpr int N = n_, M = m_; using P = Pack<T, N>; using V = Kokkos::View<P**, Kokkos::LayoutRight, Kokkos::HostSpace>; Mem mem(3 * 4 * N); V big(reinterpret_cast<P*>(mem.p.get()), 3, 4);
    int r0 = ctx.choose(3, "first row"), r1 = r0 + ctx.choose(4 - r0, "rows"), c0 = ctx.choose(4, "first column"), c1 = c0 + ctx.choose(5 - c0, "columns");
    V v = Kokkos::subview(big, std::make_pair(r0, r1), std::make_pair(c0, c1)); const T* b = mem.p.get() + (r0 * 4 + c0) * N; long R = r1 - r0, C = c1 - c0;
    std::string what = " of rows " + std::to_string(r0) + "-" + std::to_string(r1) + ", columns " + std::to_string(c0) + "-" + std::to_string(c1) + " of a 3x4 view of packs of " + std::to_string(N);
    if (R * C > 0) { verify(ctx, scalarize(v), VM{b, sizeof(T), {R, C * N}, {4 * N, 1}}, "strided-scalarize", "scalarize" + what);
      bool div = C * N % M == 0, row = 4 * N % M == 0 || R <= 1; using Q = Pack<T, M>;
      if (div && row) verify(ctx, repack<M>(v), VM{b, sizeof(T), {R, C * N / M}, {4 * N, M}}, "strided-repack", "repack to " + std::to_string(M) + what);
      else MC_CHECK(ctx, mc::rejects([&] { repack<M>(v); }), "repack-accepted", "repack to " << M << what << " is not rejected"); }
    ctx.state(mc::hash_str(what) + M); ctx.outcome(mc::hash_str(what) + M);
  }); });
}
namespace {
// repack from packs of M (0: plain scalars) to packs of N
template <int R, int M, int N, bool C> void repack_right(Ctx& ctx, int emax) {
  using S0 = std::conditional_t<M == 0, T, Pack<T, M ? M : 1>>; using S = std::conditional_t<C, const S0, S0>; std::vector<long> e(R); for (int k = 0; k < R; ++k) e[k] = ctx.choose((k == R - 1 ? (M ? emax + 1 : 2 * N + 2) : emax + 1), "extent");
  Mem mem(prod(e) * (M ? M : 1)); using V = Kokkos::View<typename PtrN<S, R>::type, Kokkos::LayoutRight, Kokkos::HostSpace>; V v = make_view<V>(reinterpret_cast<S*>(mem.p.get()), e);
  std::vector<long> se = e; se.back() *= (M ? M : 1); std::string what = "repack to packs of " + std::to_string(N) + " of a rank-" + std::to_string(R) + " view " + VM{0, 0, e, e}.show() + (M ? " of packs of " + std::to_string(M) : std::string(" of scalars"));
  if (se.back() % N) { MC_CHECK(ctx, mc::rejects([&] { repack<N>(v); }), "repack-accepted", what << " is not rejected"); }
  else {
    auto d = repack<N>(v); std::vector<long> de = se; de.back() /= N; auto st = right_strides(se); st.back() = N; verify(ctx, d, VM{mem.p.get(), sizeof(T), de, st}, "repack", what);
    MC_CHECK(ctx, (is<typename decltype(d)::value_type, std::conditional_t<C, const Pack<T, N>, Pack<T, N>>>) && decltype(d)::memory_traits::is_unmanaged, "repack:type", what << ": wrong value type, or the view is managed");
    for_all(de, [&](const std::vector<long>& i) { const auto& p = elem(d, i); long o = 0; for (int k = 0; k < R; ++k) o += i[k] * (k == R - 1 ? N : st[k]); for (int l = 0; l < N; ++l) MC_CHECK(ctx, p[l] == T(o + l + 1), "repack:value", what << ": lane " << l << " at " << mc::show(i) << " is " << mc::show(p[l])); });
  }
  ctx.state(mc::hash_str(what)); ctx.outcome(mc::hash_str(what));
}
template <int M, int N> void repack_rank(Ctx& ctx) {
  bool c = ctx.flag("const");
  switch (ctx.choose(4, "rank")) { case 0: if (c) repack_right<1, M, N, true>(ctx, 6); else repack_right<1, M, N, false>(ctx, 6); break; case 1: if (c) repack_right<2, M, N, true>(ctx, 3); else repack_right<2, M, N, false>(ctx, 3); break;
    case 2: repack_right<3, M, N, false>(ctx, 2); break; default: repack_right<4, M, N, false>(ctx, 2); }
}
}
MC_SCENARIO(repack_packs, "repack between all pairs of pack sizes 1-16, ranks 1-4, const and not, all extents to 6, 3, 2", 3) { with_size(ctx, 4, [&](auto m_) { with_size(ctx, 4, [&](auto n_) { repack_rank<m_, n_>(ctx); }); }); }
MC_SCENARIO(repack_scalars, "repack of views of scalars to packs of 1-16, ranks 1-4, const and not, every last extent to twice the pack size + 1", 2) { with_size(ctx, 4, [&](auto n_) { repack_rank<0, n_>(ctx); }); }
MC_SCENARIO(repack_layouts, "repack of column-major (rank 1: right; rank 2: right or rejected) and strided views of scalars: all extents to 6 and strides", 1) {
  with_size(ctx, 3, [&](auto n_) {
    constexpr int N = n_; int kind = ctx.choose(3, "kind"); using H = Kokkos::HostSpace; using Q = Pack<T, N>;
    long e0 = ctx.choose(7, "extent 0"), e1 = 1 + ctx.choose(8, "extent 1"); Mem mem(e0 * e1 * 4 + 64); std::string what = "repack to packs of " + std::to_string(N);
    auto right = [&](const auto& d, const VM& m) { if (m.rank() != int(std::decay_t<decltype(d)>::rank)) return false; for (int k = 0; k < m.rank(); ++k) if (long(d.extent(k)) != m.ext[k]) return false; bool ok = true; for_all(m.ext, [&](const std::vector<long>& i) { ok = ok && &elem(d, i) == m.at<Q>(i); }); return ok; };
    if (kind == 0) { Kokkos::View<T*, Kokkos::LayoutLeft, H> v(mem.p.get(), e0); if (e0 % N == 0) MC_CHECK(ctx, right(repack<N>(v), VM{mem.p.get(), sizeof(T), {e0 / N}, {N}}), "repack-left1", what << " of a column-major rank-1 view of " << e0); else MC_CHECK(ctx, mc::rejects([&] { repack<N>(v); }), "repack-accepted", what << " of " << e0 << " column-major scalars is not rejected"); }
    else if (kind == 1) { // the scalars of a row are adjacent only if there is one row; otherwise the view must be rejected (packs of 1 are always right)
      Kokkos::View<T**, Kokkos::LayoutLeft, H> v(mem.p.get(), e0, e1); bool ok = false, rej = mc::rejects([&] { auto d = repack<N>(v); ok = right(d, VM{mem.p.get(), sizeof(T), {e0, e1 / N}, {1, e0 * N}}); });
      if (e1 % N || (e0 > 1 && N > 1 && e1 > 1)) MC_CHECK(ctx, rej, "repack-left2", what << " of a column-major " << e0 << "x" << e1 << " view is not rejected"); else if (e0 > 0) MC_CHECK(ctx, rej ? N > 1 : ok, "repack-left2", what << " of a column-major " << e0 << "x" << e1 << " view addresses wrong scalars"); }
    else { long s0 = e1 + ctx.choose(4, "gap"); Kokkos::LayoutStride l; l.dimension[0] = e0; l.dimension[1] = e1; l.stride[0] = s0; l.stride[1] = 1 + ctx.choose(2, "last stride"); if (l.stride[1] == 2) l.stride[0] = s0 = 2 * e1 + 1;
      Kokkos::View<T**, Kokkos::LayoutStride, H> v(mem.p.get(), l); long s1 = l.stride[1]; bool ok = false, rej = mc::rejects([&] { auto d = repack<N>(v); ok = right(d, VM{mem.p.get(), sizeof(T), {e0, e1 / N}, {s0, s1 * N}}); });
      bool can = e1 % N == 0 && (N == 1 || ((e0 <= 1 || s0 % N == 0) && s1 == 1));
      if (e0 == 0) { } else if (!can) MC_CHECK(ctx, rej, "repack-stride", what << " of a strided " << e0 << "x" << e1 << " view, strides (" << s0 << "," << s1 << "), is not rejected"); else MC_CHECK(ctx, rej || ok, "repack-stride", what << " of a strided " << e0 << "x" << e1 << " view, strides (" << s0 << "," << s1 << "), addresses wrong scalars"); }
    ctx.state(mc::mix(N * 8 + kind, e0 * 16 + e1)); ctx.outcome(mc::mix(N * 8 + kind, e0 * 16 + e1));
  });
}
namespace {
template <class A, class I, size_t... K> auto gather(const A& a, const std::array<I, 5>& x, std::index_sequence<K...>) { return ekat::index(a, x[K]...); }
template <int R, int N, class L> void index_rank(Ctx& ctx) {
  static const long E[5] = {4, 3, 2, 3, 2}; std::vector<long> e(E, E + R), idx; long n = prod(e); Mem mem(n); using V = Kokkos::View<typename PtrN<const T, R>::type, L, Kokkos::HostSpace>; V v = make_view<V>(mem.p.get(), e); auto st = is<L, Kokkos::LayoutLeft> ? left_strides(e) : right_strides(e);
  using I = Pack<int, N>; std::array<I, 5> x; std::array<long, N> off; off.fill(0);
  // rank 1 with up to 2 lanes: all indices; otherwise lane 0 takes every multi-index, the others follow with each step
  int c0 = ctx.choose(int(n), "index of lane 0"), step = N > 1 ? ctx.choose(int(std::min(n, 24l)), "step") : 0;
  for (int l = 0; l < N; ++l) { long lin = (c0 + 1l * l * step) % n; for (int k = R - 1; k >= 0; --k) { x[k][l] = int(lin % e[k]); off[l] += (lin % e[k]) * st[k]; lin /= e[k]; } }
  auto p = gather(v, x, std::make_index_sequence<R>()); MC_CHECK(ctx, (is<decltype(p), Pack<T, N>>), "index:type", "index() of rank " << R << " has a wrong type");
  for (int l = 0; l < N; ++l) MC_CHECK(ctx, p[l] == T(off[l] + 1), "index", "index() of a rank-" << R << " view with packs of " << N << ": lane " << l << " is " << mc::show(p[l]) << ", expected entry " << off[l] + 1);
  ctx.state(mc::mix(c0, mc::mix(step, R * 64 + N))); ctx.outcome(mc::mix(off[0], off[N - 1]));
}
template <int N> void index_any(Ctx& ctx) {
  bool left = ctx.flag("column-major");
  switch (ctx.choose(5, "rank")) {
#define I_CASE(R) case R - 1: if (left) index_rank<R, N, Kokkos::LayoutLeft>(ctx); else index_rank<R, N, Kokkos::LayoutRight>(ctx); break;
    I_CASE(1) I_CASE(2) I_CASE(3) I_CASE(4) I_CASE(5) }
}
}
MC_SCENARIO(gathers, "index() with packs of 1-16 indices into views of rank 1-5, row- and column-major: every multi-index in lane 0, other lanes at every distance to 23", 2) { with_size(ctx, 4, [&](auto n_) { index_any<n_>(ctx); }); }
namespace {
template <int S, int N> void shift(Ctx& ctx, int n) {
  Mem mem(n); Kokkos::View<const T*, Kokkos::LayoutRight, Kokkos::HostSpace> v(mem.p.get(), n); Pack<int, N> i; int c = ctx.choose(n, "index of lane 0"), step = N > 1 ? ctx.choose(n, "step") : 0;
  for (int l = 0; l < N; ++l) i[l] = (c + l * step) % n;
  Pack<T, N> a(T(-9)), b(T(-9)); index_and_shift<S>(v, i, a, b); std::string what = "index_and_shift<" + std::to_string(S) + "> with indices " + showp(i) + " into " + std::to_string(n) + " entries";
  for (int l = 0; l < N; ++l) {
    MC_CHECK(ctx, a[l] == T(i[l] + 1), "shift:index", what << ": lane " << l << " of the first result is " << mc::show(a[l]) << ", expected " << i[l] + 1);
    int k = i[l] + S; T e = k >= 0 && k < n ? T(k + 1) : invalid<T>(); MC_CHECK(ctx, same(b[l], e), "shift:shifted", what << ": lane " << l << " of the shifted result is " << mc::show(b[l]) << ", expected " << mc::show(e));
  }
  ctx.state(mc::hash_str(what)); ctx.outcome(mc::hash_str(what));
}
template <int N> void shifts(Ctx& ctx) { int n = 1 + ctx.choose(7, "length"); switch (ctx.choose(5, "shift")) { case 0: shift<1, N>(ctx, n); break; case 1: shift<-1, N>(ctx, n); break; case 2: shift<0, N>(ctx, n); break; case 3: shift<2, N>(ctx, n); break; default: shift<-3, N>(ctx, n); } }
}
MC_SCENARIO(index_and_shifts, "index_and_shift by 1,-1,0,2,-3 with packs of 1-16 indices into 1-7 entries: every index in lane 0, every distance between lanes; indices that leave the range when shifted give invalid()", 2) { with_size(ctx, 4, [&](auto n_) { shifts<n_>(ctx); }); }
namespace {
template <bool F, int N> void adj(Ctx& ctx) {
  int np = 1 + ctx.choose(4, "packs"), end = 1 + ctx.choose(np, "end"), perm = ctx.choose(8, "values"); auto V = ordinary<T>(); std::vector<T> x(np * N); for (int i = 0; i < np * N; ++i) x[i] = V[(i * 3 + perm + i / 8) % 8] + T(i / 8);
  auto diff = [&](int i, int lim) { return F ? (i + 1 < lim ? x[i + 1] : T(0)) - x[i] : x[i] - (i > 0 ? x[i - 1] : T(0)); };
  using P = Pack<T, N>; Kokkos::View<const P*, Kokkos::LayoutRight, Kokkos::HostSpace> v(reinterpret_cast<P*>(x.data()), np); Kokkos::View<const T*, Kokkos::LayoutRight, Kokkos::HostSpace> s(x.data(), np * N);
  const auto x0 = x;
  for (int k = 0; k < end; ++k) {
    auto p = adj_diff<F>(v, k, end); auto q = adj_diff<F>([&](int i) { return v(i); }, k, end); auto r = adj_diff<F>(v, k);
    for (int l = 0; l < N; ++l) {
      T e = diff(k * N + l, end * N), ev = diff(k * N + l, np * N); MC_CHECK(ctx, p[l] == e && q[l] == e, "adj-pack", (F ? "forward" : "backward") << " adj_diff of packs of " << N << ", pack " << k << " of " << end << ": lane " << l << " is " << mc::show(p[l]) << " / " << mc::show(q[l]) << ", expected " << mc::show(e));
      MC_CHECK(ctx, r[l] == ev, "adj-pack-view", (F ? "forward" : "backward") << " adj_diff of a view of " << np << " packs of " << N << ", pack " << k << ": lane " << l << " is " << mc::show(r[l]) << ", expected " << mc::show(ev));
      int i = k * N + l; T a = adj_diff<F>(s, i, end * N), b = adj_diff<F>([&](int j) { return s(j); }, i, end * N), c = adj_diff<F>(s, i);
      MC_CHECK(ctx, a == e && b == e && c == ev, "adj-scalar", (F ? "forward" : "backward") << " adj_diff of scalars at " << i << " of " << end * N << " is " << mc::show(a) << " / " << mc::show(b) << " / " << mc::show(c) << ", expected " << mc::show(e) << " / " << mc::show(ev));
    }
    ctx.transition();
  }
  MC_CHECK(ctx, x == x0, "inputs", "adj_diff changed its view"); ctx.state(mc::mix(np * 8 + end, N * 16 + perm * 2 + F)); ctx.outcome(mc::mix(np * 8 + end, N * 16 + perm * 2 + F));
}
}
MC_SCENARIO(differences, "adj_diff forward and backward, of 1-4 packs of 1-16 and of scalars, views and functions, every end, every index, 8 rotations of the values", 2) { bool f = ctx.flag("forward"); with_size(ctx, 4, [&](auto n_) { if (f) adj<true, n_>(ctx); else adj<false, n_>(ctx); }); }
