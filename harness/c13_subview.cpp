// Subview and reshape helpers against a strided-address model, for every rank, extents, index and chain of slices.
#include "view_model.hpp"
#include "ekat_subview_utils.hpp"
#include "ekat_view_utils.hpp"
#include "ekat_pack.hpp"
using mc::Ctx;
namespace {
template <class T, int R> using LR = ekat::ViewLR<typename PtrN<T, R>::type, Kokkos::HostSpace>;
template <class V, class L, size_t... I> auto lead(const V& v, const L& i, std::index_sequence<I...>) { return ekat::subview(v, int(i[I])...); }
// a position below n: every one of up to 8, and those around powers of two
int position(Ctx& ctx, long n, const char* w, long from = 0) {
  if (vm_corners) { std::vector<int> c; for (long i : {from, from + 1, n / 2 + 1, n - 1}) if (i >= from && i < n && std::find(c.begin(), c.end(), i) == c.end()) c.push_back(int(i)); return ctx.pick(c, w); }
  if (n - from <= 8) return int(from) + ctx.choose(int(n - from), w);
  std::vector<int> c; for (long i : {from, from + 1, 7l, 8l, 9l, 15l, 16l, 17l, 31l, 32l, 33l, 63l, 64l, 65l, 127l, 128l, 129l, 255l, 256l, 257l, 1023l, 1024l, 1025l, 32767l, 32768l, 65535l, 65536l, n / 2, n - 2, n - 1}) if (i >= from && i < n && std::find(c.begin(), c.end(), i) == c.end()) c.push_back(int(i));
  return ctx.pick(c, w);
}
std::string idx(const std::vector<long>& i) { return mc::show(i); }

template <class V> void explore(Ctx& ctx, const V& v, const VM& m, int depth, std::string path);
template <class V, int K> void leading(Ctx& ctx, const V& v, const VM& m, int depth, const std::string& path) {
  std::vector<long> i(K); for (int k = 0; k < K; ++k) i[k] = position(ctx, m.ext[k], "index");
  auto s = lead(v, i, std::make_index_sequence<K>());
  VM n{m.at<char>({}), m.elem, std::vector<long>(m.ext.begin() + K, m.ext.end()), std::vector<long>(m.str.begin() + K, m.str.end())};
  long o = 0; for (int k = 0; k < K; ++k) o += i[k] * m.str[k]; n.base = static_cast<const char*>(m.base) + o * long(m.elem);
  std::string p = path; if (ctx.tracing()) p += " subview" + idx(i);
  verify(ctx, s, n, "subview", "leading slice of a rank-" + std::to_string(int(V::rank)) + " view" + p);
  explore(ctx, s, n, depth - 1, p);
}
template <class V> void explore(Ctx& ctx, const V& v, const VM& m, int depth, std::string path) {
  constexpr int R = int(V::rank); uint64_t h = R * 100 + depth;
  for (auto x : m.ext) h = mc::mix(h, x); for (auto x : m.str) h = mc::mix(h, x); ctx.state(h); ctx.outcome(mc::mix(h, m.ext.empty() ? 0 : m.ext[0]));
  if constexpr (R > 0 && std::is_same<typename V::array_layout, Kokkos::LayoutRight>::value) {
    if (depth <= 0) return;
    constexpr int NK = R == 1 ? 1 : R - 1, NS = R >= 2 ? 1 : 0;
    int op = ctx.choose(NK + NS + 1, "operation");
    if (op < NK) {
      switch (op) {
        case 0: leading<V, 1>(ctx, v, m, depth, path); break;
        case 1: if constexpr (R > 2) leading<V, 2>(ctx, v, m, depth, path); break;
        case 2: if constexpr (R > 3) leading<V, 3>(ctx, v, m, depth, path); break;
        case 3: if constexpr (R > 4) leading<V, 4>(ctx, v, m, depth, path); break;
        case 4: if constexpr (R > 5) leading<V, 5>(ctx, v, m, depth, path); break;
      }
    } else if (op < NK + NS) {
      if constexpr (R >= 2) {
        int i1 = position(ctx, m.ext[1], "index1"); auto s = ekat::subview_1(v, i1);
        VM n = m; n.base = static_cast<const char*>(m.base) + i1 * m.str[1] * long(m.elem); n.ext.erase(n.ext.begin() + 1); n.str.erase(n.str.begin() + 1);
        if (ctx.tracing()) path += " subview_1(" + std::to_string(i1) + ")";
        verify(ctx, s, n, "subview_1", "subview_1 of a rank-" + std::to_string(R) + " view" + path);
        explore(ctx, s, n, depth - 1, path);
      }
    } else {
      int d = ctx.choose(R, "dim"); int b = position(ctx, m.ext[d], "begin"), e = 1 + position(ctx, m.ext[d], "end", b);
      bool deflt = R == 1 && ctx.flag("default dim");
      VM n = m; n.base = static_cast<const char*>(m.base) + b * m.str[d] * long(m.elem); n.ext[d] = e - b;
      if (ctx.tracing()) path += " subview(" + std::to_string(b) + ":" + std::to_string(e) + " at " + std::to_string(d) + ")";
      auto go = [&](const auto& s) { verify(ctx, s, n, "multislice", "slice " + std::to_string(b) + ":" + std::to_string(e) + " at dimension " + std::to_string(d) + " of a rank-" + std::to_string(R) + " view" + path); };
      if constexpr (R == 1) { if (deflt) { go(ekat::subview(v, Kokkos::pair<int, int>(b, e))); return; } }
      go(ekat::subview(v, Kokkos::pair<int, int>(b, e), d));
    }
  }
}
// the same view with a larger first stride, as padded allocations and slices of larger views have
template <class V> V padded(const V& v, long pad) {
  if constexpr (V::rank < 2) return v;
  else { auto m = v.impl_map(); m.m_impl_offset.m_stride = size_t(v.stride(0) + pad); return V(v.impl_track(), m); }
}
template <class T, int R> void chains(Ctx& ctx, int depth, int emax) {
  std::vector<long> e(R); long n = 1; for (auto& x : e) { x = 1 + ctx.choose(emax, "extent"); n *= x; }
  long pad = R >= 2 ? 3 * ctx.choose(2, "padding of the first stride") : 0;
  std::vector<typename std::remove_const<T>::type> mem(n + pad * e[0]);
  VM m{mem.data(), sizeof(T), e, right_strides(e)}; m.str[0] += pad;
  explore(ctx, padded(make_view<LR<T, R>>(mem.data(), e), pad), m, depth, pad ? " (padded)" : "");
}
// one long dimension
template <class T, int R> void long_dims(Ctx& ctx, int depth) {
  static const std::vector<long> B{9, 10, 16, 17, 33, 64, 65, 129, 257, 1025, 70000}; std::vector<long> e(R); int w = ctx.choose(R, "long dimension"); long n = 1; for (int k = 0; k < R; ++k) { e[k] = k == w ? ctx.pick(B, "extent") : 2 + k % 2 - (R > 4 && k > 2); n *= e[k]; } if (e[w] > 300 && R > (e[w] > 2000 ? 1 : 2)) depth = 1; if (e[w] > 2000 && R > 3) return;
  long pad = R >= 2 ? 3 * ctx.choose(2, "padding of the first stride") : 0;
  std::vector<typename std::remove_const<T>::type> mem(n + pad * e[0]);
  VM m{mem.data(), sizeof(T), e, right_strides(e)}; m.str[0] += pad;
  explore(ctx, padded(make_view<LR<T, R>>(mem.data(), e), pad), m, depth, pad ? " (padded)" : "");
}
// more than 2^31 elements: only addresses are computed, nothing is read. (Kokkos 3.7 keeps every extent but the first in 32 bits, unsigned, so
// that the product of those stays below 2^32 here.)
template <class T, int R> void huge(Ctx& ctx) {
  static const std::vector<std::vector<long>> E[6] = {{{2147483647}}, {{70000, 70001}, {2000000000, 3}}, {{3, 70001, 60001}, {1000000007, 3, 5}}, {{3, 1001, 2001, 2003}, {2, 70001, 2, 30000}, {70000, 2, 70001, 2}}, {{3, 1001, 201, 203, 101}, {5, 2, 70001, 3, 7001}}, {{3, 101, 103, 107, 51, 61}, {3, 70001, 2, 3, 5, 2003}}};
  vm_corners = true; struct Off { ~Off() { vm_corners = false; } } off; std::vector<long> e = ctx.pick(E[R - 1], "extents"); long pad = R >= 2 && R < 3 ? 0 : 3 * ctx.choose(2, "padding"); T* p = reinterpret_cast<T*>(uintptr_t(1) << 40);
  VM m{p, sizeof(T), e, right_strides(e)}; if (R >= 2) m.str[0] += pad; explore(ctx, padded(make_view<LR<T, R>>(p, e), R >= 2 ? pad : 0), m, 2, " of more than 2^31 elements");
}
// requests that must be refused
template <class T, int R> void invalid(Ctx& ctx, int emax) {
  std::vector<long> e(R); long n = 1; for (auto& x : e) { x = 1 + ctx.choose(emax, "extent"); n *= x; }
  std::vector<T> mem(n + 64); auto v = make_view<LR<T, R>>(mem.data() + 32, e);
  int kind = ctx.choose(4, "kind"); bool rej = true; std::string what; std::string key;
  if (kind == 0) { // one leading index out of range
    constexpr int NK = R == 1 ? 1 : R - 1; int K = 1 + ctx.choose(NK, "slices"), bad = ctx.choose(K, "which"); bool neg = ctx.flag("negative");
    std::array<int, 5> i{}; i[bad] = neg ? -1 : int(e[bad]); key = "subview";
    what = "subview with index " + std::to_string(i[bad]) + " in dimension " + std::to_string(bad) + " of extent " + std::to_string(e[bad]);
    rej = mc::rejects([&] {
      switch (K) {
        case 1: ekat::subview(v, i[0]); break;
        case 2: if constexpr (R > 2) ekat::subview(v, i[0], i[1]); break;
        case 3: if constexpr (R > 3) ekat::subview(v, i[0], i[1], i[2]); break;
        case 4: if constexpr (R > 4) ekat::subview(v, i[0], i[1], i[2], i[3]); break;
        case 5: if constexpr (R > 5) ekat::subview(v, i[0], i[1], i[2], i[3], i[4]); break;
      } });
  } else if (kind == 1) {
    if constexpr (R >= 2) { int i1 = ctx.flag("negative") ? -1 : int(e[1]); key = "subview_1"; what = "subview_1 with index " + std::to_string(i1) + " of extent " + std::to_string(e[1]); rej = mc::rejects([&] { ekat::subview_1(v, i1); }); }
  } else if (kind == 2) {
    int d = ctx.choose(R, "dim"); static const int off[5][2] = {{-1, 1}, {0, -1}, {0, 1}, {0, 0}, {1, 1}}; // begin -1; reversed; end beyond; empty; ...
    int k = ctx.choose(4, "range"); int b = 0, en = 1; (void) off;
    if (k == 0) { b = -1; en = 1; } else if (k == 1) { b = int(e[d]) - 1; en = int(e[d]) + 1; } else if (k == 2) { b = 1; en = 0; } else { b = int(e[d]); en = int(e[d]) + 1; }
    key = "multislice"; what = "slice " + std::to_string(b) + ":" + std::to_string(en) + " at dimension " + std::to_string(d) + " of extent " + std::to_string(e[d]) + ", rank " + std::to_string(R);
    rej = mc::rejects([&] { ekat::subview(v, Kokkos::pair<int, int>(b, en), d); });
  } else {
    int d = ctx.flag("negative") ? -1 : R; key = "dimension"; what = "slice at dimension " + std::to_string(d) + " of a rank-" + std::to_string(R) + " view";
    rej = mc::rejects([&] { ekat::subview(v, Kokkos::pair<int, int>(0, 1), d); });
  }
  MC_CHECK(ctx, rej, "accepted:" + key, what << " was accepted");
  ctx.outcome(mc::hash_str(what)); ctx.state(mc::hash_str(what));
}
template <class Out, class In, class... D> void rs(Ctx& ctx, const In& in, const std::vector<long>& oe, D... d) {
  long n = 1; for (long x : oe) n *= x; bool fits = n == long(in.size());
  std::string what = "reshape of " + std::to_string(in.size()) + " elements to (" ; for (auto x : oe) what += std::to_string(x) + " "; what += ")";
  if (!fits) { bool rej = mc::rejects([&] { ekat::reshape<Out>(in, d...); }); MC_CHECK(ctx, rej, "reshape-accepted", what << " was accepted"); return; }
  auto out = ekat::reshape<Out>(in, d...);
  constexpr bool left = std::is_same<typename In::array_layout, Kokkos::LayoutLeft>::value;
  VM m{in.data(), sizeof(typename In::value_type), oe, left ? left_strides(oe) : right_strides(oe)};
  verify(ctx, out, m, "reshape", what); ctx.outcome(mc::hash_str(what));
}
template <class L> void reshapes(Ctx& ctx) {
  using T = double; int r = 1 + ctx.choose(3, "source rank"); std::vector<long> e(r); long n = 1; for (auto& x : e) { x = 1 + ctx.choose(4, "extent"); n *= x; }
  std::vector<T> mem(n + 64);
  auto go = [&](const auto& v) {
    int o = ctx.choose(8, "target"); auto D = [&] { return 1 + ctx.choose(8, "target extent"); }; // up to 8: fitting and not
    switch (o) {
      case 0: { int a = 1 + ctx.choose(64, "extent"); rs<T*>(ctx, v, {a}, a); break; }
      case 1: { int a = D(), b = D(); rs<T**>(ctx, v, {a, b}, a, b); break; }
      case 2: rs<T[4]>(ctx, v, {4}); break;
      case 3: rs<T[2][3]>(ctx, v, {2, 3}); break;
      case 4: rs<T[2][2][2]>(ctx, v, {2, 2, 2}); break;
      case 5: { int a = D(); rs<T*[4]>(ctx, v, {a, 4}, a); break; }
      case 6: { int a = D(); rs<T*[2][3]>(ctx, v, {a, 2, 3}, a); break; }
      case 7: { int a = D(), b = D(); rs<T**[2]>(ctx, v, {a, b, 2}, a, b); break; }
    } };
  if (r == 1) go(Kokkos::View<T*, L, Kokkos::HostSpace>(mem.data(), e[0])); else if (r == 2) go(Kokkos::View<T**, L, Kokkos::HostSpace>(mem.data(), e[0], e[1])); else go(Kokkos::View<T***, L, Kokkos::HostSpace>(mem.data(), e[0], e[1], e[2]));
  ctx.state(mc::mix(n, r));
}
using P = ekat::Pack<double, 4>;
}
#define CH(T, name, R, D, E) MC_SCENARIO(chains_##name##_##R, "rank " #R ", " #T ", extents 1-" #E ", first stride contiguous or padded, every chain of up to " #D " leading slices / subview_1 / range slices", 2) { chains<T, R>(ctx, D, E); }
CH(double, double, 1, 2, 4) CH(double, double, 2, 3, 4) CH(double, double, 3, 3, 3) CH(double, double, 4, 2, 3) CH(double, double, 5, 2, 2) CH(double, double, 6, 2, 2)
CH(P, pack, 2, 2, 3) CH(P, pack, 3, 2, 3) CH(const float, cfloat, 3, 2, 3) CH(int, int, 4, 2, 2)
#define LD(R, D) MC_SCENARIO(long_dims_##R, "rank " #R ", one dimension of 9-70000 and the others 1-3, chains of up to " #D " as above with positions around powers of two and at both ends", 3) { long_dims<double, R>(ctx, D); }
LD(1, 1) LD(2, 2) LD(3, 2) LD(4, 1) LD(5, 1) LD(6, 1)
MC_SCENARIO(huge_views, "ranks 1-6 of 2^31-1 to 10^10 elements of 1 and 8 bytes, chains of up to 2 as above with positions at both ends and in the middle; the addresses of elements at the ends and in the middle", 3) {
  bool d = ctx.flag("double"); auto go = [&](auto t) { using T = decltype(t); switch (ctx.choose(6, "rank")) { case 0: huge<T, 1>(ctx); break; case 1: huge<T, 2>(ctx); break; case 2: huge<T, 3>(ctx); break; case 3: huge<T, 4>(ctx); break; case 4: huge<T, 5>(ctx); break; case 5: huge<T, 6>(ctx); break; } }; if (d) go(0.0); else go(char());
}
MC_SCENARIO(huge_reshapes, "views of more than 2^31 and 2^32 elements into other shapes, fitting, one off, and off by a multiple of 2^32") {
  vm_corners = true; struct Off { ~Off() { vm_corners = false; } } off; double* p = reinterpret_cast<double*>(uintptr_t(1) << 40); using L = Kokkos::LayoutRight;
  long a = ctx.pick(std::vector<long>{65536, 70000, 46342, 131072}, "extent"), b = ctx.pick(std::vector<long>{65536, 32768, 70001, 46342}, "extent"); Kokkos::View<double**, L, Kokkos::HostSpace> v(p, a, b); long n = a * b; Kokkos::View<double***, L, Kokkos::HostSpace> w(p, a, b, 2);
  switch (ctx.choose(6, "target")) {
    case 0: rs<double**>(ctx, v, {b, a}, int(b), int(a)); rs<double**>(ctx, v, {b, a + 1}, int(b), int(a + 1)); break;
    case 1: if (n % 4 == 0 && n / 4 < (1l << 31)) { rs<double*[4]>(ctx, v, {n / 4, 4}, int(n / 4)); rs<double*[4]>(ctx, v, {n / 4 - 1, 4}, int(n / 4 - 1)); } break;
    case 2: { long m = n % (1l << 32); if (m && m < (1l << 31)) rs<double*>(ctx, v, {m}, int(m)); break; }
    case 3: rs<double**[2]>(ctx, w, {b, a, 2}, int(b), int(a)); rs<double**>(ctx, w, {b, a}, int(b), int(a)); break;
    case 4: rs<double**>(ctx, w, {2 * a, b}, int(2 * a), int(b)); break;
    case 5: if (n < (1l << 31)) rs<double*>(ctx, v, {n}, int(n)); break;
  }
}
MC_SCENARIO(chains5_mixed, "rank 5, extents (2,3,1,2,3), chains of up to 3") { std::vector<long> e{2, 3, 1, 2, 3}; std::vector<double> m(36); auto v = make_view<LR<double, 5>>(m.data(), e); explore(ctx, v, VM{m.data(), 8, e, right_strides(e)}, 3, ""); }
MC_SCENARIO(chains6_mixed, "rank 6, extents (2,3,1,2,2,3), chains of up to 3 (thorough)", 1, true) { std::vector<long> e{2, 3, 1, 2, 2, 3}; std::vector<double> m(72); auto v = make_view<LR<double, 6>>(m.data(), e); explore(ctx, v, VM{m.data(), 8, e, right_strides(e)}, 3, ""); }
MC_SCENARIO(invalid_requests, "ranks 1-6: indices -1 and extent in every position, ranges reversed or outside, dimension -1 and rank; must assert", 2) {
  switch (ctx.choose(6, "rank")) { case 0: invalid<double, 1>(ctx, 3); break; case 1: invalid<double, 2>(ctx, 3); break; case 2: invalid<double, 3>(ctx, 3); break; case 3: invalid<double, 4>(ctx, 2); break; case 4: invalid<double, 5>(ctx, 2); break; case 5: invalid<double, 6>(ctx, 2); break; }
}
template <class L> static void long_reshapes(Ctx& ctx) {
  using T = double; static const std::vector<long> B{1, 2, 3, 5, 8, 16, 17, 33, 64, 100, 128}; long a = ctx.pick(B, "extent 0"), b = ctx.pick(B, "extent 1"), c = ctx.pick(std::vector<long>{1, 2, 6, 12}, "extent 2"), n = a * b * c; if (n < 65 || n > 20000) return;
  std::vector<T> mem(size_t(n) + 64); bool three = ctx.flag("rank 3"); int o = ctx.choose(6, "target"); long off = ctx.choose(3, "misfit") - 1;
  auto go = [&](const auto& v) { switch (o) {
      case 0: rs<T*>(ctx, v, {n + off}, int(n + off)); break;
      case 1: rs<T**>(ctx, v, {b + off, a * c}, int(b + off), int(a * c)); break;
      case 2: rs<T**>(ctx, v, {c * b, a + off}, int(c * b), int(a + off)); break;
      case 3: if (n % 4 == 0) rs<T*[4]>(ctx, v, {n / 4 + off, 4}, int(n / 4 + off)); break;
      case 4: if (n % 6 == 0) rs<T*[2][3]>(ctx, v, {n / 6 + off, 2, 3}, int(n / 6 + off)); break;
      case 5: if (n % 2 == 0 && (a * b * c / 2) % b == 0) rs<T**[2]>(ctx, v, {b, n / 2 / b + off, 2}, int(b), int(n / 2 / b + off)); break; } };
  if (three) go(Kokkos::View<T***, L, Kokkos::HostSpace>(mem.data(), a, b, c)); else go(Kokkos::View<T**, L, Kokkos::HostSpace>(mem.data(), a, b * c)); ctx.state(mc::mix(n, a));
}
MC_SCENARIO(long_reshapes_right, "row-major sources of 65-20000 elements, rank 2 and 3, into 6 target shapes, fitting and one off", 3) { long_reshapes<Kokkos::LayoutRight>(ctx); }
MC_SCENARIO(long_reshapes_left, "as above, column-major", 3) { long_reshapes<Kokkos::LayoutLeft>(ctx); }
MC_SCENARIO(reshape_right, "row-major sources of rank 1-3 with extents 1-4, 8 target shapes with extents 1-8 (64 for rank 1): all fitting and all misfitting", 3) { reshapes<Kokkos::LayoutRight>(ctx); }
MC_SCENARIO(reshape_left, "as above, column-major", 3) { reshapes<Kokkos::LayoutLeft>(ctx); }
