// host_to_device, device_to_host and transpose against flat index formulas on exact-size host buffers.
#include "view_model.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_kokkos_types.hpp"
#ifndef MC_R
#define MC_R 1
#endif
#ifndef MC_T
#define MC_T double
#endif
using mc::Ctx; using namespace ekat; using T = MC_T; using TD = TransposeDirection;
namespace {
using Ext = std::vector<long>;
long prod(const Ext& e) { long n = 1; for (long x : e) n *= x; return n; }
int planes(long n) { int p = 1; if (std::is_same_v<T, bool>) while ((1l << p) < n) ++p; return p; } // booleans: the position is told bit by bit
std::string shape(const Ext& e) { return VM{0, 0, e, e}.show(); }
T val(long id, int plane) { if constexpr (std::is_same_v<T, bool>) return id >> plane & 1; else return T(id + 1); }
T other(long id, int plane) { if constexpr (std::is_same_v<T, bool>) return !val(id, plane); else return T(-7); }
// exact-size buffer: the sanitizer sees every access outside
struct Buf { std::unique_ptr<T[]> p; long n; explicit Buf(long n_ = 0) : p(new T[n_]), n(n_) {} };
// place in the flat array of element i after the array (in the order given by the direction) is transposed to row-major order:
// f2c: the source is column-major; c2f: the source is row-major, and what comes out is column-major
long row(const Ext& e, const Ext& i) { long o = 0; for (size_t k = 0; k < e.size(); ++k) o = o * e[k] + i[k]; return o; }
long col(const Ext& e, const Ext& i) { long o = 0; for (int k = int(e.size()) - 1; k >= 0; --k) o = o * e[k] + i[k]; return o; }
// from[d] = position in the source of what transpose puts to position d
std::vector<long> permutation(const Ext& e, TD::Enum d) { std::vector<long> f(prod(e)); for_all(e, [&](const Ext& i) { if (d == TD::c2f) f[col(e, i)] = row(e, i); else f[row(e, i)] = col(e, i); }); return f; }
}
#if MC_R == 1
MC_SCENARIO(transpose_2d_3d, "transpose of every array with extents 0-8 (2d) and 0-5 (3d), and 1-129 (2d) and 1-33 (3d) around powers of two, both directions, direction at compile time and at run time; and back again", 1) {
  bool three = ctx.flag("3d"); TD::Enum d = ctx.flag("f2c") ? TD::f2c : TD::c2f; bool rt = ctx.flag("run time"), big = ctx.flag("large"); Ext e(three ? 3 : 2); static const std::vector<long> B2{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129}, B3{1, 2, 7, 8, 9, 15, 16, 17, 32, 33};
  for (auto& x : e) x = big ? ctx.pick(three ? B3 : B2, "extent") : ctx.choose(three ? 6 : 9, "extent"); long n = prod(e); if (big && (ctx.tier() == 0 || std::is_same_v<T, bool>) && n > (three ? 3000 : 5000)) return;
  for (int p = 0; p < planes(n); ++p) {
    Buf a(n), b(n), c(n); for (long i = 0; i < n; ++i) { a.p[i] = val(i, p); b.p[i] = other(i, p); }
    auto run = [&](const T* s, T* t, TD::Enum dir, bool at_run_time) {
      if (three) { if (at_run_time) transpose(s, t, int(e[0]), int(e[1]), int(e[2]), dir); else if (dir == TD::c2f) transpose<TD::c2f>(s, t, e[0], e[1], e[2]); else transpose<TD::f2c>(s, t, e[0], e[1], e[2]); }
      else { if (at_run_time) transpose(s, t, int(e[0]), int(e[1]), dir); else if (dir == TD::c2f) transpose<TD::c2f>(s, t, e[0], e[1]); else transpose<TD::f2c>(s, t, e[0], e[1]); } };
    run(a.p.get(), b.p.get(), d, rt); auto f = permutation(e, d); ctx.transition();
    for (long i = 0; i < n; ++i) MC_CHECK(ctx, b.p[i] == val(f[i], p) && a.p[i] == val(i, p), "transpose", (d == TD::c2f ? "c2f" : "f2c") << " transpose of a " << shape(e) << " array: entry " << i << " is " << mc::show(b.p[i]) << ", expected entry " << f[i] << " of the source");
    run(b.p.get(), c.p.get(), d == TD::c2f ? TD::f2c : TD::c2f, !rt);
    for (long i = 0; i < n; ++i) MC_CHECK(ctx, c.p[i] == val(i, p), "transpose-back", "transposing a " << shape(e) << " array there and back does not restore entry " << i);
  }
  ctx.state(mc::hash_str(shape(e)) + d * 2 + rt); ctx.outcome(mc::hash_str(shape(e)) + d);
}
#endif
namespace {
enum Order { NONE, DEFAULT, F2C, C2F };
struct Job { int api; Order order; std::vector<Ext> ext; };
// api: 0 sizes per array (int), 1 sizes per array (size_t), 2 one size for all
template <int R, class V, class D, class F> void call(const Job& j, const D& data, V& views, F&& f) {
  auto dims = [&](auto z, int k) { std::vector<decltype(z)> s; for (auto& e : j.ext) s.push_back(e[k]); return s; };
  auto go = [&](auto... d) {
    if constexpr (R == 1) f(data, d..., views);
    else if (j.order == NONE) f(data, d..., views); else if (j.order == DEFAULT) f(data, d..., views, true); else f(data, d..., views, true, j.order == F2C ? TD::f2c : TD::c2f); };
  auto per = [&](auto z) { if constexpr (R == 1) go(dims(z, 0)); else if constexpr (R == 2) go(dims(z, 0), dims(z, 1)); else go(dims(z, 0), dims(z, 1), dims(z, 2)); };
  if (j.api == 0) per(int()); else if (j.api == 1) per(size_t());
  else { Ext e = j.ext.empty() ? Ext(R, 1) : j.ext[0]; if constexpr (R == 1) go(size_t(e[0])); else if constexpr (R == 2) go(size_t(e[0]), size_t(e[1])); else go(size_t(e[0]), size_t(e[1]), size_t(e[2])); }
}
template <class S> T& lane(S& s, int l) { if constexpr (IsPack<std::remove_const_t<S>>::value) return s[l]; else return s; }
bool large = false, many = false; const std::vector<long> LADDER[3] = {{22, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025}, {1, 8, 9, 17, 32, 33, 65}, {1, 3, 9, 17}};
template <int R, int N, class L> void transfer(Ctx& ctx) {
  using S = std::conditional_t<N == 0, T, Pack<T, N ? N : 1>>; constexpr int W = N ? N : 1; using V = Kokkos::View<typename PtrN<S, R>::type, L, DefaultDevice>;
  Job j; j.api = ctx.choose(3, "sizes: int, size_t, uniform"); bool pre = ctx.flag("preallocated"); int order = R == 1 ? 0 : ctx.choose(4, "transpose: no, default, f2c, c2f"); j.order = Order(order);
  Order back = R == 1 ? NONE : Order(ctx.choose(4, "transpose back"));
  int na = large ? 1 : many ? ctx.pick(std::vector<int>{3, 4, 5, 8, 9, 16, 17, 33}, "arrays") : ctx.choose(3, "arrays"); int fam = many ? ctx.choose(R == 1 ? 4 : 2, "extents") : 0; if ((large || many) && (std::is_same_v<T, bool> || j.api == 1 || (back != order && !(order == F2C && back == C2F) && !(order == C2F && back == F2C)))) return; static const int B[3][2] = {{8, 5}, {5, 3}, {3, 2}}; // values per extent for the first, second array; the last extent also takes values around one and two packs
  for (int a = 0; a < na; ++a) { Ext e(R); if (a && j.api == 2) e = j.ext[0]; else if (many) for (int k = 0; k < R; ++k) e[k] = (a * (fam % 2 ? 5 : 3) + 2 * k + fam + 1) % (k == R - 1 ? 2 * W + 3 : R == 2 ? 5 : 3); else for (int k = 0; k < R; ++k) { int b = B[R - 1][a] + (ctx.tier() ? 1 : 0); std::vector<long> c; if (large) { e[k] = ctx.pick(LADDER[R - 1], "extent"); continue; } for (int x = 0; x < b; ++x) c.push_back(x); if (k == R - 1) { for (long x : {W - 1, W, W + 1, 2 * W, 2 * W + 1}) if (x >= b && (a == 0 || R == 1 || x == W + 1)) c.push_back(x); if (R == 1 && a == 0) for (long x = b; x < 2 * W; ++x) if (std::find(c.begin(), c.end(), x) == c.end()) c.push_back(x); } e[k] = ctx.pick(c, "extent"); } j.ext.push_back(e); }
  std::string what = std::to_string(na) + " arrays"; for (auto& e : j.ext) what += " " + shape(e); what += (N ? " of packs of " + std::to_string(N) : std::string(" of scalars")) + ", order " + std::to_string(order) + "/" + std::to_string(back) + ", api " + std::to_string(j.api) + (pre ? ", preallocated" : "");
  long total = 0; for (auto& e : j.ext) total += prod(e);
  for (int p = 0; p < planes(total); ++p) {
    std::vector<Buf> host, out; std::vector<const T*> src; std::vector<T*> dst; long id = 0;
    for (auto& e : j.ext) { host.emplace_back(prod(e)); out.emplace_back(prod(e)); for (long i = 0; i < prod(e); ++i) { host.back().p[i] = val(id + i, p); out.back().p[i] = other(0, p); } id += prod(e); }
    for (int a = 0; a < na; ++a) { src.push_back(host[a].p.get()); dst.push_back(out[a].p.get()); }
    std::vector<V> views(na); std::vector<Ext> ve; for (auto& e : j.ext) { Ext v = e; v.back() = (e.back() + W - 1) / W; ve.push_back(v); }
    if (pre) for (int a = 0; a < na; ++a) { if constexpr (R == 1) views[a] = V("a", ve[a][0]); else if constexpr (R == 2) views[a] = V("a", ve[a][0], ve[a][1]); else views[a] = V("a", ve[a][0], ve[a][1], ve[a][2]); }
    std::vector<const void*> at; for (auto& v : views) at.push_back(v.data());
    auto h2d = [](auto&&... x) { host_to_device(x...); }; const auto& cviews = views;
    if (pre) call<R>(j, src, cviews, h2d); else call<R>(j, src, views, h2d); ctx.transition();
    id = 0;
    for (int a = 0; a < na; ++a) {
      const Ext& e = j.ext[a]; for (int k = 0; k < R; ++k) MC_CHECK(ctx, long(views[a].extent(k)) == ve[a][k], "h2d:extent", what << ": extent " << k << " of view " << a << " is " << views[a].extent(k));
      MC_CHECK(ctx, !pre || views[a].data() == at[a], "h2d:reallocated", what << ": preallocated view " << a << " was replaced"); for (int b = 0; b < a; ++b) MC_CHECK(ctx, !prod(ve[a]) || !prod(ve[b]) || views[a].data() != views[b].data(), "h2d:shared", what << ": views share memory");
      std::vector<long> f; if (order != NONE) f = permutation(e, order == C2F ? TD::c2f : TD::f2c);
      for_all(e, [&](const Ext& i) { Ext v = i; v.back() /= W; long o = row(e, i), s = order == NONE ? o : f[o]; T g = lane(elem(views[a], v), int(i.back() % W)); MC_CHECK(ctx, g == val(id + s, p), "h2d:element", what << ": element " << mc::show(i) << " of view " << a << " is " << mc::show(g) << ", expected entry " << s << " of the array"); });
      for (long i = 0; i < prod(e); ++i) MC_CHECK(ctx, host[a].p[i] == val(id + i, p), "h2d:source", what << ": the host array was changed"); id += prod(e);
    }
    // on the way back: fresh contents, poison in the padding
    id = 0; for (int a = 0; a < na; ++a) { const Ext& e = j.ext[a]; for_all(ve[a], [&](const Ext& v) { for (int l = 0; l < W; ++l) { Ext i = v; i.back() = v.back() * W + l; bool pad = i.back() >= e.back(); T& x = lane(elem(views[a], v), l); if (pad) { if constexpr (std::is_same_v<T, bool>) x = !val(0, p); else x = T(-99); } else x = val(id + row(e, i), p); } }); id += prod(e); }
    Job jb = j; jb.order = back; auto d2h = [](auto&&... x) { device_to_host(x...); }; call<R>(jb, dst, cviews, d2h); ctx.transition();
    id = 0;
    for (int a = 0; a < na; ++a) { const Ext& e = j.ext[a]; std::vector<long> f; if (back != NONE) f = permutation(e, back == F2C ? TD::f2c : TD::c2f);
      for (long i = 0; i < prod(e); ++i) { long s = back == NONE ? i : f[i]; MC_CHECK(ctx, out[a].p[i] == val(id + s, p), "d2h:element", what << ": entry " << i << " of array " << a << " is " << mc::show(out[a].p[i]) << ", expected element " << s << " of the view"); }
      for_all(e, [&](const Ext& i) { Ext v = i; v.back() /= W; MC_CHECK(ctx, lane(elem(views[a], v), int(i.back() % W)) == val(id + row(e, i), p), "d2h:source", what << ": the view was changed"); }); id += prod(e); }
    // there and back again, in the matching order
    if (order == NONE || order == DEFAULT || order == F2C) { if (pre) call<R>(j, src, cviews, h2d); else call<R>(j, src, views, h2d); jb.order = order == F2C ? C2F : j.order; call<R>(jb, dst, cviews, d2h);
      for (int a = 0; a < na; ++a) for (long i = 0; i < host[a].n; ++i) MC_CHECK(ctx, out[a].p[i] == host[a].p[i], "round-trip", what << ": entry " << i << " of array " << a << " is not restored"); }
  }
  ctx.state(mc::hash_str(what)); ctx.outcome(mc::hash_str(what));
}
template <int R, int N> void transfer_layout(Ctx& ctx) { if constexpr (N == 0 || N == 2) if (ctx.flag("column-major view")) return transfer<R, N, Kokkos::LayoutLeft>(ctx); transfer<R, N, Kokkos::LayoutRight>(ctx); }
template <int R> void transfer_size(Ctx& ctx) { switch (ctx.choose(5, "scalar, packs of 1, 2, 4, 8")) { case 0: transfer_layout<R, 0>(ctx); break; case 1: transfer_layout<R, 1>(ctx); break; case 2: transfer_layout<R, 2>(ctx); break; case 3: transfer_layout<R, 4>(ctx); break; default: transfer_layout<R, 8>(ctx); } }
}
#if MC_R == 1
MC_SCENARIO(transfer_1d, "0-2 arrays with sizes 0-21 (by pack size), packs of 1-8 and scalars, all overloads, allocated and preallocated, both layouts for scalars and packs of 2", 3) { large = many = false; transfer_size<1>(ctx); }
MC_SCENARIO(large_1d, "one array of 22-1025 entries; scalars and packs, overloads, orders as above, matching orders back", 4) { large = true; many = false; transfer_size<1>(ctx); }
MC_SCENARIO(many_1d, "3-33 arrays, 4 families of extents (empty ones among them); scalars and packs, overloads, orders as above, matching orders back", 3) { large = false; many = true; transfer_size<1>(ctx); }
#elif MC_R == 2
MC_SCENARIO(transfer_2d, "0-2 arrays with extents 0-5 and 0-2, packs of 1-8 and scalars, all overloads, all orders there and back, allocated and preallocated, both layouts for scalars and packs of 2", 5) { large = many = false; transfer_size<2>(ctx); }
MC_SCENARIO(large_2d, "one array with extents 1-65 around powers of two; scalars and packs, overloads, orders as above, matching orders back", 4) { large = true; many = false; transfer_size<2>(ctx); }
MC_SCENARIO(many_2d, "3-33 arrays, 2 families of extents (empty ones among them); scalars and packs, overloads, orders as above, matching orders back", 3) { large = false; many = true; transfer_size<2>(ctx); }
#elif MC_R == 3
MC_SCENARIO(transfer_3d, "0-2 arrays with extents 0-3 and 0-1, packs of 1-8 and scalars, all overloads, all orders there and back, allocated and preallocated, both layouts for scalars and packs of 2", 5) { large = many = false; transfer_size<3>(ctx); }
MC_SCENARIO(large_3d, "one array with extents 1-17; scalars and packs, overloads, orders as above, matching orders back", 4) { large = true; many = false; transfer_size<3>(ctx); }
MC_SCENARIO(many_3d, "3-33 arrays, 2 families of extents (empty ones among them); scalars and packs, overloads, orders as above, matching orders back", 3) { large = false; many = true; transfer_size<3>(ctx); }
#endif
#ifndef NDEBUG
namespace {
template <int R, int N> void mismatch(Ctx& ctx) {
  using S = std::conditional_t<N == 0, T, Pack<T, N ? N : 1>>; constexpr int W = N ? N : 1; using V = Kokkos::View<typename PtrN<S, R>::type, Kokkos::LayoutRight, DefaultDevice>;
  bool down = ctx.flag("device_to_host"), pre = down || ctx.flag("preallocated"); int kind = ctx.choose(R + (down ? 1 : 1 + (pre ? R : 0)), "kind"), dir = ctx.flag("longer") ? 1 : -1; Ext e(R, 3); e.back() = 2 * W;
  // kind < R: that vector of sizes has another length; R: the vector of views has; above: an extent of a preallocated view differs
  std::vector<size_t> n(R, 2); size_t nv = 2; Ext ve = e; ve.back() = 2; if (kind < R) n[kind] += dir; else if (kind == R) nv += dir; else ve[kind - R - 1] += dir;
  Buf h[2] = {Buf(prod(e)), Buf(prod(e))}; std::fill_n(h[0].p.get(), prod(e), T(1)); std::fill_n(h[1].p.get(), prod(e), T(1)); std::vector<const T*> src{h[0].p.get(), h[1].p.get()}; std::vector<T*> dst{h[0].p.get(), h[1].p.get()};
  std::vector<V> views(nv); if (pre) for (auto& v : views) { if constexpr (R == 1) v = V("a", ve[0]); else if constexpr (R == 2) v = V("a", ve[0], ve[1]); else v = V("a", ve[0], ve[1], ve[2]); } const auto& cviews = views;
  auto dims = [&](int k) { return std::vector<int>(n[k], int(e[k])); };
  bool rej = mc::rejects([&] {
    auto go = [&](auto... d) { if (down) device_to_host(dst, d..., cviews); else if (pre) host_to_device(src, d..., cviews); else host_to_device(src, d..., views); };
    if constexpr (R == 1) go(dims(0)); else if constexpr (R == 2) go(dims(0), dims(1)); else go(dims(0), dims(1), dims(2)); });
  MC_CHECK(ctx, rej, "mismatch-accepted", (down ? "device_to_host" : pre ? "host_to_device to existing views" : "host_to_device") << " of rank " << R << " with packs of " << N << ": " << (kind < R ? "a vector of sizes" : kind == R ? "the vector of views" : "an extent of a view") << " (" << kind << ") that is " << (dir > 0 ? "longer" : "shorter") << " is not rejected");
  ctx.state(mc::mix(kind * 4 + down * 2 + pre, R * 64 + N * 2 + (dir > 0))); ctx.outcome(mc::mix(kind * 4 + down * 2 + pre, R * 64 + N * 2 + (dir > 0)));
}
template <int R> void mismatch_size(Ctx& ctx) { switch (ctx.choose(3, "scalar, packs of 1, 4")) { case 0: mismatch<R, 0>(ctx); break; case 1: mismatch<R, 1>(ctx); break; default: mismatch<R, 4>(ctx); } }
}
MC_SCENARIO(mismatch_rejected, "vectors of sizes or views that are longer or shorter than the vector of arrays, and preallocated views of other extents") { mismatch_size<MC_R>(ctx); }
#endif
