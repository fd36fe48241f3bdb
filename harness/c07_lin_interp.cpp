// Linear interpolation: every source grid and window of targets from a lattice; packs, columns, calling forms and threads.
#ifdef MT
#include "kokkos_mt.hpp"
#else
#include "mc.hpp"
#endif
#include <Kokkos_Core.hpp>
#include "ekat_lin_interp.hpp"
#include <cmath>
#include <limits>
using mc::Ctx;
namespace {
const std::vector<double> L = {0, 1, 2.5, 3, 5, 5.25};                                                             // source lattice
const std::vector<double> T = {-3, -0.5, 0, 0.25, 1, 1.75, 2.5, 2.75, 3, 4, 5, 5.125, 5.25, 6, 9};                  // targets: beyond, at and between
struct Col { std::vector<double> x1, y1, x2; };
double y_of(int kind, int k, double x) { static const double Y[] = {3, -7, 11, 2.5, -40, 0.125, 9, -1}; return kind == 0 ? 2.5 * x - 1 : Y[(k * 3 + kind) % 8]; }
template <class S> void check_col(Ctx& ctx, const Col& c, const S* y2, const std::string& nm) {
  const double eps = std::numeric_limits<S>::epsilon(); int n = int(c.x1.size());
  for (size_t t = 0; t < c.x2.size(); ++t) {
    double x = c.x2[t]; int k = 0; while (k + 1 < n && c.x1[k + 1] <= x) ++k; bool at = c.x1[k] == x; if (k == n - 1 && !at) --k;
    auto show = [&] { std::ostringstream os; os << nm << ", x1 = " << mc::show(c.x1) << ", y1 = " << mc::show(c.y1) << ", target " << t << " at " << x; return os.str(); };
    if (at) { MC_CHECK(ctx, y2[t] == S(c.y1[k]), "coincident", show() << ": " << y2[t] << ", expected the source value " << c.y1[k]); }
    else { double s = (c.y1[k + 1] - c.y1[k]) / (c.x1[k + 1] - c.x1[k]), w = c.y1[k] + s * (x - c.x1[k]), tol = 6 * eps * (std::fabs(c.y1[k]) + std::fabs(c.y1[k + 1]) + std::fabs(s * (x - c.x1[k])) + std::fabs(s * (x - c.x1[k + 1])));
      MC_CHECK(ctx, std::fabs(y2[t] - w) <= tol, "value", show() << ": " << y2[t] << ", expected " << w); }
  }
}
enum Form { TEAM, TEAM_COL, TEAM_RANGE, THREAD_RANGE }; const char* FN[] = {"whole team", "whole team with a column", "given team range", "given thread range"};
// Q: pack size of the views (0: scalars). Padding of every view is poisoned.
template <class S, int N, int Q> std::vector<std::vector<S>> interp(const std::vector<Col>& cols, Form form, int ts, bool constant) {
  using LI = ekat::LinInterp<S, N>; constexpr int P = Q ? Q : 1; using E = std::conditional_t<Q == 0, S, ekat::Pack<S, P>>; constexpr int big = P > N ? P : N;
  const int nc = int(cols.size()), k1 = int(cols[0].x1.size()), k2 = int(cols[0].x2.size()); auto len = [&](int n) { return (n + big - 1) / big * big / P; };
  LI li(nc, k1, k2); using V2 = Kokkos::View<E**, Kokkos::LayoutRight>; V2 x1("x1", nc, len(k1)), y1("y1", nc, len(k1)), x2("x2", nc, len(k2)), y2("y2", nc, len(k2));
  const S bad = std::numeric_limits<S>::quiet_NaN();
  auto put = [&](const V2& v, int c, const std::vector<double>& a) { S* p = reinterpret_cast<S*>(&v(c, 0)); for (int i = 0; i < int(v.extent(1)) * P; ++i) p[i] = i < int(a.size()) ? S(a[i]) : bad; };
  for (int c = 0; c < nc; ++c) { put(x1, c, cols[c].x1); put(y1, c, cols[c].y1); put(x2, c, cols[c].x2); put(y2, c, {}); }
  using C2 = Kokkos::View<const E**, Kokkos::LayoutRight>; C2 x1c = x1, y1c = y1, x2c = x2;
  auto go = [&](auto X1, auto X2, auto Y1) {
    using MT_ = typename LI::MemberType; auto sub = [](auto v, int c) { return Kokkos::subview(v, c, Kokkos::ALL()); };
    int lg = form == THREAD_RANGE ? 1 : nc;
    Kokkos::parallel_for(typename LI::TeamPolicy(lg, ts), [=](const MT_& team) {
      if (form == THREAD_RANGE) { Kokkos::parallel_for(Kokkos::TeamThreadRange(team, nc), [&](int c) { auto r = Kokkos::ThreadVectorRange(team, li.km2_pack()); li.setup(team, r, sub(X1, c), sub(X2, c), c); li.lin_interp(team, r, sub(X1, c), sub(X2, c), sub(Y1, c), sub(y2, c), c); }); return; }
      int c = team.league_rank();
      if (form == TEAM) { li.setup(team, sub(X1, c), sub(X2, c)); li.lin_interp(team, sub(X1, c), sub(X2, c), sub(Y1, c), sub(y2, c)); }
      else if (form == TEAM_COL) { c = nc - 1 - c; li.setup(team, sub(X1, c), sub(X2, c), c); li.lin_interp(team, sub(X1, c), sub(X2, c), sub(Y1, c), sub(y2, c), c); }
      else { auto r = Kokkos::TeamVectorRange(team, li.km2_pack()); li.setup(team, r, sub(X1, c), sub(X2, c)); li.lin_interp(team, r, sub(X1, c), sub(X2, c), sub(Y1, c), sub(y2, c)); }
    });
  };
  if (constant) go(x1c, x2c, y1c); else go(x1, x2, y1);
  std::vector<std::vector<S>> r(nc); for (int c = 0; c < nc; ++c) { S* p = reinterpret_cast<S*>(&y2(c, 0)); r[c].assign(p, p + k2); }
  return r;
}
template <class S, int N> std::vector<std::vector<S>> interp_q(int Q, const std::vector<Col>& c, Form f, int ts, bool cn) { switch (Q) { case 0: return interp<S, N, 0>(c, f, ts, cn); case 1: return interp<S, N, 1>(c, f, ts, cn); case 2: return interp<S, N, 2>(c, f, ts, cn); case 4: return interp<S, N, 4>(c, f, ts, cn); default: return interp<S, N, 8>(c, f, ts, cn); } }
template <class S> std::vector<std::vector<S>> interp_n(int N, int Q, const std::vector<Col>& c, Form f, int ts, bool cn) { switch (N) { case 1: return interp_q<S, 1>(Q, c, f, ts, cn); case 2: return interp_q<S, 2>(Q, c, f, ts, cn); case 4: return interp_q<S, 4>(Q, c, f, ts, cn); default: return interp_q<S, 8>(Q, c, f, ts, cn); } }
const int NS[] = {1, 2, 4, 8}, QS[] = {0, 1, 2, 4, 8};
Col make(int mask, int start, int len, int stride, int kind) { Col c; for (int i = 0; i < 6; ++i) if (mask >> i & 1) { c.x1.push_back(L[i]); c.y1.push_back(y_of(kind, i, L[i])); } for (int i = 0; i < len; ++i) c.x2.push_back(T[std::min(int(T.size()) - 1, start + i * stride)]); return c; }
std::string name(int N, int Q, Form f, int nc, int ts, const char* ty) { std::ostringstream os; os << "LinInterp of " << ty << " with packs of " << N << " on views of " << (Q ? "packs of " + std::to_string(Q) : std::string("scalars")) << ", " << nc << " columns, " << FN[f] << ", teams of " << ts; return os.str(); }
}
#ifndef MT
namespace { template <class S> void some_grids(Ctx& ctx, int N, int mask, int start, int stride, const char* ty) {
  int nt = int(T.size()), most = stride ? (nt - 1 - start) / stride + 1 : 3, bits = __builtin_popcount(mask);
  for (int len = 1; len <= std::min(most, ctx.tier() ? 15 : 10); ++len) for (int kind = 0; kind < 3; ++kind) {
    // a second column with another grid of the same size
    int other = mask; for (int m = mask - 1; m > 0; --m) if (__builtin_popcount(m) == bits) { other = m; break; }
    std::vector<Col> c = {make(mask, start, len, stride, kind), make(other, std::max(0, start - 2), len, stride, (kind + 1) % 3)};
    auto r = interp_n<S>(N, N, c, TEAM, 1, kind == 1); std::string nm = name(N, N, TEAM, 2, 1, ty);
    for (int k = 0; k < 2; ++k) check_col(ctx, c[k], r[k].data(), nm);
    ctx.transition(2 * len); ctx.outcome(mc::hash_bytes(r[0].data(), r[0].size() * sizeof(S)));
  }
} }
MC_SCENARIO(grids, "every source grid of 2-6 points of a lattice of 6; target windows: every start, step 0-3 and length up to 10 (thorough 15) in a lattice of 15 points beyond, at and between the source points; 3 sets of values; pack sizes 1, 2, 4, 8; double and float; 2 columns", 2) {
  int N = NS[ctx.choose(4, "pack")]; int mask = 1 + ctx.choose(63, "source grid"); if (__builtin_popcount(mask) < 2) { ctx.outcome(1); return; }
  int start = ctx.choose(int(T.size()), "start"), stride = ctx.choose(4, "step"); if (ctx.flag("float")) some_grids<float>(ctx, N, mask, start, stride, "float"); else some_grids<double>(ctx, N, mask, start, stride, "double");
  ctx.state(mc::mix(N * 64 + mask, start * 4 + stride));
}
MC_SCENARIO(long_grids, "2-19 source points and 1-19 targets (thorough 35), regular and irregular, packs of the class 1-8 and of the views 0-8, all calling forms, double and float", 3) {
  int N = NS[ctx.choose(4, "pack")], Q = QS[ctx.choose(5, "view pack")]; Form f = Form(ctx.choose(4, "form")); int k1 = 2 + ctx.choose(ctx.tier() ? 34 : 18, "source points"); bool fl = ctx.flag("float"), cn = ctx.flag("const");
  for (int k2 = 1; k2 <= (ctx.tier() ? 35 : 19); ++k2) {
    std::vector<Col> c(2); for (int q = 0; q < 2; ++q) { double x = -1.5 + q; for (int k = 0; k < k1; ++k) { c[q].x1.push_back(x); c[q].y1.push_back(((k * 5 + q) % 7 - 3) * 1.5); x += ((k + q) % 3 == 0 ? 0.375 : 1.0); } double hi = x + 1; for (int k = 0; k < k2; ++k) c[q].x2.push_back(std::floor(((-2.5 + q) + (hi + 2.5) * (k + 0.5 * q) / k2) * 16) / 16); }
    std::string nm = name(N, Q, f, 2, 1, fl ? "float" : "double");
    if (fl) { auto r = interp_n<float>(N, Q, c, f, 1, cn); for (int q = 0; q < 2; ++q) check_col(ctx, c[q], r[q].data(), nm); } else { auto r = interp_n<double>(N, Q, c, f, 1, cn); for (int q = 0; q < 2; ++q) check_col(ctx, c[q], r[q].data(), nm); }
    ctx.transition(2 * k2);
  }
  ctx.outcome(mc::mix(N * 10 + Q, f * 100 + k1)); ctx.state(mc::mix(N * 10 + Q, f * 100 + k1));
}
namespace { template <class F> void large_cols(Ctx& ctx, int k1, int nc, const std::string& nm, F&& run) {
  for (int k2 : {1, 15, 16, 17, 31, 32, 33, 64, 65, 129, 300}) {
    std::vector<Col> c(nc); for (int q = 0; q < nc; ++q) { double x = -1.5 + q; for (int k = 0; k < k1; ++k) { c[q].x1.push_back(x); c[q].y1.push_back(((k * 5 + q) % 7 - 3) * 1.5); x += ((k + q) % 3 == 0 ? 0.375 : 1.0); } double hi = x + 1; for (int k = 0; k < k2; ++k) c[q].x2.push_back(std::floor(((-2.5 + q) + (hi + 2.5) * (k + 0.5 * (q % 2)) / k2) * 16) / 16); }
    auto r = run(c, k2 % 2); for (int q = 0; q < nc; ++q) check_col(ctx, c[q], r[q].data(), nm); ctx.transition(nc * k2);
  }
} }
MC_SCENARIO(large_grids, "31-300 source points and 1-300 targets around powers of two, packs of the class 1-8 and of the views 0-8, all calling forms, double; 1, 2 and 9 columns", 2) {
  int N = NS[ctx.choose(4, "pack")], Q = QS[ctx.choose(5, "view pack")]; Form f = Form(ctx.choose(4, "form")); int k1 = ctx.pick(std::vector<int>{31, 32, 33, 64, 65, 128, 129, 300}, "source points"), nc = ctx.pick(std::vector<int>{1, 2, 9}, "columns");
  large_cols(ctx, k1, nc, name(N, Q, f, nc, 1, "double"), [&](auto& c, bool cn) { return interp_n<double>(N, Q, c, f, 1, cn); });
  ctx.outcome(mc::mix(N * 10 + Q, f * 100 + k1)); ctx.state(mc::mix(N * 10 + Q, f * 100 + k1));
}
MC_SCENARIO(wide_packs, "the same with packs of 16 and 32 of the class on views of scalars, packs of 1, and their own, and packs of 4 on views of packs of 16; 2-300 source points", 2) {
  int v = ctx.choose(7, "packs"); static const int NN[] = {16, 16, 16, 32, 32, 4, 32}, QQ[] = {16, 0, 1, 32, 0, 16, 8}; Form f = Form(ctx.choose(4, "form")); int k1 = ctx.pick(std::vector<int>{2, 3, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 300}, "source points"), nc = ctx.pick(std::vector<int>{1, 2, 9}, "columns");
  large_cols(ctx, k1, nc, name(NN[v], QQ[v], f, nc, 1, "double"), [&](auto& c, bool cn) { switch (v) { case 0: return interp<double, 16, 16>(c, f, 1, cn); case 1: return interp<double, 16, 0>(c, f, 1, cn); case 2: return interp<double, 16, 1>(c, f, 1, cn); case 3: return interp<double, 32, 32>(c, f, 1, cn); case 4: return interp<double, 32, 0>(c, f, 1, cn); case 5: return interp<double, 4, 16>(c, f, 1, cn); default: return interp<double, 32, 8>(c, f, 1, cn); } });
  ctx.outcome(mc::mix(v, f * 100 + k1)); ctx.state(mc::mix(v, f * 100 + k1));
}
#else
MC_SCENARIO(threads, "1-3 columns, teams of 1 to pool threads, all calling forms, class packs 1-8, view packs 0-8; 5 grids; checked for races over all accesses, compared bitwise with one thread", 3) {
  int N = NS[ctx.choose(4, "pack")], Q = QS[ctx.choose(5, "view pack")]; Form f = Form(ctx.choose(4, "form")); int nc = 1 + ctx.choose(3, "columns"), ts = 1 + ctx.choose(mc::mt::pool, "team size"); int k2 = 1 + ctx.choose(ctx.tier() ? 33 : 17, "targets"); static const int MASK[] = {0x3, 0x3f, 0x2b, 0x30, 0x15};
  for (int g = 0; g < 5; ++g) {
    std::vector<Col> c; for (int q = 0; q < nc; ++q) { Col k = make(MASK[g], (q + g) % 3, k2, k2 > 8 ? 1 : 1 + g % 2, (q + g) % 3); for (int i = 0; i < q % 3; ++i) for (auto& x : k.x2) x += 0.0625; c.push_back(k); }
    std::vector<std::vector<double>> ref; std::string nm = name(N, Q, f, nc, ts, "double");
    mc::mt::explore(ctx, 1, [&] { ref = interp_n<double>(N, Q, c, f, 1, false); });
    mc::mt::explore(ctx, 1, [&] { auto r = interp_n<double>(N, Q, c, f, ts, g % 2); for (int q = 0; q < nc; ++q) { check_col(ctx, c[q], r[q].data(), nm); MC_CHECK(ctx, std::memcmp(r[q].data(), ref[q].data(), k2 * sizeof(double)) == 0, "bits", nm << ": column " << q << " differs from the result of one thread"); } ctx.outcome(mc::hash_bytes(r[0].data(), k2 * sizeof(double))); });
    MC_EXPECT(ctx, mc::mt::stats.racy == 0, "race", nm << ": " << mc::mt::stats.racy << " places race"); ctx.transition(mc::mt::stats.accesses);
  }
  ctx.state(mc::mix(N * 10 + Q, mc::mix(f * 100 + nc * 10 + ts, k2)));
}
#endif
