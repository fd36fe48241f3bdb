// Kernels launched with EKAT's team policies, and what TeamUtils says about them.
#include "kokkos_mt.hpp"
#include <Kokkos_Core.hpp>
#include "ekat_team_policy_utils.hpp"
using mc::Ctx; using mc::mt::Quiet;
namespace {
using ES = Kokkos::DefaultExecutionSpace; using TPF = ekat::TeamPolicyFactory<ES>; using Member = Kokkos::TeamPolicy<ES>::member_type;
void run(Ctx& ctx, const Kokkos::TeamPolicy<ES>& pol, int ni, int ts, const std::string& w, int ns = 5, int bound = 1) {
  MC_CHECK(ctx, pol.league_size() == ni, "league-size", w << ": league of " << pol.league_size()); MC_CHECK(ctx, pol.team_size() == ts, "team-size", w << ": teams of " << pol.team_size() << ", expected " << ts);
  std::vector<int> hit(size_t(ni * ts + 1), 0), sum(size_t(ni + 1), 0), items(size_t(ni * ns + 1), 0);
  mc::mt::explore(ctx, bound, [&] {
    std::fill(hit.begin(), hit.end(), 0); std::fill(sum.begin(), sum.end(), 0); std::fill(items.begin(), items.end(), 0); int *h = hit.data(), *s = sum.data(), *it = items.data();
    Kokkos::parallel_for(pol, [=, &ctx](const Member& t) {
      int l = t.league_rank(), r = t.team_rank(); MT_CHECK(ctx, l >= 0 && l < ni && r >= 0 && r < ts && t.league_size() == ni && t.team_size() == ts, "member", w << ": member " << r << " of " << t.team_size() << " of team " << l << " of " << t.league_size());
      ++h[l * ts + r]; Kokkos::parallel_for(Kokkos::TeamThreadRange(t, ns), [&](int i) { ++it[l * ns + i]; }); int x = 0; Kokkos::parallel_reduce(Kokkos::TeamThreadRange(t, ns), [&](int i, int& a) { a += i + l; }, x); if (r == 0) s[l] = x; });
    for (int i = 0; i < ni * ts; ++i) MC_CHECK(ctx, hit[size_t(i)] == 1, "visits", w << ": member " << i % ts << " of team " << i / ts << " ran " << hit[size_t(i)] << " times");
    for (int i = 0; i < ni * ns; ++i) MC_CHECK(ctx, items[size_t(i)] == 1, "items", w << ": item " << i % ns << " of team " << i / ns << " ran " << items[size_t(i)] << " times");
    for (int l = 0; l < ni; ++l) MC_CHECK(ctx, sum[size_t(l)] == ns * (ns - 1) / 2 + ns * l, "sum", w << ": team " << l << " summed " << sum[size_t(l)]);
  });
  MC_LOG(ctx, w);
}
template <class T> void utils(Ctx& ctx, const Kokkos::TeamPolicy<ES>& pol, int ni, int ts, const std::string& w) {
  using TU = ekat::TeamUtils<T, ES>; TU a(pol), b(pol, 1.5), c; 
#ifndef NDEBUG
  auto refuses = [](auto f) { try { f(); return false; } catch (const std::exception&) { return true; } };
  MC_CHECK(ctx, refuses([&] { c.get_num_ws_slots(); }) && refuses([&] { c.get_num_concurrent_teams(); }) && refuses([&] { c.get_max_concurrent_threads(); }), "uninitialized", "an uninitialized TeamUtils answers");
#endif
  c = a; int P = mc::mt::pool, n = std::min(ni, P / ts);
  for (const TU* u : {&a, &b, &c}) { MC_CHECK(ctx, u->get_max_concurrent_threads() == P, "max-threads", w << ": " << u->get_max_concurrent_threads()); MC_CHECK(ctx, u->get_num_concurrent_teams() == n, "teams", w << ": " << u->get_num_concurrent_teams() << " concurrent teams, expected " << n); MC_CHECK(ctx, u->get_num_ws_slots() == n, "slots", w << ": " << u->get_num_ws_slots()); }
}
}
MC_SCENARIO(policies, "default, forced and scan policies; leagues of 0-9 (thorough 20), requested team sizes or level counts up to the pool (forced) and of 0-130 (default); every member runs once, nested loops and reductions complete; numbers given by TeamUtils", 3) {
  static const int NK[] = {0, 1, 2, 7, 31, 32, 33, 72, 128, 130}; int P = mc::mt::pool, ni = ctx.choose(ctx.tier() ? 21 : 10, "league"), kind = ctx.choose(3, "policy"), ts = 1; std::ostringstream w; Kokkos::TeamPolicy<ES> pol;
#ifdef EKAT_MIMIC_GPU
  int def = P < 7 ? P : 7;
#else
  int def = 1;
#endif
  if (kind == 1) { ts = 1 + ctx.choose(P, "team size"); pol = TPF::get_team_policy_force_team_size(ni, ts); w << "forced " << ni << "," << ts; }
  else { int nk = NK[ctx.choose(10, "nk")]; ts = def; pol = kind == 0 ? TPF::get_default_team_policy(ni, nk) : TPF::get_thread_range_parallel_scan_team_policy(ni, nk); w << (kind ? "scan " : "default ") << ni << "," << nk; }
  w << " pool " << P; run(ctx, pol, ni, ts, w.str()); if (ni > 0) { utils<double>(ctx, pol, ni, ts, w.str()); utils<float>(ctx, pol, ni, ts, w.str()); }
  ctx.outcome(uint64_t(ni * 100 + ts)); ctx.state(uint64_t(ni * 100 + ts));
}
MC_SCENARIO(large_leagues, "leagues of 16-100 teams and nested loops of 0-33 items, all policies; forced team sizes up to the pool", 2) {
  int P = mc::mt::pool, ni = ctx.pick(std::vector<int>{16, 31, 33, 64, 100}, "league"), ns = ctx.pick(std::vector<int>{0, 1, 4, 33}, "items"), kind = ctx.choose(3, "policy"); std::ostringstream w; if (ni * ns > 600) return;
#ifdef EKAT_MIMIC_GPU
  int ts = P < 7 ? P : 7;
#else
  int ts = 1;
#endif
  if (kind == 1) ts = 1 + ctx.choose(P, "team size"); auto pol = kind == 1 ? TPF::get_team_policy_force_team_size(ni, ts) : kind == 0 ? TPF::get_default_team_policy(ni, ns) : TPF::get_thread_range_parallel_scan_team_policy(ni, ns); w << "policy " << kind << " " << ni << "," << ns << "," << ts << " pool " << P;
  run(ctx, pol, ni, ts, w.str(), ns, 0); utils<double>(ctx, pol, ni, ts, w.str()); ctx.outcome(mc::mix(uint64_t(ni), uint64_t(ns * 16 + ts)));
}
