// Workspace slots of concurrently running teams. Built with the OpenMP mapping (slot from the host thread) and, with LOCK, with the device
// slot lock: the "device" is the OpenMP back end, random probes are choices of the explorer.
#include "kokkos_mt.hpp"
#include <Kokkos_Core.hpp>
#include <Kokkos_Random.hpp>
#include <chrono>
#include <map>
namespace { int draw_probe(); }
#ifdef LOCK
#undef KOKKOS_ENABLE_OPENMP
#define KOKKOS_ENABLE_HIP
#define EKAT_ENABLE_GPU
namespace Kokkos { using HIP = OpenMP; struct Serial; 
template <> struct rand<Random_XorShift64<Device<OpenMP, HostSpace>>, int> { template <class G> static int draw(G&) { return draw_probe(); } static int max() { return 1 << 30; } };
template <> struct rand<Random_XorShift64<OpenMP>, int> { template <class G> static int draw(G&) { return draw_probe(); } static int max() { return 1 << 30; } };
}
#endif
#include "ekat_team_policy_utils.hpp"
using mc::Ctx; using mc::mt::Quiet;
namespace {
using Member = Kokkos::TeamPolicy<>::member_type;
Ctx* g = nullptr; int free_draws = 0, ndraw = 0, nslots_now = 1;
int draw_probe() {
  Quiet q; ++ndraw;
  if (mc::mt::points_active && free_draws > 0) { --free_draws; return g->choose(nslots_now, "probe"); }
  return ndraw;
}
struct Reg {
  Ctx& ctx; int ts, lg, slots, conc; std::string cfg;
  std::vector<int> holder; std::vector<int> idx, left, seen, entered; int running = 0, maxrun = 0;
  Reg(Ctx& c, int t, int l, int s, int k, const std::string& n) : ctx(c), ts(t), lg(l), slots(s), conc(k), cfg(n), holder(s, -1), idx(l, -1), left(l, 0), seen(l, 0), entered(l, 0) {}
  void enter(int l) { if (!entered[l]++) { ++running; MT_CHECK(ctx, running <= conc, "too-many-teams", cfg << ": " << running << " teams run at once, " << conc << " advertised"); maxrun = std::max(maxrun, running); } }
  void get(int l, int t, int i) {
    MT_CHECK(ctx, i >= 0 && i < slots, "out-of-range", cfg << ": team " << l << " thread " << t << " got slot " << i << " of " << slots);
    MT_CHECK(ctx, idx[l] < 0 || idx[l] == i, "team-disagrees", cfg << ": team " << l << " thread " << t << " got slot " << i << ", another thread of the team " << idx[l]);
    MT_CHECK(ctx, holder[i] < 0 || holder[i] == l, "shared-slot", cfg << ": team " << l << " got slot " << i << " while team " << holder[i] << " holds it");
    idx[l] = i; holder[i] = l; ++seen[l];
  }
  void leave(int l) { if (++left[l] == ts) { holder[idx[l]] = -1; --running; } }
};
template <class TU, class Pol> void kernel(Ctx& ctx, Reg& r, const TU& tu, const Pol& pol, std::vector<double>& data) {
  double* d = data.data(); int ts = r.ts;
  Kokkos::parallel_for(pol, [&r, &ctx, tu, d, ts](const Member& team) {
    int l = team.league_rank(), t = team.team_rank(); 
    { Quiet q; r.enter(l); }
    int i = tu.get_workspace_idx(team);
    { Quiet q; r.get(l, t, i); }
    d[i * ts + t] = l + 1;
    mc::mt::point("use");
    double x = d[i * ts + t]; MT_CHECK(ctx, x == l + 1, "slot-data", r.cfg << ": slot " << i << " held by team " << l << " was written by team " << x - 1);
    { Quiet q; r.leave(l); }
    tu.release_workspace_idx(team, i);
  });
  for (int l = 0; l < r.lg; ++l) MC_CHECK(ctx, r.seen[l] == r.ts, "not-served", r.cfg << ": team " << l << ": " << r.seen[l] << " of " << r.ts << " threads got a slot");
}
template <class TU, class Pol> void run(Ctx& ctx, const Pol& pol, int ts, int lg, double op, int bound, const std::string& what) {
  g = &ctx; mc::mt::cas_points = true; uint64_t out = 0; int draws0 = free_draws;
  mc::mt::explore(ctx, bound, [&] {
    free_draws = draws0; ndraw = 0; auto& S = mc::Sched::get(); int b = S.bound; S.bound = 0;
    TU tu(pol, op); S.bound = b; int n = tu.get_num_ws_slots(), k = tu.get_num_concurrent_teams(); nslots_now = std::max(n, 1);
    std::ostringstream os; os << what << " pool " << mc::mt::pool << ", " << lg << " teams of " << ts << ", overprovisioning " << op << " (" << n << " slots)";
#ifdef LOCK
    k = lg;   // the stand-in for the device runs as many teams as it has threads for; the lock has to cope
#endif
    MC_CHECK(ctx, n >= 1 && n <= lg, "num-slots", os.str() << ": number of slots");
    MC_CHECK(ctx, tu.get_num_concurrent_teams() >= 1 && tu.get_num_concurrent_teams() <= lg, "num-teams", os.str() << ": " << tu.get_num_concurrent_teams() << " concurrent teams");
    std::vector<double> data(size_t(n) * ts, 0.0);
    { Reg r(ctx, ts, lg, n, k, os.str()); kernel(ctx, r, tu, pol, data); out = mc::mix(out, r.maxrun); for (int i : r.idx) out = mc::mix(out, i); }
    S.bound = 0; int fd = free_draws; free_draws = 0;      // every slot was given back: a second kernel can use them all
    { Reg r(ctx, ts, lg, n, k, os.str() + ", second kernel"); kernel(ctx, r, tu, pol, data); }
    S.bound = b; free_draws = fd;
    MC_LOG(ctx, os.str());
  });
  ctx.outcome(mc::mix(out, ts * 1000 + lg)); ctx.state(mc::mix(ts * 100 + lg, uint64_t(op * 100)));
}
}
#ifndef LOCK
MC_SCENARIO(host_slots, "every league of 1-10 teams, every team size the pool allows, static schedules and dynamic ones with at least as many teams as fit into the pool, second kernels on the same slots; all schedules with at most 1 (thorough 2) deviations at the points where slots are held", 3) {
  int ts = 1 + ctx.choose(mc::mt::pool, "team size"), lg = 1 + ctx.choose(10, "league"); bool fl = ctx.flag("float"), dyn = ctx.flag("dynamic schedule"); free_draws = 0;
  int bound = 1 + ctx.tier();
  if (dyn && lg < mc::mt::pool / ts) { ctx.outcome(1); return; }   // see dynamic_small_league
  if (dyn) { Kokkos::TeamPolicy<Kokkos::Schedule<Kokkos::Dynamic>> p(lg, ts); if (fl) run<ekat::TeamUtils<float, Kokkos::OpenMP>>(ctx, p, ts, lg, 1.0, bound, "dynamic,"); else run<ekat::TeamUtils<double, Kokkos::OpenMP>>(ctx, p, ts, lg, 1.0, bound, "dynamic,"); }
  else { Kokkos::TeamPolicy<> p(lg, ts); if (fl) run<ekat::TeamUtils<float, Kokkos::OpenMP>>(ctx, p, ts, lg, 1.25, bound, "static,"); else run<ekat::TeamUtils<double, Kokkos::OpenMP>>(ctx, p, ts, lg, 1.0, bound, "static,"); }
}
MC_SCENARIO(host_slots_large, "leagues of 16-129 teams, every team size, static and dynamic schedules; schedules without deviations", 2) {
  int ts = 1 + ctx.choose(mc::mt::pool, "team size"), lg = ctx.pick(std::vector<int>{16, 17, 31, 32, 33, 64, 65, 129}, "league"); bool dyn = ctx.flag("dynamic schedule"); free_draws = 0;
  if (dyn) { Kokkos::TeamPolicy<Kokkos::Schedule<Kokkos::Dynamic>> p(lg, ts); run<ekat::TeamUtils<double, Kokkos::OpenMP>>(ctx, p, ts, lg, 1.0, 0, "dynamic,"); } else { Kokkos::TeamPolicy<> p(lg, ts); run<ekat::TeamUtils<float, Kokkos::OpenMP>>(ctx, p, ts, lg, 1.0, 0, "static,"); }
}
// With the dynamic schedule any team of the pool may run any league index. Leagues smaller than the number of teams in the pool: slots must
// differ between teams and lie inside the advertised number.
MC_SCENARIO(dynamic_small_league, "dynamic schedule, every league smaller than the number of teams that fit into the pool; all schedules with at most 1 (thorough 2) deviations", 2) {
  int np = mc::mt::pool, ts = 1 + ctx.choose(np, "team size"), lg = 1 + ctx.choose(10, "league"); if (lg >= np / ts) { ctx.outcome(1); return; }
  Kokkos::TeamPolicy<Kokkos::Schedule<Kokkos::Dynamic>> pol(lg, ts); mc::mt::cas_points = true; int hi = 0, lo = 0, n = 0; std::string clash; uint64_t out = 0;
  mc::mt::explore(ctx, 1 + ctx.tier(), [&] {
    auto& S = mc::Sched::get(); int b = S.bound; S.bound = 0; ekat::TeamUtils<double, Kokkos::OpenMP> tu(pol, 1.0); S.bound = b; n = tu.get_num_ws_slots();
    std::map<int, int> holder, left;
    Kokkos::parallel_for(pol, [&, tu](const Kokkos::TeamPolicy<Kokkos::Schedule<Kokkos::Dynamic>>::member_type& team) {
      int i = tu.get_workspace_idx(team), l = team.league_rank();
      { Quiet q; hi = std::max(hi, i); lo = std::min(lo, i); out = mc::mix(out, i); auto [it, fresh] = holder.emplace(i, l); if (it->second != l) { std::ostringstream os; os << "teams " << it->second << " and " << l << " hold slot " << i; clash = os.str(); } }
      mc::mt::point("use");
      { Quiet q; if (++left[l] == ts) holder.erase(i); }
      tu.release_workspace_idx(team, i);
    });
    MC_LOG(ctx, lg << " teams of " << ts << " on " << np << " threads, dynamic schedule: slots " << lo << " to " << hi << " of " << n);
  });
  MC_CHECK(ctx, clash.empty(), "shared-slot", lg << " teams of " << ts << ": " << clash);
  MC_EXPECT(ctx, lo >= 0 && hi < n, "dynamic-small-league", lg << " teams of " << ts << " threads on a pool of " << np << ", dynamic schedule: slot " << hi << " of " << n << " is handed out");
  ctx.outcome(mc::mix(out, ts * 100 + lg)); ctx.state(ts * 100 + lg);
}
#else
MC_SCENARIO(locked_slots, "the device slot lock: leagues of 1-5 teams of 1-2 threads on the pool, overprovisioning 1, 1.25, 1.5 and 2, single and double precision; the first 4 (thorough 6) probes take every value; all schedules with at most 2 (thorough 3) deviations at compare-and-swap operations, racing accesses and uses", 3) {
  int ts = 1 + ctx.choose(2, "team size"), lg = 1 + ctx.choose(5, "league"); static const double OP[] = {1.0, 1.25, 1.5, 2.0}; double op = OP[ctx.choose(4, "overprovisioning")]; bool fl = ctx.flag("float");
  if (!fl && mc::mt::pool / 2 < ts) { ctx.outcome(1); return; }   // a device always has room for a team
  if (mc::mt::pool < ts) { ctx.outcome(1); return; }
  Kokkos::TeamPolicy<> p(lg, ts); free_draws = 4 + 2 * ctx.tier(); int bound = 2 + ctx.tier();
  if (fl) run<ekat::TeamUtils<float, Kokkos::HIP>>(ctx, p, ts, lg, op, bound, "lock,"); else run<ekat::TeamUtils<double, Kokkos::HIP>>(ctx, p, ts, lg, op, bound, "lock,");
}
MC_SCENARIO(locked_slots_large, "the device slot lock: leagues of 5-9, 16, 17 and 33 teams, overprovisioning 1 to 16; schedules without deviations", 2) {
  int ts = 1 + ctx.choose(2, "team size"), lg = ctx.pick(std::vector<int>{5, 6, 7, 8, 9, 16, 17, 33}, "league"); static const double OP[] = {1.0, 1.25, 2.0, 4.0, 16.0}; double op = OP[ctx.choose(5, "overprovisioning")]; bool fl = ctx.flag("float");
  if (mc::mt::pool < ts || (!fl && mc::mt::pool / 2 < ts)) { ctx.outcome(1); return; }
  Kokkos::TeamPolicy<> p(lg, ts); free_draws = 2;
  if (fl) run<ekat::TeamUtils<float, Kokkos::HIP>>(ctx, p, ts, lg, op, 0, "lock,"); else run<ekat::TeamUtils<double, Kokkos::HIP>>(ctx, p, ts, lg, op, 0, "lock,");
}
MC_SCENARIO(overprovision_below_one, "overprovisioning factors 0, 0.5, 0.99 are rejected", 1) {
  static const double OP[] = {0.0, 0.5, 0.99}; double op = OP[ctx.choose(3, "factor")]; Kokkos::TeamPolicy<> p(8, 1); bool thrown = false;
  try { ekat::TeamUtils<float, Kokkos::HIP> tu(p, op); } catch (const std::exception&) { thrown = true; }
  MC_CHECK(ctx, thrown, "accepted", "overprovisioning factor " << op << " is accepted"); ctx.outcome(uint64_t(op * 100)); ctx.state(uint64_t(op * 100));
}
#endif
