// Team tridiagonal solves under the controlled scheduler: no races, the same bits for every schedule and team size.
#include "kokkos_mt.hpp"
#include "tridiag_model.hpp"
#include <functional>
using mc::Ctx; using namespace tri; using mc::mt::Quiet;
namespace {
// coefficients whose sums and products all round differently, so that a changed order of operations changes bits
double val(int k) { uint64_t h = mc::mix(12345, k); return 0.5 + double(h >> 12) / double(uint64_t(1) << 52); }
template <class T> T make(double x, int k);
template <> double make<double>(double x, int) { return x; } template <> float make<float>(double x, int) { return float(x); }
template <> ekat::Pack<double, 2> make<ekat::Pack<double, 2>>(double x, int k) { ekat::Pack<double, 2> p; p[0] = x; p[1] = x * (1 + 0.125 * val(k)); return p; }
template <class T> void fill(Sys<T>& s) { for (int j = 0; j < s.na(); ++j) for (int i = 0; i < s.n; ++i) { int k = (j * 64 + i) * 3; double l = val(k) - 1.1, u = val(k + 1) * ((i + j) % 2 ? 1 : -1); s.dl[s.at(i, j)] = make<T>(l, k); s.du[s.at(i, j)] = make<T>(u, k + 1); s.d[s.at(i, j)] = make<T>(((i + j) % 3 == 1 ? -1 : 1) * (2.7 + val(k + 2)), k + 2); } }
template <class T> std::vector<T> rhs(int n, int m, int l) { std::vector<T> x(n * m); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) x[j * n + i] = make<T>(val(1000 + l * 5000 + j * 64 + i) * (i % 2 ? 3 : -1), i); return x; }
template <class T> std::string bits(const std::vector<std::vector<T>>& x) { std::string r; for (auto& v : x) r.append(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T)); return r; }
template <class T> void run(Ctx& ctx, How how, const Call& c, int n, int m, int bound, const char* types) {
  Sys<T> s(n, m, how.h == A2X2); fill(s); const T junk = make<T>(1.5, 0);
  std::ostringstream os; os << SN[how.s] << ", " << HN[how.h] << ", " << n << " rows, " << m << " rhs, " << types << (c.padded ? ", inside a wider matrix" : ""); std::string nm = os.str();
  // reference: one team of one thread (and, for the bit-for-bit solver and Thomas, the serial solve)
  std::vector<std::vector<T>> ref; std::string err;
  for (int l = 0; l < c.league; ++l) { std::vector<std::vector<T>> x = {rhs<T>(n, m, l)}; err += solve<T, T>(how, Call{1, 1, c.padded}, s, x, junk, junk); ref.push_back(x[0]); }
  if (how.s != CR) for (int l = 0; l < c.league; ++l) { How h{THOMAS, how.h == A2ONE ? A1X2 : how.h}; if (how.h == A2ONE && m == 1) h.h = A1X2;
    std::vector<std::vector<T>> x = {rhs<T>(n, m, l)}; Sys<T> t = s; solve<T, T>(h, Call{}, t, x, junk, junk);
    MC_CHECK(ctx, bits<T>({ref[l]}) == bits<T>(x), "serial-bits", nm << ": one thread gives other bits than the serial Thomas solve"); }
  std::string want = bits(ref), got; int execs = 0;
  mc::mt::explore(ctx, bound, [&] {
    std::vector<std::vector<T>> x; for (int l = 0; l < c.league; ++l) x.push_back(rhs<T>(n, m, l));
    std::string e = solve<T, T>(how, c, s, x, junk, junk); ++execs;
    MC_CHECK(ctx, e.empty(), "outside", nm << ", " << c.league << " teams of " << c.ts << ": " << e);
    for (int l = 0; l < c.league; ++l) for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i)
      MC_CHECK(ctx, same(x[l][j * n + i], ref[l][j * n + i]), "bits", nm << ": with " << c.league << " teams of " << c.ts << " threads, row " << i << " of right-hand side " << j << " of team " << l << " differs from the result of one thread");
  });
  MC_EXPECT(ctx, mc::mt::stats.racy == 0, "race", nm << ", " << c.league << " teams of " << c.ts << ": " << mc::mt::stats.racy << " places race");
  MC_LOG(ctx, nm << ": " << c.league << " teams of " << c.ts << ": " << mc::mt::stats.accesses << " accesses");
  ctx.outcome(mc::hash_str(want)); ctx.state(mc::mix(mc::hash_str(nm), c.league * 10 + c.ts)); ctx.transition(mc::mt::stats.accesses);
}
static const std::vector<How> TEAM(ALL.begin() + 3, ALL.end());
}
MC_SCENARIO(one_team, "every team solver and shape; one team of 1 to pool threads; 1-20 (thorough 34) rows, 1-6 (thorough 9) right-hand sides; double and float; compact and padded; race detection over all accesses, all schedules with at most 2 deviations where a race is seen", 3) {
  How how = TEAM[ctx.choose(int(TEAM.size()), "solver")]; Call c; c.ts = 1 + ctx.choose(mc::mt::pool, "team size"); int n = 1 + ctx.choose(ctx.tier() ? 34 : 20, "rows"), m = how.h == A1X1 ? 1 : 1 + ctx.choose(ctx.tier() ? 9 : 6, "rhs");
  c.padded = how.h != A1X1 && ctx.flag("padded"); if (ctx.flag("float")) run<float>(ctx, how, c, n, m, 2, "float"); else run<double>(ctx, how, c, n, m, 2, "double");
}
MC_SCENARIO(several_teams, "every team solver and shape; 2 to pool+1 teams of 1-3 threads with a system each; 1-9 (thorough 17) rows, 1-4 right-hand sides", 3) {
  How how = TEAM[ctx.choose(int(TEAM.size()), "solver")]; Call c; c.ts = 1 + ctx.choose(std::min(3, mc::mt::pool), "team size"); c.league = 2 + ctx.choose(mc::mt::pool, "teams"); int n = 1 + ctx.choose(ctx.tier() ? 17 : 9, "rows"), m = how.h == A1X1 ? 1 : 1 + ctx.choose(4, "rhs");
  run<double>(ctx, how, c, n, m, 1, "double");
}
MC_SCENARIO(pack_teams, "pack entries: every team solver and shape; one team of 1 to pool threads; 1-9 (thorough 17) rows, 1-4 columns of packs", 3) {
  How how = TEAM[ctx.choose(int(TEAM.size()), "solver")]; Call c; c.ts = 1 + ctx.choose(mc::mt::pool, "team size"); int n = 1 + ctx.choose(ctx.tier() ? 17 : 9, "rows"), m = how.h == A1X1 ? 1 : 1 + ctx.choose(4, "columns");
  run<ekat::Pack<double, 2>>(ctx, how, c, n, m, 2, "packs");
}
MC_SCENARIO(large_systems, "every team solver and shape; one team of 1 to pool threads; 31-129 rows, 1-33 right-hand sides around powers of two; double", 3) {
  How how = TEAM[ctx.choose(int(TEAM.size()), "solver")]; Call c; c.ts = 1 + ctx.choose(mc::mt::pool, "team size"); int n = ctx.pick(std::vector<int>{31, 32, 33, 64, 65, 129}, "rows"), m = how.h == A1X1 ? 1 : ctx.pick(std::vector<int>{1, 15, 16, 17, 33}, "rhs"); if (!ctx.tier() && n * m > 600) return;
  run<double>(ctx, how, c, n, m, 1, "double");
}
