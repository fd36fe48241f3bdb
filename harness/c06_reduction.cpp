// Team reductions under the controlled scheduler: every range, every thread gets the sum of exactly the entries of the range. Entries are
// powers of two, so that a sum tells which entries it counted; everything outside of the range is NaN (or a large number).
#include "kokkos_mt.hpp"
#include <Kokkos_Core.hpp>
#include "ekat_reduction_utils.hpp"
#include <limits>
using mc::Ctx; using mc::mt::Quiet;
namespace {
using Exe = Kokkos::DefaultExecutionSpace; using Member = Kokkos::TeamPolicy<>::member_type;
enum Mode { SERIAL, TEAM, DEFAULT }; enum Form { VIEW, FUNCTOR, REDUCE };
const char* MN[] = {"serialized", "not serialized", "default mode"}; const char* FN[] = {"view_reduction of a view", "view_reduction of a functor", "parallel_reduce"};
bool serial(Mode m) { return m == SERIAL || (m == DEFAULT && ekat::ekatBFB); }
// exact: 0 sums round, 1 powers of two, 2 integers whose sums are exact for hundreds of entries
template <class T> T entry(int k, int exact, int l) { if (exact == 2) return std::is_same_v<T, float> ? T(k * 3 + 1) : T(mc::mix(99 + l, k) >> (std::is_same_v<T, int> ? 44 : 24)); if (exact) return T(1ull << k); uint64_t h = mc::mix(777 + l, k); return T((0.5 + double(h >> 12) / double(1ull << 52)) * ((h & 1) ? 1e3 : -1) * ((h & 6) ? 1 : 1e-6)); }
template <class T> T poison() { if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::quiet_NaN(); else return T(0x15550000); }
template <int M, class V, class In> KOKKOS_INLINE_FUNCTION auto call(const Member& t, int b, int e, const In& in) {
  if constexpr (M == SERIAL) return ekat::ReductionUtils<Exe, true>::view_reduction(t, b, e, in); else if constexpr (M == TEAM) return ekat::ReductionUtils<Exe, false>::view_reduction(t, b, e, in); else return ekat::ReductionUtils<Exe>::view_reduction(t, b, e, in);
}
template <int M, class V, class In> KOKKOS_INLINE_FUNCTION V callr(const Member& t, int b, int e, const In& in) {
  if constexpr (M == SERIAL) return ekat::ReductionUtils<Exe, true>::template parallel_reduce<V>(t, b, e, in); else if constexpr (M == TEAM) return ekat::ReductionUtils<Exe, false>::template parallel_reduce<V>(t, b, e, in); else return ekat::ReductionUtils<Exe>::template parallel_reduce<V>(t, b, e, in);
}
// N: pack size (0: scalar entries). All ends for one begin.
template <class T, int N, int M> void run(Ctx& ctx, Form form, int ts, int lg, int n, int b, int exact, const char* tn) {
  constexpr int P = N ? N : 1; using E = std::conditional_t<N == 0, T, ekat::Pack<T, P>>;
  std::ostringstream os; os << FN[form] << " of " << tn << (N ? " packs of " + std::to_string(N) : "") << ", " << MN[M] << ", " << lg << " teams of " << ts; std::string nm = os.str();
  for (int e = b; e <= n; ++e) {
    if (exact == 2 && e > b + 1 && (e & (e - 1)) && ((e - 1) & (e - 2)) && ((e + 1) & e) && e % 100) continue; // powers of two and their neighbours, and hundreds
    // parallel_reduce counts entries, view_reduction scalars
    const int unit = form == REDUCE ? P : 1, ne = (n * unit + P - 1) / P + 1;   // one entry more than needed
    mc::mt::explore(ctx, 1, [&] {
      Kokkos::View<E**, Kokkos::LayoutRight> v("v", lg, ne); std::vector<E> out(lg * ts);
      for (int l = 0; l < lg; ++l) for (int i = 0; i < ne; ++i) for (int k = 0; k < P; ++k) { int s = i * P + k; reinterpret_cast<T*>(&v(l, i))[k] = s >= b * unit && s < e * unit ? entry<T>(exact == 1 ? (form == REDUCE ? i : s) + (l % 2 ? 1 : 0) : s, exact, l) : poison<T>(); }
      std::vector<T> got(lg * ts, poison<T>()); T* g = got.data(); std::vector<E> gotp(lg * ts); E* gp = gotp.data();
      Kokkos::parallel_for(Kokkos::TeamPolicy<>(lg, ts), [=](const Member& t) {
        const int l = t.league_rank(), me = l * ts + t.team_rank(); auto row = Kokkos::subview(v, l, Kokkos::ALL());
        if (form == VIEW) g[me] = call<M, T>(t, b, e, row);
        else if (form == FUNCTOR) g[me] = call<M, T>(t, b, e, [row](const int k) { return row(k); });
        else gp[me] = callr<M, E>(t, b, e, [row](const int k, E& s) { s += row(k); });
      });
      for (int l = 0; l < lg; ++l) {
        if (form == REDUCE) {
          for (int k = 0; k < P; ++k) { T want = 0; for (int i = b; i < e; ++i) want += reinterpret_cast<T*>(&v(l, i))[k];
            for (int t = 0; t < ts; ++t) { T x = reinterpret_cast<T*>(&gotp[l * ts + t])[k]; MC_CHECK(ctx, std::memcmp(&x, &want, sizeof x) == 0, "value", nm << ", range [" << b << "," << e << "): thread " << t << " of team " << l << " gets " << x << ", expected " << want << " (lane " << k << ")"); } }
        } else {
          T want = 0; for (int s = b; s < e; ++s) want += reinterpret_cast<T*>(&v(l, s / P))[s % P];
          for (int t = 0; t < ts; ++t) { T x = got[l * ts + t]; MC_CHECK(ctx, std::memcmp(&x, &want, sizeof x) == 0, "value", nm << ", range [" << b << "," << e << "): thread " << t << " of team " << l << " gets " << x << ", expected " << want); }
          ctx.outcome(mc::hash_bytes(&want, sizeof want));
        }
      }
    });
    MC_EXPECT(ctx, mc::mt::stats.racy == 0, "race", nm << ", range [" << b << "," << e << "): " << mc::mt::stats.racy << " places race"); ctx.transition(mc::mt::stats.accesses);
  }
  ctx.state(mc::mix(mc::hash_str(nm), b * 100 + n)); MC_LOG(ctx, nm << ", ranges from " << b << " to at most " << n);
}
template <class T, int N> void modes(Ctx& ctx, Mode m, Form f, int ts, int lg, int n, int b, int exact, const char* tn) { switch (m) { case SERIAL: run<T, N, SERIAL>(ctx, f, ts, lg, n, b, exact, tn); break; case TEAM: run<T, N, TEAM>(ctx, f, ts, lg, n, b, exact, tn); break; default: run<T, N, DEFAULT>(ctx, f, ts, lg, n, b, exact, tn); } }
template <class T> void packs(Ctx& ctx, int N, Mode m, Form f, int ts, int lg, int n, int b, int exact, const char* tn) {
  switch (N) { case 0: modes<T, 0>(ctx, m, f, ts, lg, n, b, exact, tn); break; case 1: modes<T, 1>(ctx, m, f, ts, lg, n, b, exact, tn); break; case 2: modes<T, 2>(ctx, m, f, ts, lg, n, b, exact, tn); break; case 4: modes<T, 4>(ctx, m, f, ts, lg, n, b, exact, tn); break; case 8: modes<T, 8>(ctx, m, f, ts, lg, n, b, exact, tn); break; }
}
const int NP[] = {0, 1, 2, 4, 8};
}
MC_SCENARIO(which_entries, "view_reduction of views and functors and parallel_reduce; scalars and packs of 1, 2, 4, 8; double, float, int; serialized, not, default; one team of 1 to pool threads; every range [b,e) with 0<=b<=e<=n, n = three packs and 1 more, at most 23 (scalars: 13; thorough: four packs and 3 more, at most 27; 22)", 4) {
  int N = NP[ctx.choose(5, "pack")]; Mode m = Mode(ctx.choose(3, "mode")); Form f = Form(ctx.choose(3, "form")); int ts = 1 + ctx.choose(mc::mt::pool, "team size"), ty = ctx.choose(3, "type");
  int n = f == REDUCE || !N ? (ctx.tier() ? 22 : 13) : std::min(ty == 1 ? 23 : 27, (3 + ctx.tier()) * N + (ctx.tier() ? 3 : 1)); int b = ctx.choose(n + 1, "begin");
  if (ty == 0) packs<double>(ctx, N, m, f, ts, 1, n, b, 1, "double"); else if (ty == 1) packs<float>(ctx, N, m, f, ts, 1, n, b, 1, "float"); else packs<int>(ctx, N, m, f, ts, 1, n, b, 1, "int");
}
MC_SCENARIO(serial_bits, "serialized reductions of values whose sums round: bitwise the sum from left to right; double and float, all forms, packs and scalars, one team of 1 to pool threads, every range up to two packs and 2 more", 4) {
  int N = NP[ctx.choose(5, "pack")]; Mode m = ctx.flag("default") && ekat::ekatBFB ? DEFAULT : SERIAL; Form f = Form(ctx.choose(3, "form")); int ts = 1 + ctx.choose(mc::mt::pool, "team size"); bool fl = ctx.flag("float"); int n = f == REDUCE || !N ? 9 : 2 * N + 2; int b = ctx.choose(n + 1, "begin");
  if (fl) packs<float>(ctx, N, m, f, ts, 1, n, b, 0, "float"); else packs<double>(ctx, N, m, f, ts, 1, n, b, 0, "double");
}
MC_SCENARIO(several_teams, "2 to pool+1 teams of 1-2 threads, each with its own entries; double, all forms and modes, packs and scalars; every range up to one pack and 2 more", 4) {
  int N = NP[ctx.choose(5, "pack")]; Mode m = Mode(ctx.choose(3, "mode")); Form f = Form(ctx.choose(3, "form")); int ts = 1 + ctx.choose(std::min(2, mc::mt::pool), "team size"), lg = 2 + ctx.choose(mc::mt::pool, "teams"); int n = f == REDUCE || !N ? 5 : N + 2; int b = ctx.choose(n + 1, "begin");
  packs<double>(ctx, N, m, f, ts, lg, n, b, 1, "double");
}
MC_SCENARIO(long_ranges, "ranges that begin at 0-3, or at and around a power of two, and end at and around another, up to 130 (thorough 520) entries or scalars; all forms, modes and packs; one team of 1 to pool threads", 4) {
  int N = NP[ctx.choose(5, "pack")]; Mode m = Mode(ctx.choose(3, "mode")); Form f = Form(ctx.choose(3, "form")); int ts = 1 + ctx.choose(mc::mt::pool, "team size"), ty = ctx.choose(3, "type"), n = ctx.tier() ? 520 : 130, b = ctx.pick(std::vector<int>{0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127}, "begin");
  if (ty == 0) packs<double>(ctx, N, m, f, ts, 1, n, b, 2, "double"); else if (ty == 1) packs<float>(ctx, N, m, f, ts, 1, n, b, 2, "float"); else packs<int>(ctx, N, m, f, ts, 1, n, b, 2, "int");
}
MC_SCENARIO(wide_packs, "packs of 16 and 32 doubles: all forms and modes, one team of 1 to pool threads, every range [b,e) with 0<=b<=e<=49 for packs of 16 (parallel_reduce: 9); for packs of 32 the long ranges above", 4) {
  bool w = ctx.flag("packs of 32"); Mode m = Mode(ctx.choose(3, "mode")); Form f = Form(ctx.choose(3, "form")); int ts = 1 + ctx.choose(mc::mt::pool, "team size"), n = w ? 130 : f == REDUCE ? 9 : 49, b = w ? ctx.pick(std::vector<int>{0, 1, 15, 16, 17, 31, 32, 33, 64, 65}, "begin") : ctx.choose(n + 1, "begin");
  if (w) modes<double, 32>(ctx, m, f, ts, 1, n, b, 2, "double"); else modes<double, 16>(ctx, m, f, ts, 1, n, b, 1, "double");
}
