// Tridiagonal solvers: A X = B holds for the X they return. Exactly, in a finite field; up to roundoff in float and double; pack lanes bitwise
// like scalars. With MT: the team solvers on several threads (controlled scheduler).
#ifdef MT
#include "kokkos_mt.hpp"
using mc::mt::Quiet;
#else
#include "mc.hpp"
#endif
#include "tridiag_model.hpp"
using mc::Ctx; using namespace tri;
namespace {
template <class F> void in_kernel_schedule(Ctx& ctx, F&& f) {
#ifdef MT
  mc::mt::explore(ctx, 0, f);
#else
  f();
#endif
}
std::string name(How h, const Call& c, int n, int m, const char* types) { std::ostringstream os; os << SN[h.s] << ", " << HN[h.h] << ", " << n << " rows, " << m << " rhs, " << types << ", " << c.league << " teams of " << c.ts << (c.padded ? ", inside a wider matrix" : ""); return os.str(); }
// exact: one system, right-hand sides e_k + combinations
void exact(Ctx& ctx, How how, const Call& c, const Sys<GF>& s, int shift) {
  in_kernel_schedule(ctx, [&] {
    const int n = s.n, m = s.m; std::vector<std::vector<GF>> x(c.league), b;
    for (int l = 0; l < c.league; ++l) { x[l].resize(n * m); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) x[l][j * n + i] = GF((i == (shift + j) % n ? 1 : 0) + (j % 3 == 2 ? i + 2 : 0) + 5 * l * (i + 1)); }
    b = x; GF::singular = false; const GF junk = GF::raw(123456789);
    std::string err = solve<GF, GF>(how, c, s, x, junk, junk);
    auto nm = [&] { return name(how, c, n, m, "exact"); };
    auto sys = [&] { std::ostringstream os; os << " [dl,d,du of matrix 0:"; auto sh = [](GF g) { return g.v > GF::P / 2 ? -long(GF::P - g.v) : long(g.v); }; for (int i = 0; i < n; ++i) os << " (" << sh(s.dl[i]) << "," << sh(s.d[i]) << "," << sh(s.du[i]) << ")"; os << "]"; return os.str(); };
    MC_CHECK(ctx, err.empty(), "outside", nm() << ": " << err << sys());
    MC_CHECK(ctx, !GF::singular, "zero-pivot", nm() << ": a division by zero for a diagonally dominant matrix" << sys());
    for (int l = 0; l < c.league; ++l) for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) {
      GF r = s.d[s.at(i, j)] * x[l][j * n + i]; if (i) r += s.dl[s.at(i, j)] * x[l][j * n + i - 1]; if (i + 1 < n) r += s.du[s.at(i, j)] * x[l][j * n + i + 1];
      MC_CHECK(ctx, r == b[l][j * n + i], "solution", nm() << ": row " << i << " of A*X differs from B for right-hand side " << j << " of team " << l << sys());
    }
    if (!x.empty() && n) ctx.outcome(mc::mix(x[0][0].v, x[0].back().v));
    ctx.transition(c.league * m);
  });
}
// entries of row i from a code
void row(Sys<GF>& s, int at, int o, int d) { static const int O[] = {-1, 0, 1, 2, -2}; s.dl[at] = O[o % 5]; s.du[at] = O[o / 5 % 5]; int dom = std::abs(O[o % 5]) + std::abs(O[o / 5 % 5]); s.d[at] = (d & 1) ? -(dom + 1) : dom + 1 + (d >> 1); }
void base(Sys<GF>& s, int kind) { for (int j = 0; j < s.na(); ++j) for (int i = 0; i < s.n; ++i) switch ((kind + j) % 4) { case 0: row(s, j * s.n + i, 0, 0); break; case 1: row(s, j * s.n + i, (3 * i + j) % 25, i); break; case 2: row(s, j * s.n + i, i % 3 == 1 ? 1 : 13, 1); break; default: row(s, j * s.n + i, (7 * i + 11 * j) % 25, (i + j) % 4); } }
template <class T> T num(double x) { return T(x); }
}
#ifndef MT
MC_SCENARIO(exact_small, "every solver and shape; every matrix of 1-4 rows (thorough 5) with off-diagonals -1, 0, 1 and two dominant diagonals, each matrix per right-hand side different; 1 and 3 right-hand sides; every unit vector; compact and padded", 3) {
  How how = ALL[ctx.choose(int(ALL.size()), "solver")]; int n = 1 + ctx.choose(4 + ctx.tier(), "rows"); int m = how.h == A1X1 ? 1 : ctx.flag("three") ? 3 : 1; Call c; c.padded = how.h != A1X1 && ctx.flag("padded");
  Sys<GF> s(n, m, how.h == A2X2); long per = 1; for (int i = 0; i < n; ++i) per *= 2; for (int i = 0; i < 2 * (n - 1); ++i) per *= 3; int chunk = int(std::max(1L, per / 16)); int lo = n > 2 ? ctx.choose(16, "part") * chunk : 0, hi = n > 2 ? (lo / chunk == 15 ? int(per) : lo + chunk) : int(per);
  for (long code = lo; code < hi; ++code) for (int k = 0; k < (m == 1 ? n : 1); ++k) {
    for (int j = 0; j < s.na(); ++j) { long q = (code + j * 7919) % per; for (int i = 0; i < n; ++i) { int at = j * n + i; s.d[at] = (q & 1) ? -4 : 3; q >>= 1; }
      for (int i = 0; i < n; ++i) { int at = j * n + i; s.dl[at] = i ? GF(int(q % 3) - 1) : GF(11); if (i) q /= 3; s.du[at] = i + 1 < n ? GF(int(q % 3) - 1) : GF(13); if (i + 1 < n) q /= 3; } }
    exact(ctx, how, c, s, k);
  }
  ctx.state(mc::mix(mc::mix(how.s, how.h), mc::mix(n * 100 + m * 10 + c.padded, lo)));
}
MC_SCENARIO(exact_large, "every solver and shape; 1-20 (thorough 40) rows, 1-5 right-hand sides; four base matrices, one row replaced at each position by 6 others; compact and padded", 3) {
  How how = ALL[ctx.choose(int(ALL.size()), "solver")]; int n = 1 + ctx.choose(ctx.tier() ? 40 : 20, "rows"); int m = how.h == A1X1 ? 1 : 1 + ctx.choose(5, "rhs"); Call c; c.padded = how.h != A1X1 && ctx.flag("padded");
  static const int R[6][2] = {{6, 0}, {24, 1}, {8, 2}, {2, 3}, {10, 0}, {19, 3}};
  for (int kind = 0; kind < 4; ++kind) for (int p = 0; p < n; ++p) for (int r = 0; r < 6; ++r) {
    Sys<GF> s(n, m, how.h == A2X2); base(s, kind); for (int j = 0; j < s.na(); ++j) { row(s, j * n + (p + j) % n, R[r][0], R[r][1]); s.dl[j * n] = 11; s.du[j * n + n - 1] = 13; }
    exact(ctx, how, c, s, p);
  }
  ctx.state(mc::mix(mc::mix(how.s, how.h), n * 100 + m * 10 + c.padded));
}
namespace {
template <class T> constexpr double eps() { return std::numeric_limits<T>::epsilon(); }
double entry(int w, int i, int j, int seed) { static const double O[] = {-1, 0.5, 0, 0.3, -0.7, 1e-3, 1, 0.25}; return O[(i * 5 + j * 3 + w * 2 + seed) % 8]; }
template <class T> void matrix(Sys<T>& s, int seed, bool nan) {
  for (int j = 0; j < s.na(); ++j) for (int i = 0; i < s.n; ++i) { int a = j * s.n + i; double l = entry(0, i, j, seed), u = entry(1, i, j, seed + seed / 8); double dom = (i ? std::fabs(l) : 0) + (i + 1 < s.n ? std::fabs(u) : 0);
    double sc = (seed & 16) ? (i % 2 ? 1e3 : 1e-2) : 1; s.dl[a] = T(l * sc); s.du[a] = T(u * sc); s.d[a] = T(((i + seed) % 3 == 1 ? -1 : 1) * (dom * 1.0625 + ((i + j + seed) % 4 == 0 ? 3.0 : 0.125)) * sc); 
    if (i == 0) s.dl[a] = nan ? std::numeric_limits<T>::quiet_NaN() : T(7); if (i + 1 == s.n) s.du[a] = nan ? std::numeric_limits<T>::quiet_NaN() : T(9); }
}
double rhs(int i, int j, int seed) { return ((i * 7 + j * 5 + seed) % 11 - 5) * ((i + seed) % 3 == 0 ? 100.0 : 0.37) + (j == 0 && i == 0 ? 1 : 0); }
template <class T, class TX> void backward_error(Ctx& ctx, How how, const Call& c, int n, int m, int seed, bool nan, const char* types) {
  Sys<T> s(n, m, how.h == A2X2); matrix(s, seed, nan); std::vector<std::vector<TX>> x(1), b; x[0].resize(n * m); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) x[0][j * n + i] = TX(rhs(i, j, seed)); b = x;
  std::string err = solve<T, TX>(how, c, s, x, T(77), TX(88)); auto nm = [&] { return name(how, c, n, m, types) + ", coefficients " + std::to_string(seed) + (nan ? ", NaN in the entries that are not part of the matrix" : ""); };
  MC_CHECK(ctx, err.empty(), "outside", nm() << ": " << err);
  double e = std::max(eps<T>(), eps<TX>());
  for (int j = 0; j < m; ++j) {
    double xm = 0; for (int i = 0; i < n; ++i) xm = std::max(xm, std::fabs(double(x[0][j * n + i])));
    for (int i = 0; i < n; ++i) {
      long double r = -(long double)b[0][j * n + i], sz = std::fabs((double)b[0][j * n + i]); auto add = [&](T a, int k) { r += (long double)a * x[0][j * n + k]; sz += std::fabs(double(a)) * xm; };
      add(s.d[s.at(i, j)], i); if (i) add(s.dl[s.at(i, j)], i - 1); if (i + 1 < n) add(s.du[s.at(i, j)], i + 1);
      MC_CHECK(ctx, std::fabs((double)r) <= 24 * e * (double)sz, "residual", nm() << ": row " << i << " of right-hand side " << j << ": residual " << (double)r << ", allowed " << 24 * e * (double)sz);
    }
  }
  ctx.outcome(mc::hash_bytes(x[0].data(), x[0].size() * sizeof(TX), mc::mix(how.s, how.h))); ctx.transition(m);
}
// lanes of packs against scalars, bitwise
template <int P, bool AP> void packs(Ctx& ctx, How how, const Call& c, int n, int mp, int seed) {
  using XP = ekat::Pack<double, P>; using T = std::conditional_t<AP, XP, double>;
  Sys<T> s(n, mp, how.h == A2X2); Sys<double> sd(n, s.na() * P, true); matrix(sd, seed, false);
  for (int j = 0; j < s.na(); ++j) for (int i = 0; i < n; ++i) { if constexpr (AP) for (int k = 0; k < P; ++k) { s.dl[j * n + i][k] = sd.dl[(j * P + k) * n + i]; s.d[j * n + i][k] = sd.d[(j * P + k) * n + i]; s.du[j * n + i][k] = sd.du[(j * P + k) * n + i]; } else { s.dl[j * n + i] = sd.dl[j * P * n + i]; s.d[j * n + i] = sd.d[j * P * n + i]; s.du[j * n + i] = sd.du[j * P * n + i]; } }
  std::vector<std::vector<XP>> x(1); x[0].resize(n * mp); for (int j = 0; j < mp; ++j) for (int i = 0; i < n; ++i) for (int k = 0; k < P; ++k) x[0][j * n + i][k] = rhs(i, j * P + k, seed);
  std::string err = solve<T, XP>(how, c, s, x, T(77), XP(88)); auto nm = [&] { return name(how, c, n, mp, AP ? "packs" : "scalar matrix, pack rhs") + " of " + std::to_string(P) + ", coefficients " + std::to_string(seed); };
  MC_CHECK(ctx, err.empty(), "outside", nm() << ": " << err);
  How h1 = how.s == CR ? How{CR, A1X1} : How{THOMAS, A1X1};
  for (int j = 0; j < mp; ++j) for (int k = 0; k < P; ++k) {
    Sys<double> s1(n, 1, false); int a = s.na() == 1 ? (AP ? k : 0) : j * P + k; for (int i = 0; i < n; ++i) { s1.dl[i] = sd.dl[a * n + i]; s1.d[i] = sd.d[a * n + i]; s1.du[i] = sd.du[a * n + i]; }
    std::vector<std::vector<double>> y(1); y[0].resize(n); for (int i = 0; i < n; ++i) y[0][i] = rhs(i, j * P + k, seed);
    solve<double, double>(h1, Call{}, s1, y, 1.0, 1.0);
    for (int i = 0; i < n; ++i) MC_CHECK(ctx, same(double(x[0][j * n + i][k]), y[0][i]), "pack-lane", nm() << ": row " << i << ", lane " << k << " of column " << j << " is " << x[0][j * n + i][k] << ", the scalar solve gives " << y[0][i]);
  }
  ctx.outcome(mc::hash_bytes(x[0].data(), x[0].size() * sizeof(XP), mc::mix(how.s, how.h))); ctx.transition(mp);
}
}
MC_SCENARIO(roundoff, "every solver and shape in float, double and mixed precision; 1-20 (thorough 40) rows, 1-5 right-hand sides; 32 coefficient patterns, half of them badly scaled; NaN in the two entries outside of the matrix", 3) {
  How how = ALL[ctx.choose(int(ALL.size()), "solver")]; int n = 1 + ctx.choose(ctx.tier() ? 40 : 20, "rows"); int m = how.h == A1X1 ? 1 : 1 + ctx.choose(5, "rhs"); Call c; c.padded = how.h != A1X1 && ctx.flag("padded");
  int ty = ctx.choose(4, "types"); bool nan = ctx.flag("nan"); if (ty > 1 && how.s == THOMAS && how.h == A2X2) { ctx.outcome(1); return; }
  for (int seed = 0; seed < 32; ++seed) switch (ty) { case 0: backward_error<double, double>(ctx, how, c, n, m, seed, nan, "double"); break; case 1: backward_error<float, float>(ctx, how, c, n, m, seed, nan, "float"); break;
    case 2: backward_error<double, float>(ctx, how, c, n, m, seed, nan, "double matrix, float rhs"); break; default: backward_error<float, double>(ctx, how, c, n, m, seed, nan, "float matrix, double rhs"); }
  ctx.state(mc::mix(mc::mix(how.s, how.h), n * 1000 + m * 100 + c.padded * 10 + ty * 2 + nan));
}
MC_SCENARIO(large_systems, "every solver and shape; 31-500 rows and 1-33 right-hand sides around powers of two; exact with four base matrices, to roundoff in double with 4 coefficient patterns; compact and padded", 2) {
  How how = ALL[ctx.choose(int(ALL.size()), "solver")]; int n = ctx.pick(std::vector<int>{31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257, 500}, "rows"), m = how.h == A1X1 ? 1 : ctx.pick(std::vector<int>{1, 2, 16, 17, 33}, "rhs"); Call c; c.padded = how.h != A1X1 && ctx.flag("padded");
  for (int kind = 0; kind < 4; ++kind) { Sys<GF> s(n, m, how.h == A2X2); base(s, kind); for (int j = 0; j < s.na(); ++j) { s.dl[j * n] = 11; s.du[j * n + n - 1] = 13; } exact(ctx, how, c, s, n / 2); }
  for (int seed = 0; seed < 32; seed += 9) backward_error<double, double>(ctx, how, c, n, m, seed, seed & 1, "double");
  ctx.state(mc::mix(mc::mix(how.s, how.h), n * 1000 + m * 10 + c.padded));
}
MC_SCENARIO(pack_lanes, "pack matrices and pack right-hand sides, scalar matrices with pack right-hand sides: 1-12 rows, 1-3 columns, pack sizes 2, 4, 8; every lane bitwise as with scalars", 3) {
  How how = ALL[ctx.choose(int(ALL.size()), "solver")]; int n = 1 + ctx.choose(12, "rows"); int m = how.h == A1X1 ? 1 : 1 + ctx.choose(3, "columns"); Call c; c.padded = how.h != A1X1 && ctx.flag("padded"); bool ap = ctx.flag("pack matrix"); int P = ctx.choose(3, "pack");
  if (!ap && (how.s == CR || how.h == A2X2)) { ctx.outcome(1); return; }   // not among the documented forms
  for (int seed = 0; seed < 8; ++seed) { if (ap) { if (P == 0) packs<2, true>(ctx, how, c, n, m, seed); else if (P == 1) packs<4, true>(ctx, how, c, n, m, seed); else packs<8, true>(ctx, how, c, n, m, seed); }
    else { if (P == 0) packs<2, false>(ctx, how, c, n, m, seed); else if (P == 1) packs<4, false>(ctx, how, c, n, m, seed); else packs<8, false>(ctx, how, c, n, m, seed); } }
  ctx.state(mc::mix(mc::mix(how.s, how.h), n * 1000 + m * 100 + c.padded * 10 + ap * 4 + P));
}
#else
MC_SCENARIO(large_teams, "every team solver and shape; one team of 1-pool threads, 31-257 rows, 1-33 right-hand sides around powers of two; four base matrices; exact", 3) {
  static const std::vector<How> T(ALL.begin() + 3, ALL.end()); How how = T[ctx.choose(int(T.size()), "solver")]; Call c; c.ts = 1 + ctx.choose(mc::mt::pool, "team size");
  int n = ctx.pick(std::vector<int>{31, 32, 33, 64, 65, 128, 257}, "rows"), m = how.h == A1X1 ? 1 : ctx.pick(std::vector<int>{1, 16, 17, 33}, "rhs"); c.padded = how.h != A1X1 && ctx.flag("padded"); if (!ctx.tier() && n * m > 1200) return;
  for (int kind = 0; kind < 4; ++kind) { Sys<GF> s(n, m, how.h == A2X2); base(s, kind); for (int j = 0; j < s.na(); ++j) { s.dl[j * n] = 11; s.du[j * n + n - 1] = 13; } exact(ctx, how, c, s, n / 2); }
  ctx.state(mc::mix(mc::mix(how.s, how.h), mc::mix(n * 100 + m * 10 + c.padded, c.ts)));
}
MC_SCENARIO(exact_teams, "every team solver and shape; 1-2 (thorough 3) teams of 1-pool threads, 1-13 (thorough 34) rows, 1-5 (thorough 9) right-hand sides; four base matrices with a changed row; exact", 3) {
  static const std::vector<How> T(ALL.begin() + 3, ALL.end()); How how = T[ctx.choose(int(T.size()), "solver")]; Call c; c.ts = 1 + ctx.choose(mc::mt::pool, "team size"); c.league = 1 + ctx.choose(2 + ctx.tier(), "teams");
  int n = 1 + ctx.choose(ctx.tier() ? 34 : 13, "rows"), m = how.h == A1X1 ? 1 : 1 + ctx.choose(ctx.tier() ? 9 : 5, "rhs"); c.padded = how.h != A1X1 && ctx.flag("padded");
  for (int kind = 0; kind < 4; ++kind) { int p = (kind * 5 + n / 2) % n; Sys<GF> s(n, m, how.h == A2X2); base(s, kind); for (int j = 0; j < s.na(); ++j) { row(s, j * n + (p + j) % n, 8, 2); s.dl[j * n] = 11; s.du[j * n + n - 1] = 13; } exact(ctx, how, c, s, p); }
  ctx.state(mc::mix(mc::mix(how.s, how.h), mc::mix(n * 100 + m * 10 + c.padded, c.ts * 10 + c.league)));
}
#endif
