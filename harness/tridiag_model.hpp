// Tridiagonal systems for C04 and C05: the systems, an exact field to solve them in, and one call for every solver and calling shape.
#pragma once
#include <Kokkos_Core.hpp>
#include "ekat_pack.hpp"
#include "ekat_tridiag.hpp"
#include <cmath>
#include <limits>
namespace tri {
// The integers modulo 2^61-1. A diagonally dominant integer matrix whose minors are smaller than the modulus has no zero pivot, so a
// correct solver never divides by zero here, and its answer satisfies A x = b exactly.
struct GF {
  static constexpr uint64_t P = (uint64_t(1) << 61) - 1; static inline bool singular = false;
  uint64_t v = 0;
  GF() = default; GF(const GF&) = default; GF& operator=(const GF&) = default;
  GF(long x) : v(x >= 0 ? uint64_t(x) % P : P - uint64_t(-x) % P) {} GF(int x) : GF(long(x)) {}
  static GF raw(uint64_t x) { GF g; g.v = x; return g; }
  static uint64_t mul(uint64_t a, uint64_t b) { unsigned __int128 t = (unsigned __int128)a * b; uint64_t lo = uint64_t(t) & P, hi = uint64_t(t >> 61), s = lo + hi; return s >= P ? s - P : s; }
  static uint64_t inv(uint64_t a) { long t = 0, nt = 1; uint64_t r = P, nr = a; while (nr) { uint64_t q = r / nr; long x = t - long(q) * nt; t = nt; nt = x; uint64_t y = r - q * nr; r = nr; nr = y; } return t < 0 ? uint64_t(t + long(P)) : uint64_t(t); }
  GF operator-() const { return raw(v ? P - v : 0); }
  GF& operator+=(GF o) { v += o.v; if (v >= P) v -= P; return *this; }
  GF& operator-=(GF o) { return *this += -o; }
  GF& operator*=(GF o) { v = mul(v, o.v); return *this; }
  GF& operator/=(GF o) { if (!o.v) { singular = true; v = 0; return *this; } v = mul(v, inv(o.v)); return *this; }
  friend GF operator+(GF a, GF b) { return a += b; } friend GF operator-(GF a, GF b) { return a -= b; } friend GF operator*(GF a, GF b) { return a *= b; } friend GF operator/(GF a, GF b) { return a /= b; }
  bool operator==(const GF& o) const { return v == o.v; } bool operator!=(const GF& o) const { return v != o.v; }
};
enum Solver { THOMAS, THOMAS_TEAM, CR, BFB }; enum Shape { A1X1, A1X2, A2X2, A2ONE };
struct How { Solver s; Shape h; };
static const std::vector<How> ALL = {{THOMAS, A1X1}, {THOMAS, A1X2}, {THOMAS, A2X2}, {THOMAS_TEAM, A1X2}, {CR, A1X1}, {CR, A1X2}, {CR, A2X2}, {BFB, A1X2}, {BFB, A2X2}, {BFB, A2ONE}};
static const char* SN[] = {"thomas", "thomas(team)", "cr", "bfb"}; static const char* HN[] = {"one matrix, one rhs (rank 1)", "one matrix", "a matrix per rhs", "one matrix of rank 2"};
template <class T> struct Sys { int n, m; bool many; std::vector<T> dl, d, du; /* [col*n+row] */ int na() const { return many ? m : 1; }
  Sys(int n_, int m_, bool many_) : n(n_), m(m_), many(many_), dl(n_ * (many_ ? m_ : 1)), d(dl), du(dl) {}
  int at(int i, int j) const { return (many ? j : 0) * n + i; } };
struct Call { int league = 1, ts = 1; bool padded = false; };
// Layout: compact, or columns 2..2+c of a matrix with more columns (a LayoutRight view with a larger row stride)
template <class T> struct Mat {
  using V2 = Kokkos::View<T**, Kokkos::LayoutRight>; using V1 = Kokkos::View<T*>;
  V2 base; V2 v; V1 v1; int n, c; bool pad;
  Mat(int n_, int c_, bool one, bool pad_, const T& junk) : n(n_), c(c_), pad(pad_) {
    if (one) { v1 = V1("v", n); for (int i = 0; i < n; ++i) v1(i) = junk; return; }
    base = V2("b", n, pad ? c + 3 : c); for (int i = 0; i < n; ++i) for (int j = 0; j < int(base.extent(1)); ++j) base(i, j) = junk;
    if (pad) v = Kokkos::subview(base, Kokkos::ALL(), std::make_pair(2, 2 + c)); else v = base;
  }
};
template <class T> bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof a) == 0; }
// Solves in place. x: [col*n+row], holds the right-hand sides of one team; team t of a league uses the same system with x scaled by the
// caller (xs[t]). Returns "" or what else was changed.
template <class T, class TX> std::string solve(How how, const Call& c, const Sys<T>& s, std::vector<std::vector<TX>>& xs, const T& junk, const TX& xjunk) {
  const int n = s.n, m = s.m; bool one = how.h == A1X1, arank1 = how.h == A1X1 || how.h == A1X2; int L = c.league;
  std::vector<Mat<T>> A; std::vector<Mat<TX>> X;
  for (int l = 0; l < L; ++l) {
    for (int k = 0; k < 3; ++k) A.emplace_back(n, s.na(), arank1, c.padded, junk);
    X.emplace_back(n, m, one, c.padded, xjunk);
    const std::vector<T>* src[] = {&s.dl, &s.d, &s.du};
    for (int k = 0; k < 3; ++k) for (int j = 0; j < s.na(); ++j) for (int i = 0; i < n; ++i) (arank1 ? A[3 * l + k].v1(i) : A[3 * l + k].v(i, j)) = (*src[k])[j * n + i];
    for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) (one ? X[l].v1(i) : X[l].v(i, j)) = xs[l][j * n + i];
  }
  auto *a = A.data(); auto* x = X.data();
  Kokkos::TeamPolicy<> pol(L, c.ts); using M = Kokkos::TeamPolicy<>::member_type; namespace td = ekat::tridiag;
#define EACH(code) Kokkos::parallel_for(pol, [a, x](const M& team) { const int l = team.league_rank(); auto &DL = a[3 * l], &D = a[3 * l + 1], &DU = a[3 * l + 2]; auto& XX = x[l]; code; })
  if (how.s == THOMAS) for (int l = 0; l < L; ++l) { auto &DL = a[3 * l], &D = a[3 * l + 1], &DU = a[3 * l + 2]; auto& XX = x[l];
    if (how.h == A1X1) td::thomas(DL.v1, D.v1, DU.v1, XX.v1); else if (how.h == A1X2) td::thomas(DL.v1, D.v1, DU.v1, XX.v);
    else if constexpr (std::is_same_v<T, TX>) td::thomas(DL.v, D.v, DU.v, XX.v); }
  else if (how.s == THOMAS_TEAM) EACH(td::thomas(team, DL.v1, D.v1, DU.v1, XX.v));
  else if (how.s == BFB) { if (how.h == A1X2) EACH(td::bfb(team, DL.v1, D.v1, DU.v1, XX.v)); else EACH(td::bfb(team, DL.v, D.v, DU.v, XX.v)); }
  else if constexpr (std::is_constructible_v<T, TX> && std::is_convertible_v<TX, T>) {
    if (how.h == A1X1) EACH(td::cr(team, DL.v1, D.v1, DU.v1, XX.v1)); else if (how.h == A1X2) EACH(td::cr(team, DL.v1, D.v1, DU.v1, XX.v)); else EACH(td::cr(team, DL.v, D.v, DU.v, XX.v)); }
#undef EACH
  std::string err;
  for (int l = 0; l < L; ++l) {
    for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) xs[l][j * n + i] = one ? X[l].v1(i) : X[l].v(i, j);
    auto pad = [&](auto& M2, const auto& jk, const char* nm) { if (!M2.pad || M2.base.size() == 0) return; for (int i = 0; i < n; ++i) for (int j = 0; j < int(M2.base.extent(1)); ++j) if ((j < 2 || j >= 2 + M2.c) && !same(M2.base(i, j), jk)) err = std::string("an element outside of ") + nm + " was changed (row " + std::to_string(i) + ", column " + std::to_string(j - 2) + " of " + std::to_string(M2.c) + ")"; };
    pad(X[l], xjunk, "X"); for (int k = 0; k < 3; ++k) pad(A[3 * l + k], junk, k == 0 ? "dl" : k == 1 ? "d" : "du");
  }
  return err;
}
}
