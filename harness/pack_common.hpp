// Shared by the pack harnesses: value alphabets, bitwise comparison, ways to fill packs so that lanes differ.
#pragma once
#include "ekat_pack.hpp"
#include "mc.hpp"
#include <cmath>
#include <limits>
template <class T> constexpr const char* tname() { return std::is_same_v<T, double> ? "double" : std::is_same_v<T, float> ? "float" : std::is_same_v<T, int> ? "int" : "long"; }
// every operation on a pair of these values is defined in int as well (no overflow)
template <class T> std::vector<T> ordinary() { return {T(3), T(-7), T(1), T(-2), T(100), T(5), T(-1), T(12)}; }
template <> inline std::vector<double> ordinary() { return {3.0, -7.25, 1.0, -2.0, 100.7, 0.3, -1.0, 12.0}; }
template <> inline std::vector<float> ordinary() { return {3.0f, -7.25f, 1.0f, -2.0f, 100.7f, 0.3f, -1.0f, 12.0f}; }
template <class T> std::vector<T> special() {
  auto v = ordinary<T>();
  if constexpr (std::is_floating_point_v<T>) {
    using L = std::numeric_limits<T>;
    for (T x : {T(0), -T(0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), L::max(), L::min()}) v.push_back(x);
  } else v.push_back(T(0));
  return v;
}
// bitwise, except that all NaNs count as one value
template <class T> bool same(T a, T b) { if (a != a || b != b) return a != a && b != b; return std::memcmp(&a, &b, sizeof a) == 0; }
template <class T> uint64_t bits(T a) { if (a != a) return 1; return mc::hash_bytes(&a, sizeof a); }
template <class T, int N> std::string showp(const ekat::Pack<T, N>& p) { std::string s = "("; for (int i = 0; i < N; ++i) s += (i ? ", " : "") + mc::show(p[i]); return s + ")"; }
template <int N> std::string showm(const ekat::Mask<N>& m) { std::string s; for (int i = 0; i < N; ++i) s += m[i] ? '1' : '0'; return s; }
template <class P> bool same_bytes(const P& a, const P& b) { return std::memcmp(&a, &b, sizeof a) == 0; }
// Pair number r of the pairs (A x B) goes into lane 0 and the lanes after it hold other pairs: over all r every lane sees every pair
inline int lane_pair(int r, int lane, int np) { return int((r + 1ll * lane * 7) % np); }
