// The helpers that replace standard functions in kernels, in the host form and (GPUFORM) in the form used in device code.
#include "strgen.hpp"
#include "kokkos_seq.hpp"
#ifdef GPUFORM
#define EKAT_ENABLE_GPU
#endif
#include "ekat_math_utils.hpp"
#include "ekat_kokkos_str_utils.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
using mc::Ctx; namespace I = ekat::impl;
namespace {
const std::string ALPHA = std::string("ab") + char(0x80) + char(0xff) + char(1);
int sgn(int x) { return (x > 0) - (x < 0); }
std::unique_ptr<char[]> exact(const std::string& s) { std::unique_ptr<char[]> p(new char[s.size() + 1]); memcpy(p.get(), s.c_str(), s.size() + 1); return p; }
template <class T> std::vector<T> vals();
template <> std::vector<int> vals() { return {INT_MIN, -1, 0, 1, INT_MAX}; }
template <> std::vector<long> vals() { return {LONG_MIN, -1, 0, 1, LONG_MAX}; }
template <> std::vector<double> vals() { return {-INFINITY, -1, -0.0, 0.0, 1e-310, 2, INFINITY}; }
template <> std::vector<float> vals() { return {-INFINITY, -1, -0.0f, 0.0f, 1e-40f, 2, INFINITY}; }
template <class T> void minmax(Ctx& ctx) {
  auto v = vals<T>(); T a = v[size_t(ctx.choose(int(v.size()), "a"))], b = v[size_t(ctx.choose(int(v.size()), "b"))];
  const T &mn = I::min(a, b), &mx = I::max(a, b); MC_CHECK(ctx, mn == (b < a ? b : a) && (&mn == &a || &mn == &b), "min", a << "," << b); MC_CHECK(ctx, mx == (a < b ? b : a) && (&mx == &a || &mx == &b), "max", a << "," << b);
  ctx.outcome(uint64_t(&mn == &a) + 2 * (&mx == &a));
}
template <class T> void maxel(Ctx& ctx, int len) {
  auto v = vals<T>(); v.resize(4); int n = 1 + ctx.choose(len, "n"); std::unique_ptr<T[]> a(new T[size_t(n)]); for (int i = 0; i < n; ++i) a[size_t(i)] = v[size_t(ctx.choose(4, "entry"))];
  const T* p = a.get(); auto got = I::max_element(p, p + n) - p, want = std::max_element(p, p + n) - p; std::string w; for (int i = 0; i < n; ++i) w += std::to_string(a[size_t(i)]) + " ";
  MC_CHECK(ctx, got == want, "max_element", w << ": element " << got << ", expected " << want); ctx.outcome(uint64_t(got));
}
template <class T> void limits(Ctx& ctx) {
  auto v = vals<T>(); T a = v[size_t(ctx.choose(int(v.size()), "a"))], b = v[size_t(ctx.choose(int(v.size()), "b"))], lo = 7, hi = 7; I::set_min_max(a, b, lo, hi); MC_CHECK(ctx, lo == std::min(a, b) && hi == std::max(a, b), "set_min_max", a << "," << b << " give " << lo << "," << hi);
  int s = 1 + ctx.choose(8, "vector size"); I::set_min_max(a, b, lo, hi, s); MC_CHECK(ctx, lo == std::min(a, b) / s && hi == std::max(a, b) / s, "set_min_max", a << "," << b << " / " << s << " give " << lo << "," << hi); ctx.outcome(uint64_t(lo) * 31 + uint64_t(hi));
}
template <class T> void fp(Ctx& ctx, const char* n) {
  using Lim = std::numeric_limits<T>; const T v[] = {0, -T(0), 1, -1, T(0.5), 3, Lim::denorm_min(), Lim::min(), Lim::max(), -Lim::max(), Lim::infinity(), -Lim::infinity(), Lim::quiet_NaN()};
  T a = v[ctx.choose(13, "a")], b = v[ctx.choose(13, "b")]; MC_CHECK(ctx, I::is_nan(a) == bool(std::isnan(a)), "is_nan", n << " " << a); MC_CHECK(ctx, I::isfinite(a) == bool(std::isfinite(a)), "isfinite", n << " " << a);
  T r = I::rel_diff(a, b), e = std::fabs(b - a) / std::fabs(a); MC_CHECK(ctx, r == e || (r != r && e != e), "rel_diff", n << " " << a << "," << b << ": " << r << ", expected " << e);
  T inv = ekat::invalid<T>(); MC_CHECK(ctx, inv != inv, "invalid", n << ": " << inv); ctx.outcome(uint64_t(I::is_nan(a)) + 2 * I::isfinite(a) + 4 * (r == r));
}
template <class T> void inv(Ctx& ctx, const char* n) { T x = ekat::invalid<T>(); MC_CHECK(ctx, x == std::numeric_limits<T>::max(), "invalid", n); ctx.outcome(uint64_t(x)); }
}
MC_SCENARIO(strings, "every string of length <=4 (thorough 5) over {a, b, 0x80, 0xff, 1}: length, copy (nothing else is written); every pair with length <=3: order", 2) {
  if (ctx.flag("one")) { auto s = gen(ctx, ALPHA.c_str(), ctx.tier() ? 5 : 4); auto p = exact(s); MC_CHECK(ctx, I::strlen(p.get()) == s.size(), "strlen", mc::show(s)); std::unique_ptr<char[]> d(new char[s.size() + 4]); memset(d.get(), '#', s.size() + 4);
    I::strcpy(d.get() + 1, p.get()); MC_CHECK(ctx, d[0] == '#' && !memcmp(d.get() + 1, s.c_str(), s.size() + 1) && d[s.size() + 2] == '#' && d[s.size() + 3] == '#', "strcpy", mc::show(s)); MC_CHECK(ctx, I::strcmp(p.get(), d.get() + 1) == 0, "strcmp", mc::show(s)); ctx.outcome(s.size()); }
  else { auto s = gen(ctx, ALPHA.c_str(), 3), t = gen(ctx, ALPHA.c_str(), 3, "t"); auto p = exact(s), q = exact(t); int e = sgn(std::strcmp(s.c_str(), t.c_str())); MC_CHECK(ctx, sgn(I::strcmp(p.get(), q.get())) == e, "strcmp", mc::show(s) << "," << mc::show(t)); ctx.outcome(uint64_t(e + 1)); }
}
MC_SCENARIO(min_and_max, "every pair of extreme and ordinary values of int, long, double and float: the value, as a reference to one of the arguments") { switch (ctx.choose(4, "type")) { case 0: minmax<int>(ctx); break; case 1: minmax<long>(ctx); break; case 2: minmax<double>(ctx); break; case 3: minmax<float>(ctx); break; } }
MC_SCENARIO(max_element, "every array of 1-6 (thorough 8) entries out of 4 values, equal ones included: the first of the greatest, nothing outside is read", 2) { int l = ctx.tier() ? 8 : 6; if (ctx.flag("double")) maxel<double>(ctx, l); else maxel<int>(ctx, l); }
MC_SCENARIO(min_max_of_limits, "every pair of values of int and long, vector sizes 1-8") { if (ctx.flag("long")) limits<long>(ctx); else limits<int>(ctx); }
MC_SCENARIO(floating_point, "is_nan, isfinite, rel_diff and the invalid value of double and float, every pair of 13 special values; invalid values of integers") {
  switch (ctx.choose(7, "type")) { case 0: fp<double>(ctx, "double"); break; case 1: fp<float>(ctx, "float"); break; case 2: inv<int>(ctx, "int"); break; case 3: inv<long>(ctx, "long"); break; case 4: inv<unsigned>(ctx, "unsigned"); break; case 5: inv<short>(ctx, "short"); break; case 6: inv<unsigned char>(ctx, "unsigned char"); break; }
}
MC_SCENARIO(long_strings, "strings of every length 0-40 (thorough 70) and up to 513 around powers of two and ten, starting at each of 16 offsets in memory: length, copy; compared with strings that differ in one place, anywhere, or are cut off there", 1) {
  int n = mc::size(ctx, 0, ctx.tier() ? 70 : 40, "length"), off = ctx.choose(16, "offset"); std::string s; for (int i = 0; i < n; ++i) s += ALPHA[size_t(i * i + 3 * i) % 5];
  std::unique_ptr<char[]> b(new char[size_t(off + n + 1)]); char* p = b.get() + off; memcpy(p, s.c_str(), size_t(n + 1));
  MC_CHECK(ctx, I::strlen(p) == s.size(), "strlen", n << " characters at offset " << off); int o2 = (off * 7 + n) % 16;
  std::unique_ptr<char[]> d(new char[size_t(o2 + n + 1 + 16)]); memset(d.get(), '#', size_t(o2 + n + 17)); I::strcpy(d.get() + o2, p); bool ok = !memcmp(d.get() + o2, s.c_str(), size_t(n + 1)) && !memcmp(p, s.c_str(), size_t(n + 1));
  for (int i = 0; i < o2; ++i) ok = ok && d[size_t(i)] == '#'; for (int i = o2 + n + 1; i < o2 + n + 17; ++i) ok = ok && d[size_t(i)] == '#'; MC_CHECK(ctx, ok, "strcpy", n << " characters from offset " << off << " to offset " << o2);
  int at = mc::place(ctx, n + 1, "different at"), k = ctx.choose(3, "smaller, greater, cut off"); std::string q = s; if (at < n) { if (k == 2) q.resize(size_t(at)); else q[size_t(at)] = k ? char(0xfe) : char(2); }
  std::unique_ptr<char[]> c(new char[size_t(o2) + q.size() + 1]); memcpy(c.get() + o2, q.c_str(), q.size() + 1); int e = sgn(std::strcmp(s.c_str(), q.c_str()));
  MC_CHECK(ctx, sgn(I::strcmp(p, c.get() + o2)) == e && sgn(I::strcmp(c.get() + o2, p)) == -e, "strcmp", n << " characters, different at " << at); ctx.outcome(mc::mix(uint64_t(n), uint64_t(e + 1)));
}
namespace {
template <class T> void maxlong(Ctx& ctx, int top) {
  auto v = vals<T>(); int n = mc::size(ctx, 1, top, "n"), i = mc::place(ctx, n, "greatest"), j = i + mc::place(ctx, n - i, "another"); bool down = ctx.flag("others fall"); std::unique_ptr<T[]> a(new T[size_t(n)]); for (int k = 0; k < n; ++k) a[size_t(k)] = T(down ? n - k : k) - T(n); a[size_t(i)] = a[size_t(j)] = v.back();
  const T* p = a.get(); MC_CHECK(ctx, I::max_element(p, p + n) - p == i, "max_element", n << " entries: element " << I::max_element(p, p + n) - p << ", expected " << i); ctx.outcome(uint64_t(i));
}
}
MC_SCENARIO(long_arrays, "arrays of 1-40 (thorough 100) and up to 513 rising or falling entries with the greatest at every one or two places", 2) { int l = ctx.tier() ? 100 : 40; switch (ctx.choose(3, "type")) { case 0: maxlong<double>(ctx, l); break; case 1: maxlong<int>(ctx, l); break; default: maxlong<float>(ctx, l); } }
