// upper_bound: every sorted range over a small alphabet, and all sizes of longer ranges.
// Built with the standard-library version and with the version for devices (EKAT_ENABLE_GPU).
#include <Kokkos_Core.hpp>
#ifdef UB_DEVICE
#define EKAT_ENABLE_GPU
#endif
#include "ekat_upper_bound.hpp"
#include "mc.hpp"
#include <limits>
#include <memory>
namespace {
// an element that knows the range it may be read in
struct Ranged {
  int v; static const Ranged *lo, *hi; static bool bad; static int reads;
  void seen() const { if (this >= lo && this < hi) ++reads; else if (this != val) bad = true; }
  static const Ranged* val;
};
const Ranged *Ranged::lo, *Ranged::hi, *Ranged::val; bool Ranged::bad; int Ranged::reads;
#define REL(op) bool operator op(const Ranged& a, const Ranged& b) { a.seen(); b.seen(); return a.v op b.v; }
REL(<) REL(>) REL(<=) REL(>=) REL(==) REL(!=)
template <class T> std::vector<T> alphabet() { return {T(0), T(1), T(2), T(3)}; }
template <> std::vector<double> alphabet<double>() { return {-std::numeric_limits<double>::infinity(), -0.0, 1e-310, 1.0, std::numeric_limits<double>::infinity()}; }
template <> std::vector<float> alphabet<float>() { return {-2.5f, 0.0f, 1e-40f, 3.0f}; }
template <> std::vector<int> alphabet<int>() { return {std::numeric_limits<int>::min(), -1, 0, std::numeric_limits<int>::max()}; }
template <class T> void all(mc::Ctx& ctx, const char* tn) {
  auto A = alphabet<T>(); int n = ctx.choose(ctx.tier() ? 9 : 8, "length");
  std::unique_ptr<T[]> a(new T[n]); int lo = 0;     // exact-size allocation: a read outside is caught by the address sanitizer
  for (int i = 0; i < n; ++i) { lo += ctx.choose(int(A.size()) - lo, "element"); a[i] = A[lo]; }
  T v = A[ctx.choose(int(A.size()), "value")];
  const T* p = ekat::upper_bound(static_cast<const T*>(a.get()), static_cast<const T*>(a.get() + n), v);
  int k = int(p - a.get()), e = 0; while (e < n && !(v < a[e])) ++e;
  MC_CHECK(ctx, k == e, std::string("position:") + tn, "upper_bound in " << mc::show(std::vector<T>(a.get(), a.get() + n)) << " of " << mc::show(v) << " returned position " << k << ", expected " << e);
  ctx.outcome(mc::mix(mc::hash_str(tn), k * 100 + n)); ctx.state(mc::hash_bytes(a.get(), n * sizeof(T), n));
}
}
MC_SCENARIO(sorted_double, "all sorted arrays of length 0-7 (thorough 8) over {-inf,-0,denormal,1,inf}, all values") { all<double>(ctx, "double"); }
MC_SCENARIO(sorted_float, "all sorted arrays of length 0-7 (thorough 8) over 4 floats, all values") { all<float>(ctx, "float"); }
MC_SCENARIO(sorted_int, "all sorted arrays of length 0-7 (thorough 8) over {min,-1,0,max}, all values") { all<int>(ctx, "int"); }
MC_SCENARIO(sorted_long, "all sorted arrays of length 0-7 (thorough 8) over 4 values, all values") { all<long>(ctx, "long"); }
MC_SCENARIO(sorted_char, "all sorted arrays of length 0-7 (thorough 8) over 4 values, all values") { all<unsigned char>(ctx, "unsigned char"); }
// longer ranges inside a larger array: every length, every value between and on the entries, no read outside the range
MC_SCENARIO(long_ranges, "every length 0-100 (thorough 300), runs of equal entries of length 1-3, every value on, between and beyond the entries; reads tracked") {
  int n = ctx.choose(ctx.tier() ? 301 : 101, "length"), run = 1 + ctx.choose(3, "run");
  std::vector<Ranged> a(n + 2); a[0].v = -1000000; a[n + 1].v = 1000000; for (int i = 0; i < n; ++i) a[i + 1].v = 2 * (i / run);
  for (int v = -1; v <= 2 * ((n + run - 1) / run); ++v) {
    Ranged x{v}; Ranged::lo = a.data() + 1; Ranged::hi = a.data() + n + 1; Ranged::val = &x; Ranged::bad = false; Ranged::reads = 0;
    const Ranged* p = ekat::upper_bound(Ranged::lo, Ranged::hi, x);
    int k = int(p - Ranged::lo), e = 0; while (e < n && a[e + 1].v <= v) ++e;
    MC_CHECK(ctx, k == e, "position:long", "upper_bound of " << v << " in " << n << " entries (runs of " << run << ") returned " << k << ", expected " << e);
    MC_CHECK(ctx, !Ranged::bad, "read-outside", "upper_bound of " << v << " in " << n << " entries read outside the range");
    ctx.transition();
  }
  ctx.outcome(n * 4 + run); ctx.state(n * 4 + run);
}

MC_SCENARIO(longer_ranges, "lengths 127-65537 around powers of two, runs of equal entries of length 1-300, every value on, between and beyond the entries; reads tracked") {
  int n = ctx.pick(std::vector<int>{127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65536, 65537}, "length"), run = ctx.pick(std::vector<int>{1, 2, 3, 16, 17, 255, 256, 300}, "run");
  std::vector<Ranged> a(n + 2); a[0].v = -1000000; a[n + 1].v = 1000000; for (int i = 0; i < n; ++i) a[i + 1].v = 2 * (i / run);
  for (int v = -1; v <= 2 * ((n + run - 1) / run); ++v) {
    Ranged x{v}; Ranged::lo = a.data() + 1; Ranged::hi = a.data() + n + 1; Ranged::val = &x; Ranged::bad = false; Ranged::reads = 0;
    const Ranged* p = ekat::upper_bound(Ranged::lo, Ranged::hi, x);
    int k = int(p - Ranged::lo), e = std::min(n, v < 0 ? 0 : (v / 2 + 1) * run);
    MC_CHECK(ctx, k == e, "position:long", "upper_bound of " << v << " in " << n << " entries (runs of " << run << ") returned " << k << ", expected " << e);
    MC_CHECK(ctx, !Ranged::bad, "read-outside", "upper_bound of " << v << " in " << n << " entries read outside the range");
    ctx.transition();
  }
  ctx.outcome(n * 4 + run); ctx.state(n * 4 + run);
}
