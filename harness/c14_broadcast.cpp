// Broadcast views: every source rank <= target rank, every choice of broadcast dimensions, sources of any strides.
#include "ekat_view_broadcast.hpp"
#include "view_model.hpp"
using mc::Ctx;
namespace {
bool large = false; const std::vector<int> LADDER{1, 2, 9, 10, 11, 16, 17, 33, 65, 129, 257};
int extent(Ctx& ctx, int emax, const char* w) { return large ? ctx.pick(LADDER, w) : 1 + ctx.choose(emax, w); }
template <class B, size_t... I> auto& call_b(const B& b, const std::vector<long>& i, std::index_sequence<I...>) { return b(int(i[I])...); }
// the source: compact row-major, compact column-major, or a strided slice of a bigger array
template <int R> struct Source { std::vector<double> mem; VM m; };
template <class ToView, class From> void run(Ctx& ctx, const From& from, const VM& m, int emax, const std::vector<long>& stat) {
  constexpr int RT = int(ToView::rank), RF = int(From::rank);
  // a dimension list of any length around RT with any number of broadcast dimensions
  int len = RT, kind = large ? 3 * ctx.choose(2, "list") : ctx.choose(8, "list"); if (kind == 1) len = RT - 1; else if (kind == 2) len = RT + 1;
  std::vector<int> e(len); int picked = 0, bc = 0; (void) bc;
  std::vector<long> xe, map; // expected extents, and source dimension of each target dimension (-1: broadcast)
  for (int i = 0; i < len; ++i) {
    bool keep = large && (picked == RF || len - i == RF - picked) ? picked < RF : ctx.flag("keep"); // large: valid lists only
    if (keep) { e[i] = (i % 2) ? 0 : -1; xe.push_back(picked < RF ? m.ext[picked] : 0); map.push_back(picked); ++picked; }
    else { e[i] = (i < int(stat.size()) && stat[i] > 0) ? int(stat[i]) : extent(ctx, emax, "extent"); xe.push_back(e[i]); map.push_back(-1); }
    if (large) { long t = 1; for (long x : xe) t *= x; if (t > 10000) throw mc::PruneExec{}; }
  }
  bool valid = len == RT && picked == RF;
  if (kind > 2 && !(valid && kind == 3)) throw mc::PruneExec{};   // alternatives 3.. only exist for valid lists (2nd way to set up)
  std::string what = "broadcast of a rank-" + std::to_string(RF) + " view " + m.show() + " with extents " + mc::show(e);
  if (!valid) {
    bool rej = mc::rejects([&] { ekat::broadcast<ToView>(from, e); });
    MC_CHECK(ctx, rej, "accepted", what << " to rank " << RT << " was accepted"); ctx.outcome(mc::hash_str(what)); return;
  }
  ekat::ViewBroadcast<ToView> b; if (kind == 3) b.setup(from, e); else b = ekat::broadcast<ToView>(from, e);
  for (int i = 0; i < RT; ++i) MC_CHECK(ctx, b.extent(i) == xe[i], "extent", what << ": extent " << i << " is " << b.extent(i) << ", expected " << xe[i]);
  MC_CHECK(ctx, mc::rejects([&] { b.extent(RT); }) && mc::rejects([&] { b.extent(-1); }), "extent-range", what << ": extent() accepts an index out of range");
  for_all(xe, [&](const std::vector<long>& i) {
    std::vector<long> s(RF); for (int k = 0; k < RT; ++k) if (map[k] >= 0) s[map[k]] = i[k];
    const double* p = &call_b(b, i, std::make_index_sequence<RT>()); const double* x = m.at<double>(s);
    MC_CHECK(ctx, p == x, "element", what << ": entry " << mc::show(i) << " is at offset " << (p - static_cast<const double*>(m.base)) << " of the source, expected " << (x - static_cast<const double*>(m.base)));
  });
  // seen through after a write to the source, and after copying the broadcast view
  auto c = b; std::vector<long> last(RT), s(RF); for (int k = 0; k < RT; ++k) { last[k] = xe[k] - 1; if (map[k] >= 0) s[map[k]] = last[k]; }
  double* w = const_cast<double*>(m.at<double>(s)); *w = 42.5;
  MC_CHECK(ctx, call_b(c, last, std::make_index_sequence<RT>()) == 42.5, "write", what << ": a write to the source is not seen");
  ctx.outcome(mc::hash_str(what)); ctx.state(mc::hash_str(what));
}
template <class L, int RT> using TV = Kokkos::View<typename PtrN<double, RT>::type, L, Kokkos::HostSpace>;
template <int RF, int RT, class TL> void go(Ctx& ctx, int emax) {
  std::vector<long> e(RF); long n = 1; for (auto& x : e) { x = extent(ctx, emax, "source extent"); n *= x; } if (large && n > 10000) throw mc::PruneExec{};
  std::vector<double> mem(n * 4 + 64); double* p = mem.data() + 8; std::vector<long> st;
  switch (ctx.choose(4, "source layout")) {
    case 0: { auto v = make_view<TV<Kokkos::LayoutRight, RF>>(p, e); run<TV<TL, RT>>(ctx, v, VM{p, 8, e, right_strides(e)}, emax, st); break; }
    case 1: { auto v = make_view<TV<Kokkos::LayoutLeft, RF>>(p, e); run<TV<TL, RT>>(ctx, v, VM{p, 8, e, left_strides(e)}, emax, st); break; }
    case 2: { // every second row of a row-major array, i.e. a slice that is not contiguous
      std::vector<long> s = right_strides(e); for (auto& x : s) x *= 2; s[0] += 1; Kokkos::LayoutStride l; for (int k = 0; k < RF; ++k) { l.dimension[k] = e[k]; l.stride[k] = s[k]; }
      TV<Kokkos::LayoutStride, RF> v(p, l); run<TV<TL, RT>>(ctx, v, VM{p, 8, e, s}, emax, st); break; }
    case 3: { // row-major slice A(:,1,:,...) of an array of one rank more
      std::vector<long> be = e; be.insert(be.begin() + 1, 2); auto big = make_view<TV<Kokkos::LayoutRight, RF + 1>>(p, be); auto bs = right_strides(be);
      std::vector<long> s = bs; s.erase(s.begin() + 1); double* q = p + bs[1];
      if constexpr (RF == 1) { auto v = Kokkos::subview(big, Kokkos::ALL, 1); run<TV<TL, RT>>(ctx, v, VM{q, 8, e, s}, emax, st); }
      else if constexpr (RF == 2) { auto v = Kokkos::subview(big, Kokkos::ALL, 1, Kokkos::ALL); run<TV<TL, RT>>(ctx, v, VM{q, 8, e, s}, emax, st); }
      else if constexpr (RF == 3) { auto v = Kokkos::subview(big, Kokkos::ALL, 1, Kokkos::ALL, Kokkos::ALL); run<TV<TL, RT>>(ctx, v, VM{q, 8, e, s}, emax, st); }
      else { auto v = Kokkos::subview(big, Kokkos::ALL, 1, Kokkos::ALL, Kokkos::ALL, Kokkos::ALL); run<TV<TL, RT>>(ctx, v, VM{q, 8, e, s}, emax, st); }
      break; }
  }
}
template <class D, int RF> void stat(Ctx& ctx, const std::vector<long>& se) {
  using V = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace>;
  // kept dimensions of a target with static extents take their size from the source, so give the source matching extents
  std::vector<long> e(RF); for (auto& x : e) x = 1 + ctx.choose(3, "source extent"); long n = 1; for (auto x : e) n *= x;
  std::vector<double> mem(n + 16); auto v = make_view<TV<Kokkos::LayoutRight, RF>>(mem.data(), e); VM m{mem.data(), 8, e, right_strides(e)};
  run<V>(ctx, v, m, 3, se);
}
}
#define GO(RF, RT, E) MC_SCENARIO(to_right_##RF##_##RT, "rank " #RF " (compact row/column-major, strided, sliced) into row-major rank " #RT ", extents 1-" #E ", every dimension list of length " #RT "+-1", 2) { large = false; go<RF, RT, Kokkos::LayoutRight>(ctx, E); }
GO(1, 1, 3) GO(1, 2, 3) GO(2, 2, 3) GO(1, 3, 3) GO(2, 3, 3) GO(3, 3, 2) GO(1, 4, 2) GO(2, 4, 2) GO(3, 4, 2) GO(4, 4, 2)
#define GL(RF, RT, E) MC_SCENARIO(to_left_##RF##_##RT, "as above, into column-major rank " #RT, 2) { large = false; go<RF, RT, Kokkos::LayoutLeft>(ctx, E); }
#define GX(RF, RT) MC_SCENARIO(large_##RF##_##RT, "as above, valid lists with extents 1-257 around powers of two, up to 10000 entries", 3) { large = true; go<RF, RT, Kokkos::LayoutRight>(ctx, 0); }
GX(1, 1) GX(1, 2) GX(2, 2) GX(1, 3) GX(2, 3)
GL(1, 2, 3) GL(2, 2, 3) GL(2, 3, 2) GL(3, 4, 2)
MC_SCENARIO(static_2, "rank 1 into double*[3]", 1) { large = false; stat<double*[3], 1>(ctx, {0, 3}); }
MC_SCENARIO(static_3, "rank 2 into double**[2]", 1) { large = false; stat<double**[2], 2>(ctx, {0, 0, 2}); }
// high ranks: sources of rank 1-4 with every set of kept dimensions
template <int RF, int RT> void high(Ctx& ctx) {
  static const long SE[3][4] = {{2, 3, 2, 3}, {3, 1, 4, 2}, {7, 2, 1, 5}}; int f = ctx.choose(3, "extents"); std::vector<long> e(SE[f], SE[f] + RF); long n = 1; for (auto x : e) n *= x;
  std::vector<double> mem(n); auto v = make_view<TV<Kokkos::LayoutRight, RF>>(mem.data(), e);
  std::vector<int> d(RT); std::vector<long> xe(RT); std::vector<int> at; int bx = ctx.choose(2, "broadcast extents");
  for (int i = 0; i < RT; ++i) { bool keep = int(at.size()) < RF && (RT - i <= RF - int(at.size()) || ctx.flag("keep")); d[i] = keep ? -(i % 2) : 1 + (i + bx) % 2; xe[i] = keep ? e[at.size()] : d[i]; if (keep) at.push_back(i); }
  auto bv = ekat::broadcast<TV<Kokkos::LayoutRight, RT>>(v, d); VM m{mem.data(), 8, e, right_strides(e)};
  for_all(xe, [&](const std::vector<long>& i) { std::vector<long> s; for (int k : at) s.push_back(i[k]); const double* p = &call_b(bv, i, std::make_index_sequence<RT>()); MC_CHECK(ctx, p == m.at<double>(s), "element", "rank-" << RT << " broadcast of " << m.show() << " keeping dimensions " << mc::show(at) << ": entry " << mc::show(i) << " is at offset " << (p - mem.data())); });
  for (int i = 0; i < RT; ++i) MC_CHECK(ctx, bv.extent(i) == xe[i], "extent", "rank-" << RT << " broadcast: extent " << i);
  ctx.outcome(mc::hash_bytes(at.data(), at.size() * sizeof(int)) + RT); ctx.state(mc::hash_bytes(at.data(), at.size() * sizeof(int)) + RT);
}
template <int RF> void higher(Ctx& ctx) { switch (ctx.choose(4, "rank")) { case 0: high<RF, 5>(ctx); break; case 1: high<RF, 6>(ctx); break; case 2: high<RF, 7>(ctx); break; case 3: high<RF, 8>(ctx); break; } }
MC_SCENARIO(high_ranks, "ranks 1-4 into row-major ranks 5-8, every set of kept dimensions, 3 families of source extents, 2 of broadcast extents", 2) { switch (ctx.choose(4, "source rank")) { case 0: higher<1>(ctx); break; case 1: higher<2>(ctx); break; case 2: higher<3>(ctx); break; case 3: higher<4>(ctx); break; } }
MC_SCENARIO(too_high, "a source of higher rank than the target is refused", 1) {
  std::vector<double> mem(8); std::vector<long> e{2, 2, 2}; auto v = make_view<TV<Kokkos::LayoutRight, 3>>(mem.data(), e); std::vector<int> d(ctx.choose(5, "n"), -1); if (ctx.flag("one") && !d.empty()) d[0] = 2;
  MC_CHECK(ctx, mc::rejects([&] { ekat::broadcast<TV<Kokkos::LayoutRight, 2>>(v, d); }), "accepted", "rank 3 into rank 2 was accepted"); ctx.outcome(d.size()); ctx.state(d.size());
}
