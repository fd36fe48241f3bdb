// Communicator collectives over model-checked ranks (fake MPI), every order of arrival.
#include "mc.hpp"
#include <algorithm>
#include <climits>
#include "fake_mpi.hpp"
#include "ekat_comm.hpp"

using fmpi::W; using mc::Sched;
namespace {
struct OpInfo { const char* name; MPI_Op op; int id; };
std::vector<OpInfo> ops(bool integral, bool logical_only) {
  std::vector<OpInfo> v;
  if (!logical_only) { v = {{"sum", MPI_SUM, 0}, {"prod", MPI_PROD, 1}, {"max", MPI_MAX, 2}, {"min", MPI_MIN, 3}}; }
  if (integral) { v.push_back({"land", MPI_LAND, 4}); v.push_back({"lor", MPI_LOR, 5}); v.push_back({"lxor", MPI_LXOR, 6}); }
  if (integral && !logical_only) { v.push_back({"band", MPI_BAND, 7}); v.push_back({"bor", MPI_BOR, 8}); v.push_back({"bxor", MPI_BXOR, 9}); }
  return v;
}
template <class T> T ap(int id, T a, T b) {
  switch (id) {
    case 0: return T(a + b); case 1: return T(a * b); case 2: return std::max(a, b); case 3: return std::min(a, b);
    case 4: return T(a && b); case 5: return T(a || b); case 6: return T(bool(a) != bool(b));
  }
  if constexpr (std::is_integral<T>::value) { switch (id) { case 7: return T(a & b); case 8: return T(a | b); case 9: return T(a ^ b); } }
  return T();
}
// input of rank r, entry i, in data pattern p.  Patterns of wide types use values no narrower type can hold
template <class T> T val(int p, int r, int i) {
  if (std::is_same<T, bool>::value) return T((r * 5 + i * 3 + p * 7) % 3 == 0);
  if (p == 0) return T(r * 3 + i + 1);
  if (p == 1) return T(i == r ? 0 : (r % 2 ? -5 : 4) - i);
  // p == 2: every bit of the type matters
  if (std::is_floating_point<T>::value) return T(sizeof(T) == 8 ? 1.0 / (3 + r) + i * 1e40 : (1.0 / (3 + r) + i * 1e10));
  T m = std::numeric_limits<T>::max(); return T((m / 7) / T(1 + r) - T(i) * T(r % 2 ? 3 : -3));
}
template <class T> const char* tname();
#define TN(T) template <> const char* tname<T>() { return #T; }
TN(char) TN(short) TN(int) TN(long) TN(long long) TN(float) TN(double) TN(bool)

// bound -1: every order for 1-2 ranks, and for 3 ranks in the thorough tier
// bound -2: large counts and more ranks, in one order
const int LARGE = -2;
int pick_ranks(mc::Ctx& ctx, int bound) { if (bound == LARGE) return ctx.pick(std::vector<int>{1, 2, 5, 8}, "ranks"); return 1 + ctx.choose(4, "ranks"); }
int pick_count(mc::Ctx& ctx, int bound, int top) { if (bound == LARGE) return ctx.pick(std::vector<int>{4, 16, 33, 64, 129, 1000}, "count"); return ctx.choose(top, "count"); }
int order_bound(mc::Ctx& ctx, int n, int bound) {
  if (bound == LARGE) return 0;
  if (bound >= 0) return n <= 3 ? bound : std::min(bound, 2);
  return n <= 2 ? -1 : n == 3 ? (ctx.tier() ? -1 : 4) : 2;
}
// a buffer with canaries at both ends
template <class T> struct Buf {
  std::unique_ptr<T[]> m; int n;
  static T canary() { return std::is_same<T, bool>::value ? T(1) : T(77); }
  explicit Buf(int n_) : m(new T[n_ + 2]), n(n_) { m[0] = canary(); m[n + 1] = canary(); for (int i = 0; i < n; ++i) m[i + 1] = T(std::is_same<T, bool>::value ? 0 : 55); }
  T* p() { return m.get() + 1; }
  T& operator[](int i) { return m[i + 1]; }
  bool guards() const { return m[0] == canary() && m[n + 1] == canary(); }
};
template <class T> std::string showv(T* p, int n) { std::ostringstream o; o << "["; for (int i = 0; i < n; ++i) { if (i) o << ","; o << +p[i]; } o << "]"; return o.str(); }
template <class T> bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }

#define KEY(what) (std::string(what) + ":" + tname<T>())
template <class T> void do_bcast(mc::Ctx& ctx, int bound) {
  int n = pick_ranks(ctx, bound), count = pick_count(ctx, bound, 4), root = ctx.choose(n, "root"), p = ctx.choose(std::is_same<T,bool>::value ? 1 : 3, "pattern");
  W().start(ctx, n); Sched::get().bound = order_bound(ctx, n, bound);
  std::vector<std::function<void()>> b; uint64_t h = 0;
  for (int r = 0; r < n; ++r) b.push_back([&, r] {
    ekat::Comm c(MPI_COMM_WORLD); Buf<T> x(count);
    for (int i = 0; i < count; ++i) x[i] = val<T>(p, r, i);
    c.broadcast(x.p(), count, root);
    for (int i = 0; i < count; ++i) MC_CHECK(ctx, same(x[i], val<T>(p, root, i)), KEY("broadcast-value"), "broadcast of " << count << " " << tname<T>() << " from root " << root << " over " << n << " ranks: rank " << r << " has " << showv(x.p(), count));
    MC_CHECK(ctx, x.guards(), KEY("broadcast-overrun"), "broadcast wrote outside the buffer");
    // reuse the buffer at once, and a second broadcast from the next root
    int root2 = (root + 1) % n;
    for (int i = 0; i < count; ++i) x[i] = val<T>(p, r + 2, i);
    c.broadcast(x.p(), count, root2);
    for (int i = 0; i < count; ++i) MC_CHECK(ctx, same(x[i], val<T>(p, root2 + 2, i)), KEY("broadcast-value"), "second broadcast: rank " << r << " has " << showv(x.p(), count));
    h = mc::mix(h, uint64_t(r));
  });
  Sched::get().run(ctx, b);
  ctx.outcome(mc::mix(h, mc::hash_str(tname<T>()) + n * 64 + count * 16 + root)); ctx.state(mc::mix(h, mc::hash_str(tname<T>()) + n * 1000 + count * 100 + root * 10 + p));
}
template <class T> void do_reduce(mc::Ctx& ctx, int bound) {
  constexpr bool isb = std::is_same<T, bool>::value;
  auto O = ops(std::is_integral<T>::value, isb);
  int n = pick_ranks(ctx, bound), kind = ctx.choose(4, "form"); auto op = O[ctx.choose(int(O.size()), "op")]; int count = pick_count(ctx, bound, 3); if (bound == LARGE && op.id == 1) return;
  int p = ctx.choose(isb || (op.id == 1) || (op.id == 0 && !std::is_floating_point<T>::value) ? (isb ? 1 : 2) : 3, "pattern");
  W().start(ctx, n); Sched::get().bound = order_bound(ctx, n, bound);
  static const char* kn[] = {"all_reduce", "all_reduce-inplace", "scan", "scan-inplace"};
  std::vector<std::function<void()>> b; uint64_t h = 0;
  for (int r = 0; r < n; ++r) b.push_back([&, r] {
    ekat::Comm c(MPI_COMM_WORLD); Buf<T> in(count), out(count);
    for (int i = 0; i < count; ++i) { in[i] = val<T>(p, r, i); if (kind % 2) out[i] = in[i]; }
    switch (kind) {
      case 0: c.all_reduce(in.p(), out.p(), count, op.op); break;
      case 1: c.all_reduce(out.p(), count, op.op); break;
      case 2: c.scan(in.p(), out.p(), count, op.op); break;
      case 3: c.scan(out.p(), count, op.op); break;
    }
    for (int i = 0; i < count; ++i) {
      T e = val<T>(p, 0, i); int hi = kind < 2 ? n : r + 1; for (int j = 1; j < hi; ++j) e = ap<T>(op.id, e, val<T>(p, j, i));
      MC_CHECK(ctx, same(out[i], e), KEY(std::string(kn[kind]) + "-value-" + op.name), kn[kind] << " " << op.name << " of " << count << " " << tname<T>() << " over " << n << " ranks, pattern " << p << ": rank " << r << " entry " << i << " is " << +out[i] << ", expected " << +e);
      if (kind % 2 == 0) MC_CHECK(ctx, same(in[i], val<T>(p, r, i)), KEY(std::string(kn[kind]) + "-input"), kn[kind] << " modified its input");
    }
    MC_CHECK(ctx, in.guards() && out.guards(), KEY(std::string(kn[kind]) + "-overrun"), kn[kind] << " wrote outside its buffers");
    // another collective right behind it: nothing of the first may leak into it
    for (int i = 0; i < count; ++i) in[i] = out[i] = T(r + 1);
    int two = r + 10, got = 0; c.all_reduce(&two, &got, 1, MPI_MAX);
    MC_CHECK(ctx, got == n + 9, KEY("all_reduce-value-max"), "following all_reduce: rank " << r << " got " << got);
    h = mc::mix(h, uint64_t(r));
  });
  Sched::get().run(ctx, b);
  ctx.outcome(mc::mix(h, mc::hash_str(tname<T>()) + n * 64 + kind * 16 + op.id)); ctx.state(mc::mix(h, mc::hash_str(tname<T>()) + n * 10000 + kind * 1000 + op.id * 50 + count * 10 + p));
}
template <class T> void do_gather(mc::Ctx& ctx, int bound) {
  int n = pick_ranks(ctx, bound), ip = ctx.choose(2, "inplace"), count = pick_count(ctx, bound, 4), p = ctx.choose(std::is_same<T,bool>::value ? 1 : 3, "pattern");
  W().start(ctx, n); Sched::get().bound = order_bound(ctx, n, bound);
  std::vector<std::function<void()>> b; uint64_t h = 0;
  for (int r = 0; r < n; ++r) b.push_back([&, r] {
    ekat::Comm c(MPI_COMM_WORLD); Buf<T> in(count), out(count * n);
    for (int i = 0; i < count; ++i) { in[i] = val<T>(p, r, i); if (ip) out[r * count + i] = in[i]; }
    if (ip) c.all_gather(out.p(), count); else c.all_gather(in.p(), out.p(), count);
    for (int j = 0; j < n; ++j) for (int i = 0; i < count; ++i)
      MC_CHECK(ctx, same(out[j * count + i], val<T>(p, j, i)), KEY(ip ? "all_gather-inplace-value" : "all_gather-value"), "all_gather of " << count << " " << tname<T>() << " over " << n << " ranks" << (ip ? " in place" : "") << ": rank " << r << " has " << showv(out.p(), count * n));
    for (int i = 0; i < count; ++i) MC_CHECK(ctx, same(in[i], val<T>(p, r, i)), KEY("all_gather-input"), "all_gather modified its input");
    MC_CHECK(ctx, in.guards() && out.guards(), KEY("all_gather-overrun"), "all_gather wrote outside its buffers");
    h = mc::mix(h, uint64_t(r));
  });
  Sched::get().run(ctx, b);
  ctx.outcome(mc::mix(h, mc::hash_str(tname<T>()) + n * 64 + count * 16 + ip)); ctx.state(mc::mix(h, mc::hash_str(tname<T>()) + n * 1000 + count * 100 + ip * 10 + p));
}
template <template <class> class F> void by_type(mc::Ctx& ctx, int bound) {
  switch (ctx.choose(8, "type")) {
    case 0: F<int>::go(ctx, bound); break; case 1: F<double>::go(ctx, bound); break; case 2: F<float>::go(ctx, bound); break; case 3: F<char>::go(ctx, bound); break;
    case 4: F<short>::go(ctx, bound); break; case 5: F<long>::go(ctx, bound); break; case 6: F<long long>::go(ctx, bound); break; case 7: F<bool>::go(ctx, bound); break;
  }
}
template <class T> struct FB { static void go(mc::Ctx& c, int b) { do_bcast<T>(c, b); } };
template <class T> struct FR { static void go(mc::Ctx& c, int b) { do_reduce<T>(c, b); } };
template <class T> struct FG { static void go(mc::Ctx& c, int b) { do_gather<T>(c, b); } };
} // namespace

MC_SCENARIO(bcast_types, "broadcast twice: 8 types x 1-4 ranks x 0-3 values x every root x 3 data patterns, orders of arrival with at most 1 (thorough: 3) deviations", 4) { by_type<FB>(ctx, ctx.tier() ? 3 : 1); }
MC_SCENARIO(reduce_types, "all_reduce and scan, both forms, then a second all_reduce: 8 types x 1-4 ranks x all operations x 0-2 values x data patterns, at most 1 (thorough: 2) deviations", 4) { by_type<FR>(ctx, ctx.tier() ? 2 : 1); }
MC_SCENARIO(gather_types, "all_gather, both forms: 8 types x 1-4 ranks x 0-3 values x data patterns, at most 1 (thorough: 3) deviations", 4) { by_type<FG>(ctx, ctx.tier() ? 3 : 1); }
MC_SCENARIO(bcast_large, "broadcast twice: 8 types x 1, 2, 5, 8 ranks x 4-1000 values x every root x 3 data patterns, one order", 3) { by_type<FB>(ctx, LARGE); }
MC_SCENARIO(reduce_large, "all_reduce and scan, both forms: 8 types x 1, 2, 5, 8 ranks x all operations but the product x 4-1000 values x data patterns, one order", 3) { by_type<FR>(ctx, LARGE); }
MC_SCENARIO(gather_large, "all_gather, both forms: 8 types x 1, 2, 5, 8 ranks x 4-1000 values x data patterns, one order", 3) { by_type<FG>(ctx, LARGE); }
MC_SCENARIO(bcast_orders, "broadcast twice, int, 1-2 ranks (thorough 1-3): every order of arrival and departure; 3 ranks: 4 deviations, 4 ranks: 2", 4) { do_bcast<int>(ctx, -1); }
MC_SCENARIO(reduce_orders, "all_reduce/scan and a second all_reduce, int, 1-2 ranks (thorough 1-3): every order; 3 ranks: 4 deviations, 4 ranks: 2", 4) { do_reduce<int>(ctx, -1); }

// splits: every colour assignment, then collectives in the child, in a child of the child and in the parent
static void splits(mc::Ctx& ctx, int n, const std::vector<int>& col, int bound) {
  W().start(ctx, n); Sched::get().bound = bound;
  std::vector<std::function<void()>> b; uint64_t h = 0;
  for (int r = 0; r < n; ++r) b.push_back([&, r] {
    ekat::Comm w(MPI_COMM_WORLD);
    MC_CHECK(ctx, w.size() == n && w.rank() == r && w.root_rank() >= 0 && w.root_rank() < n && w.am_i_root() == (r == w.root_rank()) && w.mpi_comm() == MPI_COMM_WORLD, "world-comm", "world communicator of " << n << " ranks: rank " << r << " sees size " << w.size() << " rank " << w.rank() << " root " << w.am_i_root());
    ekat::Comm me;
    MC_CHECK(ctx, me.size() == 1 && me.rank() == 0 && me.am_i_root() && me.mpi_comm() == MPI_COMM_SELF, "default-comm", "default communicator is not a one-rank communicator");
    std::vector<int> grp; for (int j = 0; j < n; ++j) if (col[j] == col[r]) grp.push_back(j);
    auto members = [&](const ekat::Comm& c) { std::vector<int> g(std::max(1, c.size()), -1); c.all_gather(&r, g.data(), 1); return g; };
    int pos = int(std::find(grp.begin(), grp.end(), r) - grp.begin());
    auto c = w.split(col[r]);
    MC_CHECK(ctx, c.size() == int(grp.size()) && c.rank() == pos && c.am_i_root() == (pos == c.root_rank()), "split-rank", "split of " << n << " ranks by colours " << mc::show(col) << ": rank " << r << " sees size " << c.size() << " rank " << c.rank() << ", expected " << grp.size() << " and " << pos);
    auto g = members(c);
    MC_CHECK(ctx, g == grp, "split-members", "split by colours " << mc::show(col) << ": rank " << r << " finds members " << mc::show(g) << ", expected " << mc::show(grp));
    auto d = c.split(pos % 2);
    std::vector<int> grp2; for (size_t j = 0; j < grp.size(); ++j) if (int(j % 2) == pos % 2) grp2.push_back(grp[j]);
    auto g2 = members(d);
    MC_CHECK(ctx, g2 == grp2 && d.rank() == pos / 2 && d.size() == int(grp2.size()), "split-members", "second split: rank " << r << " finds members " << mc::show(g2) << " as rank " << d.rank() << ", expected " << mc::show(grp2));
    d.reset_mpi_comm(c.mpi_comm());
    MC_CHECK(ctx, d.size() == c.size() && d.rank() == c.rank() && d.mpi_comm() == c.mpi_comm(), "reset", "reset_mpi_comm: size " << d.size() << " rank " << d.rank() << ", expected " << c.size() << " and " << c.rank());
    int s = 1; w.all_reduce(&s, 1, MPI_SUM);
    MC_CHECK(ctx, s == n && w.size() == n && w.rank() == r, "split-parent", "the parent communicator is no longer usable after split");
    bool null_rejected = false; try { ekat::Comm z(MPI_COMM_NULL); } catch (const std::exception&) { null_rejected = true; }
    MC_CHECK(ctx, null_rejected, "null-comm", "a null communicator was accepted");
    h = mc::mix(h, uint64_t(r));
  });
  Sched::get().run(ctx, b);
  ctx.outcome(h); ctx.state(mc::mix(h, mc::hash_bytes(col.data(), col.size() * sizeof(int))));
}
MC_SCENARIO(split_orders, "split of 1-4 ranks: every colour map over 3 colours, second split of the child by parity of the rank, collectives in child, grandchild and parent; at most 1 (thorough: 2) deviations", 3) {
  int n = 1 + ctx.choose(4, "ranks"); std::vector<int> col(n); static const int C[3] = {0, 7, 3}; for (auto& c : col) c = C[ctx.choose(3, "colour")];
  splits(ctx, n, col, ctx.tier() ? 2 : 1);
}
MC_SCENARIO(split_large, "split of 5-20, 32 and 33 ranks: one colour, all different, ascending blocks, cyclic, mirrored, with large colours; 2-9 colours; as above, one order", 1) {
  int n = ctx.pick(std::vector<int>{5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 32, 33}, "ranks"), k = 1 + ctx.choose(9, "colours"), f = ctx.choose(6, "family"); std::vector<int> col(n);
  for (int r = 0; r < n; ++r) col[r] = f == 0 ? r % k : f == 1 ? r * k / n : f == 2 ? (n - 1 - r) % k : f == 3 ? k - 1 - r * k / n : f == 4 ? (r * r) % k * 1000003 : r < k ? r : 0;
  splits(ctx, n, col, 0);
}
// barrier: nobody leaves before everybody entered
// one Comm object moved between communicators
MC_SCENARIO(reset_histories, "1-3 ranks: communicators world, self, and two children of the world made with every assignment of distinct keys (every permutation of ranks) and split in two groups; every history of 3 resets/assignments of one Comm object between them, rank, size, handle and an all_gather checked after each", 3) {
  int n = 1 + ctx.choose(3, "ranks"); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
  int np = 1; for (int i = 2; i <= n; ++i) np *= i; for (int k = ctx.choose(np, "keys"); k > 0; --k) std::next_permutation(perm.begin(), perm.end());
  int hist[3]; for (auto& h : hist) h = ctx.choose(8, "comm");
  W().start(ctx, n); Sched::get().bound = 0;
  std::vector<std::function<void()>> b; uint64_t hh = 0;
  for (int r = 0; r < n; ++r) b.push_back([&, r] {
    MPI_Comm h[4]; h[0] = MPI_COMM_WORLD; h[1] = MPI_COMM_SELF; MPI_Comm_split(MPI_COMM_WORLD, 0, perm[r], &h[2]); MPI_Comm_split(MPI_COMM_WORLD, perm[r] % 2, -perm[r], &h[3]);
    auto mem = [&](int k) { std::vector<int> g; if (k == 1) return std::vector<int>{r}; if (k == 0) { for (int i = 0; i < n; ++i) g.push_back(i); return g; }
      for (int p = 0; p < n; ++p) { int q = k == 3 ? n-1-p : p; if (k == 3 && q % 2 != perm[r] % 2) continue; for (int i = 0; i < n; ++i) if (perm[i] == q) g.push_back(i); } return g; };
    ekat::Comm c(MPI_COMM_WORLD);
    for (int s = 0; s < 3; ++s) {
      int k = hist[s] % 4;
      if (hist[s] < 4) c.reset_mpi_comm(h[k]); else c = ekat::Comm(h[k]);
      auto g = mem(k); int pos = int(std::find(g.begin(), g.end(), r) - g.begin());
      MC_CHECK(ctx, c.size() == int(g.size()) && c.rank() == pos && c.mpi_comm() == h[k] && c.am_i_root() == (pos == c.root_rank()), "reset", "after " << (s+1) << " resets, rank " << r << " of " << n << " sees size " << c.size() << " rank " << c.rank() << ", expected " << g.size() << " and " << pos);
      std::vector<int> all(g.size(), -1); c.all_gather(&r, all.data(), 1);
      MC_CHECK(ctx, all == g, "reset-gather", "all_gather after a reset gave " << mc::show(all) << ", expected " << mc::show(g));
    }
    hh = mc::mix(hh, uint64_t(c.rank() * 8 + c.size()));
  });
  Sched::get().run(ctx, b); ctx.outcome(hh); ctx.state(mc::mix(hh, uint64_t(hist[0] * 64 + hist[1] * 8 + hist[2] + n * 512)));
}

MC_SCENARIO(barrier_orders, "two barriers, 1-2 ranks (thorough 1-3): every order; 3 ranks: 4 deviations, 4 ranks: 2", 2) {
  int n = 1 + ctx.choose(4, "ranks"); W().start(ctx, n); Sched::get().bound = order_bound(ctx, n, -1);
  std::vector<int> phase(n, 0); uint64_t h = 0; std::vector<std::function<void()>> b;
  for (int r = 0; r < n; ++r) b.push_back([&, r] {
    ekat::Comm c(MPI_COMM_WORLD);
    for (int k = 1; k <= 2; ++k) {
      Sched::get().point("before barrier"); phase[r] = k; c.barrier();
      for (int j = 0; j < n; ++j) MC_CHECK(ctx, phase[j] >= k, "barrier", "rank " << r << " left barrier " << k << " before rank " << j << " entered it");
    }
    h = mc::mix(h, uint64_t(r));
  });
  Sched::get().run(ctx, b);
  ctx.outcome(h); ctx.state(mc::mix(h, n));
}
