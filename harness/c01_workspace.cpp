// Workspace manager: every history of legal operations by one team up to a depth, on the real code (address sanitizer on, storage of exactly
// the advertised size), against a free-list model. Built with and without NDEBUG.
#include <Kokkos_Core.hpp>

#include "ekat_pack.hpp"
#include "ekat_workspace.hpp"
#include "kokkos_seq.hpp"
#include <deque>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
using mc::Ctx;
namespace {
using Policy = Kokkos::TeamPolicy<>; using Member = Policy::member_type;
template <class S> using V1 = ekat::Unmanaged<typename ekat::KokkosTypes<ekat::DefaultDevice>::template view_1d<S>>;
struct Range { char *b, *e; };
struct Cfg { int max_used, size, depth; bool user, report = false, print = false; };
template <class T, class S> struct Hist {
  using W = ekat::WorkspaceManager<T>;
  Ctx& ctx; Cfg c; int esz;    // elements of S per block
  std::unique_ptr<char[]> store; size_t bytes = 0; W wsm; std::unique_ptr<Policy> pol;
  // model
  struct Blk { V1<S> v; char* data; int slot, n; std::string name; unsigned char pat; int group; };
  std::vector<Blk> live; std::deque<int> freel; int ngroup = 0; unsigned char npat = 1; std::map<std::string, std::pair<int, int>> counts; int high = 0; int nnames = 0;
  ptrdiff_t stride = 0; char* base = nullptr; std::string hist;
  Hist(Ctx& x, Cfg k) : ctx(x), c(k) {
    esz = sizeof(T) == sizeof(S) ? c.size : int(c.size * sizeof(T) / sizeof(S));
    pol = std::make_unique<Policy>(3, 1);
    if (c.user) {
      bytes = size_t(W::get_total_bytes_needed(c.size, c.max_used, *pol)); store.reset(new char[bytes]); memset(store.get(), 0xA5, bytes);
      if (ctx.choose(2, "setup call")) wsm.setup(reinterpret_cast<T*>(store.get()), c.size, c.max_used, *pol); else wsm = W(reinterpret_cast<T*>(store.get()), c.size, c.max_used, *pol);
    } else if (ctx.choose(2, "setup call")) wsm.setup(c.size, c.max_used, *pol); else wsm = W(c.size, c.max_used, *pol);
    freed();
  }
  void freed() { freel.clear(); for (int i = 0; i < c.max_used; ++i) freel.push_back(i); }
  int used() const { int n = 0; for (auto& b : live) n += b.n; return n; }
  size_t blen() const { return size_t(esz) * sizeof(S); }
  // the bytes a block gives its holder (a macro block: up to the end of its last sub-block)
  Range range(const Blk& b) const { return {b.data, b.data + blen() + (b.n - 1) * stride}; }
  void note(const std::string& s) { MC_LOG(ctx, s); hist += (hist.empty() ? "" : "; ") + s; }
  void verify() {
    for (auto& b : live) {
      auto r = range(b);
      for (char* p = r.b; p < r.e; ++p) MC_CHECK(ctx, (unsigned char)*p == b.pat, "content", "after " << hist << ": block " << b.name << " (taken as number " << int(b.pat) << ") was overwritten at byte " << (p - r.b));
#ifndef NDEBUG
#endif
    }
  }
  void claim(V1<S> v, int slot, int n, const std::string& name, int group) {
    Blk b{v, reinterpret_cast<char*>(v.data()), slot, n, name, npat++, group};
    MC_CHECK(ctx, int(v.extent(0)) == esz, "length", "after " << hist << ": block " << name << " has " << v.extent(0) << " elements, expected " << esz);
    auto r = range(b);
    if (c.user) MC_CHECK(ctx, r.b >= store.get() && r.e <= store.get() + bytes, "outside", "after " << hist << ": block " << name << " covers bytes " << (r.b - store.get()) << " to " << (r.e - store.get()) << " of a storage of " << bytes);
    for (auto& o : live) { auto q = range(o); MC_CHECK(ctx, r.e <= q.b || q.e <= r.b, "overlap", "after " << hist << ": block " << name << " (" << n << ") overlaps the live block " << o.name << " (" << o.n << ")"); }
    memset(r.b, b.pat, r.e - r.b);
    live.push_back(b); counts[name].first++; high = std::max(high, used());
  }
  std::vector<std::string> names_;   // if given, used in turn instead of the four short ones
  std::string newname() { if (!names_.empty()) return names_[nnames++ % names_.size()]; static const char* N[] = {"a", "bb", "a2", "ccc"}; return N[nnames++ % 4]; }
  template <class WS> void op_take(WS& ws) {
    auto n = newname(); note("take"); auto v = ws.template take<S>(n.c_str()); int s = freel.front(); freel.pop_front(); claim(v, s, 1, n, -1); names(ws);
  }
  template <class WS> void names(WS& ws) {
#ifndef NDEBUG
    for (auto& b : live) MC_CHECK(ctx, b.name == ws.get_name(b.v), "name", "after " << hist << ": block taken as " << b.name << " is named " << ws.get_name(b.v));
#else
    (void)ws;
#endif
  }
  bool contiguous(int n) const { if (int(freel.size()) < n) return false; for (int i = 1; i < n; ++i) if (freel[i] != freel[0] + i) return false; return true; }
  template <class WS, class A, class B, size_t... I> static void take_refs(WS& ws, const A& cn, B& v, std::index_sequence<I...>) { ws.take_many_refs(cn, v[I]...); }
  template <size_t N, class WS> void op_many(WS& ws, int form) {   // 0 take_many, 1 contiguous, 2 and_reset, 3 refs
    static const char* F[] = {"take_many", "take_many_contiguous", "take_many_and_reset", "take_many_refs"};
    note(std::string(F[form]) + "<" + std::to_string(N) + ">");
    Kokkos::Array<V1<S>, N> v; Kokkos::Array<V1<S>*, N> p; std::vector<std::string> nm; Kokkos::Array<const char*, N> cn;
    for (size_t i = 0; i < N; ++i) { p[i] = &v[i]; nm.push_back(newname()); } for (size_t i = 0; i < N; ++i) cn[i] = nm[i].c_str();
    if (form == 2) { release_all_model(); freed(); }
    if (form == 0) ws.template take_many<N, S>(cn, p);
    else if (form == 1) ws.template take_many_contiguous_unsafe<N, S>(cn, p);
    else if (form == 2) ws.template take_many_and_reset<N, S>(cn, p);
    else if constexpr (!std::is_same<T, S>::value) {} else take_refs(ws, cn, v, std::make_index_sequence<N>{});
    int g = form == 1 || form == 2 ? ngroup++ : -1;
    for (size_t i = 0; i < N; ++i) { int s = freel.front(); freel.pop_front(); claim(v[i], s, 1, nm[i], g); }
    names(ws);
    if (g >= 0) for (size_t i = 1; i < N; ++i) MC_CHECK(ctx, reinterpret_cast<char*>(v[i].data()) - reinterpret_cast<char*>(v[0].data()) == ptrdiff_t(i) * stride, "not-contiguous", "after " << hist << ": blocks 0 and " << i << " of a contiguous take are " << (reinterpret_cast<char*>(v[i].data()) - reinterpret_cast<char*>(v[0].data())) << " bytes apart, expected " << i * stride);
  }
  template <class WS> void op_macro(WS& ws, int n) {
    auto nm = newname(); note("take_macro_block(" + std::to_string(n) + ")"); auto v = ws.template take_macro_block<S>(nm.c_str(), n); int s = freel.front(); for (int i = 0; i < n; ++i) freel.pop_front(); claim(v, s, n, nm, -1); names(ws);
  }
  void release_all_model() { for (auto& b : live) counts[b.name].second++; live.clear(); }
  std::vector<Blk> dead;   // blocks given back, by slot
  void drop(size_t k) { auto b = live[k]; if (b.n == 1) dead.push_back(b); counts[b.name].second++; live.erase(live.begin() + k); for (int i = b.n; i-- > 0;) freel.push_front(b.slot + i); }
  template <class WS> void op_release(WS& ws, size_t k) {
    auto b = live[k]; note("release " + std::to_string(k) + (b.n > 1 ? " (macro)" : ""));
    if (b.n > 1) ws.template release_macro_block<S>(b.v, b.n); else ws.release(b.v);
    drop(k); 
  }
  std::vector<size_t> group(int g) const { std::vector<size_t> r; for (size_t i = 0; i < live.size(); ++i) if (live[i].group == g) r.push_back(i); return r; }
  template <size_t N, class WS> void op_release_group(WS& ws, const std::vector<size_t>& ks) {
    note("release_many_contiguous<" + std::to_string(N) + ">");
    Kokkos::Array<V1<S>, N> v; Kokkos::Array<V1<S>*, N> p; for (size_t i = 0; i < N; ++i) { v[i] = live[ks[i]].v; p[i] = &v[i]; }
    ws.template release_many_contiguous<N, S>(p);
    for (size_t i = N; i-- > 0;) drop(ks[i]);
  }
  template <class WS> void release_group(WS& ws, const std::vector<size_t>& ks) { if (ks.size() == 1) op_release_group<1>(ws, ks); else if (ks.size() == 2) op_release_group<2>(ws, ks); else if (ks.size() == 3) op_release_group<3>(ws, ks); else if (ks.size() == 4) op_release_group<4>(ws, ks); else if (ks.size() == 5) op_release_group<5>(ws, ks); else if (ks.size() == 7) op_release_group<7>(ws, ks); else if (ks.size() == 9) op_release_group<9>(ws, ks); else if (ks.size() == 12) op_release_group<12>(ws, ks); }
  template <class WS> void op_reset(WS& ws) { note("reset"); ws.reset(); release_all_model(); freed(); }
  template <class WS> void op_print(WS& ws) {   // lists the free blocks: (index, next) of each
    note("print"); std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); try { ws.print(); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old);
    std::string l = os.str(); std::vector<int> got; size_t p = 0; int a, b; while ((p = l.find('(', p)) != std::string::npos) { if (sscanf(l.c_str() + p, "(%d, %d)", &a, &b) == 2) got.push_back(a); ++p; }
    std::set<int> g(got.begin(), got.end()), want(freel.begin(), freel.end());
    MC_CHECK(ctx, g == want && got.size() == want.size(), "print", "after " << hist << ": the free list is printed as " << l << " while " << want.size() << " blocks are free");
  }
  // the groups that may be released together: all their members still live and (as taken) in ascending slots
  std::vector<std::vector<size_t>> groups() const { std::vector<std::vector<size_t>> r; for (int g = 0; g < ngroup; ++g) { auto k = group(g); if (!k.empty()) { bool asc = true; for (size_t i = 1; i < k.size(); ++i) asc = asc && live[k[i]].slot == live[k[0]].slot + int(i); if (asc) r.push_back(k); } } return r; }
  void drain(const std::function<void(const std::function<void(void*)>&)>&) {}
  template <class WS> void capacity(WS& ws) {   // exactly max_used minus the blocks in use can be taken
    while (!freel.empty()) { op_take(ws); verify(); }
#ifndef NDEBUG
    bool rej = mc::rejects([&] { ws.template take<S>("extra"); });
    MC_CHECK(ctx, rej, "overtake", "after " << hist << ": one more block than the maximum could be taken");
#endif
  }
  // debug builds refuse misuse; afterwards nothing is known, so this ends a history
  template <class WS> void misuse(WS& ws) {
    int nf = int(freel.size()), M = c.max_used; std::vector<Blk> stale; for (auto& b : dead) { bool fr = false; for (int f : freel) fr = fr || f == b.slot; if (fr) stale.push_back(b); }
    auto many = [&](auto n, bool contiguous) { constexpr size_t N = decltype(n)::value; Kokkos::Array<V1<S>, N> v; Kokkos::Array<V1<S>*, N> p; Kokkos::Array<const char*, N> nm; for (size_t i = 0; i < N; ++i) { p[i] = &v[i]; nm[i] = "q"; } if (contiguous) ws.template take_many_contiguous_unsafe<N, S>(nm, p); else ws.template take_many<N, S>(nm, p); };
    auto refused = [&](const char* what, const std::function<void()>& f) { MC_CHECK(ctx, mc::rejects(f), "misuse-accepted", "after " << hist << " (at most " << M << " blocks): " << what << " is accepted"); ctx.outcome(mc::hash_str(what)); };
    std::integral_constant<size_t, 2> two; std::integral_constant<size_t, 3> three;
    switch (ctx.choose(8, "misuse")) {
      case 0: if (nf) refused("an empty name", [&] { ws.template take<S>(""); }); break;
      case 1: if (nf) refused("a name of 128 characters", [&] { ws.template take<S>(std::string(128, 'x').c_str()); }); break;
      case 2: if (!stale.empty()) { auto b = stale[ctx.choose(int(stale.size()), "stale")]; refused("the release of a block that was given back", [&] { ws.release(b.v); }); } break;
      case 3: if (nf < 2) refused("taking 2 blocks while fewer are free", [&] { many(two, false); }); else if (nf < 3) refused("taking 3 blocks while fewer are free", [&] { many(three, false); }); break;
      case 4: if (nf >= 2 && !contiguous(2)) refused("a contiguous take of 2 where the free blocks are not contiguous", [&] { many(two, true); }); break;
      case 5: if (nf >= 3 && !contiguous(3)) refused("a contiguous take of 3 where the free blocks are not contiguous", [&] { many(three, true); }); break;
      case 6: if (nf >= 2 && !contiguous(2)) refused("a macro block of 2 where the free blocks are not contiguous", [&] { ws.template take_macro_block<S>("m", 2); }); break;
      case 7: refused("a macro block of more than the maximum", [&] { ws.template take_macro_block<S>("m", M + 1); }); break;
    }
  }
  void run_misuse() {
    measure(); kernel([&](auto& ws) { int left = c.depth; while (left-- > 0) if (step(ws)) return; misuse(ws); });
  }
  // one step inside a kernel; false: leave the kernel
  enum { KERNEL = -1, HOSTRESET = -2 };
  template <class WS> int step(WS& ws) {
    struct Op { int k, a; }; std::vector<Op> ops; int nf = int(freel.size()), M = c.max_used;
    if (nf >= 1) ops.push_back({0, 0});
    for (size_t i = 0; i < live.size(); ++i) ops.push_back({1, int(i)});
    for (int n = 2; n <= 3; ++n) { if (nf >= n) ops.push_back({2, n}); if (contiguous(n)) { ops.push_back({3, n}); ops.push_back({4, n}); } if (nf >= n && n == 2 && std::is_same<T, S>::value) ops.push_back({5, n}); }
    for (int n = 1; n <= std::min(M, 3); ++n) ops.push_back({6, n});
    auto gs = groups(); for (size_t i = 0; i < gs.size(); ++i) if (gs[i].size() > 1) ops.push_back({7, int(i)});
    ops.push_back({8, 0}); ops.push_back({9, 0}); ops.push_back({10, 0}); if (c.print) ops.push_back({11, 0});
    auto o = ops[ctx.choose(int(ops.size()), "operation")]; ctx.transition();
    switch (o.k) {
      case 0: op_take(ws); break;
      case 1: op_release(ws, o.a); break;
      case 2: if (o.a == 2) op_many<2>(ws, 0); else op_many<3>(ws, 0); break;
      case 3: if (o.a == 2) op_many<2>(ws, 1); else op_many<3>(ws, 1); break;
      case 4: op_macro(ws, o.a); break;
      case 5: op_many<2>(ws, 3); break;
      case 6: if (o.a == 1) op_many<1>(ws, 2); else if (o.a == 2) op_many<2>(ws, 2); else op_many<3>(ws, 2); break;
      case 7: release_group(ws, gs[o.a]); break;
      case 8: op_reset(ws); break;
      case 9: return KERNEL;
      case 10: return HOSTRESET;
      case 11: op_print(ws); break;
    }
    verify(); names(ws); return 0;
  }
  template <class F> void kernel(F&& f) {
    std::exception_ptr ep;
    struct G { bool o = mc::catch_aborts; G() { mc::catch_aborts = true; } ~G() { mc::catch_aborts = o; } } g;
    // a policy of one team so that the history is that of one team
    Kokkos::parallel_for(Policy(1, 1), [&](const Member& team) {
      try { auto ws = wsm.get_workspace(team, "w"); f(ws); } catch (...) { ep = std::current_exception(); }
    });
    if (ep) try { std::rethrow_exception(ep); } catch (const mc::Aborted& a) { ctx.fail("assert", "after " + hist + ": a kernel assertion failed in a legal history (" + a.what() + ")"); }
  }
  void measure() {   // the distance of consecutive blocks
    if (c.max_used < 2) { stride = 0; return; }
    kernel([&](auto& ws) { Kokkos::Array<V1<S>, 2> v; Kokkos::Array<V1<S>*, 2> p; p[0] = &v[0]; p[1] = &v[1]; Kokkos::Array<const char*, 2> nm; nm[0] = "x"; nm[1] = "y";
      ws.template take_many_contiguous_unsafe<2, S>(nm, p); stride = reinterpret_cast<char*>(v[1].data()) - reinterpret_cast<char*>(v[0].data()); ws.template release_many_contiguous<2, S>(p); });
    if (c.report) { counts["x"] = {1, 1}; counts["y"] = {1, 1}; } high = 2;
    MC_CHECK(ctx, stride >= ptrdiff_t(blen()), "overlap", "two consecutive blocks of " << blen() << " bytes are " << stride << " bytes apart");
  }
  void host_reset() { note("host reset"); wsm.reset_internals(); release_all_model(); freed(); counts.clear(); high = 0; }
  void run() {
    measure(); int left = c.depth; bool end = false;
    while (!end) {
      int r = 0;
      kernel([&](auto& ws) { names(ws); while (left > 0) { --left; r = step(ws); if (r) return; } end = true; });
      if (end) break;
      if (r == HOSTRESET) host_reset(); else note("next kernel");
      verify(); 
    }
    if (c.report) return;
    ctx.outcome(mc::mix(used(), mc::hash_str([&] { std::string s; for (int f : freel) s += char('0' + f); for (auto& b : live) s += char('a' + b.slot), s += char('0' + b.n); return s; }())));
    // what is left can be taken, and after releasing everything all of it can be taken again
    auto keep = live.size();
    kernel([&](auto& ws) { while (!freel.empty()) { op_take(ws); verify(); } names(ws); });
    (void)keep;
    kernel([&](auto& ws) { while (!live.empty()) { op_release(ws, 0); verify(); } while (!freel.empty()) { op_take(ws); verify(); } names(ws); capacity(ws); });
  }
};
template <class T, class S> void hist(Ctx& ctx, Cfg c) { Hist<T, S> h(ctx, c); h.run(); ctx.state(mc::hash_str(h.hist)); }
}
#ifndef TYPES
MC_SCENARIO(histories, "blocks of 3 doubles, at most 1-4 blocks, storage given by the user; every legal sequence of 4 (at most 3 blocks: 5; thorough: 5 and 6) operations out of take, take_many, take_many_refs, contiguous take, macro block, take_many_and_reset, release in any order, release of a group, reset, next kernel, host reset; then everything that is left is taken, everything released and taken again", 4) {
  int M = 4 - ctx.choose(4, "max used"); hist<double, double>(ctx, {M, 3, (M == 4 ? 4 : 5) + (ctx.tier() && M > 2), true});
}
namespace {
// phases of takes and releases at sizes the histories do not reach; names up to the longest one allowed, as many as are allowed
template <class T, class S> void long_history(Ctx& ctx, int M, int sz, int way, bool user) {
  Hist<T, S> h(ctx, {M, sz, 0, user});
  for (int i = 0; i < 250; ++i) { static const int L[] = {1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 100, 126, 127}; std::string s = std::to_string(i); int l = L[i % 13]; if (int(s.size()) < l) s += std::string(size_t(l) - s.size(), char('a' + i % 26)); h.names_.push_back(s); }
  h.measure();
  auto order = [&](int k, int n) { return way % 3 == 0 ? 0 : way % 3 == 1 ? n - 1 : (k * 7 + 3) % n; };   // which of the n live blocks to release next
  for (int round = 0; round < 3; ++round) {
    h.kernel([&](auto& ws) {
      while (!h.freel.empty()) { int k = (int(h.freel.size()) + way) % 4; if (way / 3 == 1 && k == 0 && h.contiguous(3)) h.op_macro(ws, 3); else if (way / 3 == 1 && k == 1 && h.contiguous(2)) h.template op_many<2>(ws, 1); else if (k == 2 && h.freel.size() >= 3) h.template op_many<3>(ws, 0); else h.op_take(ws); }
      h.verify(); h.names(ws);
      for (int k = 0, n = int(h.live.size()) * (round + 1) / 3; k < n; ++k) h.op_release(ws, size_t(order(k, int(h.live.size()))));
      h.verify(); h.names(ws);
    });
    if (way / 3 == 1 && round == 1) { h.host_reset(); h.names_.resize(200); }
    h.verify();
  }
  h.kernel([&](auto& ws) { while (!h.live.empty()) h.op_release(ws, h.live.size() - 1); while (!h.freel.empty()) h.op_take(ws); h.verify(); h.names(ws);
#ifndef NDEBUG
    { static const int BAD[] = {0, 128, 200}; int bad = BAD[way % 3]; h.op_release(ws, 0); std::string s(size_t(bad), 'n'); MC_CHECK(ctx, mc::rejects([&] { ws.template take<S>(s.c_str()); }), "name-length", "a name of " << bad << " characters was accepted"); return; }
#endif
  });
  ctx.outcome(mc::hash_str(h.hist)); ctx.state(mc::mix(M * 1000 + sz, way));
}
}
MC_SCENARIO(long_histories, "at most 5-129 blocks of 1-300 values around powers of two; three rounds of taking everything, singly and together, and releasing a third, two thirds or all of it in one of three orders; 250 names of 1-127 characters", 2) {
  int M = ctx.pick(std::vector<int>{5, 8, 9, 16, 17, 32, 33, 64, 65, 129}, "max used"), sz = ctx.pick(std::vector<int>{1, 2, 7, 8, 9, 16, 17, 64, 300}, "size"), way = ctx.choose(6, "way"); bool user = ctx.flag("user storage"); int ty = ctx.choose(3, "type");
  if (ty == 0) long_history<double, double>(ctx, M, sz, way, user); else if (ty == 1) long_history<int, int>(ctx, M, sz, way, user); else long_history<ekat::Pack<double, 4>, ekat::Pack<double, 4>>(ctx, M, sz, way, user);
}
namespace {
// groups of many blocks and macro blocks of many sub-blocks
template <class T, class S> void groups_of(Ctx& ctx) {
  int n = ctx.pick(std::vector<int>{1, 3, 4, 5, 7, 9, 12}, "group"), extra = ctx.pick(std::vector<int>{0, 1, 2, 5, 13}, "more blocks"), form = ctx.choose(std::is_same<T, S>::value ? 5 : 4, "form"), before = ctx.choose(std::min(extra, 2) + 1, "taken before"), rel = ctx.choose(3, "released"), sz = ctx.pick(sizeof(T) == 1 ? std::vector<int>{4, 12} : std::vector<int>{1, 3, 8}, "size"); if (form == 3) form = 4; else if (form == 4) form = 3;
  Hist<T, S> h(ctx, {n + extra, sz, 0, ctx.flag("user storage")}); h.measure();
  auto take = [&](auto& ws) {
    if (form == 4) { h.op_macro(ws, n); return; }
    switch (n) { case 1: h.template op_many<1>(ws, form); break; case 3: h.template op_many<3>(ws, form); break; case 4: h.template op_many<4>(ws, form); break; case 5: h.template op_many<5>(ws, form); break; case 7: h.template op_many<7>(ws, form); break; case 9: h.template op_many<9>(ws, form); break; default: h.template op_many<12>(ws, form); } };
  h.kernel([&](auto& ws) {
    for (int round = 0; round < 2; ++round) {
      for (int i = 0; i < before; ++i) h.op_take(ws);
      if (form != 2 && (int(h.freel.size()) < n || ((form == 1 || form == 4) && !h.contiguous(n)))) { h.op_reset(ws); }
      take(ws); h.verify(); h.names(ws);
      auto gs = h.groups();
      if (rel == 0 && !gs.empty()) h.release_group(ws, gs.back()); else for (int i = 0, m = int(h.live.size()); i < m; ++i) h.op_release(ws, rel == 1 ? h.live.size() - 1 : size_t((i * 5 + 2) % int(h.live.size())));
      h.verify(); while (!h.freel.empty()) h.op_take(ws); h.verify(); h.names(ws);
      while (!h.live.empty()) h.op_release(ws, round ? 0 : h.live.size() - 1);
      if (round == 0) { h.op_print(ws); while (!h.freel.empty()) h.op_take(ws); h.verify(); h.names(ws); h.op_reset(ws); h.op_print(ws); }
    }
    while (!h.freel.empty()) h.op_take(ws); h.verify(); });
  ctx.outcome(mc::hash_str(h.hist)); ctx.state(mc::mix(uint64_t(n * 100 + extra), uint64_t(form * 100 + before * 10 + rel)));
}
}
MC_SCENARIO(groups, "take_many, contiguous takes, take_many_and_reset and macro blocks of 1-12 blocks out of up to 25, after 0-2 others; released as a group or one by one in two orders, everything taken and released, the free list printed, twice; three types", 3) { int ty = ctx.choose(3, "type"); if (ty == 0) groups_of<double, double>(ctx); else if (ty == 1) groups_of<char, char>(ctx); else groups_of<double, int>(ctx); }
MC_SCENARIO(histories_owned, "storage owned by the manager, 4 blocks of 2 doubles, sequences of 3 (thorough 4) operations, printing the free list included", 3) { hist<double, double>(ctx, {4, 2, ctx.tier() ? 4 : 3, false, false, true}); }
MC_SCENARIO(histories_deep, "at most 1-2 blocks, sequences of 7 operations", 5, true) { int M = 1 + ctx.choose(2, "max used"); hist<double, double>(ctx, {M, 2, 7, true}); }
#else
template <class T, class S> static void types(Ctx& ctx, const std::vector<int>& sizes, int depth) { int M = 3; int sz = ctx.pick(sizes, "size"); hist<T, S>(ctx, {M, sz, depth + ctx.tier(), bool(ctx.choose(2, "user storage"))}); }
MC_SCENARIO(types_same, "values of 1, 2, 4, 8, 12 and 16 bytes, block sizes from 1; every sequence of 2 (thorough 3) operations with at most 3 blocks", 3) {
  switch (ctx.choose(6, "type")) {
    case 0: types<char, char>(ctx, {4, 12}, 2); break;
    case 1: types<short, short>(ctx, {2, 4, 6}, 2); break;
    case 2: types<int, int>(ctx, {1, 2, 3, 5}, 2); break;
    case 3: types<float, float>(ctx, {1, 2, 3}, 2); break;
    case 4: types<ekat::Pack<double, 2>, ekat::Pack<double, 2>>(ctx, {1, 2, 3}, 2); break;
    default: types<double, double>(ctx, {1, 2, 5}, 2);
  }
}
MC_SCENARIO(types_other, "blocks taken as another type (double as int, int as double, pack as double, float as pack, double as char): length and contents; sequences of 2 (thorough 3) operations", 3) {
  switch (ctx.choose(6, "types")) {
    case 0: types<double, int>(ctx, {1, 2, 3}, 2); break;
    case 1: types<int, double>(ctx, {1, 2, 3, 5}, 2); break;
    case 2: types<ekat::Pack<double, 2>, double>(ctx, {1, 3}, 2); break;
    case 3: types<float, ekat::Pack<float, 2>>(ctx, {1, 2, 3}, 2); break;
    case 4: types<double, char>(ctx, {1, 3}, 2); break;
    default: types<char, int>(ctx, {4, 8}, 2);
  }
}
#endif
#if !defined(NDEBUG) && !defined(TYPES)
MC_SCENARIO(misuse, "debug builds: every sequence of 0-3 (thorough 4) operations with at most 1-4 blocks, then an empty or too long name, a second release, more blocks than are free, or a contiguous take without contiguous blocks: refused", 3) {
  int M = 1 + ctx.choose(4, "max used"); Hist<double, double> h(ctx, {M, 2, ctx.choose(ctx.tier() ? 5 : 4, "depth"), true}); h.run_misuse(); ctx.state(mc::hash_str(h.hist));
}
MC_SCENARIO(not_set_up, "debug builds: a manager that was not set up refuses to report and to give a workspace, and works after its setup; copies likewise", 1) {
  using W = ekat::WorkspaceManager<double>; W w, c; int how = ctx.choose(3, "what"); bool copy = ctx.flag("copy"); Policy pol(2, 1);
  auto use = [&](const W& x) { if (how == 0) { std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); bool r = mc::rejects([&] { x.report(); }); std::cout.rdbuf(old); return !r; }
    bool ok = false; Kokkos::parallel_for(Policy(1, 1), [&](const Member& team) { ok = !mc::rejects([&] { if (how == 1) { auto ws = x.get_workspace(team, "w"); auto v = ws.take("a"); v(0) = 1; ws.release(v); } else { auto ws = x.get_workspace(team); x.release_workspace(team, ws); } }); }); return ok; };
  if (copy) c = w; const W& x = copy ? c : w; MC_CHECK(ctx, !use(x), "not-set-up", "a manager without setup can be used (" << how << ")");
  w.setup(3, 2, pol); if (copy) c = w; MC_CHECK(ctx, use(x), "set-up", "a manager cannot be used after setup (" << how << ")"); ctx.outcome(uint64_t(how * 2 + copy));
}
MC_SCENARIO(many_names, "debug builds: 1-256 names on one or two workspaces, then report(): every name once with its counts; a name more than 256 is refused", 1) {
  using W = ekat::WorkspaceManager<double>; Policy pol(2, 1); W w(2, 4, pol); int n = ctx.pick(std::vector<int>{1, 2, 127, 128, 129, 255, 256, 257}, "names"), twice = ctx.choose(3, "again"); bool ok = true; int slots = ekat::TeamUtils<double, Kokkos::DefaultExecutionSpace>(pol).get_num_ws_slots();
  auto nm = [](int i) { return "name " + std::to_string(i * 7 % 257); };
  Kokkos::parallel_for(Policy(1, 1), [&](const Member& team) { ok = !mc::rejects([&] { auto ws = w.get_workspace(team); for (int r = 0; r <= twice; ++r) for (int i = 0; i < n; i += r + 1) { auto v = ws.take(nm(i).c_str()); if (r < 2 || i % 5) ws.release(v); else { ws.reset(); } } }); });
  MC_CHECK(ctx, ok == (n <= 256), "names", n << " names are " << (ok ? "accepted" : "refused")); if (!ok) return;
  std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); bool rej = mc::rejects([&] { w.report(); }); std::cout.rdbuf(old); MC_CHECK(ctx, !rej, "report", n << " names: report fails");
  std::map<std::string, std::array<int, 3>> got, sum; std::istringstream is(os.str()); std::string l; char s[200]; int a, b, u, lines = 0;
  while (std::getline(is, l)) { if (sscanf(l.c_str(), " workspace '%199[^']' was taken %d times and released %d times", s, &a, &b) == 3) { got[s] = {got[s][0] + 1, a, b}; ++lines; } if (sscanf(l.c_str(), "Workspace '%199[^']' was used by %d wsindices with %d takes and %d releases.", s, &u, &a, &b) == 4) sum[s] = {u, a, b}; }
  MC_CHECK(ctx, lines == n, "report-lines", n << " names on " << slots << " slots: " << lines << " are reported");
  for (int i = 0; i < n; ++i) { int e = 1 + (twice > 0 && i % 2 == 0) + (twice > 1 && i % 3 == 0); auto g = got[nm(i)]; MC_CHECK(ctx, (g == std::array<int, 3>{1, e, e} && sum[nm(i)] == g), "report-counts", n << " names: " << nm(i) << " reported " << g[0] << " times, taken " << g[1] << ", released " << g[2] << ", expected " << e << "; summary " << mc::show(std::vector<int>(sum[nm(i)].begin(), sum[nm(i)].end()))); }
  ctx.outcome(uint64_t(n * 4 + twice));
}
// the usage report: how often each name was taken and released, the blocks in use, and the high-water mark
MC_SCENARIO(report, "every sequence of 2-3 (thorough 4) operations with at most 3 blocks, then report(): counts per name, number in use, high-water mark", 3) {
  Hist<double, double> h(ctx, {3, 2, 2 + ctx.choose(ctx.tier() ? 3 : 2, "depth"), true, true}); h.run();
  std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf());
  try { h.wsm.report(); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old);
  std::string s = os.str(); std::map<std::string, std::pair<int, int>> got; int using_ = -1, high = -1;
  std::istringstream is(s); std::string l; char nm[200]; int a, b, t;
  while (std::getline(is, l)) {
    if (sscanf(l.c_str(), " workspace '%199[^']' was taken %d times and released %d times", nm, &a, &b) == 3) got[nm] = {a, b};
    if (sscanf(l.c_str(), "WS %d currently using %d", &t, &a) == 2) using_ = a;
    if (sscanf(l.c_str(), "WS %d high-water %d", &t, &a) == 2) high = a;
  }
  for (auto& kv : h.counts) MC_CHECK(ctx, got[kv.first] == kv.second, "report-counts", "after " << h.hist << ": name " << kv.first << " reported as taken " << got[kv.first].first << " and released " << got[kv.first].second << " times, expected " << kv.second.first << " and " << kv.second.second << "\n" << s);
  std::map<std::string, std::array<int, 3>> sum; std::istringstream is2(s); while (std::getline(is2, l)) if (sscanf(l.c_str(), "Workspace '%199[^']' was used by %d wsindices with %d takes and %d releases.", nm, &t, &a, &b) == 4) sum[nm] = {t, a, b};
  for (auto& kv : h.counts) MC_CHECK(ctx, (sum[kv.first] == std::array<int, 3>{1, kv.second.first, kv.second.second}), "report-summary", "after " << h.hist << ": the summary gives name " << kv.first << " " << sum[kv.first][0] << " indices, " << sum[kv.first][1] << " takes and " << sum[kv.first][2] << " releases, expected " << kv.second.first << " and " << kv.second.second);
  for (auto& kv : got) MC_CHECK(ctx, kv.second.first + kv.second.second == 0 || h.counts.count(kv.first), "report-counts", "after " << h.hist << ": report shows takes of " << kv.first);
  MC_CHECK(ctx, using_ == h.used(), "report-used", "after " << h.hist << ": report says " << using_ << " blocks in use, expected " << h.used());
  MC_CHECK(ctx, high == h.high, "report-high-water", "after " << h.hist << ": report says high-water " << high << ", expected " << h.high);
  ctx.outcome(s); ctx.state(mc::hash_str(h.hist));
}
#endif
