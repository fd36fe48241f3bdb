// Workspaces under threads: every legal script of operations up to a length, run by teams of several threads and by several teams at once,
// under every schedule up to a bound on deviations. What a user sees is checked: the blocks each thread gets and what stays in them.
#include "kokkos_mt.hpp"
#include <Kokkos_Core.hpp>
#include "ekat_workspace.hpp"
#include <deque>
using mc::Ctx; using mc::mt::Quiet;
namespace {
using Policy = Kokkos::TeamPolicy<>; using Member = Policy::member_type;
using WSM = ekat::WorkspaceManager<double>;
using V = ekat::Unmanaged<typename ekat::KokkosTypes<ekat::DefaultDevice>::template view_1d<double>>;
enum Kind { TAKE, MANY, CONTIG, ANDRESET, REFS, MACRO, REL, RELGROUP, RESET, NKIND };
struct Op { Kind k; int n; std::vector<int> which; };      // n: blocks; which: ids of the blocks released
struct Live { int id, slot, n, group; };
struct Script { std::vector<Op> ops; std::string text; int blocks = 0; int maxlive = 0; };
// all legal operations in a state, by the free-list model of C01
struct Model {
  int M; std::vector<Live> live; std::deque<int> fl; int id = 0, grp = 0;
  explicit Model(int m) : M(m) { all(); } void all() { fl.clear(); for (int i = 0; i < M; ++i) fl.push_back(i); live.clear(); }
  bool contig(int n) const { if (int(fl.size()) < n) return false; for (int i = 1; i < n; ++i) if (fl[i] != fl[0] + i) return false; return true; }
  std::vector<Op> ops() const {
    std::vector<Op> r; int nf = int(fl.size());
    if (nf) r.push_back({TAKE, 1, {}});
    for (auto& l : live) r.push_back({REL, l.n, {l.id}});
    if (nf >= 2) { r.push_back({MANY, 2, {}}); r.push_back({REFS, 2, {}}); }
    if (contig(2)) { r.push_back({CONTIG, 2, {}}); r.push_back({MACRO, 2, {}}); }
    r.push_back({ANDRESET, 1, {}}); if (M >= 2) r.push_back({ANDRESET, 2, {}});
    for (int g = 0; g < grp; ++g) { std::vector<int> w; int s0 = 0; bool asc = true; for (auto& l : live) if (l.group == g) { if (w.empty()) s0 = l.slot; asc = asc && l.slot == s0 + int(w.size()); w.push_back(l.id); } if (w.size() == 2 && asc) r.push_back({RELGROUP, 2, w}); }
    if (!live.empty()) r.push_back({RESET, 0, {}});
    return r;
  }
  void apply(const Op& o) {
    auto put = [&](int n, int g) { Live l{id++, fl.front(), n, g}; for (int i = 0; i < n; ++i) fl.pop_front(); live.push_back(l); };
    switch (o.k) {
      case TAKE: put(1, -1); break; case MANY: case REFS: put(1, -1); put(1, -1); break;
      case CONTIG: put(1, grp); put(1, grp); ++grp; break; case MACRO: put(2, -1); break;
      case ANDRESET: all(); for (int i = 0; i < o.n; ++i) put(1, grp); ++grp; break;
      case RESET: all(); break;
      default: for (size_t j = o.which.size(); j-- > 0;) for (size_t i = 0; i < live.size(); ++i) if (live[i].id == o.which[j]) { for (int s = live[i].n; s-- > 0;) fl.push_front(live[i].slot + s); live.erase(live.begin() + i); break; }
    }
  }
};
const char* KN[] = {"take", "take_many", "take_many_contiguous", "take_many_and_reset", "take_many_refs", "take_macro_block", "release", "release_many_contiguous", "reset"};
Script script(Ctx& ctx, int M, int len) {
  Script s; Model m(M);
  for (int i = 0; i < len; ++i) { auto a = m.ops(); auto o = a[ctx.choose(int(a.size()), "operation")]; m.apply(o); s.ops.push_back(o); s.text += (i ? "; " : "") + std::string(KN[o.k]); if (o.n > 1) s.text += "<" + std::to_string(o.n) + ">"; for (int w : o.which) s.text += " b" + std::to_string(w); }
  s.blocks = m.id; return s;
}
struct Claim { double *b, *e; int league, id; };
struct Run {
  Ctx& ctx; const Script& s; int ts, lg, M, sz;
  std::vector<std::vector<std::vector<double*>>> got;       // league, thread, block id -> address
  std::vector<Claim> claims; std::vector<char> inside;      // blocks live in running teams
  std::string where(int l, int t) const { return "script [" + s.text + "] with " + std::to_string(lg) + " teams of " + std::to_string(ts) + ", team " + std::to_string(l) + " thread " + std::to_string(t); }
};
double tag(int l, int id, int e) { return 1e6 * (l + 1) + 1000 * (id + 1) + e; }
struct Mine { int id; V v; int n; double* b; double* e; };   // as a thread sees a live block
// one thread's run of the script
KOKKOS_INLINE_FUNCTION void thread_body(Run& r, const WSM& wsm, const Member& team, bool drain) {
  const int l = team.league_rank(), t = team.team_rank(), ts = r.ts; Ctx& ctx = r.ctx;
  auto ws = wsm.get_workspace(team, "w");
  static const char* names[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"};
  Mine mine[8]; int nm = 0, id = 0; ptrdiff_t stride = r.sz + 1;
  auto own = [&](double* p, double* b) { return (p - b) % ts == t; };
  auto check = [&](const char* when) { for (int i = 0; i < nm; ++i) for (double* p = mine[i].b; p < mine[i].e; ++p) if (own(p, mine[i].b)) { double x = *p; MT_CHECK(ctx, x == tag(l, mine[i].id, int(p - mine[i].b)), "content", r.where(l, t) << ": element " << (p - mine[i].b) << " of block b" << mine[i].id << " holds " << x << " instead of " << tag(l, mine[i].id, int(p - mine[i].b)) << " (written by this thread) " << when); } };
  auto claim = [&](const V& v, int n) {
    double* b = v.data(); double* e = b + r.sz + (n - 1) * stride;
    { Quiet q;
      MT_CHECK(ctx, int(v.extent(0)) == r.sz, "length", r.where(l, t) << ": block of " << v.extent(0) << " elements");
      auto& g = r.got[l]; for (int k = 0; k < ts; ++k) if (int(g[k].size()) > id) MT_CHECK(ctx, g[k][id] == b, "different-blocks", r.where(l, t) << ": block b" << id << " differs from the one thread " << k << " of the team got (by " << (b - g[k][id]) << " elements)");
      bool first = true; for (int k = 0; k < ts; ++k) first = first && int(g[k].size()) <= id;
      g[t].push_back(b);
      if (first) { for (auto& c : r.claims) MT_CHECK(ctx, e <= c.b || c.e <= b, "overlap", r.where(l, t) << ": block b" << id << " overlaps the live block b" << c.id << " of team " << c.league); r.claims.push_back({b, e, l, id}); } }
    for (int i = 0; i < nm; ++i) MT_CHECK(ctx, e <= mine[i].b || mine[i].e <= b, "overlap", r.where(l, t) << ": block b" << id << " overlaps the live block b" << mine[i].id);
    for (double* p = b; p < e; ++p) if (own(p, b)) *p = tag(l, id, int(p - b));
    mine[nm].id = id; mine[nm].v = v; mine[nm].n = n; mine[nm].b = b; mine[nm].e = e; ++nm; ++id;
  };
  auto unclaim = [&](int bid) { { Quiet q; auto& c = r.claims; for (size_t i = 0; i < c.size(); ++i) if (c[i].league == l && c[i].id == bid) { c.erase(c.begin() + i); break; } } for (int i = 0; i < nm; ++i) if (mine[i].id == bid) { for (int k = i; k + 1 < nm; ++k) mine[k] = mine[k + 1]; --nm; break; } };
  auto forget = [&] { while (nm) unclaim(mine[nm - 1].id); };
  auto find = [&](int bid) -> Mine& { for (int i = 0; i < nm; ++i) if (mine[i].id == bid) return mine[i]; return mine[0]; };
#ifndef NDEBUG
  auto name_check = [&] { for (int i = 0; i < nm; ++i) { const char* g = ws.get_name(mine[i].v); MT_CHECK(ctx, g[0] == 'n' && g[1] == char('0' + mine[i].id % 8) && g[2] == 0, "name", r.where(l, t) << ": block b" << mine[i].id << " is named " << g); } };
#else
  auto name_check = [] {};
#endif
  for (size_t k = 0; k < r.s.ops.size(); ++k) {
    const Op& o = r.s.ops[k];
    V a, b; Kokkos::Array<const char*, 2> nn; nn[0] = names[id % 8]; nn[1] = names[(id + 1) % 8]; Kokkos::Array<const char*, 1> n1; n1[0] = nn[0];
    Kokkos::Array<V*, 2> p; p[0] = &a; p[1] = &b; Kokkos::Array<V*, 1> p1; p1[0] = &a;
    // a thread may use its part of a block until it itself gives the block back
    if (o.k >= REL || o.k == ANDRESET) check("before giving it back");
    switch (o.k) {
      case TAKE: { auto v = ws.take(nn[0]); claim(v, 1); break; }
      case MANY: ws.take_many<2, double>(nn, p); claim(a, 1); claim(b, 1); break;
      case CONTIG: ws.take_many_contiguous_unsafe<2, double>(nn, p); claim(a, 1); claim(b, 1); break;
      case REFS: ws.take_many_refs(nn, a, b); claim(a, 1); claim(b, 1); break;
      case ANDRESET: forget(); if (o.n == 2) { ws.take_many_and_reset<2, double>(nn, p); claim(a, 1); claim(b, 1); } else { ws.take_many_and_reset<1, double>(n1, p1); claim(a, 1); } break;
      case MACRO: { auto v = ws.take_macro_block<double>(nn[0], 2); claim(v, 2); break; }
      case REL: { Mine m = find(o.which[0]); unclaim(o.which[0]); if (m.n == 1) ws.release(m.v); else ws.release_macro_block<double>(m.v, m.n); break; }
      case RELGROUP: { a = find(o.which[0]).v; b = find(o.which[1]).v; unclaim(o.which[0]); unclaim(o.which[1]); ws.release_many_contiguous<2, double>(p); break; }
      default: forget(); ws.reset();
    }
    check("after the operation"); name_check();
  }
  if (drain) { // nothing is lost: all the others can be taken
    int used = 0; for (int i = 0; i < nm; ++i) used += mine[i].n;
    for (int i = used; i < r.M; ++i) { auto v = ws.take(names[id % 8]); claim(v, 1); }
    check("with all blocks taken"); name_check(); team.team_barrier(); forget(); ws.reset(); auto v = ws.take(names[id % 8]); claim(v, 1); check("after a reset"); forget(); ws.release(v);
  } else { team.team_barrier(); forget(); ws.reset(); }
}
void explore(Ctx& ctx, const Script& s, int ts, int lg, int M, int bound, bool drain) {
  mc::mt::explore(ctx, bound, [&] {
    Run r{ctx, s, ts, lg, M, 2, {}, {}, {}}; r.got.assign(lg, std::vector<std::vector<double*>>(ts));
    Policy pol(lg, ts); int b = mc::Sched::get().bound; mc::Sched::get().bound = 0; WSM wsm(r.sz, M, pol); mc::Sched::get().bound = b;
    Kokkos::parallel_for(pol, [&r, wsm, drain](const Member& team) { thread_body(r, wsm, team, drain); });
    for (int l = 0; l < lg; ++l) for (int t = 0; t < ts; ++t) MC_CHECK(ctx, !r.got[l][t].empty() || s.blocks == 0, "not-run", "team " << l << " thread " << t << " did not run");
  });
  ctx.outcome(mc::mix(mc::hash_str(s.text), mc::mix(ts * 10 + lg, mc::mt::stats.racy * 8 + (mc::mt::stats.late > 0)))); ctx.state(mc::mix(mc::hash_str(s.text), ts * 100 + lg * 10 + M));
  MC_LOG(ctx, "script [" << s.text << "] teams " << lg << " of " << ts << ": " << mc::mt::stats.racy << " racing places, " << mc::mt::stats.late << " late, " << mc::mt::stats.accesses << " accesses in " << mc::mt::stats.regions << " parallel regions");
}
}
#ifndef TEAMS_ONLY
MC_SCENARIO(one_team, "one team of 2-3 threads; every legal script of 2 (thorough 3) operations, then all blocks are taken; all schedules with at most 2 deviations (3 threads: 1, thorough 2)", 3) {
  int ts = 2 + ctx.choose(mc::mt::pool >= 3 ? 2 : 1, "team size"); auto s = script(ctx, 3, 2 + ctx.tier()); explore(ctx, s, ts, 1, 3, ts == 2 || ctx.tier() ? 2 : 1, true);
}
MC_SCENARIO(after_shuffle, "one team of 2-3 threads; 3 blocks (or a macro block of 2 and one) taken and released in every order, some or all, one reset operation, and one (2 threads: 2) more operations; all schedules with at most 1 (thorough 2) deviations", 4) {
  int ts = 2 + ctx.choose(mc::mt::pool >= 3 ? 2 : 1, "team size"); Script s; Model m(3);
  auto add = [&](const Op& o) { m.apply(o); s.text += (s.ops.empty() ? "" : "; ") + std::string(KN[o.k]) + (o.n > 1 ? "<" + std::to_string(o.n) + ">" : ""); for (int w : o.which) s.text += " b" + std::to_string(w); s.ops.push_back(o); };
  if (ctx.flag("macro")) { add({MACRO, 2, {}}); add({TAKE, 1, {}}); } else { add({MANY, 2, {}}); add({TAKE, 1, {}}); }
  while (!m.live.empty()) { int k = ctx.choose(int(m.live.size()) + 1, "release"); if (k == int(m.live.size())) break; add({REL, m.live[k].n, {m.live[k].id}}); }
  int k = ctx.choose(4, "reset"); if (k == 0) add({RESET, 0, {}}); else if (k < 3) add({ANDRESET, k, {}});
  for (int i = 0; i < (ts == 2 ? 2 : 1); ++i) { auto a = m.ops(); std::vector<Op> b; for (auto& o : a) if (o.k <= MACRO && o.k != ANDRESET && o.k != REFS) b.push_back(o); if (b.empty()) break; add(b[ctx.choose(int(b.size()), "operation")]); }
  s.blocks = m.id; explore(ctx, s, ts, 1, 3, 1 + ctx.tier(), true);
}
MC_SCENARIO(one_team_long, "one team of 2 threads; every legal script of 3 (thorough 4) operations; all schedules with at most 1 deviation", 4) {
  auto s = script(ctx, 3, 3 + ctx.tier()); explore(ctx, s, 2, 1, 3, 1, true);
}
#endif
MC_SCENARIO(several_teams, "1-5 teams of 1-2 threads on the pool (more teams than fit at once included); every legal script of 1 (thorough 2) operations; all schedules with at most 1 (thorough 2) deviations", 4) {
  int ts = 1 + ctx.choose(2, "team size"), lg = 1 + ctx.choose(mc::mt::pool + 1, "teams"); auto s = script(ctx, 2, 1 + ctx.tier()); explore(ctx, s, ts, lg, 2, 1 + ctx.tier(), true);
}
MC_SCENARIO(many_kernels, "2 teams of 2 threads and 4 of 1: the same script in two kernels in a row on one manager, blocks kept at the end of the first released by the host reset", 3) {
  int ts = 1 + ctx.choose(2, "team size"); if (mc::mt::pool < 2 * ts) ts = 1; auto s = script(ctx, 2, 1 + ctx.tier()); bool host = ctx.flag("host reset");
  mc::mt::explore(ctx, 1, [&] {
    int lg = mc::mt::pool / ts; Policy pol(lg, ts); int b = mc::Sched::get().bound; mc::Sched::get().bound = 0; WSM wsm(2, 2, pol);
    for (int k = 0; k < 2; ++k) {
      mc::Sched::get().bound = k == 1 ? b : 0;
      Run r{ctx, s, ts, lg, 2, 2, {}, {}, {}}; r.got.assign(lg, std::vector<std::vector<double*>>(ts));
      Kokkos::parallel_for(pol, [&r, wsm](const Member& team) { thread_body(r, wsm, team, false); });
      mc::Sched::get().bound = 0; if (k == 0 && host) {
        Kokkos::parallel_for(pol, [wsm](const Member& team) { auto ws = wsm.get_workspace(team); auto v = ws.take("kept"); (void)v; });
        wsm.reset_internals();
      }
    }
    mc::Sched::get().bound = b;
  });
  ctx.outcome(mc::mix(mc::hash_str(s.text), ts * 2 + host)); ctx.state(mc::mix(mc::hash_str(s.text), ts * 2 + host));
}
