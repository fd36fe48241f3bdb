#include "../mc/mc.hpp"
#include <tuple>
#include <array>
#include <deque>
#include <list>
#include <set>
#include <map>
#include <memory>
#include "ekat_zip.hpp"
#include "ekat_std_utils.hpp"
#include "ekat_std_map_key_iterator.hpp"
using mc::show; using VI = std::vector<int>; using VS = std::vector<std::string>;
static VI geni(mc::Ctx& ctx, int lo, int hi, int vals) { int n = lo + ctx.choose(hi-lo+1,"len"); VI v; for (int i=0;i<n;++i) v.push_back(ctx.choose(vals)); return v; }
template <class A, class B> static void two(mc::Ctx& ctx, const VI& x, const VI& y, const char* kind) {
  A a(x.begin(), x.end()); B b; for (int v : y) b.push_back(std::to_string(v)); std::string w = std::string(kind) + " " + show(x) + "," + show(y);
  bool thr=false; try {
    auto z = ekat::zip(a,b); VI ga; VS gb;
    for (auto [p,q] : z) { ga.push_back(p); gb.push_back(q); if (ga.size() >= std::min(x.size(),y.size())) { break; } }
    MC_CHECK(ctx, x.size()==y.size(), "unequal-accepted", w << " accepted"); { size_t k = 0; for (auto t : z) { (void)t; if (++k > x.size()) break; } MC_CHECK(ctx, k==x.size(), "zip-length", w << " visited more than the containers have"); }
    if (x.size()==y.size()) {
      MC_CHECK(ctx, ga==x && gb==VS(b.begin(),b.end()), "zip-values", w << " visited " << show(ga) << " and " << show(gb));
      VI gc; for (auto it=z.cbegin(); it!=z.cend(); ++it) { gc.push_back(std::get<0>(*it)); static_assert(std::is_const_v<std::remove_reference_t<decltype(std::get<0>(*it))>>); } MC_CHECK(ctx, gc==x, "zip-const", w << " const iteration visited " << show(gc));
      int i=0; for (auto&& [p,q] : z) { p = 100+i; q += "!"; ++i; }
      VI ea; VS eb; for (size_t k=0;k<x.size();++k) { ea.push_back(100+int(k)); eb.push_back(std::to_string(y[k])+"!"); }
      MC_CHECK(ctx, VI(a.begin(),a.end())==ea && VS(b.begin(),b.end())==eb, "zip-write", w << " writing through gave " << show(VI(a.begin(),a.end())) << show(VS(b.begin(),b.end())));
      const A& ca = a; const B& cb = b; VI g2; for (const auto& [p,q] : ekat::zip(ca,cb)) { g2.push_back(p + int(q.size())*0); } MC_CHECK(ctx, g2==ea, "zip-const-containers", w);
    }
  } catch (const mc::Violation&) { throw; } catch (const std::exception&) { thr = true; }
  MC_CHECK(ctx, thr==(x.size()!=y.size()), thr?"zip-throws":"unequal-accepted", w << (thr?" threw":" accepted"));
}
MC_SCENARIO(zip_two, "all pairs of integer sequences of length <=4 over {0,1,2} and <=3, in vector/list/deque: visited values, order, write-through, const access, unequal sizes rejected", 2) {
  VI x = geni(ctx,0,4,3), y = geni(ctx,0,3 + ctx.tier(),2);
  two<VI,VS>(ctx,x,y,"vector,vector"); two<std::list<int>,VS>(ctx,x,y,"list,vector"); two<VI,std::list<std::string>>(ctx,x,y,"vector,list"); two<std::deque<int>,std::deque<std::string>>(ctx,x,y,"deque,deque");
  ctx.outcome(show(x)+show(y));
}
MC_SCENARIO(zip_one_three, "one, three and four containers incl. arrays, set and map, every combination of lengths 0..3; same container twice", 1) {
  size_t n[4]; for (auto& k : n) k = size_t(ctx.choose(4,"len"));
  VI a; std::list<long> b; std::set<int> c; std::map<int,std::string> d; for (size_t i=0;i<n[0];++i) a.push_back(int(i)*3); for (size_t i=0;i<n[1];++i) b.push_back(-long(i)); for (size_t i=0;i<n[2];++i) c.insert(10-int(i)); for (size_t i=0;i<n[3];++i) d[int(i)] = std::string(i,'x');
  std::string w = "sizes " + show(std::vector<size_t>(n,n+4)); VI g; for (auto [p] : ekat::zip(a)) g.push_back(p); MC_CHECK(ctx, g==a, "zip1", w << show(g));
  { VI e; for (auto& [p,q] : std::vector<std::pair<int,int>>()) (void)p,(void)q; for (auto [p,q] : ekat::zip(a,a)) e.push_back(&p==&q ? p : -1); MC_CHECK(ctx, e==a, "zip-same", w); }
  auto acc = [&](auto&&... cs) { try { auto z = ekat::zip(cs...); size_t lim = std::min({std::size(cs)...}); bool even = std::max({std::size(cs)...})==lim; int k=0; if (!even) return 99; for (auto t : z) { (void)t; if (size_t(++k) > lim) break; } return k; } catch (const std::exception&) { return -1; } };
  MC_CHECK(ctx, acc(a,b,c)==((n[0]==n[1]&&n[1]==n[2])?int(n[0]):-1), "zip3-size", w << " three containers gave " << acc(a,b,c));
  MC_CHECK(ctx, acc(a,b,c,d)==((n[0]==n[1]&&n[1]==n[2]&&n[2]==n[3])?int(n[0]):-1), "zip4-size", w << " four containers gave " << acc(a,b,c,d));
  if (n[0]==n[1]&&n[1]==n[2]) { size_t i=0; for (auto&& [p,q,r] : ekat::zip(a,b,c)) { MC_CHECK(ctx, &p==&a[i] && &q==&*std::next(b.begin(),long(i)) && &r==&*std::next(c.begin(),long(i)), "zip3", w << " entry " << i); ++i; } }
  if (n[0]==3) { int arr[3]={7,8,9}; std::array<int,3> sa{1,2,3}; int i=0; for (auto [p,q,r] : ekat::zip(a,arr,sa)) { MC_CHECK(ctx, &q==&arr[i] && r==i+1 && p==i*3, "zip-array", w); q = -i; ++i; } MC_CHECK(ctx, i==3 && arr[2]==-2, "zip-array", w); }
  ctx.outcome(w);
}
MC_SCENARIO(helpers, "all integer sequences of length <=5 over {0,1,2} and each value 0..3: contains, count, find, erase on vector and list; on sets", 2) {
  VI v = geni(ctx,0,5+ctx.tier(),3); int x = ctx.choose(4,"value"); std::string w = show(v) + "," + std::to_string(x); int n = 0; long pos = -1; for (size_t i=0;i<v.size();++i) if (v[i]==x) { ++n; if (pos<0) pos=long(i); }
  std::list<int> l(v.begin(),v.end()); std::set<int> s(v.begin(),v.end());
  MC_CHECK(ctx, ekat::contains(v,x)==(n>0) && ekat::contains(l,x)==(n>0) && ekat::contains(s,x)==(n>0), "contains", w);
  MC_CHECK(ctx, ekat::count(v,x)==n && ekat::count(l,x)==n && ekat::count(s,x)==(n>0), "count", w << " gave " << ekat::count(v,x));
  auto it = ekat::find(v,x); MC_CHECK(ctx, it-v.begin()==(n?pos:long(v.size())), "find", w << " gave " << (it-v.begin())); if (n) { *it = x; }
  const VI& cv = v; auto ci = ekat::find(cv,x); MC_CHECK(ctx, ci-cv.begin()==(n?pos:long(v.size())), "find", w << " const");
  VI e = v; if (n) e.erase(e.begin()+pos); VI a = v; bool r = ekat::erase(a,x); MC_CHECK(ctx, r==(n>0) && a==e, "erase", w << " gave " << show(a)); bool r2 = ekat::erase(l,x); MC_CHECK(ctx, r2==(n>0) && VI(l.begin(),l.end())==e, "erase", w << " list"); bool r3 = ekat::erase(s,x); MC_CHECK(ctx, r3==(n>0) && !s.count(x), "erase", w << " set");
  std::ostringstream os; os << v; std::string j; for (size_t i=0;i<v.size();++i) j += (i?" ":"") + std::to_string(v[i]); MC_CHECK(ctx, os.str()==j, "print-vector", w << " printed " << show(os.str()));
  ctx.outcome(w);
}
MC_SCENARIO(map_keys, "all maps with keys from subsets of 6: forward, backward, pre/post increment, const and mutable key iterators", 1) {
  int mask = ctx.choose(64,"keys"); using Mp = std::map<int,std::shared_ptr<int>>; Mp m; VI keys; for (int k=0;k<6;++k) if (mask>>k&1) { m[k*10]=std::make_shared<int>(k); keys.push_back(k*10); }
  const Mp& cm = m; using CI = ekat::map_key_const_iterator<Mp>; VI g; for (CI it(cm.begin()), e(cm.end()); it!=e; ++it) { g.push_back(*it); MC_CHECK(ctx, it.operator->()==&*it, "key-arrow", mask); } MC_CHECK(ctx, g==keys, "key-forward", "visited " << show(g));
  g.clear(); for (CI it(cm.begin()), e(cm.end()); !(it==e); ) g.push_back(*it++); MC_CHECK(ctx, g==keys, "key-postinc", "visited " << show(g));
  g.clear(); { CI b(cm.begin()), it(cm.end()); while (it!=b) { --it; g.insert(g.begin(),*it); } } MC_CHECK(ctx, g==keys, "key-backward", "visited " << show(g));
  g.clear(); { CI b(cm.begin()), it(cm.end()); while (it!=b) { auto old = it--; (void)old; g.insert(g.begin(),*it); } } MC_CHECK(ctx, g==keys, "key-postdec", "visited " << show(g));
  using MI = ekat::map_key_iterator<Mp>; int n=0; for (MI it(m.begin()), e(m.end()); it!=e; ++it) ++n; MC_CHECK(ctx, n==int(keys.size()), "key-mutable", n); n=0; for (MI it(m.begin()), e(m.end()); it!=e; it++) ++n; { MI b(m.begin()), it(m.end()); while (it!=b) { it--; --n; } } MC_CHECK(ctx, n==0, "key-mutable", n);
  ctx.outcome(mask);
}
MC_SCENARIO(weak_sets, "all sequences of 4 insertions of weak pointers to 3 objects, some expired in between", 1) {
  std::vector<std::shared_ptr<int>> o; for (int i=0;i<3;++i) o.push_back(std::make_shared<int>(i)); std::vector<std::weak_ptr<int>> wk(o.begin(),o.end()); ekat::WeakPtrSet<int> s; std::set<int> r;
  for (int i=0;i<4;++i) { int k = ctx.choose(6,"op"); if (k<3) { s.insert(wk[size_t(k)]); r.insert(k); } else o[size_t(k-3)].reset(); MC_CHECK(ctx, s.size()==r.size(), "weak-set", s.size() << " entries, expected " << r.size()); for (int j=0;j<3;++j) MC_CHECK(ctx, int(s.count(wk[size_t(j)]))==int(r.count(j)), "weak-set", j); }
  ctx.outcome(r.size());
}
MC_SCENARIO(long_containers, "sequences of 0-40 (thorough 100) and up to 513 entries: zipped with one as long, one shorter, one longer; three, four, five and six zipped; the value looked for at every place, once and twice; maps with that many keys", 2) {
  int n = mc::size(ctx, 0, ctx.tier() ? 100 : 40, "n"); VI x; for (int i = 0; i < n; ++i) x.push_back(i * 3 - 30); for (int m : {n, n - 1, n + 1, n / 2, 0}) if (m >= 0) { VI y; for (int i = 0; i < m; ++i) y.push_back(i * 5); two<VI,VS>(ctx, x, y, "vector,vector"); two<std::list<int>,VS>(ctx, x, y, "list,vector"); two<std::deque<int>,std::deque<std::string>>(ctx, x, y, "deque,deque"); }
  { std::list<int> a(x.begin(), x.end()); std::set<int> b(x.begin(), x.end()); std::map<int,int> c; for (int v : x) c[v] = -v; int i = 0; for (auto&& [p,q,r] : ekat::zip(a, b, c)) { MC_CHECK(ctx, p == x[size_t(i)] && q == p && r.second == -p, "zip3", n << " entries, number " << i); ++i; } MC_CHECK(ctx, i == n, "zip-length", i);
    VI x1 = x, x2 = x, x3 = x; for (int k = 0; k < n; ++k) { x1[size_t(k)] += 1000; x2[size_t(k)] += 2000; x3[size_t(k)] += 3000; } { auto y0 = x, y1 = x1; std::deque<int> y2(x2.begin(), x2.end()); std::list<int> y3(x3.begin(), x3.end()); int m = n;
      i = 0; for (auto&& [p,q,r,s] : ekat::zip(y0, y1, y2, y3)) { int e = x[size_t(i)]; MC_CHECK(ctx, p == e && q == e + 1000 && r == e + 2000 && s == e + 3000, "zip4", n << " entries, number " << i); s = -e; ++i; } MC_CHECK(ctx, i == m, "zip-length", i << " of " << m); i = 0; for (int v : y3) { MC_CHECK(ctx, v == -x[size_t(i)], "zip-write", i); ++i; }
      i = 0; for (auto&& [p,q,r,s,t] : ekat::zip(y0, y1, y2, b, a)) { int e = x[size_t(i)]; MC_CHECK(ctx, p == e && q == e + 1000 && r == e + 2000 && s == e && t == e, "zip5", n << " entries, number " << i); ++i; } MC_CHECK(ctx, i == m, "zip-length", i << " of " << m);
      i = 0; for (auto&& [p,q,r,s,t,u] : ekat::zip(b, y1, y2, c, a, y0)) { int e = x[size_t(i)]; MC_CHECK(ctx, p == e && q == e + 1000 && r == e + 2000 && s.first == e && t == e && u == e, "zip6", n << " entries, number " << i); ++i; } MC_CHECK(ctx, i == m, "zip-length", i << " of " << m); }
    VI g; using Mp = std::map<int,int>; using CI = ekat::map_key_const_iterator<Mp>; const Mp& cc = c; for (CI it(cc.begin()), e(cc.end()); it != e; ++it) g.push_back(*it); MC_CHECK(ctx, g == x, "key-forward", "visited " << show(g)); }
  if (n) { int at = mc::place(ctx, n, "place"), also = at + mc::place(ctx, n - at, "again"); VI v = x; v[size_t(at)] = v[size_t(also)] = 1; int cnt = at == also ? 1 : 2; std::string w = show(v); std::list<int> l(v.begin(), v.end()); std::set<int> s(v.begin(), v.end());
    MC_CHECK(ctx, ekat::contains(v, 1) && ekat::contains(l, 1) && ekat::contains(s, 1) && !ekat::contains(v, 2) && !ekat::contains(s, 2), "contains", w); MC_CHECK(ctx, ekat::count(v, 1) == cnt && ekat::count(l, 1) == cnt && ekat::count(s, 1) == 1 && ekat::count(v, 2) == 0, "count", w); MC_CHECK(ctx, ekat::find(v, 1) - v.begin() == at, "find", w); MC_CHECK(ctx, ekat::find(v, 2) == v.end(), "find", w);
    VI e = v; e.erase(e.begin() + at); MC_CHECK(ctx, ekat::erase(v, 1) && v == e && !ekat::erase(v, 2) && v == e, "erase", w << " gave " << show(v)); MC_CHECK(ctx, ekat::erase(l, 1) && VI(l.begin(), l.end()) == e, "erase", w << " list"); MC_CHECK(ctx, ekat::erase(s, 1) && !s.count(1), "erase", w << " set"); ctx.outcome(mc::mix(uint64_t(at), uint64_t(also))); }
}
