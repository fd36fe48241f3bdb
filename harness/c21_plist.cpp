#include "../mc/mc.hpp"
#include "ekat_parameter_list.hpp"
#include <memory>
#include <utility>
#include <algorithm>
#include <variant>
using ekat::ParameterList;
using VI = std::vector<int>; using VD = std::vector<double>; using VS = std::vector<std::string>; struct Opaque { int x = 0; bool operator==(const Opaque& o) const { return x==o.x; } };
using ES = ParameterList::EmptySeq;
struct EmptyTag { bool operator==(const EmptyTag&) const { return true; } };
using Val = std::variant<int,double,bool,std::string,VI,VS,Opaque,EmptyTag>;
struct M { std::string name; std::map<std::string,Val> p; std::map<std::string,M> s; };
static std::string vs(const Val& v) { return std::visit([](auto& x)->std::string { using T=std::decay_t<decltype(x)>; if constexpr (std::is_same_v<T,Opaque>) return "opaque"+std::to_string(x.x); else if constexpr (std::is_same_v<T,EmptyTag>) return "emptyseq"; else return mc::show(x); }, v); }

template <class T> static void type_query(mc::Ctx& ctx, const ParameterList& l, const std::string& n, const Val& v, const std::string& w) {
  bool has = std::holds_alternative<T>(v), empty_ok = std::holds_alternative<EmptyTag>(v) && ekat::is_vector_v<T>;
  MC_CHECK(ctx, l.isType<T>(n)==has, "isType", w << "isType of '" << n << "' (" << vs(v) << ") gave " << !has);
  bool thr = false;
  try { const T& x = l.get<T>(n); if (has) MC_CHECK(ctx, x==std::get<T>(v), "value", w << "'" << n << "' is " << vs(Val(x)) << ", last stored " << vs(v)); else if (empty_ok) { if constexpr (ekat::is_vector_v<T>) MC_CHECK(ctx, x.empty(), "empty-seq", w << n); } }
  catch (const mc::Violation&) { throw; } catch (const std::exception&) { thr = true; }
  MC_CHECK(ctx, thr == !(has||empty_ok), has||empty_ok ? "get-throws" : "wrong-type-accepted", w << "get of '" << n << "' (" << vs(v) << ") " << (thr?"threw":"did not throw"));
}
static void compare(mc::Ctx& ctx, const ParameterList& l, const M& m, const std::string& w, bool deep = true) {
  MC_CHECK(ctx, l.name()==m.name, "name", w << "list name is '" << l.name() << "', expected '" << m.name << "'");
  std::vector<std::string> pn, sn; for (auto& kv : m.p) pn.push_back(kv.first); for (auto& kv : m.s) sn.push_back(kv.first);
  auto a = l.param_names(), b = l.sublist_names(); std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end());
  MC_CHECK(ctx, a==pn, "param-names", w << "parameters of '" << m.name << "' are " << mc::show(a) << ", expected " << mc::show(pn));
  MC_CHECK(ctx, b==sn, "sublist-names", w << "sublists of '" << m.name << "' are " << mc::show(b) << ", expected " << mc::show(sn));
  for (auto n : {"a","b","s","t"}) { MC_CHECK(ctx, l.isParameter(n)==(m.p.count(n)!=0), "isParameter", w << n); MC_CHECK(ctx, l.isSublist(n)==(m.s.count(n)!=0), "isSublist", w << n); }
  for (auto& kv : m.p) {
    type_query<int>(ctx,l,kv.first,kv.second,w); type_query<std::string>(ctx,l,kv.first,kv.second,w); type_query<VI>(ctx,l,kv.first,kv.second,w);
    if (deep) { type_query<double>(ctx,l,kv.first,kv.second,w); type_query<bool>(ctx,l,kv.first,kv.second,w); type_query<VS>(ctx,l,kv.first,kv.second,w); type_query<Opaque>(ctx,l,kv.first,kv.second,w); }
    MC_CHECK(ctx, l.isType<ES>(kv.first)==std::holds_alternative<EmptyTag>(kv.second), "isType", w << "EmptySeq " << kv.first);
  }
  if (deep) { auto absent = [&](const char* n, auto f) { bool thr=false; try { f(); } catch (const std::exception&) { thr=true; } MC_CHECK(ctx, thr, "missing-accepted", w << "access to missing '" << n << "' did not throw"); };
    for (auto n : {"b"}) { if (!m.p.count(n)) { absent(n,[&]{ l.get<int>(n); }); absent(n,[&]{ l.isType<int>(n); }); } } if (!m.s.count("t")) absent("t",[&]{ l.sublist("t"); }); }
  for (auto& kv : m.s) compare(ctx, l.sublist(kv.first), kv.second, w + kv.first + ": ", deep);
}
static void dump(const M& m, std::string& o) { o += m.name + "{"; for (auto& kv : m.p) o += kv.first + "=" + std::to_string(kv.second.index()) + vs(kv.second) + ";"; for (auto& kv : m.s) { o += kv.first + ":"; dump(kv.second,o); } o += "}"; }
template <class T> static void set(ParameterList& l, M& m, const std::string& n, const T& v) { l.set(n, v); m.p[n] = Val(v); }
static void import(M& d, const M& s) { for (auto& kv : s.p) d.p[kv.first] = kv.second; for (auto& kv : s.s) { auto it = d.s.find(kv.first); if (it == d.s.end()) d.s[kv.first] = kv.second; else { import(it->second, kv.second); } } }
// names of imported-over sublists are not compared: both readings of "overwritten" are accepted there
static void noname(M& m, const ParameterList& l) { for (auto& kv : m.s) if (l.isSublist(kv.first)) { kv.second.name = l.sublist(kv.first).name(); noname(kv.second, l.sublist(kv.first)); } }

static const int NOPS = 33;
static void run(mc::Ctx& ctx, int depth, int start) {
  // two lists; index 0 is the subject, index 1 the other
  std::unique_ptr<ParameterList> L[2] = { std::make_unique<ParameterList>("one"), std::make_unique<ParameterList>("two") };
  M m[2]; m[0].name = "one"; m[1].name = "two";
  if (start) { // populated start
    set(*L[0], m[0], "a", 5); auto& s0 = L[0]->sublist("s"); m[0].s["s"].name = "s"; set(s0, m[0].s["s"], "a", std::string("deep")); auto& ss = s0.sublist("t"); m[0].s["s"].s["t"].name = "t"; set(ss, m[0].s["s"].s["t"], "b", 2.5);
    set(*L[1], m[1], "b", std::string("other")); auto& s1 = L[1]->sublist("s"); m[1].s["s"].name = "s"; set(s1, m[1].s["s"], "b", true);
  }
  for (int step=0; step<depth; ++step) {
    int op = ctx.choose(NOPS,"op"); std::string w = "step " + std::to_string(step) + " op " + std::to_string(op) + ": ";
    auto& l = *L[0]; auto& o = *L[1]; auto sub = [&](int k, const char* n) -> M& { auto& x = m[k].s[n]; if (x.name.empty()) x.name = n; return x; };
    auto wrong = [&](const char* what, bool expect, auto f) { bool thr=false; try { f(); } catch (const std::exception&) { thr=true; } MC_CHECK(ctx, thr==expect, expect?"wrong-type-accepted":"get-throws", w << what << (thr?" threw":" did not throw")); };
    switch (op) {
      case 0: set(l,m[0],"a",1); break;
      case 1: set(l,m[0],"a",2); break;
      case 2: set(l,m[0],"a",0.5); break;
      case 3: set(l,m[0],"b",std::string("x")); break;
      case 4: set(l,m[0],"b",VI{1,2}); break;
      case 5: l.set("a",ES()); m[0].p["a"]=EmptyTag{}; break;
      case 6: set(l,m[0],"b",Opaque{3}); break;
      case 7: set(l,m[0],"a",true); break;
      case 8: { bool has=m[0].p.count("a"); bool bad = has && !std::holds_alternative<int>(m[0].p["a"]); wrong("get<int>(a,7)",bad,[&]{ int& r=l.get<int>("a",7); if (!has) m[0].p["a"]=7; MC_CHECK(ctx, r==std::get<int>(m[0].p["a"]), "default", w << "get with default gave " << r); }); break; }
      case 9: { bool has=m[0].p.count("b"); bool bad = has && !std::holds_alternative<std::string>(m[0].p["b"]); wrong("get<string>(b,def)",bad,[&]{ auto& r=l.get<std::string>("b","def"); if (!has) m[0].p["b"]=std::string("def"); MC_CHECK(ctx, r==std::get<std::string>(m[0].p["b"]), "default", w << "get with default gave " << r); r += "!"; std::get<std::string>(m[0].p["b"]) += "!"; }); break; }
      case 10: { bool ok=m[0].p.count("a")&&std::holds_alternative<int>(m[0].p["a"]); wrong("get<int>(a) non-const",!ok,[&]{ l.get<int>("a")=42; m[0].p["a"]=42; }); break; }
      case 11: { auto it=m[0].p.find("a"); bool ok = it!=m[0].p.end() && (std::holds_alternative<VI>(it->second)||std::holds_alternative<EmptyTag>(it->second)); wrong("get<vector<int>>(a) non-const",!ok,[&]{ auto& v=l.get<VI>("a"); if (std::holds_alternative<EmptyTag>(it->second)) it->second=VI{}; v.push_back(9); std::get<VI>(it->second).push_back(9); }); break; }
      case 12: { auto it=m[0].p.find("b"); bool ok = it!=m[0].p.end() && (std::holds_alternative<VS>(it->second)||std::holds_alternative<EmptyTag>(it->second)); wrong("get<vector<string>>(b) non-const",!ok,[&]{ auto& v=l.get<VS>("b"); if (std::holds_alternative<EmptyTag>(it->second)) it->second=VS{}; v.push_back("q"); std::get<VS>(it->second).push_back("q"); }); break; }
      case 13: { auto& x=l.sublist("s"); sub(0,"s"); MC_CHECK(ctx, &x==&l.sublist("s"), "sublist-identity", w); break; }
      case 14: set(l.sublist("s"),sub(0,"s"),"a",3); break;
      case 15: set(l.sublist("s").sublist("t"),[&]()->M&{ auto& y=sub(0,"s").s["t"]; if(y.name.empty()) y.name="t"; return y; }(),"b",std::string("dd")); break;
      case 16: set(l.sublist("t"),sub(0,"t"),"a",std::string("z")); break;
      case 17: l.sublist("s").rename("other"); sub(0,"s").name="other"; break;
      case 18: l.rename("renamed"); m[0].name="renamed"; break;
      case 19: std::swap(L[0],L[1]); std::swap(m[0],m[1]); break;
      case 20: L[1] = std::make_unique<ParameterList>(l); m[1]=m[0]; break;        // copy construction
      case 21: o = l; m[1]=m[0]; break;                                            // assignment over existing contents
      case 22: { auto& r = (l = l); MC_CHECK(ctx, &r==&l, "self-assign", w); break; }
      case 23: o.import(l); import(m[1],m[0]); noname(m[1],o); break;
      case 24: l.import(o); import(m[0],m[1]); noname(m[0],l); break;
      case 25: l.import(l); break;
      case 26: { l.sublist("s") = o; auto& x=sub(0,"s"); x=m[1]; break; }          // assign a list to a sublist
      case 27: { if (!l.isSublist("s")) { sub(0,"s"); l.sublist("s"); } M t=m[0].s["s"]; l = l.sublist("s"); m[0]=t; break; }   // a list from its own sublist
      case 28: { if (!l.isSublist("s")) { sub(0,"s"); l.sublist("s"); } M t=m[0]; l.sublist("s") = l; m[0].s["s"]=t; break; }   // a sublist from its own list
      case 29: { ParameterList c = std::as_const(l).isSublist("s") ? std::as_const(l).sublist("s") : ParameterList(); c.set("a",99); c.sublist("t").set("b",1); break; }  // changing a copy changes nothing
      case 30: set(l,m[0],"b",VS{"u","v"}); break;
      case 31: set(l,m[0],"b",VI{}); break;
      case 32: set(l,m[0],"a",VS{}); break;
    }
    compare(ctx,*L[0],m[0],w,step+1==depth); compare(ctx,*L[1],m[1],w,step+1==depth);
    std::string d; dump(m[0],d); dump(m[1],d); ctx.state(mc::hash_str(d)); if (step+1==depth) ctx.outcome(d);
    MC_LOG(ctx, w << d);
  }
}
MC_SCENARIO(histories, "all sequences of 3 (thorough 4) operations of 33 (set of 7 types and of empty vectors, get, get-default, write-through, sublists, rename, swap, copy, assignment incl. self and nested, import) on two lists, from empty and populated starts", 2) { int start = ctx.choose(2,"start"); run(ctx, ctx.tier() ? 4 : 3, start); }

// print shows every parameter and sublist
MC_SCENARIO(printing, "all lists with <=3 parameters of 5 types and <=1 sublist: print shows each name and value once, under its list", 1) {
  ParameterList l("top"); std::vector<std::string> expect = {"top:"};
  static const std::vector<std::pair<std::string,int>> kinds = {{"7",0},{"true",1},{"text",2},{"1 2",3},{"false",4}};
  auto fill = [&](ParameterList& x) { for (auto n : {"a","b","c"}) { int k = ctx.choose(6,"kind"); if (k==5) continue; if (k==0) x.set(n,7); if (k==1) x.set(n,true); if (k==2) x.set(n,std::string("text")); if (k==3) x.set(n,VI{1,2}); if (k==4) x.set(n,false); expect.push_back(std::string(n)+": "+kinds[size_t(k)].first); } };
  fill(l); if (ctx.flag("sublist")) { expect.push_back("sub:"); fill(l.sublist("sub")); }
  int ind = ctx.choose(3,"indent"); std::ostringstream os; l.print(os, ind);
  std::vector<std::string> got; std::istringstream is(os.str()); std::string t; while (std::getline(is,t)) { auto b=t.find_first_not_of(' '); if (b!=std::string::npos) { auto e=t.find_last_not_of(' '); got.push_back(t.substr(b,e-b+1)); } }
  auto g=got, x=expect; std::sort(g.begin(),g.end()); std::sort(x.begin(),x.end());
  MC_CHECK(ctx, g==x, "print", "printed " << mc::show(got) << ", expected " << mc::show(expect)); ctx.outcome(os.str());
}

// every stored type against every requested type
template <class... T> struct Types {};
using AllTypes = Types<int,long,unsigned,char,bool,float,double,std::string,const char*,VI,VD,VS,std::vector<char>,std::vector<float>,std::vector<bool>,std::vector<VI>,Opaque,EmptyTag,std::pair<int,int>>;
template <class T> T sample(int k) {
  if constexpr (std::is_same_v<T,std::string>) return k ? "text" : ""; else if constexpr (std::is_same_v<T,const char*>) { static const char* s[2] = {"","text"}; return s[k]; }
  else if constexpr (std::is_same_v<T,VS>) return k ? VS{"u",""} : VS{}; else if constexpr (std::is_same_v<T,std::vector<VI>>) return k ? T{{1},{}} : T{};
  else if constexpr (ekat::is_vector_v<T>) { T v; if (k) { v.push_back(1); v.push_back(0); } return v; }
  else if constexpr (std::is_same_v<T,Opaque>) return Opaque{k}; else if constexpr (std::is_same_v<T,EmptyTag>) return {}; else if constexpr (std::is_same_v<T,std::pair<int,int>>) return {k,-k}; else return static_cast<T>(k*2.5);
}

struct TypeOps { std::string name; bool (*is)(const ParameterList&); bool (*cget)(const ParameterList&,int); bool (*get)(ParameterList&,int); bool (*dget)(ParameterList&,int); void (*set)(ParameterList&,int); void (*write)(ParameterList&,int); };
template <class T> static TypeOps type_ops() {
  return { typeid(T).name(), [](const ParameterList& l) { return l.isType<T>("p"); }, [](const ParameterList& l, int k) { const T& x = l.get<T>("p"); return x==sample<T>(k); },
    [](ParameterList& l, int k) { T& x = l.get<T>("p"); return x==sample<T>(k); }, [](ParameterList& l, int k) { const T def = sample<T>(1-k); T& x = l.get<T>("p",def); return x==sample<T>(k); },
    [](ParameterList& l, int k) { l.set("p",sample<T>(k)); }, [](ParameterList& l, int k) { l.get<T>("p") = sample<T>(k); } };
}
template <class... T> static std::vector<TypeOps> all_types(Types<T...>) { return { type_ops<T>()... }; }
MC_SCENARIO(type_pairs, "every pair of 19 stored and requested types (empty and non-empty values), const, non-const and default access, directly and after copy, import and assignment: access and isType succeed exactly for the stored type, a refused access changes nothing", 2) {
  static const auto ops = all_types(AllTypes{}); const int n = int(ops.size());
  const int si = ctx.choose(n,"stored"), ri = ctx.choose(n,"requested"), k = ctx.choose(2,"sample"), mode = ctx.choose(3,"mode"), how = ctx.choose(4,"how"); const auto &S = ops[size_t(si)], &R = ops[size_t(ri)];
  ParameterList l("l"); S.set(l,k);
  if (how) { ParameterList c(l), d("d"), e("e"); d.import(l); e.set("p",Opaque{7}); e = l; l = how==1 ? c : how==2 ? d : e; }
  const bool same = si==ri; std::string w = "stored " + S.name + " sample " + std::to_string(k) + ", requested " + R.name + ": ";
  MC_CHECK(ctx, R.is(l)==same, "isType", w << "isType is " << !same);
  bool thr = false, eq = true; try { eq = mode==0 ? R.cget(l,k) : mode==1 ? R.get(l,k) : R.dget(l,k); } catch (const std::exception&) { thr = true; }
  MC_CHECK(ctx, thr!=same, same?"get-throws":"wrong-type-accepted", w << (thr?"threw":"accepted")); MC_CHECK(ctx, eq, "value", w << "another value");
  MC_CHECK(ctx, S.is(l) && S.cget(l,k), "refused", w << "the access changed the type or the value");
  if (same) { S.write(l,1-k); MC_CHECK(ctx, S.is(l) && S.cget(l,1-k), "write-through", w << "written through a reference"); }
  R.set(l,k); MC_CHECK(ctx, R.is(l) && R.cget(l,k), "set", w << "after storing the requested type over it"); MC_CHECK(ctx, S.is(l)==same, "isType", w << "the old type remains");
  ctx.outcome(std::to_string((si*n+ri)*24+(k*3+mode)*4+how));
}

MC_SCENARIO(large_lists, "lists of 0-70 parameters of 7 types and 0-70 sublists, in chains of 1-12 levels; copied, imported, assigned and overwritten in three orders", 1) {
  static const int N[] = {0,1,2,7,8,9,15,16,17,31,32,33,64,70}; int np = N[ctx.choose(14,"parameters")], ns = N[ctx.choose(14,"sublists")], depth = ctx.pick(std::vector<int>{0,1,3,12},"depth"), order = ctx.choose(3,"order"), how = ctx.choose(4,"how");
  ParameterList l("top"); M m; auto idx = [&](int j, int n) { return order==0 ? j : order==1 ? n-1-j : (j*37+5)%71%n; };
  auto put = [&](ParameterList& x, M& y, const std::string& n, int k) { switch (k%7) { case 0: set(x,y,n,k); break; case 1: set(x,y,n,k*0.5); break; case 2: set(x,y,n,k%2==0); break; case 3: set(x,y,n,std::string("v")+std::to_string(k)); break; case 4: set(x,y,n,VI{k,k+1}); break; case 5: set(x,y,n,Opaque{k}); break; default: set(x,y,n,VS{"s",std::to_string(k)}); } };
  auto fill = [&](ParameterList& x, M& y, int a, int b, int salt) { for (int j=0;j<a;++j) { int i=idx(j,a); put(x,y,"parameter "+std::to_string(i),i+salt); } for (int j=0;j<b;++j) { int i=idx(j,b); auto n="list "+std::to_string(i); put(x.sublist(n), y.s[n], "p", i+salt); } };
  fill(l,m,np,ns,0); ParameterList* x=&l; M* y=&m; for (int d=0;d<depth;++d) { auto n = "level "+std::to_string(d); x=&x->sublist(n); y=&y->s[n]; fill(*x,*y,std::min(np,9),std::min(ns,3),d); }
  ParameterList o("other"); M mo; fill(o,mo,np/2,ns/2+1,3); std::string w = std::to_string(np)+" parameters, "+std::to_string(ns)+" sublists, depth "+std::to_string(depth)+": ";
  if (how==1) { ParameterList c(l); M mc_ = m; put(c,mc_,"changed",1); fill(c,mc_,np/2,ns/2,5); noname(mc_,c); mc_.name=c.name(); compare(ctx,c,mc_,w+"the copy: ",false); }
  if (how==2) { l.import(o); import(m,mo); }
  if (how==3) { ParameterList c("c"); c.set("gone",1); c=l; put(l,mo,"later",2); std::swap(l,c); }
  for (int k=0;k<np;k+=3) put(l,m,"parameter "+std::to_string(k),k+ (how==2 ? 1 : 7*k));
  m.name=l.name(); noname(m,l); compare(ctx,l,m,w,true); std::string d; dump(m,d); ctx.outcome(d); ctx.state(mc::hash_str(d));
}

namespace {
template <class T> std::string words(const std::vector<T>& v) { std::string r; for (const auto& x : v) { if constexpr (std::is_same_v<T,std::string>) r += x; else if constexpr (std::is_same_v<T,bool>) r += x ? "true" : "false"; else if constexpr (std::is_same_v<T,int>) r += std::to_string(x); else { char b[40]; snprintf(b,40,"%g",double(x)); r += b; } r += ' '; } return r; }
// the words of a line; numbers with a point in their shortest form
std::string norm_words(const std::string& s, bool fl) { std::istringstream is(s); std::string r, w; while (is >> w) { if (fl) { char* e; double d = std::strtod(w.c_str(),&e); char b[40]; snprintf(b,40,"%g",d); r += *e ? w : b; } else r += w; r += ' '; } return r; }
}
MC_SCENARIO(print_types, "two neighbouring parameters of every pair of 11 types, vectors of 0-3 values, in a list or its sublist: print shows the name and the values, and names the type it cannot show", 2) {
  ParameterList l("top"); auto& x = ctx.flag("sublist") ? l.sublist("sub") : l; std::map<std::string,std::string> want; std::map<std::string,bool> fl; const int nv = ctx.choose(4,"values"), salt = ctx.choose(3,"value");
  static const int VI_[3][3] = {{0,-7,2147483647},{1,2,3},{-2147483647-1,0,5}}; static const double VD_[3][3] = {{0.5,-2,1e20},{0,3,1e-5},{-0.125,7,123456}}; static const bool VB_[3][3] = {{true,false,true},{false,false,true},{true,true,true}}; static const char* VS_[3][3] = {{"u","true","x y"},{"1","","a"},{"p:q","[","z"}};
  for (auto n : {"a","b"}) { int k = ctx.choose(11,"type"); auto vec = [&](auto v, auto* src) { for (int i=0;i<nv;++i) v.push_back(src[i]); x.set(n,v); want[n] = words(v); }; fl[n] = false;
    switch (k) { case 0: x.set(n,VI_[salt][0]); want[n]=words(VI{VI_[salt][0]}); break; case 1: fl[n]=true; x.set(n,float(VD_[salt][0])); want[n]=words(VD{VD_[salt][0]}); break; case 2: fl[n]=true; x.set(n,VD_[salt][0]); want[n]=words(VD{VD_[salt][0]}); break; case 3: x.set(n,bool(VB_[salt][0])); want[n]=words(std::vector<bool>{VB_[salt][0]}); break;
      case 4: x.set(n,std::string(VS_[salt][2])); want[n]=words(VS{VS_[salt][2]}); break; case 5: vec(VI{},VI_[salt]); break; case 6: fl[n]=true; vec(std::vector<float>{},VD_[salt]); if (nv>2 && salt==0) want[n]=words(std::vector<float>{0.5f,-2,1e20f}); break; case 7: fl[n]=true; vec(VD{},VD_[salt]); break; case 8: vec(std::vector<bool>{},VB_[salt]); break; case 9: vec(VS{},VS_[salt]); break;
      case 10: x.set(n,Opaque{3}); want[n]=typeid(Opaque).name(); break; }
    if (k==10) fl[n+std::string("?")]=true; }
  std::ostringstream os; l.print(os); std::istringstream is(os.str()); std::string t; std::map<std::string,int> seen;
  while (std::getline(is,t)) for (auto& kv : want) { auto p = t.find_first_not_of(' '); if (p==std::string::npos || t.compare(p,kv.first.size()+1,kv.first+":")) continue; ++seen[kv.first]; auto v = t.substr(p+kv.first.size()+1);
    if (fl.count(kv.first+"?")) { MC_CHECK(ctx, v.find(kv.second)!=std::string::npos, "print-type", "a parameter of a type that cannot be shown is printed as " << mc::show(t)); }
    else { auto g = norm_words(v,fl[kv.first]), e = norm_words(kv.second,fl[kv.first]); MC_CHECK(ctx, g==e, "print-value", "printed " << mc::show(t) << ", expected the value " << mc::show(e)); } }
  for (auto& kv : want) MC_CHECK(ctx, seen[kv.first]==1, "print-name", "parameter " << kv.first << " is printed " << seen[kv.first] << " times: " << mc::show(os.str())); ctx.outcome(os.str());
}

// indentation and order of nested lists
MC_SCENARIO(print_nested, "chains of 0-40 lists with 0-2 parameters at each level, first indentation 0-9, increments 0-9: print shows every level under its name with its parameters, indented by the first indentation plus the level times the increment", 2) {
  const int depth = ctx.pick(std::vector<int>{0,1,2,3,4,5,6,9,17,40},"depth"), np = ctx.choose(3,"parameters"), ind = ctx.choose(10,"indent"), inc = ctx.choose(10,"increment"); ParameterList l("top"); ParameterList* x = &l;
  std::map<std::string,std::string> want; std::map<std::string,std::pair<int,int>> pos;   // name -> value
  for (int d=0;;++d) { for (int k=0;k<np;++k) { auto n="p"+std::to_string(d)+"_"+std::to_string(k); x->set(n,d*10+k); want[n+":"]=std::to_string(d*10+k); pos[n+":"]={d,1}; } std::string n = d ? "level"+std::to_string(d) : "top"; want[n+":"]=""; pos[n+":"]={d,0}; if (d==depth) break; x=&x->sublist("level"+std::to_string(d+1)); }
  std::ostringstream os; const bool dflt = ctx.flag("default increment"); if (dflt) { if (inc) { ctx.outcome(1); return; } l.print(os,ind); } else l.print(os,ind,inc);
  std::istringstream is(os.str()); std::string t; std::map<std::string,int> seen; std::vector<std::string> order;
  while (std::getline(is,t)) { auto p=t.find_first_not_of(' '); if (p==std::string::npos) continue; auto q=t.find(':',p); MC_CHECK(ctx, q!=std::string::npos, "line", "printed line " << mc::show(t)); auto n=t.substr(p,q-p+1); MC_CHECK(ctx, want.count(n)==1, "line", "printed line " << mc::show(t)); ++seen[n]; auto v=t.substr(q+1); v.erase(0,v.find_first_not_of(' ')==std::string::npos?v.size():v.find_first_not_of(' ')); while (!v.empty() && v.back()==' ') v.pop_back(); MC_CHECK(ctx, v==want[n], "value", "printed line " << mc::show(t)); order.push_back(n);
    int at=ind+(pos[n].first+pos[n].second)*(dflt ? 1 : inc); MC_CHECK(ctx, int(p)==at, "indent", "indented by " << p << ", expected " << at << ": " << mc::show(t)); }
  for (auto& kv : want) MC_CHECK(ctx, seen[kv.first]==1, "name", kv.first << " is printed " << seen[kv.first] << " times");
  // every level follows the one before
  int last=-1; for (auto& n : order) if (!pos[n].second) { MC_CHECK(ctx, pos[n].first==last+1, "order", n << " is printed after level " << last); last=pos[n].first; } else MC_CHECK(ctx, pos[n].first==last, "order", n << " is printed under level " << last);
  ctx.outcome(os.str());
}
