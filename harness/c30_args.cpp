#include "strgen.hpp"
#include "ekat_test_utils.hpp"
#include <algorithm>
using ekat::TestSession; using VS = std::vector<std::string>;
struct Ref { bool bad=false; std::map<std::string,bool> flags; std::map<std::string,VS> vec; };
static VS cut(const std::string& s, char c) { VS r; std::string t; for (char x : s) if (x==c) { r.push_back(t); t.clear(); } else t += x; r.push_back(t); return r; }
static bool dash(const std::string& s) { return !s.empty() && s[0]=='-'; }
static std::string strip2(const std::string& s) { return s.size()>1 && s[1]=='-' ? s.substr(2) : s.substr(1); }
static Ref ref(const VS& args) {
  Ref r; std::vector<std::pair<bool,std::string>> tok; if (args.empty()) return r;
  for (auto& a : args) {
    auto eq = cut(a,'='); if (eq.size()>2) { r.bad=true; return r; }
    if (eq.size()==2) { if (!dash(eq[0])) { r.bad=true; return r; } tok.push_back({true,strip2(eq[0])}); for (auto& v : cut(eq[1],',')) { if (dash(v)) { r.bad=true; return r; } tok.push_back({false,v}); } continue; }
    auto cm = cut(a,','); if (cm.size()==1) { tok.push_back(dash(a) ? std::make_pair(true,strip2(a)) : std::make_pair(false,a)); continue; }
    for (auto& v : cm) { if (dash(v)) { r.bad=true; return r; } tok.push_back({false,v}); }
  }
  if (!tok[0].first) { r.bad=true; return r; }
  for (size_t i=0;i<tok.size();++i) if (tok[i].first) { size_t j=i+1; for (; j<tok.size() && !tok[j].first; ++j) r.vec[tok[i].second].push_back(tok[j].second); if (j==i+1) r.flags[tok[i].second]=true; }
  return r;
}
static void run(mc::Ctx& ctx, const VS& args) {
  static const TestSession fresh = TestSession::get(); TestSession s = fresh; std::vector<std::vector<char>> store; std::vector<char*> av;
  for (auto& a : args) { store.emplace_back(a.begin(),a.end()); store.back().push_back(0); } for (auto& b : store) av.push_back(b.data());
  bool thr=false; try { s.parse_test_args(av); } catch (const std::exception&) { thr=true; }
  auto r = ref(args); std::string w = mc::show(args); MC_LOG(ctx, w);
  MC_CHECK(ctx, thr==r.bad, thr?"rejected":"accepted", w << (thr?" was rejected":" was accepted"));
  if (thr) { ctx.outcome("bad"); return; }
  MC_CHECK(ctx, s.flags==r.flags, "flags", w << ": " << s.flags.size() << " flags, expected " << r.flags.size());
  MC_CHECK(ctx, s.vec_params==r.vec, "vec_params", w << ": list parameters differ from the arguments");
  std::map<std::string,std::string> p; for (auto& kv : r.vec) if (kv.second.size()==1) p[kv.first]=kv.second[0];
  MC_CHECK(ctx, s.params==p, "params", w << ": single-valued parameters differ: " << s.params.size() << ", expected " << p.size());
  std::string o; for (auto& kv : s.flags) o += kv.first + ";"; for (auto& kv : s.vec_params) o += kv.first + "=" + mc::show(kv.second); ctx.outcome(o);
}
MC_SCENARIO(arguments, "all argument lists of length <=4 (thorough 5) over 23 tokens, some with blanks: keys, flags, key=value, lists, and malformed ones", 2) {
  static const VS T = {"-a","--a","--bb","-","--","-5","v","w","v,w","v,w,x","--a=v","-a=v,w","--bb=","--a=-v","--a=v,-w","a=v","--a=v=w","v,-w","",",","--a,v","--a= v, w"," v "};
  int n = ctx.choose(ctx.tier()?6:5,"n"); VS a; for (int i=0;i<n;++i) a.push_back(ctx.pick(T)); run(ctx,a);
}
MC_SCENARIO(texts, "all lists of one or two arguments of length <=4 over {-,a,=,comma,blank} after a leading flag or alone", 3) {
  VS a; if (ctx.flag("lead")) a.push_back("-z"); int n=1+ctx.choose(2,"n"); for (int i=0;i<n;++i) a.push_back(gen(ctx,"-a=, ",4)); run(ctx,a);
}
MC_SCENARIO(matches, "argv_matches on all strings of length <=4 over {-,n,p} against options of length 1..3") {
  auto s = gen(ctx,"-np",4), sh = gen(ctx,"-np",3,"short",1), lg = gen(ctx,"-np",3,"long",1);
  bool e = s==sh || s==lg || s=="-"+sh; MC_CHECK(ctx, ekat::argv_matches(s,sh,lg)==e, "argv_matches", mc::show(s) << "," << mc::show(sh) << "," << mc::show(lg)); ctx.outcome(e);
}
MC_SCENARIO(long_lines, "0-40 (thorough 100) and up to 513 arguments or values, names and values of 1-70 characters: flags, key=value, key=list, key and values, in one and in several arguments", 2) {
  int n = mc::size(ctx, 0, ctx.tier() ? 100 : 40, "n"), form = ctx.choose(6, "form"), len = ctx.pick(std::vector<int>{1, 14, 15, 16, 31, 70}, "length"); VS a; std::string pad(size_t(len), 'q'), list; for (int i = 0; i < n; ++i) list += (i ? "," : "") + std::string("v") + std::to_string(i) + pad;
  switch (form) { case 0: for (int i = 0; i < n; ++i) a.push_back("--f" + std::to_string(i) + pad); break; case 1: for (int i = 0; i < n; ++i) a.push_back("-k" + std::to_string(i % 7) + pad + "=" + std::to_string(i)); break; case 2: a.push_back("-k"); for (int i = 0; i < n; ++i) a.push_back("v" + std::to_string(i) + pad); a.push_back("-z"); break;
    case 3: a.push_back("--k" + pad + "=" + list); break; case 4: a.push_back("--k" + pad); a.push_back(list); a.push_back("-" + pad); break; default: for (int i = 0; i < n; ++i) a.push_back(i % 3 ? "v" + std::to_string(i) : "-k" + std::to_string(i)); }
  run(ctx, a); if (n) { a[a.size() / 2] += "=x=y"; run(ctx, a); }
}
