#include "strgen.hpp"
#include "ekat_string_utils.hpp"
#include <map>
#include <set>
#include <algorithm>
using namespace ekat; using mc::show; using CIS = CaseInsensitiveString;
static std::string low(std::string s) { for (auto& c : s) if (c>='A'&&c<='Z') c = char(c-'A'+'a'); return s; }
#define AG(x, e, key) MC_CHECK(ctx, (x)==(e), key, #x " on " << w << " gave " << (x))
static bool pair_case(mc::Ctx& ctx, const std::string& s, const std::string& t) {
  std::string w = show(s) + "," + show(t); bool e = low(s)==low(t);
  CIS a(s), b(t); const char* tc = t.c_str(); const char* sc = s.c_str();
  AG(caseInsensitiveEqualString(s,t), e, "eq"); AG(a==b, e, "eq"); AG(a==t, e, "eq-mixed"); AG(s==b, e, "eq-mixed");
  AG(a!=b, !e, "ne"); AG(a!=t, !e, "ne"); AG(s!=b, !e, "ne");
  if (s.find('\0')==std::string::npos && t.find('\0')==std::string::npos) { AG(a==tc, e, "eq-literal"); AG(sc==b, e, "eq-literal"); AG(a!=tc, !e, "ne-literal"); AG(sc!=b, !e, "ne-literal"); AG(a<tc, caseInsensitiveLessString(s,t), "lt-literal"); AG(sc<=b, caseInsensitiveLessEqualString(s,t), "le-literal"); }
  bool lt = caseInsensitiveLessString(s,t), gt = caseInsensitiveLessString(t,s);
  MC_CHECK(ctx, int(lt)+int(gt)+int(e)==1, "trichotomy", w << ": less " << lt << " greater " << gt << " equal " << e);
  AG(a<b, lt, "lt"); AG(a<t, lt, "lt"); AG(s<b, lt, "lt"); bool le = lt||e;
  AG(caseInsensitiveLessEqualString(s,t), le, "le"); AG(a<=b, le, "le"); AG(a<=t, le, "le"); AG(s<=b, le, "le");
  return lt;
}
MC_SCENARIO(pairs, "all pairs of strings over {a,A,b,B,_,[} of length <=3: equality, trichotomy, <= and mixed operands", 2) {
  auto s = tight(gen(ctx,"aAbB_[",3)), t = tight(gen(ctx,"aAbB_[",3)); ctx.outcome(uint64_t(pair_case(ctx,s,t)) + (low(s)==low(t))*2);
}
MC_SCENARIO(longer, "all pairs of strings over {a,A,b} of lengths 4..5", 3) { auto s = tight(gen(ctx,"aAb",5,"s",4)), t = tight(gen(ctx,"aAb",5,"t",4)); ctx.outcome(uint64_t(pair_case(ctx,s,t)) + (low(s)==low(t))*2); }
MC_SCENARIO(characters, "all pairs of single characters of 256, alone and followed by a letter", 1) {
  int a = ctx.choose(256,"c");
  for (int b=0;b<256;++b) { std::string s(1,char(a)), t(1,char(b)); pair_case(ctx,s,t); pair_case(ctx,s+"x",t+"X"); pair_case(ctx,s+"x",t+"Y"); pair_case(ctx,"q"+s,"Q"+t); }
  ctx.outcome(a);
}
static const std::vector<std::string>& pool() { static std::vector<std::string> v = [] { std::vector<std::string> r; const std::string A="aAbB_"; r.push_back(""); for (char x:A) r.push_back(std::string(1,x)); for (char x:A) for (char y:A) r.push_back({x,y}); return r; }(); return v; }
MC_SCENARIO(transitive, "all triples of strings over {a,A,b,B,_} of length <=2: < transitive, incomparability transitive", 2) {
  auto& P = pool(); auto& s=P[size_t(ctx.choose(int(P.size())))]; auto& t=P[size_t(ctx.choose(int(P.size())))];
  for (auto& u : P) { CIS a(s),b(t),c(u); std::string w = show(s)+","+show(t)+","+show(u);
    MC_CHECK(ctx, !((a<b)&&(b<c)) || a<c, "transitive", w); bool iab=!(a<b)&&!(b<a), ibc=!(b<c)&&!(c<b), iac=!(a<c)&&!(c<a); MC_CHECK(ctx, !(iab&&ibc)||iac, "incomparable", w);
    MC_CHECK(ctx, !((a<=b)&&(b<=c)) || a<=c, "transitive-le", w); }
  ctx.outcome(mc::hash_str(low(s)+"|"+low(t)));
}
MC_SCENARIO(containers, "all sequences of 4 insertions from 7 keys with case variants into std::map and std::set, then lookups", 2) {
  static const std::vector<std::string> K = {"a","A","Ab","aB","ab_","AB_","b"};
  std::map<CIS,int> m; std::set<CIS> st; std::map<std::string,int> ref; std::string w;
  for (int i=0;i<4;++i) { auto& k = K[size_t(ctx.choose(int(K.size()),"key"))]; m[CIS(k)] = i; st.insert(CIS(k)); ref[low(k)] = i; w += k + " "; }
  MC_CHECK(ctx, m.size()==ref.size() && st.size()==ref.size(), "container-size", w << ": map has " << m.size() << " keys, set " << st.size() << ", expected " << ref.size());
  for (auto& k : K) { auto it = m.find(CIS(k)); bool in = ref.count(low(k))!=0; MC_CHECK(ctx, (it!=m.end())==in && (st.count(CIS(k))==1)==in, "container-find", w << ": looking up " << k); if (in) MC_CHECK(ctx, it->second==ref[low(k)], "container-value", w << ": " << k); }
  auto i1 = m.begin(); for (auto& kv : m) { (void)kv; auto n = std::next(i1); if (n!=m.end()) MC_CHECK(ctx, i1->first < n->first, "container-order", w); ++i1; }
  std::vector<CIS> v; for (auto& k : K) v.push_back(CIS(k)); auto f = std::find(v.begin(), v.end(), "AB"); MC_CHECK(ctx, f-v.begin()==2, "find", "std::find of AB gave position " << (f-v.begin()));
  ctx.outcome(mc::show(uint64_t(ref.size())) + w);
}
MC_SCENARIO(long_strings, "strings of 1-40 (thorough 70) and up to 513 characters in mixed case that differ at one place in case, in a letter, in another character, or in length", 2) {
  int n = mc::size(ctx, 1, ctx.tier() ? 70 : 40, "length"), at = mc::place(ctx, n, "place"); static const char P[][2] = {{'a','A'},{'a','b'},{'A','b'},{'a','B'},{'Z','a'},{'z','A'},{'_','a'},{'_','A'},{'@','A'},{'[','z'},{'0','a'},{char(0xe9),char(0xc9)},{' ','a'}};
  std::string s, t; for (int i = 0; i < n; ++i) { char c = char('a' + (i * i + i) % 26); s += i % 2 ? c : char(toupper(c)); t += i % 3 ? c : char(toupper(c)); }
  bool lt = pair_case(ctx, tight(s), tight(t)); MC_CHECK(ctx, !lt, "lt", show(s) << "," << show(t)); pair_case(ctx, tight(s), tight(t.substr(0, size_t(at)))); pair_case(ctx, tight(s.substr(0, size_t(at))), tight(t));
  for (auto& p : P) { s[size_t(at)] = p[0]; t[size_t(at)] = p[1]; pair_case(ctx, tight(s), tight(t)); pair_case(ctx, tight(t), tight(s)); if (at + 1 < n) { std::string u = t; u[size_t(n) - 1] = '~'; pair_case(ctx, tight(s), tight(u)); pair_case(ctx, tight(u), tight(s)); } }
  std::map<CIS,int> m; for (int i = 0; i < n; ++i) { m[CIS(s.substr(0, size_t(i)))] = i; m[CIS(t.substr(0, size_t(i)))] += 100; } std::map<std::string,int> r; for (int i = 0; i < n; ++i) { r[low(s.substr(0, size_t(i)))] = i; r[low(t.substr(0, size_t(i)))] += 100; } MC_CHECK(ctx, m.size() == r.size(), "container-size", m.size() << " keys, expected " << r.size()); for (auto& kv : r) MC_CHECK(ctx, m.count(CIS(kv.first)) && m[CIS(kv.first)] == kv.second, "container-value", show(kv.first));
  ctx.outcome(mc::mix(uint64_t(n), uint64_t(at)));
}
