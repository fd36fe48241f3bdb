#include "strgen.hpp"
#include "ekat_string_utils.hpp"
#include <algorithm>
#include <cmath>
#include <set>
using namespace ekat; using mc::show;
using VS = std::vector<std::string>;
static bool isd(char c, const std::vector<char>& d) { return std::find(d.begin(), d.end(), c) != d.end(); }
// tokens in order; delimited occurrences of atomic (leftmost first) are kept whole
static VS ref_tokens(const std::string& s, const std::vector<char>& d, const std::string& at) {
  VS r; size_t i = 0;
  while (i < s.size()) {
    bool left = i==0 || isd(s[i-1], d);
    if (!at.empty() && left && s.compare(i, at.size(), at)==0 && (i+at.size()==s.size() || isd(s[i+at.size()], d))) { r.push_back(at); i += at.size(); continue; }
    if (isd(s[i], d)) { ++i; continue; }
    std::string t; while (i < s.size() && !isd(s[i], d)) t += s[i++]; r.push_back(t);
  }
  return r;
}
static VS sorted(const std::list<std::string>& l) { VS v(l.begin(), l.end()); std::sort(v.begin(), v.end()); return v; }
static VS sorted(VS v) { std::sort(v.begin(), v.end()); return v; }
static const std::vector<std::vector<char>> DL = {{'_'},{'_',' '},{}};

MC_SCENARIO(tokens, "all strings over {a,b,_,blank} of length <=7 (thorough 9) x delimiter sets {_}, {_,blank}, {}: gather_tokens without an atomic string", 4) {
  auto& d = DL[size_t(ctx.choose(int(DL.size()),"delims"))];
  std::string s = tight(gen(ctx, "ab_ ", ctx.tier() ? 9 : 7));
  auto l = gather_tokens(s, d); VS v(l.begin(), l.end()), r = ref_tokens(s, d, "");
  MC_CHECK(ctx, v == r, "tokens", "gather_tokens(" << show(s) << ") with " << d.size() << " delimiters gave " << show(v) << ", expected " << show(r));
  ctx.outcome(show(r));
}
MC_SCENARIO(atomic, "all strings over {a,b,_} of length <=8 (thorough 10) x atomic strings of length <=4 over the same letters that neither start nor end with a delimiter: same tokens, as multisets", 5) {
  std::string at = gen(ctx, "ab_", 4, "atomic", 1);
  if (at.front()=='_' || at.back()=='_') return;
  std::string s = tight(gen(ctx, "ab_", ctx.tier() ? 10 : 8));
  auto l = gather_tokens(s, {'_'}, at); VS v = sorted(l), r = sorted(ref_tokens(s, {'_'}, at));
  MC_CHECK(ctx, v == r, "atomic", "gather_tokens(" << show(s) << ", '_', " << show(at) << ") gave " << show(v) << ", expected " << show(r));
  ctx.outcome(show(r));
}
static double ref_jaccard(const VS& a, const VS& b) {
  std::set<std::string> x(a.begin(),a.end()), y(b.begin(),b.end()), u = x; u.insert(y.begin(),y.end()); size_t n = 0; for (auto& t : x) n += y.count(t);
  return u.empty() ? 1.0 : double(n)/double(u.size());
}
static bool near(double a, double b) { return std::abs(a-b) <= 1e-12; }
MC_SCENARIO(jaccard, "all pairs of strings over {a,b,_} of length <=5 x tokenize flags: |intersection|/|union| of the token sets, range, symmetry, 1 for equal strings", 4) {
  std::string s = gen(ctx, "ab_", 5), t = gen(ctx, "ab_", 5);
  auto edge = [](const std::string& x) { return !x.empty() && (x.front()=='_'||x.back()=='_'); };
  std::vector<char> d = {'_'}; VS one{s}, two{t};
  double tt = jaccard_similarity(s,t,d), e = ref_jaccard(ref_tokens(s,d,""), ref_tokens(t,d,""));
  std::string w = show(s) + "," + show(t);
  MC_CHECK(ctx, near(tt,e), "jaccard", "jaccard(" << w << ") gave " << tt << ", expected " << e);
  MC_CHECK(ctx, near(jaccard_similarity(t,s,d),tt), "jaccard-sym", w);
  double ff = jaccard_similarity(s,t,d,false,false); MC_CHECK(ctx, near(ff, s==t ? 1 : 0), "jaccard-whole", w << " gave " << ff);
  if (!edge(t)) { double x = jaccard_similarity(s,t,d,true,false), ex = ref_jaccard(ref_tokens(s,d,t), two); MC_CHECK(ctx, near(x,ex), "jaccard-tf", w << " tokenizing the first only gave " << x << ", expected " << ex);
    double y = jaccard_similarity(t,s,d,false,true); MC_CHECK(ctx, near(y,ex), "jaccard-ft", w << " mirrored gave " << y << ", expected " << ex); }
  if (s==t && !s.empty()) MC_CHECK(ctx, near(tt,1), "jaccard-self", w);
  ctx.outcome(mc::show(tt));
}
MC_SCENARIO(jaccard_words, "all pairs of phrases of <=3 words from {air,sea,air_x} with separators blank and _", 2) {
  static const VS W = {"air","sea","ai"};
  auto ph = [&] { int n = ctx.choose(4,"words"); std::string s; for (int i=0;i<n;++i) { if (i) s += ctx.flag()?'_':' '; s += W[size_t(ctx.choose(3))]; } return s; };
  std::string s = ph(), t = ph(); std::vector<char> d = {' ','_'};
  double x = jaccard_similarity(s,t,d), e = ref_jaccard(ref_tokens(s,d,""), ref_tokens(t,d,""));
  MC_CHECK(ctx, near(x,e), "jaccard", "jaccard(" << show(s) << "," << show(t) << ") gave " << x << ", expected " << e);
  double y = jaccard_similarity(s,t,d,true,false), f = ref_jaccard(ref_tokens(s,d,t), VS{t});
  MC_CHECK(ctx, near(y,f), "jaccard-tf", "jaccard(" << show(s) << "," << show(t) << ",true,false) gave " << y << ", expected " << f);
  ctx.outcome(mc::show(x));
}
static double ref_jaro(const std::string& a, const std::string& b) {
  if (a == b) return 1;
  int la = int(a.size()), lb = int(b.size()); if (!la || !lb) return 0;
  int win = std::max(0, std::max(la,lb)/2 - 1); std::vector<bool> ua(static_cast<size_t>(la)), ub(static_cast<size_t>(lb)); int m = 0;
  for (int i=0;i<la;++i) for (int j=0;j<lb;++j) if (!ua[size_t(i)] && !ub[size_t(j)] && a[size_t(i)]==b[size_t(j)] && std::abs(i-j)<=win) { ua[size_t(i)]=true; ub[size_t(j)]=true; ++m; break; }
  if (!m) return 0;
  std::string x, y; for (int i=0;i<la;++i) if (ua[size_t(i)]) x += a[size_t(i)]; for (int j=0;j<lb;++j) if (ub[size_t(j)]) y += b[size_t(j)];
  int t = 0; for (int k=0;k<m;++k) t += x[size_t(k)]!=y[size_t(k)];
  return (double(m)/la + double(m)/lb + (m - t/2.0)/m)/3.0;
}
static void jaro_case(mc::Ctx& ctx, const std::string& s, const std::string& t) {
  double x = jaro_similarity(s,t), e = ref_jaro(s,t); std::string w = show(s) + "," + show(t);
  MC_CHECK(ctx, near(x,e), "jaro", "jaro(" << w << ") gave " << x << ", expected " << e);
  MC_CHECK(ctx, x>=0 && x<=1+1e-12, "jaro-range", w << " gave " << x);
  size_t c = 0; while (c < s.size() && c < t.size() && s[c]==t[c]) ++c;
  for (int l : {4,0,1,2,3}) for (double p : {0.1,0.25,0.0}) for (double th : {0.7,0.3,0.9}) {
    double y = jaro_winkler_similarity(s,t,l,p,th), f = e; if (std::abs(e-th) < 1e-9) continue; if (e > th) f += double(std::min<size_t>(c,size_t(l)))*p*(1-e);
    MC_CHECK(ctx, near(y,f), "jaro-winkler", "jaro_winkler(" << w << "," << l << "," << p << "," << th << ") gave " << y << ", expected " << f);
  }
  double y = jaro_winkler_similarity(s,t), f = e > 0.7 ? e + double(std::min<size_t>(c,4))*0.1*(1-e) : e; if (std::abs(e-0.7) > 1e-9) MC_CHECK(ctx, near(y,f), "jaro-winkler", w << " default gave " << y << ", expected " << f);
  ctx.outcome(mc::show(x));
}
MC_SCENARIO(jaro, "all pairs of strings over {a,b,c} of length <=5", 3) { auto s = tight(gen(ctx,"abc",5)), t = tight(gen(ctx,"abc",5)); jaro_case(ctx,s,t); }
MC_SCENARIO(jaro_long, "all pairs over {a,b}: lengths 6..8 against <=7 (thorough)", 4, true) { auto s = tight(gen(ctx,"ab",8,"s",6)), t = tight(gen(ctx,"ab",7)); jaro_case(ctx,s,t); }
// Sizes far beyond the exhaustive ones
static std::string word(int len, int kind) { std::string s; for (int i = 0; i < len; ++i) s += kind == 0 ? char('a' + (i * 7 + i * i) % 26) : kind == 1 ? char('a' + i % 2) : kind == 2 ? 'a' : char('a' + (i * i) % 5); return s; }
MC_SCENARIO(jaro_strings, "strings of 0-40 (thorough 72) and up to 257 characters of 4 kinds (all different to all equal) against the same with one place changed, two places swapped, a piece cut off at either end, rotated or reversed", 2) {
  int n = mc::size(ctx, 0, ctx.tier() ? 72 : 40, "length", 257), kind = ctx.choose(4, "kind"), how = ctx.choose(7, "change"); std::string s = word(n, kind);
  for (int i = 0; i < std::max(n, 1); i += n > 90 ? 7 : 1) { std::string t = s; size_t k = size_t(i);
    switch (how) { case 0: if (n) t[k] = 'Z'; break; case 1: if (n) std::swap(t[k], t[size_t(i * 5 + 1) % size_t(n)]); break; case 2: t = s.substr(0, k); break; case 3: t = s.substr(k); break; case 4: std::rotate(t.begin(), t.begin() + i, t.end()); break; case 5: std::reverse(t.begin(), t.begin() + i + (n > 0)); break; default: t = s + word(i, 3); }
    t = tight(t); jaro_case(ctx, tight(s), t); jaro_case(ctx, t, tight(s)); }
}
MC_SCENARIO(many_tokens, "0-40 and up to 300 tokens of 1-20 characters with 1-20 delimiters between, before and after: gather_tokens with and without an atomic string, jaccard with the same tokens in another order and with some missing", 2) {
  int n = mc::size(ctx, 0, 40, "tokens", 300), l = 1 + ctx.choose(20, "length"), g = ctx.choose(4, "gap"); static const int GAP[] = {1, 2, 7, 20}; VS r; std::string s(size_t(n % 3), '_'), back;
  for (int i = 0; i < n; ++i) { std::string t = word(1 + (l + i) % 20, 0); t[0] = char('A' + i % 26); r.push_back(t); s += t + std::string(size_t(GAP[g]), i % 2 ? '_' : ' '); } for (int i = n; i-- > 0; ) back += r[size_t(i)] + "_"; for (int i = 0; i < l; ++i) s += i % 2 ? ' ' : '_'; s = tight(s);
  std::vector<char> d{'_', ' '}; auto got = gather_tokens(s, d); MC_CHECK(ctx, VS(got.begin(), got.end()) == r, "tokens", show(s) << " gave " << show(VS(got.begin(), got.end())));
  if (n >= 3) { std::string at = r[1] + s.substr(s.find(r[1]) + r[1].size(), size_t(GAP[g])) + r[2]; auto x = sorted(gather_tokens(s, d, at)), e = sorted(ref_tokens(s, d, at)); MC_CHECK(ctx, x == e, "atomic", show(s) << " with " << show(at) << " gave " << show(x)); }
  double j = jaccard_similarity(s, back, d); MC_CHECK(ctx, near(j, 1), "jaccard", show(s) << "," << show(back) << " gave " << j);
  for (int k = 0; k < n; k += n > 40 ? 31 : 3) { std::string part; for (int i = 0; i < k; ++i) part += "_" + r[size_t(i)]; part += "_zz"; double x = jaccard_similarity(s, part, d), e = ref_jaccard(r, ref_tokens(part, d, "")); MC_CHECK(ctx, near(x, e), "jaccard", show(s) << "," << show(part) << " gave " << x << ", expected " << e); MC_CHECK(ctx, near(jaccard_similarity(part, s, d), e), "jaccard-sym", show(part)); }
  ctx.outcome(mc::mix(uint64_t(n), uint64_t(l)));
}
