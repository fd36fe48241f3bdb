#include "strgen.hpp"
#include "ekat_string_utils.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <set>
using namespace ekat; using mc::show;
using VS = std::vector<std::string>;

static VS ref_split(const std::string& s, const std::string& d) {
  VS r; std::string cur; size_t i = 0;
  while (i < s.size()) { if (s.compare(i, d.size(), d) == 0) { r.push_back(cur); cur.clear(); i += d.size(); } else cur += s[i++]; }
  r.push_back(cur); return r;
}
static std::string ref_join(const VS& v, const std::string& sep) { std::string r; for (size_t i=0;i<v.size();++i) r += (i?sep:"") + v[i]; return r; }

MC_SCENARIO(char_ops, "all strings over {a,B,' ','*',NUL,0xe9} of length <=6 x each character: strip, trim, split at a character, upper_case", 2) {
  static const std::string A = std::string("aB *\0\xe9", 6);
  std::string s = tight(gen(ctx, A, ctx.tier() ? 7 : 6)); std::string orig = s;
  MC_LOG(ctx, "s=" << show(s));
  for (char c : A) {
    std::string w = show(s) + ", '" + show(std::string(1,c)) + "'";
    std::string t = s; strip(t, c); std::string e; for (char x : s) if (x != c) e += x;
    MC_EXPECT(ctx, t == e, "strip", "strip(" << w << ") gave " << show(t));
    size_t b = 0, n = s.size(); while (b < n && s[b] == c) ++b; while (n > b && s[n-1] == c) --n;
    e = s.substr(b, n-b); t = trim(s, c);
    MC_EXPECT(ctx, t == e, "trim", "trim(" << w << ") gave " << show(t) << ", expected " << show(e));
    if (c == ' ') MC_EXPECT(ctx, trim(s) == e, "trim", "trim(" << show(s) << ") with the default character gave " << show(trim(s)));
    auto v = split(s, c), r = ref_split(s, std::string(1,c));
    MC_EXPECT(ctx, v == r, "split-char", "split(" << w << ") gave " << show(v) << ", expected " << show(r));
    MC_EXPECT(ctx, ekat::join(v, std::string(1,c)) == s, "join-split", "joining split(" << w << ") gave " << show(ekat::join(v, std::string(1,c))));
  }
  std::string u = upper_case(s), e = s; for (auto& x : e) if (x >= 'a' && x <= 'z') x = char(x - 'a' + 'A');
  MC_EXPECT(ctx, u == e, "upper", "upper_case(" << show(s) << ") gave " << show(u));
  MC_EXPECT(ctx, s == orig, "input-changed", show(orig));
  ctx.outcome(show(ref_split(s,"*")) + trim(s));
}
MC_SCENARIO(all_chars, "upper_case, strip, trim, starts_with on every one- and two-character string of all 256 characters", 1) {
  int a = ctx.choose(256,"c");
  for (int b = -1; b < 256; ++b) {
    std::string s(1, char(a)); if (b >= 0) s += char(b);
    std::string u = upper_case(s), e = s; for (auto& x : e) if (x >= 'a' && x <= 'z') x = char(x - 'a' + 'A');
    MC_EXPECT(ctx, u == e, "upper", "upper_case(" << show(s) << ") gave " << show(u));
    std::string t = s; strip(t, char(a)); e = (b < 0 || b == a) ? std::string() : s.substr(1);
    MC_EXPECT(ctx, t == e, "strip", "strip(" << show(s) << "," << a << ") gave " << show(t));
    t = trim(s, char(a)); MC_EXPECT(ctx, t == e, "trim", "trim(" << show(s) << "," << a << ") gave " << show(t));
  }
  ctx.outcome(a);
}
MC_SCENARIO(split_string, "all strings over {a,b,;} of length <=7 (thorough 9) x all non-empty delimiters of length <=3 over the same letters", 3) {
  std::string d = gen(ctx, "ab;", 3, "delim", 1);
  std::string s = tight(gen(ctx, "ab;", ctx.tier() ? 9 : 7));
  auto v = split(s, d), r = ref_split(s, d);
  MC_CHECK(ctx, v == r, "split", "split(" << show(s) << "," << show(d) << ") gave " << show(v) << ", expected " << show(r));
  MC_CHECK(ctx, ekat::join(v, d) == s, "join-split", "join(split(" << show(s) << "," << show(d) << ")) gave " << show(ekat::join(v,d)));
  ctx.outcome(show(r));
}
MC_SCENARIO(prefixes, "all pairs of strings over {a,b} of length <=6: starts_with", 2) {
  std::string s = tight(gen(ctx, "ab", 6)), p = tight(gen(ctx, "ab", 6, "prefix"));
  bool e = p.size() <= s.size() && std::equal(p.begin(), p.end(), s.begin());
  MC_CHECK(ctx, starts_with(s,p) == e, "starts_with", "starts_with(" << show(s) << "," << show(p) << ") gave " << starts_with(s,p));
  ctx.outcome(e);
}
MC_SCENARIO(joins, "all sequences of <=5 strings from {'',a,bb,','} x 3 separators x container kinds x every selection predicate: join, join with function, join_if, join_if with function; strint", 2) {
  static const VS items = {"","a","bb",","}; static const VS seps = {"",",","--"};
  int n = ctx.choose(6,"n"); VS v; for (int i=0;i<n;++i) v.push_back(items[size_t(ctx.choose(4))]);
  for (auto& sep : seps) {
    std::string w = show(v) + "," + show(sep);
    std::list<std::string> l(v.begin(), v.end()); std::deque<std::string> d(v.begin(), v.end());
    MC_EXPECT(ctx, ekat::join(v,sep)==ref_join(v,sep), "join", w << " gave " << show(ekat::join(v,sep)));
    MC_EXPECT(ctx, ekat::join(l,sep)==ref_join(v,sep) && ekat::join(d,sep)==ref_join(v,sep), "join", w << " list or deque");
    auto f = [](const std::string& s) { return "<" + s + ">"; }; VS fv; for (auto& x : v) fv.push_back(f(x));
    MC_EXPECT(ctx, ekat::join(v,f,sep)==ref_join(fv,sep), "join-f", w << " gave " << show(ekat::join(v,f,sep)));
    for (int mask=0; mask<16; ++mask) {
      auto sel = [&](const std::string& s) { for (int k=0;k<4;++k) if (items[size_t(k)]==s) return (mask>>k & 1)!=0; return false; };
      VS sv, fsv; for (auto& x : v) if (sel(x)) { sv.push_back(x); fsv.push_back(f(x)); }
      MC_EXPECT(ctx, join_if(v,sel,sep)==ref_join(sv,sep), "join_if", w << " mask " << mask << " gave " << show(join_if(v,sel,sep)));
      MC_EXPECT(ctx, join_if(l,sel,f,sep)==ref_join(fsv,sep), "join_if-f", w << " mask " << mask << " gave " << show(join_if(l,sel,f,sep)));
    }
    std::vector<int> iv; VS is; for (auto& x : v) { iv.push_back(int(x.size())*7-7); is.push_back(std::to_string(iv.back())); }
    MC_EXPECT(ctx, ekat::join(iv,sep)==ref_join(is,sep), "join-int", w << " gave " << show(ekat::join(iv,sep)));
    std::set<int> sset(iv.begin(),iv.end()); VS ss; for (int x : sset) ss.push_back(std::to_string(x));
    MC_EXPECT(ctx, ekat::join(sset,sep)==ref_join(ss,sep), "join-set", w);
  }
  for (int i : {0,-1,7,2147483647,-2147483647-1}) if (n) MC_EXPECT(ctx, strint(v[0],i)==v[0]+" "+std::to_string(i), "strint", v[0] << "," << i);
  ctx.outcome(ref_join(v,"|"));
}
// Sizes far beyond the exhaustive ones, where chunked or buffered code would go wrong
MC_SCENARIO(long_runs, "runs of 0-34 (thorough 70) of a character, then a middle of 0-34 characters with the character inside or not, then a run: trim, strip, split, upper_case", 2) {
  int L = ctx.tier() ? 70 : 34, a = ctx.choose(L + 1, "leading"), m = ctx.choose(L + 1, "middle"); char c = ctx.flag("blank") ? ' ' : 'x'; bool in = ctx.flag("inside");
  for (int b = 0; b <= L; ++b) {
    std::string mid; for (int i = 0; i < m; ++i) mid += in && i % 3 == 1 && i != m - 1 ? c : char('a' + i % 23); std::string s = tight(std::string(size_t(a), c) + mid + std::string(size_t(b), c)), orig = s, w = show(s);
    MC_EXPECT(ctx, trim(s, c) == mid, "trim", "trim(" << w << ") gave " << show(trim(s, c))); std::string t = s, e; strip(t, c); for (char x : s) if (x != c) e += x; MC_EXPECT(ctx, t == e, "strip", "strip(" << w << ") gave " << show(t));
    auto v = split(s, c), r = ref_split(s, std::string(1, c)); MC_EXPECT(ctx, v == r, "split-char", "split(" << w << ") gave " << show(v)); MC_EXPECT(ctx, ekat::join(v, std::string(1, c)) == s, "join-split", w);
    std::string u = upper_case(s); e = s; for (auto& x : e) if (x >= 'a' && x <= 'z') x = char(x - 'a' + 'A'); MC_EXPECT(ctx, u == e && s == orig, "upper", "upper_case(" << w << ") gave " << show(u));
  }
  ctx.outcome(mc::mix(uint64_t(a), uint64_t(m)));
}
MC_SCENARIO(many_pieces, "0-40, 64 and 101 pieces of 0-20 characters, 129, 257 and 400 of 0-2, delimiters of 1-20 characters that do or do not overlap themselves: split, join, join_if, starts_with of every prefix and of prefixes changed in one place", 2) {
  int n = ctx.choose(46, "pieces"), l = ctx.choose(6, "length of a piece"); static const int LEN[] = {0, 1, 2, 7, 16, 20}, BIG[] = {64, 101, 129, 257, 400}; if (n > 40) { if (LEN[l] > 2 && n > 42) return; n = BIG[n - 41]; } static const std::string D[] = {",", "ab", "aa", "aba", "--------", "aaaaaaaaaaaaaaaa", "0123456789abcdefghij"};
  for (auto& d : D) {
    VS v; for (int i = 0; i < n; ++i) { std::string p; for (int k = 0; k < LEN[l] + (l ? i % 3 - 1 : 0); ++k) p += "abcxyz-a"[(i * 5 + k * 3) % 8]; v.push_back(p); }
    std::string s = tight(ref_join(v, d)), w = std::to_string(n) + " pieces of " + std::to_string(LEN[l]) + " joined with " + show(d);
    MC_EXPECT(ctx, ekat::join(v, d) == s, "join", w << " gave " << show(ekat::join(v, d))); auto got = split(s, d), r = ref_split(s, d); MC_EXPECT(ctx, got == r, "split", w << ": split gave " << show(got)); MC_EXPECT(ctx, ekat::join(got, d) == s, "join-split", w);
    auto odd = [](const std::string& x) { return x.size() % 2 == 1; }; VS o; for (auto& x : v) if (odd(x)) o.push_back(x); MC_EXPECT(ctx, join_if(v, odd, d) == ref_join(o, d), "join_if", w << " gave " << show(join_if(v, odd, d)));
    for (size_t k = 0; k <= s.size(); ++k) { std::string p = tight(s.substr(0, k)); MC_EXPECT(ctx, starts_with(s, p), "starts_with", show(s) << "," << show(p)); if (k) { p[k - 1] = char(p[k - 1] + 1); MC_EXPECT(ctx, !starts_with(s, p), "starts_with", show(s) << "," << show(p)); } MC_EXPECT(ctx, starts_with(p, s) == (p == s), "starts_with", show(p) << "," << show(s)); }
  }
  ctx.outcome(mc::mix(uint64_t(n), uint64_t(l)));
}
