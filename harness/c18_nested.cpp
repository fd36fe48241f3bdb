#include "strgen.hpp"
#include "ekat_string_utils.hpp"
#include <set>
using namespace ekat; using mc::show;
struct Node { bool list = false; std::string text; std::vector<Node> kids; int depth() const { int d=0; for (auto& k:kids) if (k.list) d=std::max(d,k.depth()); return d+1; } };
static const std::string OPEN = "([{<", CLOSE = ")]}>";
static bool itemchar(char c) { return isalnum((unsigned char)c) || std::string("_.-!@#$%^&*+=?").find(c) != std::string::npos; }
// List := open Item (',' Item)* close ; Item := itemchar+ | List
struct P {
  const std::string& s; char o, c; size_t i = 0;
  bool list(Node& n) {
    n.list = true; size_t b = i;
    if (i >= s.size() || s[i] != o) return false;
    ++i;
    while (true) {
      Node k; if (i < s.size() && s[i] == o) { if (!list(k)) return false; }
      else { while (i < s.size() && itemchar(s[i])) k.text += s[i++]; if (k.text.empty()) return false; }
      n.kids.push_back(k);
      if (i >= s.size()) return false;
      if (s[i] == ',') { ++i; continue; }
      if (s[i] == c) { ++i; break; }
      return false;
    }
    n.text = s.substr(b, i-b);
    return true;
  }
};
static bool ref(const std::string& s, Node& n) {
  if (s.empty()) return false;
  auto k = OPEN.find(s[0]); if (k == std::string::npos) return false;
  P p{s, OPEN[k], CLOSE[k]};
  return p.list(n) && p.i == s.size();
}
static void compare(mc::Ctx& ctx, const ParameterList& pl, const Node& n, const std::string& w) {
  auto bad = [&](const std::string& what) { ctx.fail("parse", "parsing " + w + ": in " + n.text + ": " + what); };
  ctx.check_count(3);
  if (pl.get<int>("Num Entries") != int(n.kids.size())) bad("Num Entries is " + std::to_string(pl.get<int>("Num Entries")));
  if (pl.get<int>("Depth") != n.depth()) bad("Depth is " + std::to_string(pl.get<int>("Depth")));
  if (pl.get<std::string>("String") != n.text) bad("String is " + pl.get<std::string>("String"));
  int nl = 0;
  for (size_t i=0;i<n.kids.size();++i) {
    std::string t = "Type " + std::to_string(i), e = "Entry " + std::to_string(i); auto& k = n.kids[i];
    if (pl.get<std::string>(t) != (k.list ? "List" : "Value")) bad(t + " is " + pl.get<std::string>(t));
    if (k.list) { ++nl; if (!pl.isSublist(e)) bad(e + " is not a sublist"); compare(ctx, pl.sublist(e), k, w); }
    else if (pl.get<std::string>(e) != k.text) bad(e + " is " + pl.get<std::string>(e));
  }
  int np = int(pl.param_names().size()), ns = int(pl.sublist_names().size());
  if (ns != nl || np != int(n.kids.size())*2 - nl + 3) bad("extra or missing entries");
}
static void one(mc::Ctx& ctx, const std::string& s0) {
  std::string s = tight(s0);
  Node n, n2; bool v = ref(s, n);
  MC_LOG(ctx, show(s) << (v ? " well formed" : " malformed"));
  MC_CHECK(ctx, valid_nested_list_format(s) == v, v ? "rejects-valid" : "accepts-invalid", "valid_nested_list_format(" << show(s) << ") gave " << !v);
  std::string ns; for (char c : s) if (c != ' ') ns += c;
  bool v2 = ref(ns, n2), thr = false;
  try { auto pl = parse_nested_list(s); if (v2) compare(ctx, pl, n2, show(s)); }
  catch (const mc::Violation&) { throw; } catch (const std::exception& e) { thr = true; if (v2) ctx.fail("parse-throws", "parse_nested_list(" + show(s) + ") threw: " + e.what()); }
  MC_CHECK(ctx, thr == !v2, "accepts-invalid", "parse_nested_list(" << show(s) << ") returned a list");
  ctx.outcome(v2 ? ns : std::string());
}
MC_SCENARIO(brackets, "all strings over {[ ] , a b} of length <=8 (thorough 9)", 4) { one(ctx, gen(ctx, "[],ab", ctx.tier() ? 9 : 8)); }
MC_SCENARIO(brackets_long, "all strings over {[ ] , a} of length <=8 (thorough 10)", 4) { one(ctx, gen(ctx, "[],a", ctx.tier() ? 10 : 8)); }
MC_SCENARIO(with_blanks, "all strings over {[ ] , a blank} of length <=7 (thorough 9)", 4) { one(ctx, gen(ctx, "[],a ", ctx.tier() ? 9 : 7)); }
MC_SCENARIO(mixed_brackets, "all strings over {( ) [ ] { } < > , a} of length <=5 (thorough 6)", 3) { one(ctx, gen(ctx, "()[]{}<>,a", ctx.tier() ? 6 : 5)); }
MC_SCENARIO(item_characters, "each of the 256 characters as an item, inside an item, before, after and between lists, for each bracket kind", 1) {
  int c = ctx.choose(256,"c");
  for (int k=0;k<4;++k) { std::string o(1,OPEN[k]), cl(1,CLOSE[k]), x(1,char(c));
    for (auto& s : {o+x+cl, o+"a"+x+"b"+cl, x+o+"a"+cl, o+"a"+cl+x, o+"a,"+x+cl, o+o+"a"+cl+x+cl, o+o+"a"+cl+x+"b"+cl, o+x+","+o+"b"+cl+cl}) one(ctx, s); }
}
// all trees: generated by grammar, so always well formed
static std::string tree(mc::Ctx& ctx, int depth, int width, int k) {
  int n = 1 + ctx.choose(width, "entries"); std::string s(1, OPEN[size_t(k)]);
  for (int i=0;i<n;++i) { if (i) s += ','; int c = ctx.choose(depth>1 ? 3 : 2, "kind"); s += c==2 ? tree(ctx, depth-1, width, k) : c==1 ? std::string("xyz.1") : std::string("q"); }
  return s + CLOSE[size_t(k)];
}
MC_SCENARIO(trees, "all well-formed lists of depth <=3, <=2 entries each (thorough: depth <=2 with <=4 entries also), 4 bracket kinds", 3) {
  int k = ctx.choose(4,"bracket"); one(ctx, ctx.tier() && ctx.flag("wide") ? tree(ctx, 2, 4, k) : tree(ctx, 3, 2, k));
}

// every shape of list, by number of nodes; leaves get distinct names
MC_SCENARIO(shapes, "every shape of well-formed list with up to 11 (thorough 13) nodes (lists and entries), any depth and width, distinct entry names of varying length", 4) {
  int left = (ctx.tier() ? 13 : 11) - 1, leaf = 0; std::vector<int> cnt{0}; std::string s = "[";
  while (!cnt.empty()) {
    int opt[3], n = 0; if (cnt.back() > 0) opt[n++] = 0; if (left >= 1) opt[n++] = 1; if (left >= 2) opt[n++] = 2;
    int o = opt[ctx.choose(n, "node")];
    if (o == 0) { s += ']'; cnt.pop_back(); continue; }
    if (cnt.back()++) s += ',';
    --left;
    if (o == 1) { s += std::string(1, char('a' + leaf)) + std::string(size_t(leaf % 3), char('0' + leaf % 10)); ++leaf; }
    else { s += '['; cnt.push_back(0); }
  }
  one(ctx, s);
}

MC_SCENARIO(large_lists, "lists of depth 1-130 and 1-300 entries per level around powers of two, entry names of 1-300 characters, nested first, last or in the middle, 4 bracket kinds; well formed, and with one bracket, comma or entry missing or added", 2) {
  int depth = ctx.pick(std::vector<int>{1,2,3,8,9,16,17,33,64,65,130},"depth"), width = ctx.pick(std::vector<int>{1,2,3,9,16,17,33,64,65,300},"width"), where = ctx.choose(3,"where"), k = ctx.choose(4,"bracket"); if (long(depth)*depth*width > 60000) return;
  int len = 1 + (depth*7+width*3)%(width<4 ? 300 : 9); std::string s, o(1,OPEN[size_t(k)]), c(1,CLOSE[size_t(k)]);
  for (int d=0;d<depth;++d) { std::string n = o; int at = where==0 ? 0 : where==1 ? width-1 : width/2; for (int i=0;i<width;++i) { if (i) n += ','; if (i==at && d) n += s; else { std::string e = std::to_string(i); if (int(e.size())<len) e += std::string(size_t(len)-e.size(), char('a'+(d+i)%26)); n += e; } } s = n + c; }
  int bad = ctx.choose(7,"error"); if (bad==1) s.pop_back(); if (bad==2) s += c; if (bad==3) s = o + s; if (bad==4) s.erase(s.size()/2,1); if (bad==5) s.insert(s.size()/2,","); if (bad==6) s.insert(s.rfind(c)," ");
  one(ctx,s);
}
