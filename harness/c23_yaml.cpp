#include "yaml_common.hpp"
#include <algorithm>
#include <climits>
using mc::show;
// ---- reference classification of a plain scalar's text
static bool digits(const std::string& s, size_t a, size_t b) { if (a>=b) return false; for (; a<b; ++a) if (s[a]<'0'||s[a]>'9') return false; return true; }
static bool is_b(const std::string& s) { std::string t; for (char c : s) t += char(c>='A'&&c<='Z' ? c+32 : c); return t=="true"||t=="false"; }
static bool b_val(const std::string& s) { return s.size()==4; }
static bool is_i(const std::string& s) { size_t a = !s.empty()&&s[0]=='-'; if (!digits(s,a,s.size())) return false; double v = strtod(s.c_str(),nullptr); return v<=INT_MAX && v>=INT_MIN; }
static bool is_plus_i(const std::string& s) { return s.size()>1 && s[0]=='+' && is_i(s.substr(1)) && s[1]!='-'; }
static bool is_d(const std::string& s) {
  size_t i=0; if (i<s.size() && (s[i]=='-'||s[i]=='+')) ++i;
  size_t d=0; while (i<s.size()&&isdigit(static_cast<unsigned char>(s[i]))) ++i,++d; if (i<s.size()&&s[i]=='.') { ++i; while (i<s.size()&&isdigit(static_cast<unsigned char>(s[i]))) ++i,++d; }
  if (!d) return false; if (i==s.size()) return true; if (s[i]!='e'&&s[i]!='E') return false; ++i; if (i<s.size()&&(s[i]=='-'||s[i]=='+')) ++i; return digits(s,i,s.size());
}
static bool unspecified(const std::string& s) { // not covered by the documentation: any of double and string
  std::string t; for (char c : s) t += char(tolower(c)); while (!t.empty() && (t[0]=='+'||t[0]=='-'||t[0]=='.')) t.erase(0,1);
  return t=="nan"||t=="inf"||t=="infinity"||(is_d(s) && std::isinf(strtod(s.c_str(),nullptr))) || t.rfind("0x",0)==0;
}
static Val classify(const std::string& s) { if (is_b(s)) return b_val(s); if (is_i(s)) return int(strtol(s.c_str(),nullptr,10)); if (is_d(s)) return strtod(s.c_str(),nullptr); return s; }

static void one(mc::Ctx& ctx, const std::string& body, const std::string& text, bool throws, const Val& expect, bool loose = false) {
  auto f = fname("r"); put(f, body); bool thr=false; ParameterList l("root");
  try { ekat::parse_yaml_file(f, l); } catch (const std::exception& e) { thr=true; MC_LOG(ctx, "error: " << e.what()); }
  MC_LOG(ctx, show(body));
  MC_CHECK(ctx, thr==throws, thr ? "rejected" : "accepted", show(body) << (thr?" was rejected":" was accepted") << ", expected " << (throws ? "an error" : sv(expect)));
  if (thr) { ctx.outcome("error"); return; }
  Val v; MC_CHECK(ctx, l.isParameter("k") && fetch(l,"k",v), "missing", show(body) << " gave no parameter of a documented type");
  bool ok = same(expect, v, 0);
  if (!ok && is_plus_i(text)) ok = same(Val(int(strtol(text.c_str(),nullptr,10))), v, 0) || same(Val(strtod(text.c_str(),nullptr)), v, 0);
  if (!ok && loose) ok = std::holds_alternative<double>(v) || std::holds_alternative<std::string>(v);
  MC_CHECK(ctx, ok, v.index()==expect.index()?"value":"type", show(body) << " gave " << sv(v) << ", expected " << sv(expect)); ctx.outcome(sv(v));
}
MC_SCENARIO(numerals, "all plain scalars over {0,1,9,-,+,.,e,t} of length 1..5 (thorough 6) but the bare sequence dash: type and value", 3) {
  auto s = gen(ctx, "019-+.et", ctx.tier() ? 6 : 5, "text", 1); if (s=="-") return; one(ctx, "k: " + s + "\n", s, false, classify(s), unspecified(s));
}
static const VS& words() {
  static VS w; if (w.empty()) { for (std::string b : {"true","false"}) for (int m=0; m<(1<<b.size()); ++m) { auto x=b; for (size_t i=0;i<b.size();++i) if (m>>i&1) x[i]=char(toupper(x[i])); w.push_back(x); }
    for (auto x : {"tru","truee","fals","t","T","f","yes","no","Yes","on","off","nan","inf",".inf","-.inf",".nan","0x1F","1_000","1,000","12:30","1e","1e+","--5","---5","-5","5-","- 5x","-0","00","007","-007","2147483647","2147483648","-2147483648","-2147483649","4294967296","99999999999999999999","-99999999999999999999","1.0","1.","1.e3",".5","-.5","1E5","1e5","1E+5","1e-5","1e-310","-1e-310","1e-400","1.7976931348623157e308","1e999","-1e999","3.14159265358979323846","1 2","a b","true false","2012-01-01","+1","+1.5","+","1e5x","x1","e5","-e5","True.","0.0","-0.0","1d5","5%","$x","a.b","5f","0b1","0o7"}) w.push_back(x); }
  return w;
}
MC_SCENARIO(words_and_tags, "a list of 48 true/false case variants and 70 tricky words x {plain, single-quoted, double-quoted, literal block, !!str, !!int, !!float, !!bool (plain and quoted), !, !!foo, !foo}", 2) {
  auto s = words()[size_t(ctx.choose(int(words().size()),"word"))]; int st = ctx.choose(14,"style"); bool plain_ok = s!="- 5x"; Val x = s;
  auto tagged = [&](const std::string& tag, bool q, bool ok, Val v, bool loose=false) { if (!q && !plain_ok) return; one(ctx, "k: " + tag + " " + (q ? "\"" + s + "\"" : s) + "\n", "", !ok, v, loose); };
  switch (st) {
    case 0: if (plain_ok) one(ctx, "k: " + s + "\n", s, false, classify(s), unspecified(s)); break;
    case 1: one(ctx, "k: '" + s + "'\n", "", false, x); break;
    case 2: one(ctx, "k: \"" + s + "\"\n", "", false, x); break;
    case 3: one(ctx, "k: |\n  " + s + "\n", "", false, Val(s + "\n")); break;
    case 4: case 5: tagged("!!str", st==5, true, x); break;
    case 6: case 7: if (!is_plus_i(s)) tagged("!!int", st==7, is_i(s), is_i(s) ? Val(int(strtol(s.c_str(),nullptr,10))) : Val(0)); break;
    case 8: case 9: if (!unspecified(s)) tagged("!!float", st==9, is_d(s), Val(strtod(s.c_str(),nullptr))); break;
    case 10: case 11: tagged("!!bool", st==11, is_b(s), Val(is_b(s) && b_val(s))); break;
    case 12: tagged("!!foo", true, false, x); break;
    case 13: tagged("!foo", true, false, x); break;
  }
}
static void seq_case(mc::Ctx& ctx, const VS& pool, int maxn) {
  int n = ctx.choose(maxn+1,"entries"); bool block = n>0 && ctx.flag("block style"); VS e; std::vector<bool> q; bool anyq=false;
  for (int i=0;i<n;++i) { int c = ctx.choose(int(pool.size())+3,"entry"); bool quoted = c>=int(pool.size()); e.push_back(quoted ? VS{"5","true","x y"}[size_t(c)-pool.size()] : pool[size_t(c)]); q.push_back(quoted); anyq |= quoted; }
  std::string b = block ? "k:\n" : "k: ["; for (int i=0;i<n;++i) { std::string t = q[size_t(i)] ? "\"" + e[size_t(i)] + "\"" : e[size_t(i)]; b += block ? "  - " + t + "\n" : (i?", ":"") + t; } if (!block) b += "]\n";
  auto all = [&](auto f) { return !anyq && std::all_of(e.begin(),e.end(),f); };
  Val x;
  if (n==0) x = Empty{}; else if (all(is_b)) { VC v; for (auto& s : e) v.push_back(b_val(s)); x=v; } else if (all(is_i)) { VI v; for (auto& s : e) v.push_back(int(strtol(s.c_str(),nullptr,10))); x=v; }
  else if (all(is_d)) { VD v; for (auto& s : e) v.push_back(strtod(s.c_str(),nullptr)); x=v; } else x=e;
  one(ctx, b, "", false, x);
}
MC_SCENARIO(sequences, "all flow and block sequences of <=3 entries from 16 plain texts and 3 quoted ones", 3) { static const VS P = {"1","-7","0","1.5","-2e3","true","FALSE","True","tRuE","x","2147483648","--5","1e-310","007","a b","fals"}; seq_case(ctx,P,3); }
MC_SCENARIO(sequences4, "all sequences of <=5 entries from 5 plain texts and 3 quoted ones (thorough)", 4, true) { static const VS P = {"1","1.5","true","False","x"}; seq_case(ctx,P,5); }

// ---- maps
struct Gen { mc::Ctx& ctx; int budget; };
static const VS KEYS = {"a","b key","C"};
static void build(Gen& g, Tree& t, std::string& text, int indent, int depth, bool flow) {
  std::string pad(size_t(indent),' '); bool first=true;
  for (auto& k : KEYS) {
    if (!g.budget) break;
    int c = g.ctx.choose(depth ? 9 : 7,"entry"); if (c==0) continue; --g.budget;
    std::string head = flow ? (first?"":", ") + k + ": " : pad + k + ":"; first=false; text += head; auto leaf = [&](const std::string& s, Val v) { text += (flow?"":" ") + s + (flow?"":"\n"); t.p[k]=v; };
    switch (c) {
      case 1: leaf("3", 3); break; case 2: leaf("word", std::string("word")); break; case 3: leaf("[1, 2]", VI{1,2}); break; case 4: leaf("[]", Empty{}); break; case 5: leaf("'4'", std::string("4")); break;
      case 6: text += (flow?"":" ") + std::string("{}") + (flow?"":"\n"); t.s[k]; break;
      case 7: { std::string sub; build(g, t.s[k], sub, indent+2, depth-1, flow); if (flow) text += "{" + sub + "}"; else text += t.s[k].p.empty()&&t.s[k].s.empty() ? " {}\n" : "\n" + sub; break; }
      case 8: { std::string sub; build(g, t.s[k], sub, 0, depth-1, true); text += (flow?"":" ") + std::string("{") + sub + "}" + (flow?"":"\n"); break; }
    }
  }
}
MC_SCENARIO(maps, "all map documents with <=4 (thorough 5) entries in all, 3 keys per map, nesting <=3, block and flow style; reading into an empty, named or populated list", 3) {
  Gen g{ctx, ctx.tier() ? 5 : 4}; Tree t; std::string text; bool flow = ctx.flag("flow"); int form = ctx.choose(3,"form");
  build(g, t, text, 0, 2, flow); if (flow || text.empty()) text = "{" + text + "}\n"; if (form==1) text = "%YAML 1.1\n---\n" + text + "...\n";
  auto f = fname("m"); put(f, text); MC_LOG(ctx, show(text));
  ParameterList l("mine"); if (form==2) { l = ekat::parse_yaml_file(f); } else { ekat::parse_yaml_file(f, l); MC_CHECK(ctx, l.name()=="mine", "name", "list name became " << show(l.name())); }
  compare(ctx, l, t, show(text) + ": ", 0); for (auto& s : l.sublist_names()) MC_CHECK(ctx, l.sublist(s).name()==s, "sublist-name", show(s)); ctx.outcome(text);
}
MC_SCENARIO(bad_files, "a missing file, a root that is not a map, and malformed documents: error, target list unchanged") {
  static const std::vector<std::string> B = {"<missing>","","5\n","[1,2]\n","- a\n- b\n","\"text\"\n","a: [1,2\n","a: {b: 1\n","a: b: c\n","%YAML 1.1\n---\n...\n","a: [[1],[2]]\n","a: [{b: 1}]\n"};
  int i = ctx.choose(int(B.size()),"document"); auto f = fname("b"); if (i) put(f,B[size_t(i)]); else unlink(f.c_str());
  ParameterList l("x"); l.set("keep",1); bool thr=false; try { ekat::parse_yaml_file(f,l); } catch (const std::exception&) { thr=true; }
  MC_CHECK(ctx, thr, "bad-accepted", show(B[size_t(i)]) << " was accepted"); MC_CHECK(ctx, l.isParameter("keep") && l.get<int>("keep")==1 && l.param_names().size()==1, "clobbered", show(B[size_t(i)]) << ": target list was changed although parsing failed");
}
MC_SCENARIO(long_sequences, "flow and block sequences of 1-40 (thorough 100) and up to 513 entries of one type with one of another type, or a quoted one, at every place", 2) {
  static const VS P = {"true", "12", "1.5", "word"}; int n = mc::size(ctx, 1, ctx.tier() ? 100 : 40, "entries"), fill = ctx.choose(4, "type"), odd = ctx.choose(6, "odd one"), at = odd == fill ? 0 : mc::place(ctx, n, "place"); bool block = ctx.flag("block style");
  VS e; for (int i = 0; i < n; ++i) e.push_back(fill == 0 ? (i % 3 ? "true" : "False") : fill == 1 ? std::to_string(i * 37 - 50) : fill == 2 ? std::to_string(i) + ".25" : "w" + std::to_string(i)); if (odd != fill) e[size_t(at)] = odd < 4 ? P[size_t(odd)] : odd == 4 ? "2147483648" : "7"; bool q = odd == 5;
  std::string b = block ? "k:\n" : "k: ["; for (int i = 0; i < n; ++i) { std::string t = q && i == at ? "\"" + e[size_t(i)] + "\"" : e[size_t(i)]; b += block ? "  - " + t + "\n" : (i ? ", " : "") + t; } if (!block) b += "]\n";
  auto all = [&](auto f) { return !q && std::all_of(e.begin(), e.end(), f); }; Val x;
  if (all(is_b)) { VC v; for (auto& s : e) v.push_back(b_val(s)); x = v; } else if (all(is_i)) { VI v; for (auto& s : e) v.push_back(int(strtol(s.c_str(), nullptr, 10))); x = v; } else if (all(is_d)) { VD v; for (auto& s : e) v.push_back(strtod(s.c_str(), nullptr)); x = v; } else x = e;
  one(ctx, b, "", false, x);
}
MC_SCENARIO(large_documents, "maps of 1-40 and up to 129 entries per level, nested 0-12 deep; names and strings of up to 300 characters", 1) {
  int n = mc::size(ctx, 1, 40, "entries", 129), d = ctx.choose(13, "depth"), len = ctx.pick(std::vector<int>{1, 15, 16, 31, 64, 100, 127, 128, 129, 300}, "name length"); if ((n > 6 && d > 3 && len > 16) || (n > 40 && d * len > 300)) return; Tree t; std::string text;
  std::function<void(Tree&, int)> go = [&](Tree& u, int k) { std::string pad(size_t(2 * k), ' '); for (int i = 0; i < n; ++i) { std::string nm = "n" + std::to_string(i) + std::string(size_t(len), char('a' + i % 26)); std::string v(size_t(len), char('A' + i % 26)); v += " x"; text += pad + nm + ": " + (i % 3 == 0 ? std::to_string(i * 1000) : i % 3 == 1 ? v : "[1, 2.5]") + "\n"; if (i % 3 == 0) u.p[nm] = i * 1000; else if (i % 3 == 1) u.p[nm] = v; else u.p[nm] = VD{1, 2.5}; } if (k < d) { text += pad + "sub:\n"; go(u.s["sub"], k + 1); } };
  go(t, 0); auto f = fname("l"); put(f, text); auto l = ekat::parse_yaml_file(f); compare(ctx, l, t, std::to_string(n) + " entries, depth " + std::to_string(d) + ": ", 0); ctx.outcome(mc::mix(uint64_t(n), uint64_t(d * 1000 + len)));
}

MC_SCENARIO(long_numbers, "numbers of 1-60 digits, with a point at every place or none, leading zeros, a sign, an exponent of 0-4 digits: type and value, alone and in a sequence", 2) {
  static const std::vector<std::string> X = {"","e5","E-7","e+300","e-310","e0012","e0"}; int n = 1 + ctx.choose(60,"digits"), zeros = ctx.pick(std::vector<int>{0,1,5,23},"leading zeros"); auto& x = ctx.pick(X,"exponent"); bool neg = ctx.flag("sign"), seq = ctx.flag("sequence");
  for (int pt = -1; pt <= n; pt += n > 20 ? 3 : 1) {
    std::string t = neg ? "-" : ""; t += std::string(size_t(zeros),'0'); for (int i=0;i<n;++i) { if (i==pt) t += '.'; t += char('0' + (i*7+1+n)%10); } if (pt==n) t += '.'; t += x;
    if (std::isinf(strtod(t.c_str(),nullptr)) || unspecified(t)) continue; double d = strtod(t.c_str(),nullptr); if (d!=0 && std::abs(d)<1e-300) continue;
    Val v = classify(t); if (!seq) one(ctx,"k: "+t+"\n",t,false,v); else if (std::holds_alternative<int>(v)) one(ctx,"k: ["+t+", 1]\n",t,false,VI{std::get<int>(v),1}); else one(ctx,"k: ["+t+", 1]\n",t,false,VD{d,1.0});
  }
}
