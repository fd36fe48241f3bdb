#include "yaml_common.hpp"
#include <algorithm>
#include <climits>
#include <cfloat>
using mc::show;
static void fill(ParameterList& l, const Tree& t) {
  for (auto& kv : t.p) std::visit([&](auto& x) { using T=std::decay_t<decltype(x)>; if constexpr (std::is_same_v<T,Empty>) l.set(kv.first,ES()); else l.set(kv.first,x); }, kv.second);
  for (auto& kv : t.s) fill(l.sublist(kv.first), kv.second);
}
static void norm(Tree& t) {
  for (auto& kv : t.p) { bool e = std::visit([](auto& x) { using T=std::decay_t<decltype(x)>; if constexpr (std::is_same_v<T,VI>||std::is_same_v<T,VC>||std::is_same_v<T,VD>||std::is_same_v<T,VS>) return x.empty(); else return false; }, kv.second); if (e) kv.second = Empty{}; }
  for (auto& kv : t.s) norm(kv.second);
}
static void show_tree(const Tree& t, std::string& o) { o += "{"; for (auto& kv : t.p) o += show(kv.first) + "=" + sv(kv.second) + " "; for (auto& kv : t.s) { o += show(kv.first); show_tree(kv.second,o); } o += "}"; }
static void roundtrip(mc::Ctx& ctx, Tree t) {
  ParameterList l("out"); fill(l,t); auto f = fname("w"); std::string w; show_tree(t,w); MC_LOG(ctx, w);
  bool thr=false; try { ekat::write_yaml_file(f,l); } catch (const std::exception& e) { thr=true; MC_LOG(ctx, e.what()); }
  MC_CHECK(ctx, !thr, "write-rejected", "writing " << w << " was rejected");
  ParameterList r("in"); std::string err; try { ekat::parse_yaml_file(f,r); } catch (const std::exception& e) { thr=true; err=e.what(); }
  std::ifstream is(f); std::stringstream ss; ss << is.rdbuf(); MC_LOG(ctx, show(ss.str()));
  MC_CHECK(ctx, !thr, "unreadable", "the file written for " << w << " cannot be read: " << show(ss.str()) << ": " << err);
  norm(t); compare(ctx, r, t, "wrote " + w + " as " + show(ss.str()) + ": ", 6e-14); ctx.outcome(ss.str());
}
static Tree place(mc::Ctx& ctx, const Val& v, const std::string& key = "k") { // at top level or nested, first or last
  Tree t; int c = ctx.choose(3,"place"); if (c==0) t.p[key]=v; else if (c==1) { t.p[key]=v; t.p["z"]=5; t.s["q"].p["y"]=true; } else { t.s["s"].s["t"].p[key]=v; t.s["s"].s["t"].p["zz"]=1.5; }
  return t;
}
static const std::vector<int> INTS = {0,1,-1,7,10,100,-100,INT_MAX,INT_MIN,1000000,-999};
MC_SCENARIO(ints, "11 ints over all magnitudes, alone and in vectors of <=3", 2) { int n = ctx.choose(4,"n"); if (n==0) { roundtrip(ctx,place(ctx,ctx.pick(INTS))); return; } VI v; for (int i=0;i<n;++i) v.push_back(ctx.pick(INTS)); roundtrip(ctx,place(ctx,v)); }
MC_SCENARIO(bools, "both bools, alone and in vectors (of char) of <=4, empty placeholders and empty vectors of each type") { int n = ctx.choose(7,"n"); if (n==0) roundtrip(ctx,place(ctx,ctx.flag())); else if (n<5) { VC v; for (int i=0;i<n;++i) v.push_back(ctx.flag()); roundtrip(ctx,place(ctx,v)); } else { std::vector<Val> e = {Empty{},VI{},VC{},VD{},VS{}}; roundtrip(ctx,place(ctx,e[size_t(ctx.choose(5))])); } }
static const std::vector<double> MANT = {1,1.5,2,5,9,9.99,1.25,1.01,1.2345678901234,1.23456789012345678,3.3333333333333333,9.9999999999999,9.99999999999999999,1.00000000000001,1.1111111};
static double dbl(int m, int e, bool neg) { char b[64]; snprintf(b,64,"%.17ge%d",MANT[size_t(m)],e); double d = strtod(b,nullptr); return neg ? -d : d; }
MC_SCENARIO(doubles, "15 mantissas x all exponents -323..308 x both signs: every decimal magnitude a double has", 2) { int e = ctx.choose(632,"exponent")-323; int m = ctx.choose(int(MANT.size()),"mantissa"); double d = dbl(m,e,ctx.flag()); if (std::isinf(d)) return; Tree t; t.p["k"]=d; roundtrip(ctx,t); }
MC_SCENARIO(doubles_seq, "zeros, extremes and doubles of 12 magnitudes alone, and in vectors of <=3 of them", 2) {
  static const std::vector<double> D = {0.0,-0.0,DBL_MAX,-DBL_MAX,DBL_MIN,5e-324,1.0,-2.5,1e10,1e14,12345678901234.0,123456789012345.0,1e20,1e-10,1.5e-5,1e100,100000,2147483648.0,0.1};
  int n = ctx.choose(4,"n"); if (n==0) { roundtrip(ctx,place(ctx,ctx.pick(D))); return; } VD v; for (int i=0;i<n;++i) v.push_back(ctx.pick(D)); Tree t; t.p["k"]=v; roundtrip(ctx,t);
}
MC_SCENARIO(strings, "all strings of length <=2 (thorough 3) over 36 printable characters, newline and tab, at three places", 2) { roundtrip(ctx,place(ctx,gen(ctx,"aT0 5.-+e:#'\"[]{},&*!|>%@`?=~\\/_<()\n\t",ctx.tier()?3:2))); }
MC_SCENARIO(strings_layout, "all strings of length <=6 (thorough 7) over {a, blank, newline, #, :, -}: layout and multi-line texts", 3) { Tree t; t.p["k"]=gen(ctx,"a \n#:-",ctx.tier()?7:6); roundtrip(ctx,t); }
MC_SCENARIO(strings_nested, "all strings of length <=4 over {a, blank, newline, #} followed by other entries and nested", 3) { roundtrip(ctx,place(ctx,gen(ctx,"a \n#",4))); }
MC_SCENARIO(strings_numeric, "all strings of length <=5 over {0,5,-,+,.,e}: text that looks like numbers", 3) { Tree t; t.p["k"]=gen(ctx,"05-+.e",5); roundtrip(ctx,t); }
static const VS W = {"true","False","TRUE","null","~","Null","yes","no","on","nan",".inf","inf","2147483648","99999999999999999999","1e5","1e999","--5","0x1F","007","!!int 5","!!str x","a: b","a #b","- x","? x","[a]","{a}","","   ","a, b","*x","&x","<<","=","...","---","%YAML","line one\nline two\n","line one\nline two","\nlead","  indented\nx\n","end\n\n","tab\tx\n","a very long line that is certainly longer than eighty characters, so that an emitter might want to fold it somewhere","\xc3\xa9t\xc3\xa9"};
MC_SCENARIO(words, "45 tricky strings alone at three places, and all vectors of 1..3 of them (thorough: 3; quick: 2)", 3) { int n = ctx.choose(ctx.tier()?4:3,"n"); if (n==0) { roundtrip(ctx,place(ctx,ctx.pick(W))); return; } VS v; for (int i=0;i<n;++i) v.push_back(ctx.pick(W)); Tree t; t.p["k"]=v; roundtrip(ctx,t); }
MC_SCENARIO(seq_strings, "vectors of <=3 strings of length <=2 over {5,a,-,comma,blank,quote,newline,e}", 3) { int n = 1+ctx.choose(2,"n"); VS v; for (int i=0;i<n;++i) v.push_back(gen(ctx,"5a-, \"\n",2)); Tree t; t.p["k"]=v; t.p["l"]=1; roundtrip(ctx,t); }
MC_SCENARIO(long_seq, "vectors of every type of every length 1-60 and up to 513 (both the inline and the block layout), at three places", 2) {
  int n = mc::size(ctx,1,60,"n"), ty = ctx.choose(5,"type"); Val v; if (ty==0) { VI x; for (int i=0;i<n;++i) x.push_back(i*37-5); v=x; } else if (ty==1) { VD x; for (int i=0;i<n;++i) x.push_back(i*1e3*(i%3)+0.5); v=x; } else if (ty==2) { VC x; for (int i=0;i<n;++i) x.push_back(i%3==0); v=x; } else { VS x; for (int i=0;i<n;++i) x.push_back(ty==3 ? std::to_string(i) : "w" + std::to_string(i)); v=x; }
  roundtrip(ctx,place(ctx,v));
}
MC_SCENARIO(names, "all parameter and sublist names of length 1..2 over 30 characters plus 45 tricky words", 2) {
  std::string k = ctx.flag("word") ? ctx.pick(W) : gen(ctx,"aT0 5.-+:#'\"[]{},&*!|>%@`?=~\\",2,"name",1); if (k.empty()) return;
  Tree t; int c = ctx.choose(3,"as"); if (c==0) { t.p[k]=1; t.p["zz"]=true; } else if (c==1) { t.s[k].p["x"]=2; } else { t.s["zz"].s[k]; t.s["zz"].p[k+"p"]=std::string("v"); } roundtrip(ctx,t);
}
static void tree(mc::Ctx& ctx, Tree& t, int depth, int& budget) {
  static const std::vector<Val> V = {1,true,2.5,std::string("5"),std::string("two\nlines\n"),VI{1,2},VS{"a","true"},Empty{}};
  for (auto k : {"a","b"}) { if (!budget) return; int c = ctx.choose(int(V.size())+(depth?2:1),"entry"); if (!c) continue; --budget; if (c==int(V.size())+1) tree(ctx,t.s[k],depth-1,budget); else t.p[k]=V[size_t(c-1)]; }
}
MC_SCENARIO(trees, "all lists with two names per level, nesting <=3, <=5 (thorough 6) entries in all, 8 values", 3) { Tree t; int budget = ctx.tier()?6:5; tree(ctx,t,3,budget); roundtrip(ctx,t); }
struct Odd {};
MC_SCENARIO(rejected, "unsupported types (float, long, unsigned, vector<bool>, vector<float>, a struct) at top level and nested, and a path that cannot be opened: error") {
  ParameterList l("x"); l.set("ok",1); auto& d = ctx.flag("nested") ? l.sublist("s").sublist("t") : l; std::string f = fname("u");
  switch (ctx.choose(7,"kind")) { case 0: d.set("k",1.5f); break; case 1: d.set("k",1L); break; case 2: d.set("k",1u); break; case 3: d.set("k",std::vector<bool>{true}); break; case 4: d.set("k",std::vector<float>{1}); break; case 5: d.set("k",Odd()); break; case 6: f = "no/such/dir/x.yaml"; break; }
  bool thr=false; try { ekat::write_yaml_file(f,l); } catch (const std::exception&) { thr=true; } MC_CHECK(ctx, thr, "bad-accepted", "an unsupported list or path was written without error");
}
MC_SCENARIO(large_lists, "lists of 0-65 parameters of 8 types and 0-65 sublists, in chains of 0-15 levels that end or not in an empty list, with or without entries at each level", 2) {
  static const int N[] = {0,1,2,8,9,16,17,33,65}; int np = N[ctx.choose(9,"parameters")], ns = N[ctx.choose(9,"sublists")], depth = ctx.choose(16,"depth"); bool deep = ctx.flag("entries at each level");
  static const std::vector<Val> V = {1,true,2.5,std::string("5"),std::string("two\nlines\n"),VI{1,2},VS{"a","true"},Empty{}};
  Tree t; for (int i=0;i<np;++i) t.p["p"+std::to_string(i*7%67)] = V[size_t(i)%8]; for (int i=0;i<ns;++i) { auto& s = t.s["s"+std::to_string(i*5%67)]; if (i%3) s.p["x"]=V[size_t(i+1)%8]; if (i%4==2) s.s["e"]; }
  Tree* x=&t; for (int d=0;d<depth;++d) { x=&x->s["d"+std::to_string(d)]; if (deep) { x->p["a"]=V[size_t(d)%8]; x->p["zz"]=d; if (d%2) x->s["a"].p["q"]=d*0.5; } }
  roundtrip(ctx,t);
}
MC_SCENARIO(long_strings, "strings of 30-3000 characters around powers of two: words, one word, words with a special character every 7th or near the end, several lines; alone at three places and in vectors", 2) {
  int n = ctx.pick(std::vector<int>{30,31,63,64,65,78,79,80,81,82,100,127,128,129,255,256,257,1000,1023,1024,1025,3000},"n"), kind = ctx.choose(9,"kind"); static const char SP[] = "#:,'\"\n{\t\\"; std::string s;
  for (int i=0;i<n;++i) s += kind==0 ? char('a'+i%26) : kind==1 ? (i%6==5 ? ' ' : 'w') : kind==2 ? (i%50==49 ? '\n' : i%6==5 ? ' ' : 'x') : kind==3 ? char('0'+i%10) : kind==4 ? (i%9==3 ? ' ' : SP[i/9%9]) : kind==5 ? (i==n-2 ? ':' : i==n-1 ? ' ' : 'k') : kind==6 ? (i==0||i==n-1 ? ' ' : 'b') : kind==7 ? (i%7==6 ? SP[i/7%9] : 'c') : (i==n-1 ? '\n' : i%10==9 ? ' ' : 'd');
  int m = ctx.choose(3,"vector"); if (m==0) roundtrip(ctx,place(ctx,s)); else { VS v(size_t(m*3),"short"); v[size_t(m)]=s; v.push_back(s); roundtrip(ctx,place(ctx,v)); }
}
MC_SCENARIO(long_names, "parameter and sublist names of 30-1100 characters, of 4 kinds", 2) {
  int n = ctx.pick(std::vector<int>{30,63,64,65,79,80,81,100,119,120,121,126,127,128,129,130,255,256,257,1000,1023,1024,1025,1100},"n"), kind = ctx.choose(4,"kind"); std::string s; for (int i=0;i<n;++i) s += kind==0 ? char('a'+i%26) : kind==1 ? (i%6==5 ? ' ' : 'w') : kind==2 ? (i%8==5 ? ':' : 'w') : (i==n/2 ? '\'' : 'q');
  Tree t; int c = ctx.choose(3,"as"); if (c!=1) t.p[s]=1; if (c!=0) { t.s[s+"s"].p["x"]=2; t.s[s+"s"].s[s].p["y"]=VI{1,2}; } t.p["z"]=true; roundtrip(ctx,t);
}
