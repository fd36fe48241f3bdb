// Programs of checks, guards (destructor bodies), try/catch and throws, run for real and by a model.
#include "../mc/mc.hpp"
#include "ekat_assert.hpp"
#include <memory>
#ifdef NDEBUG
static const bool DBG = false;
#else
static const bool DBG = true;
#endif
struct WithMsg { std::string m; explicit WithMsg(const std::string& s) : m(s) {} };
struct NoMsg { int x = 1; };
struct IntOnly { int x; explicit IntOnly(int i) : x(i) {} };
struct Plain { int x = 7; };
struct Derived : std::invalid_argument { using std::invalid_argument::invalid_argument; };
static const int NF = 11;
enum Et { RT, LOGIC, WM, NM, DER, PLAIN };
struct Form { Et e; bool dbg_only, has_msg; const char* name; };
static const Form F[NF] = {{RT,false,false,"EKAT_REQUIRE(c)"},{RT,false,true,"EKAT_REQUIRE(c,m)"},{RT,false,true,"EKAT_REQUIRE(c,m,runtime_error)"},{LOGIC,false,true,"EKAT_REQUIRE(c,m,logic_error)"},{WM,false,true,"EKAT_REQUIRE(c,m,custom)"},{NM,false,true,"EKAT_REQUIRE(c,m,default-constructible)"},{RT,false,true,"EKAT_REQUIRE(c,m,neither)"},{DER,false,true,"EKAT_REQUIRE(c,m,derived)"},{RT,false,true,"EKAT_REQUIRE_MSG"},{RT,true,false,"EKAT_ASSERT"},{RT,true,true,"EKAT_ASSERT_MSG"}};
struct Node { int kind; int form=0; bool cond=false; std::vector<Node> a, b; }; // kinds: 0 check, 1 guard(dtor a) then b, 2 try a catch b, 3 throw, 4 ERROR_MSG
static std::vector<Node> body(mc::Ctx& ctx, int depth, int& budget, bool small) {
  std::vector<Node> v; int n = 0;
  while (budget > 0 && n < 3) {
    int k = ctx.choose(depth ? 6 : 4,"node"); if (k==0) break; --budget; ++n; Node x{0};
    if (k==1) { x.kind=0; static const int S[4]={1,3,9,5}; x.form = small ? S[ctx.choose(2)] : ctx.choose(NF,"form"); x.cond = false; }
    else if (k==2) { x.kind=3; }
    else if (k==3) { if (small) { x.kind=4; } else { x.kind=0; x.form=ctx.choose(NF,"form"); x.cond=true; } }
    else if (k==4) { x.kind=1; x.a=body(ctx,depth-1,budget,small); }
    else { x.kind=2; x.a=body(ctx,depth-1,budget,small); x.b=body(ctx,depth-1,budget,small); }
    v.push_back(x);
  }
  return v;
}
// ---- trace
struct Ev { std::string s; bool operator==(const Ev& o) const { return s==o.s; } };
static std::vector<std::string> tr; static int conds, msgs, serial;
static bool cond(bool c) { ++conds; return c; }
static std::string msg(int id) { ++msgs; return "<message " + std::to_string(id) + ">"; }
static bool tell(const std::string& w, int id, bool has_msg, const char* condtext) { return (!has_msg || w.find("<message " + std::to_string(id) + ">")!=std::string::npos) && w.find(condtext)!=std::string::npos; }
static void do_check(int form, bool c, int id) {
  switch (form) {
    case 0: EKAT_REQUIRE(cond(c)); break; case 1: EKAT_REQUIRE(cond(c), "x" << msg(id) << 5); break; case 2: EKAT_REQUIRE(cond(c), msg(id), std::runtime_error); break;
    case 3: EKAT_REQUIRE(cond(c), msg(id), std::logic_error); break; case 4: EKAT_REQUIRE(cond(c), msg(id), WithMsg); break; case 5: EKAT_REQUIRE(cond(c), msg(id), NoMsg); break;
    case 6: EKAT_REQUIRE(cond(c), msg(id), IntOnly); break; case 7: EKAT_REQUIRE(cond(c), msg(id), Derived); break; case 8: EKAT_REQUIRE_MSG(cond(c), "text " + msg(id) << 1); break;
    case 9: EKAT_ASSERT(cond(c)); break; case 10: EKAT_ASSERT_MSG(cond(c), msg(id) << "y"); break;
  }
}
static std::ostringstream err;
struct Guard { const std::vector<Node>* b; ~Guard() noexcept(false); };
static void run(const std::vector<Node>& v, size_t i = 0);
Guard::~Guard() noexcept(false) { tr.push_back("dtor"); run(*b); tr.push_back("dtor-end"); }
static std::string classify() { // the type, the id of the check whose message the text carries, and whether it shows the condition
  auto t = [&](const char* n, const std::string& w) { std::string id = "none"; for (std::string k : {"<message ","bad "}) { auto p = w.find(k); if (p!=std::string::npos) { p += k.size(); id.clear(); while (p<w.size() && isdigit(w[p])) id += w[p++]; break; } }
    bool c = w.find("cond(c)")!=std::string::npos || (w.find("bad ")!=std::string::npos && w.find("false")!=std::string::npos); return std::string("caught ") + n + " message " + id + (c ? "" : " WITHOUT CONDITION: " + w); };
  try { throw; } catch (const Plain&) { return "caught plain"; } catch (const Derived& e) { return t("derived",e.what()); } catch (const WithMsg& e) { return t("custom",e.m); } catch (const NoMsg&) { return "caught nomsg"; } catch (const IntOnly&) { return "caught intonly"; }
  catch (const std::runtime_error& e) { return t("runtime",e.what()); } catch (const std::logic_error& e) { return t("logic",e.what()); } catch (...) { return "caught unknown"; }
}
static void run(const std::vector<Node>& v, size_t i) {
  for (; i<v.size(); ++i) { auto& x = v[i]; int id = ++serial; size_t e0 = err.str().size();
    switch (x.kind) {
      case 0: { int c0=conds, m0=msgs; bool live = !F[x.form].dbg_only || DBG; struct Fin { int c0,m0; bool live, fails, has; ~Fin() { tr.push_back("evaluated cond " + std::to_string(conds-c0) + " msg " + std::to_string(has ? msgs-m0 : 0)); } } fin{c0,m0,live,!x.cond,F[x.form].has_msg}; do_check(x.form,x.cond,id);
        std::string d = err.str().substr(e0); tr.push_back("pass " + std::to_string(id)); tr.push_back(d.empty() ? "quiet" : tell(d,id,F[x.form].has_msg,"") ? "reported" : "garbled"); break; }
      case 1: { Guard g{&x.a}; tr.push_back("guard"); run(v,i+1); return; }
      case 2: { bool caught=false; try { tr.push_back("try"); run(x.a); } catch (...) { caught=true; tr.push_back(classify()); run(x.b); } if (!caught) tr.push_back("no exception"); break; }
      case 3: throw Plain();
      case 4: { EKAT_ERROR_MSG("bad " << id); std::string d = err.str().substr(e0); tr.push_back("pass " + std::to_string(id)); tr.push_back(d.empty() ? "quiet" : d.find("bad " + std::to_string(id))!=std::string::npos ? "reported" : "garbled"); break; }
    } }
}
// ---- model: returns "" or the exception in flight
struct Model {
  std::vector<std::string> tr; int serial=0, flying=0; bool warned=false; bool warn_known=true; bool terminate=false;
  std::string en(Et e, bool hm, int id) { std::string m = " message " + (hm ? std::to_string(id) : std::string("none")); switch (e) { case RT: return "caught runtime"+m; case LOGIC: return "caught logic"+m; case WM: return "caught custom"+m; case NM: return "caught nomsg"; case DER: return "caught derived"+m; default: return "caught plain"; } }
  // a failing check: "" if suppressed
  bool fails(std::string& rep) { if (flying>0) { rep = !warn_known ? "*" : warned ? "quiet" : "reported"; warned=true; return false; } warned=false; warn_known=true; return true; }
  std::string run(const std::vector<Node>& v, size_t i=0) {
    for (; i<v.size(); ++i) { auto& x=v[i]; int id=++serial;
      switch (x.kind) {
        case 0: { bool live = !F[x.form].dbg_only || DBG; bool hm=F[x.form].has_msg; std::string rep="quiet"; bool th=false; if (live && !x.cond) th=fails(rep);
          std::string ev = "evaluated cond " + std::to_string(live) + " msg " + std::to_string(live && !x.cond && hm);
          if (th) { tr.push_back(ev); return en(F[x.form].e,hm,id); } tr.push_back("pass " + std::to_string(id)); tr.push_back(rep); tr.push_back(ev); break; }
        case 1: { tr.push_back("guard"); auto e = run(v,i+1); if (terminate) return e; bool f=!e.empty(); flying += f; tr.push_back("dtor"); auto e2 = run(x.a); if (terminate) return e2; flying -= f; if (!e2.empty() && f) { terminate=true; return e2; } if (!e2.empty()) return e2; tr.push_back("dtor-end"); return e; }
        case 2: { tr.push_back("try"); int fl=flying; auto e = run(x.a); if (terminate) return e; (void)fl; if (e.empty()) tr.push_back("no exception"); else { tr.push_back(e); auto e2=run(x.b); if (terminate||!e2.empty()) return e2; } break; }
        case 3: if (warned) warn_known=false; return "caught plain";
        case 4: { std::string rep; if (fails(rep)) return en(RT,true,id); tr.push_back("pass " + std::to_string(id)); tr.push_back(rep); break; }
      } }
    return "";
  }
};
static void program(mc::Ctx& ctx, const std::vector<Node>& p) {
  Model m; auto e = m.run(p); if (m.terminate) { ctx.outcome("terminates by the language rules"); return; } m.tr.push_back(e.empty() ? "end" : e);
  tr.clear(); serial=0; conds=msgs=0; err.str(""); auto* old = std::cerr.rdbuf(err.rdbuf()); ekat::unwind_warning_issued=false;
  try { run(p); tr.push_back("end"); } catch (...) { tr.push_back(classify()); } std::cerr.rdbuf(old);
  std::string a, b; for (auto& s : tr) a += s + "; "; for (auto& s : m.tr) b += s + "; "; MC_LOG(ctx, a);
  bool ok = tr.size()==m.tr.size(); for (size_t i=0; ok && i<tr.size(); ++i) ok = m.tr[i]=="*" || tr[i]==m.tr[i];
  MC_CHECK(ctx, ok, "trace", "observed: " << a << " expected: " << b); ctx.outcome(a); ctx.transition(tr.size());
}
MC_SCENARIO(forms, "all programs of <=3 nodes (11 macro forms with true/false condition, plain throw, guard whose destructor runs checks, try/catch), nesting <=2", 3) { int budget = 3; program(ctx, body(ctx,2,budget,false)); }
MC_SCENARIO(nesting, "all programs of <=6 (thorough 7) nodes over 2 macro forms, ERROR_MSG, plain throw, guard, try/catch, nesting <=4", 5) { int budget = ctx.tier()?7:6; program(ctx, body(ctx,4,budget,true)); }
