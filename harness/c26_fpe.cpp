#include "strgen.hpp"
#include "ekat_fpe.hpp"
#include <algorithm>
#include <cfenv>
#include <cfloat>
#include <csetjmp>
#include <csignal>
#include <set>
static const int EX[5] = {FE_INVALID,FE_DIVBYZERO,FE_OVERFLOW,FE_UNDERFLOW,FE_INEXACT};
static const char* NM[5] = {"FE_INVALID","FE_DIVBYZERO","FE_OVERFLOW","FE_UNDERFLOW","FE_INEXACT"};
static int mask(int bits) { int m=0; for (int i=0;i<5;++i) if (bits>>i&1) m |= EX[i]; return m; }
static int bits(int m) { int b=0; for (int i=0;i<5;++i) if (m&EX[i]) b |= 1<<i; return b; }
static sigjmp_buf jb; static void onfpe(int) { siglongjmp(jb,1); }
static volatile double sink; static volatile long double lsink;
// flags (bits) that the operation raises
static int raise_op(int i, bool x87) {
  volatile double z=0, one=1, big=DBL_MAX, tiny=DBL_MIN, three=3; volatile long double lz=0, lone=1, lbig=LDBL_MAX, ltiny=LDBL_MIN, lthree=3;
  if (!x87) switch (i) { case 0: sink=z/z; break; case 1: sink=one/z; break; case 2: sink=big*big; break; case 3: sink=tiny*tiny; break; case 4: sink=one/three; break; }
  else { switch (i) { case 0: lsink=lz/lz; break; case 1: lsink=lone/lz; break; case 2: lsink=lbig*lbig; break; case 3: lsink=ltiny*ltiny; break; case 4: lsink=lone/lthree; break; } asm volatile("fwait"); }
  return 0;
}
static const int RAISES[5] = {1,2,4|16,8|16,16};
struct Clean { Clean() { fesetenv(FE_DFL_ENV); static bool once = (signal(SIGFPE,onfpe),true); (void)once; } ~Clean() { fesetenv(FE_DFL_ENV); } };
// runs f, returns whether it trapped; the environment afterwards is the one before
template <class F> static bool traps(F f) {
  fenv_t e; int en = fegetexcept(); fegetenv(&e); fesetenv(&e);
  volatile bool t=false; if (sigsetjmp(jb,1)==0) f(); else t=true;
  feclearexcept(FE_ALL_EXCEPT); fesetenv(FE_DFL_ENV); fesetenv(&e); (void)en; return t;
}
static std::set<std::string> names() { std::set<std::string> r; std::string t, s = ekat::fpe_config_string(); for (char c : s + "|") if (c=='|'||c=='\n') { auto b=t.find_first_not_of(' '); if (b!=std::string::npos) r.insert(t.substr(b,t.find_last_not_of(' ')-b+1)); t.clear(); } else t += c; return r; }
static void verify(mc::Ctx& ctx, int en, const std::string& w) {
  int got = bits(ekat::get_enabled_fpes()); 
  if (got != en) { fesetenv(FE_DFL_ENV); ctx.fail("mask", w + "enabled set (bits) is " + std::to_string(got) + ", expected " + std::to_string(en)); }
  int hw = bits(fegetexcept()); if (hw != en) { fesetenv(FE_DFL_ENV); ctx.fail("hardware-mask", w + "the enabled set in the control word is " + std::to_string(hw) + ", expected " + std::to_string(en)); }
  bool t[2][5]; for (int x=0;x<2;++x) for (int i=0;i<5;++i) t[x][i] = traps([&]{ raise_op(i,x); });
  auto nm = names(); fenv_t e; fegetenv(&e); fesetenv(FE_DFL_ENV);
  for (int x=0;x<2;++x) for (int i=0;i<5;++i) { bool ex = (RAISES[i]&en)!=0; MC_CHECK(ctx, t[x][i]==ex, "trap", w << (x?"x87 ":"") << "operation raising " << NM[i] << (t[x][i]?" trapped":" did not trap") << " with enabled bits " << en); }
  std::set<std::string> ref; for (int i=0;i<5;++i) if (en>>i&1) ref.insert(NM[i]); if (ref.empty()) ref.insert("NONE");
  MC_CHECK(ctx, nm==ref, "config-string", w << "configuration text does not name the enabled exceptions exactly"); ctx.state(uint64_t(en)); ctx.outcome(uint64_t(en));
  fesetenv(&e);
}
static int step(mc::Ctx& ctx, int op, int en, std::string& w) { // 0..31 enable, 32..63 disable, 64 all
  int m = mask(op&31); bool t; fenv_t e; std::string d = op<32 ? "enable " : op<64 ? "disable " : "disable all "; w += d + std::to_string(op&31) + "; ";
  volatile bool tr=false; if (sigsetjmp(jb,1)==0) { if (op<32) ekat::enable_fpes(m); else if (op<64) ekat::disable_fpes(m); else ekat::disable_all_fpes(); volatile double a=2; a=a*2; volatile long double b=2; b=b*2; asm volatile("fwait"); } else tr=true;
  t=tr; if (t) { fesetenv(FE_DFL_ENV); ctx.fail("spurious-trap", w + "trapped although nothing was raised after the call"); } (void)e;
  return op<32 ? en|(op&31) : op<64 ? en&~(op&31) : 0;
}
MC_SCENARIO(all_states, "every (enabled set, raised flags disjoint from it, raised by SSE or x87) x every enable/disable call over 32 masks: complete transition relation", 3) {
  Clean c; int en = ctx.choose(32,"enabled"); int raised = ctx.choose(32,"raised"); if (raised & en) return; bool x87 = ctx.flag("x87"); int op = ctx.choose(65,"op");
  feclearexcept(FE_ALL_EXCEPT); for (int i=0;i<5;++i) if ((raised>>i&1) && i<4) raise_op(i,x87); if (raised&16) raise_op(4,x87); feclearexcept(mask(en)); feenableexcept(mask(en));
  std::string w = "from enabled " + std::to_string(en) + " raised " + std::to_string(raised) + ": "; MC_LOG(ctx, w);
  int n = step(ctx, op, en, w); ctx.transition(); verify(ctx, n, w); MC_LOG(ctx, w);
}
MC_SCENARIO(histories, "all histories of 3 (thorough 4) calls over enable/disable of 9 masks, disable all, and a raise of every disabled exception", 2) {
  Clean c; static const int M[9] = {1,2,4,8,16,7,31,0,24}; int en=0; std::string w; int len = ctx.tier()?4:3;
  for (int k=0;k<len;++k) { int o = ctx.choose(20,"op"); if (o==19) { for (int i=0;i<5;++i) for (int x=0;x<2;++x) if (!(RAISES[i]&en)) raise_op(i,x); w += "raise; "; } else en = step(ctx, o<9 ? M[o] : o<18 ? 32+M[o-9] : 64, en, w); verify(ctx, en, w); ctx.transition(); }
}
