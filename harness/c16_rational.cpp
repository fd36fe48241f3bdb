#include "units_model.hpp"
#include "ekat_scaling_factor.hpp"
using namespace um;
using ekat::RationalConstant; using ekat::ScalingFactor;
using RC = RationalConstant;
static std::string show(const RC& r) { return std::to_string(r.num) + "/" + std::to_string(r.den); }

static void agree(mc::Ctx& ctx, const RC& r, Q q, const std::string& w) {
  MC_CHECK(ctx, r.num==q.n && r.den==q.d, "value", w << " gave " << show(r) << ", exact result " << q.str());
}
// reads "a", "a/b", with optional leading '-'
static Q read_q(const std::string& s) {
  Reader rd; U u = rd.parse(s); if (!u.dimless()) throw std::runtime_error("units?");
  Q q(u.s.sign==0?0:1); for (auto& kv : u.s.f) { if (kv.second.d!=1) throw std::runtime_error("irrational"); q = q*qpow(Q(kv.first),int(kv.second.n)); }
  return u.s.sign<0 ? -q : q;
}
static void printing(mc::Ctx& ctx, const RC& r, Q q) {
  auto one = [&](const std::string& form, const std::string& s) {
    Q x; try { x = read_q(s); } catch (std::exception& e) { ctx.fail("print-unreadable", form + " of " + q.str() + " is '" + s + "': " + e.what()); }
    MC_CHECK(ctx, x==q, "print-" + form, form << " of " << q.str() << " is '" << s << "', which denotes " << x.str());
  };
  one("to_string", r.to_string()); one("string_repr", r.string_repr<64>().data()); { std::ostringstream os; os << r; one("stream", os.str()); }
  double d = std::stod(r.to_string(ekat::Format::Float)), ex = double(q.n)/double(q.d);
  MC_CHECK(ctx, std::abs(d-ex) <= 1e-5*std::abs(ex), "print-float", "float form of " << q.str() << " is " << r.to_string(ekat::Format::Float));
  ctx.outcome(r.to_string());
}
static const std::vector<ll>& nums() { static std::vector<ll> v = {0,1,-1,2,-2,3,-3,4,-4,6,-6,5,7,9,10,-10,12,-12,99,100,-100,-1001,65537,2147483647LL,-2147483647LL,2147483648LL,-3000000000LL,12345678901LL,-98765432109LL,1000000000001LL,999999999999LL,-1000000000000000LL,1000000000000000000LL,4000000000000000000LL,-4000000000000000000LL}; return v; }

MC_SCENARIO(construct, "all num,den from 35 values incl. 0, negatives, 10^k boundaries, beyond 32 bits, up to 4e18; single argument; several integer types", 1) {
  ll n = nums()[ctx.choose(int(nums().size()),"n")]; int k = ctx.choose(int(nums().size())+1,"d");
  if (k == int(nums().size())) { agree(ctx, RC(n), Q(n), "RC(n)"); printing(ctx, RC(n), Q(n)); return; }
  ll d = nums()[k];
  std::string w = "RationalConstant(" + std::to_string(n) + "," + std::to_string(d) + ")";
  if (d == 0) { bool thr=false; try { RC r(n,d); (void)r; } catch (std::exception&) { thr=true; } MC_CHECK(ctx, thr, "div0", w << " did not throw"); ctx.outcome(1); return; }
  RC r(n,d); agree(ctx, r, Q(n,d), w); printing(ctx, r, Q(n,d));
  agree(ctx, -r, -Q(n,d), "-"+w);
  if (n>=-100 && n<=100 && d>=-100 && d<=100) { agree(ctx, RC(int(n),int(d)), Q(n,d), w+" int"); agree(ctx, RC(short(n),short(d)), Q(n,d), w+" short"); agree(ctx, RC((signed char)n,(signed char)d), Q(n,d), w+" char");
    if (n>=0&&d>0) agree(ctx, RC(unsigned(n),unsigned(d)), Q(n,d), w+" unsigned"); }
  RC c(1); c = r; agree(ctx, c, Q(n,d), "copy");
}
static std::vector<Q> smallQ(ll N, ll D) { std::vector<Q> v; for (ll d=1; d<=D; ++d) for (ll n=-N; n<=N; ++n) { Q q(n,d); if (q.d==d) v.push_back(q); } return v; }
static RC rc(Q q) { return RC(q.n,q.d); }
template <class F> static void total(mc::Ctx& ctx, const std::string& w, bool should_throw, F f) {
  bool thr = false; try { f(); } catch (const mc::Violation&) { throw; } catch (std::exception&) { thr = true; }
  MC_CHECK(ctx, thr==should_throw, should_throw ? "missing-error" : "spurious-error", w << (thr ? " threw" : " did not throw"));
}
MC_SCENARIO(arithmetic, "all pairs of rationals with |num|<=8, den<=6 (and 10 large ones): + - * / == != with rationals and integers on either side, powers -4..4", 1) {
  static std::vector<Q> v = [] { auto x = smallQ(8,6); for (auto q : {Q(1000000007),Q(-1000000007,3),Q(1,1000000007),Q(1000000),Q(-1,86400),Q(2147483648LL),Q(123456789,1000),Q(1LL<<40),Q(1LL<<60),Q(-1,1LL<<50)}) x.push_back(q); return x; }();
  Q a = v[ctx.choose(int(v.size()),"a")]; int k = ctx.choose(int(v.size())+9,"b");
  RC A = rc(a);
  if (k >= int(v.size())) {
    int p = k-int(v.size())-4; std::string w = "pow(" + a.str() + "," + std::to_string(p) + ")";
    Q e; try { if (a.n!=0) e = qpow(a,p); } catch (std::overflow_error&) { return; }
    if (a.n==0 && p>0) e = Q(0);
    total(ctx, w, a.n==0 && p<=0, [&]{ auto r = pow(A,p); agree(ctx, r, e, w); agree(ctx, pow(A,(long long)p), e, w+"LL"); });
    if (p>=0) total(ctx, w+"u", a.n==0 && p<=0, [&]{ agree(ctx, pow(A,unsigned(p)), e, w+"u"); });
    return;
  }
  Q b = v[k]; RC B = rc(b); std::string w = a.str() + "," + b.str();
  auto fits = [](i128 x) { return x < (i128(1)<<62) && x > -(i128(1)<<62); };
  if (!fits(i128(a.n)*b.n)||!fits(i128(a.n)*b.d)||!fits(i128(a.d)*b.n)||!fits(i128(a.d)*b.d)||!fits(i128(a.n)*b.d+i128(a.d)*b.n)||!fits(i128(a.n)*b.d-i128(a.d)*b.n)) return;
  agree(ctx, A+B, a+b, w+" +"); agree(ctx, A-B, a-b, w+" -"); agree(ctx, A*B, a*b, w+" *");
  total(ctx, w+" /", b.n==0, [&]{ agree(ctx, A/B, a/b, w+" /"); });
  MC_CHECK(ctx, (A==B)==(a==b) && (A!=B)==!(a==b), "eq", w << " equality wrong");
  agree(ctx, A, a, "operand"); agree(ctx, B, b, "operand");
  if (b.d==1) { ll i=b.n; agree(ctx, A+i, a+b, w+" +int"); agree(ctx, i+A, a+b, w+" int+"); agree(ctx, A-i, a-b, w+" -int"); agree(ctx, i-A, b-a, w+" int-"); agree(ctx, A*i, a*b, w+" *int"); agree(ctx, i*A, a*b, w+" int*"); if (i) agree(ctx, A/i, a/b, w+" /int"); if (a.n) agree(ctx, i/A, b/a, w+" int/"); MC_CHECK(ctx, (A==RC(i))==(a==b),"eq",w); }
  ctx.outcome((A+B).to_string()+","+(A*B).to_string());
}

// ---------------------------------------------------------------- scaling factors
struct SF { Q b, e; };
static bool legal(const SF& x) { return !(x.b.n==0 && x.e.n<=0) && !(x.b.n<0 && x.e.d%2==0); }
static S val(const SF& x) { if (x.b.n==0) { S s; s.sign=0; return s; } return spow(S::from(x.b), x.e); }
static double bits(const SF& x) { return x.b.n==0 ? 0 : S::from(x.b).bits()*std::abs(double(x.e.n)); }
static double rawbits(const SF& x) { return std::log2(double(std::max(std::abs(x.b.n),x.b.d)))*std::max<double>(1.0,std::abs(double(x.e.n))); }
static std::string str(const SF& x) { return "(" + x.b.str() + ")^(" + x.e.str() + ")"; }
static ScalingFactor mk(const SF& x) { return ScalingFactor(rc(x.b), rc(x.e)); }

static void sf_print(mc::Ctx& ctx, const ScalingFactor& s, const S& v, const std::string& w) {
  auto one = [&](const std::string& form, const std::string& t) {
    U u; try { Reader rd; u = rd.parse(t); } catch (std::exception& e) { ctx.fail("sf-print-unreadable-" + form, form + " of " + w + " is '" + t + "': " + e.what()); }
    MC_CHECK(ctx, u.s==v, "sf-print-" + form, form << " of " << w << " is '" << t << "', which denotes " << u.s.str() << ", expected " << v.str());
  };
  one("to_string", s.to_string()); one("string_repr", s.template string_repr<128>().data()); { std::ostringstream os; os << s; one("stream", os.str()); }
  ctx.outcome(s.to_string());
}
// the value of a ScalingFactor read from its members (it is a plain struct)
static S read(const ScalingFactor& s) { return val({Q(s.base.num,s.base.den), Q(s.exp.num,s.exp.den)}); }
static void sf_agree(mc::Ctx& ctx, const ScalingFactor& s, const S& v, const std::string& w, bool print=true) {
  S r = read(s);
  MC_CHECK(ctx, r==v, "sf-value", w << " gave " << r.str() << ", exact " << v.str());
  if (print) sf_print(ctx, s, v, w);
}
static const std::vector<Q>& bases() { static std::vector<Q> v = {Q(1),Q(2),Q(3),Q(4),Q(8),Q(10),Q(12),Q(100),Q(1000),Q(3600),Q(1,2),Q(2,3),Q(1,1000),Q(9,4),Q(0),Q(-1),Q(-2),Q(-8),Q(-2,3)}; return v; }
static const std::vector<Q>& exps() { static std::vector<Q> v = {Q(1),Q(0),Q(2),Q(3),Q(-1),Q(-2),Q(1,2),Q(1,3),Q(2,3),Q(-1,2),Q(-3),Q(3,2),Q(10),Q(-9),Q(-12),Q(1,4),Q(3,4),Q(-1,6),Q(5,2),Q(1,12)}; return v; }

MC_SCENARIO(scaling_one, "all base^exp from 19 bases and 20 exponents: construction errors, value, printed forms, powers and roots, equality with itself", 1) {
  SF x{bases()[ctx.choose(int(bases().size()),"base")], exps()[ctx.choose(int(exps().size()),"exp")]};
  if (x.b.n==0 && x.e.n<0) return;            // not specified
  total(ctx, str(x), !legal(x), [&]{ mk(x); });
  if (!legal(x)) { ctx.outcome(1); return; }
  auto s = mk(x); S v = val(x);
  sf_agree(ctx, s, v, str(x));
  if (x.b.n==0) return;
  if (x.e==Q(1)) { ScalingFactor t(rc(x.b)); sf_agree(ctx, t, v, "implicit " + str(x)); if (x.b.d==1) { ScalingFactor t2(x.b.n); sf_agree(ctx,t2,v,"int"); } }
  for (auto& p : exps()) {
    SF y{x.b, x.e*p}; std::string w = "pow(" + str(x) + "," + p.str() + ")";
    if (x.b.n<0 && x.e.d!=1) continue;
    if (x.b.n<0 && p.d!=1) { if (p.d%2==0 && y.e.d%2==0) total(ctx, w, true, [&]{ pow(s, rc(p)); }); continue; }
    sf_agree(ctx, pow(s, rc(p)), spow(v,p), w, std::abs(y.e.n)<40);
    if (p.d==1) sf_agree(ctx, pow(s, int(p.n)), spow(v,p), w + " int", false);
    if (p==Q(1,2)) sf_agree(ctx, sqrt(s), spow(v,p), "sqrt " + str(x));
  }
  double fv = 0; { std::string f = s.to_string(ekat::Format::Float); auto c = f.find('^'); 
    auto num = [](std::string t) { if (!t.empty() && t[0]=='(') t = t.substr(1,t.size()-2); return std::stod(t); };
    fv = c==std::string::npos ? num(f) : std::pow(num(f.substr(0,c)), num(f.substr(c+1)));
    double ex = v.value(); if (x.b.n>0) MC_CHECK(ctx, std::abs(fv-ex)<=1e-3*std::abs(ex), "sf-print-float", "float form of " << str(x) << " is '" << f << "'"); }
}
MC_SCENARIO(scaling_pairs, "all pairs of legal nonzero base^exp (positive bases with any exponent, negative bases with integer exponents): * / *= == != against exact prime factorisations", 2) {
  static std::vector<SF> all = [] { std::vector<SF> v; for (auto& b : bases()) for (auto& e : exps()) { SF x{b,e}; if (b.n==0||!legal(x)) continue; if (b.n<0 && e.d!=1) continue; if (std::abs(e.n)>3 && b!=Q(10) && b!=Q(2)) continue; v.push_back(x); } return v; }();
  SF x = all[ctx.choose(int(all.size()),"x")], y = all[ctx.choose(int(all.size()),"y")];
  // the arithmetic of the documented method must fit 62 bits
  if (rawbits(x)*double(y.e.d) + rawbits(y)*double(x.e.d) > 61) return;
  // a negative factor times an even root has no representation as base^exp
  if ((x.b.n<0 || y.b.n<0) && (x.e.d!=1 || y.e.d!=1)) return;
  auto X = mk(x), Y = mk(y); S vx = val(x), vy = val(y); std::string w = str(x) + "," + str(y);
  sf_agree(ctx, X*Y, smul(vx,vy), w+" *", false); sf_agree(ctx, X/Y, smul(vx,vy,-1), w+" /", false);
  auto Z = X; Z *= Y; sf_agree(ctx, Z, smul(vx,vy), w+" *=", false);
  MC_CHECK(ctx, (X==Y)==(vx==vy), "sf-eq", w << " equality is " << (X==Y)); MC_CHECK(ctx, (X!=Y)==!(vx==vy), "sf-ne", w);
  if (y.e==Q(1)) { RC r = rc(y.b); sf_agree(ctx, X*r, smul(vx,vy), w+" *rat", false); sf_agree(ctx, r*X, smul(vx,vy), w+" rat*", false); sf_agree(ctx, X/r, smul(vx,vy,-1), w+" /rat", false); sf_agree(ctx, r/X, smul(vy,vx,-1), w+" rat/", false);
    MC_CHECK(ctx, (X==r)==(vx==vy) && (r==X)==(vx==vy), "sf-eq", w << " with rational"); }
  auto P = X*Y; if ((rawbits(x)*double(y.e.d) + rawbits(y)*double(x.e.d))*2*double(x.e.d*y.e.d) < 60) sf_print(ctx, P, smul(vx,vy), w + " product");
  ctx.outcome(smul(vx,vy).str());
}
