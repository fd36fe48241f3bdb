#include "units_model.hpp"
#include "ekat_units.hpp"
namespace eu = ekat::units;
using namespace um;
using ekat::RationalConstant; using ekat::ScalingFactor; using eu::Units;
namespace pf = ekat::prefixes;

struct Ent { std::string name; Units u; U m; };
static U base(int i, ll num=1, ll den=1) { U u; u.e[i] = Q(num,den); return u; }
static U scal(Q b, Q e = Q(1)) { U u; u.s = spow(S::from(b), e); u.den = double(e.d); return u; }
static U operator*(const U& a, const U& b) { return umul(a,b); }
static U operator/(const U& a, const U& b) { return umul(a,b,-1); }
static RationalConstant rc(Q q) { return RationalConstant(q.n, q.d); }

// documented values of the predefined units, written out here from the SI definitions
static const std::map<std::string,U>& symtab() {
  static std::map<std::string,U> t;
  if (t.empty()) {
    const char* b[] = {"m","s","kg","K","A","mol","cd"}; for (int i=0;i<7;++i) t[b[i]] = base(i);
    auto m=t["m"], s=t["s"], kg=t["kg"], A=t["A"];
    t["h"]=scal(3600)*s; t["day"]=scal(86400)*s; t["yr"]=scal(365*86400)*s; t["g"]=kg/scal(1000);
    t["N"]=kg*m/(s*s); t["Pa"]=t["N"]/(m*m); t["bar"]=scal(100000)*t["Pa"]; t["atm"]=scal(101325)*t["Pa"];
    t["J"]=t["N"]*m; t["W"]=t["J"]/s; t["C"]=A*s; t["V"]=t["J"]/t["C"]; t["T"]=t["N"]/(A*m); t["F"]=t["C"]/t["V"];
    t["Wb"]=t["V"]*s; t["H"]=t["Wb"]/A; t["Sv"]=t["J"]/kg; t["Hz"]=U{}/s; t["rad"]=U{}; t["sr"]=U{};
    for (auto& kv : t) kv.second.den = 1;
  }
  return t;
}
static std::vector<Ent> predefined() {
  auto& t = symtab();
  std::vector<Ent> v;
#define E(x,n) v.push_back({n, eu::x, t.at(n)})
  E(m,"m");E(s,"s");E(kg,"kg");E(K,"K");E(A,"A");E(mol,"mol");E(cd,"cd");E(h,"h");E(day,"day");E(year,"yr");E(g,"g");E(N,"N");E(Pa,"Pa");E(bar,"bar");E(atm,"atm");
  E(J,"J");E(W,"W");E(C,"C");E(V,"V");E(T,"T");E(F,"F");E(Wb,"Wb");E(H,"H");E(Sv,"Sv");E(Hz,"Hz");E(rad,"rad");E(sr,"sr");
  v.push_back({"1", eu::none, U{}});
  return v;
}
// alphabet for the laws: predefined, scaled, roots, compounds, names that hide the contents
static const std::vector<Ent>& alphabet() {
  static std::vector<Ent> v;
  if (v.empty()) {
    auto p = predefined(); std::map<std::string,int> ix; for (size_t i=0;i<p.size();++i) ix[p[i].name]=int(i);
    for (auto n : {"m","s","kg","K","A","mol","cd","N","Pa","J","h","g","1","rad"}) v.push_back(p[ix[n]]);
    auto add = [&](const char* n, const Units& u, const U& m) { v.push_back({n,u,m}); };
    auto& t = symtab();
    add("km", pf::kilo*eu::m, scal(1000)*t.at("m"));
    add("1000*m", 1000*eu::m, scal(1000)*t.at("m"));
    add("m/s", eu::m/eu::s, t.at("m")/t.at("s"));
    { U x = upow(t.at("m"),Q(1,2)); x.den = 2; add("sqrt(m)", sqrt(eu::m), x); }
    add("m^-1", pow(eu::m,-1), base(0,-1));
    { U x = base(2,2,3); x.den = 3; add("kg^(2/3)", pow(eu::kg,RationalConstant(2,3)), x); }
    add("kg/kg", eu::kg/eu::kg, U{});
    add("named", (eu::N/eu::kg).rename("acc"), t.at("N")/t.at("kg"));
    add("2^(1/2)", Units(ScalingFactor(2,RationalConstant(1,2))), scal(2,Q(1,2)));
    add("2/3", Units(ScalingFactor(RationalConstant(2,3))), scal(Q(2,3)));
  }
  return v;
}
static bool guard(const U& a, const U& b) { return (a.s.bits()*1 + b.s.bits()) * a.den * b.den <= 60; }

static std::map<std::string,U> syms() { auto t = symtab(); t["acc"] = t.at("N")/t.at("kg"); return t; }
// everything observable about a unit agrees with the model
static void agree(mc::Ctx& ctx, const Units& u, const U& m, const std::string& what, const std::map<std::string,U>* sym) {
  MC_CHECK(ctx, u.is_dimensionless()==m.dimless(), "dimensionless", what << ": is_dimensionless()=" << u.is_dimensionless() << ", exponents " << m.str());
  if (m.s.bits()*m.den <= 60) MC_CHECK(ctx, u.is_scaled()==m.scaled(), "is_scaled", what << ": is_scaled()=" << u.is_scaled() << ", scaling " << m.s.str());
  std::string si = u.get_si_string(); U r;
  try { r = read_si(si); } catch (std::exception& e) { ctx.fail("si-string-unreadable", what + ": SI string '" + si + "': " + e.what()); }
  MC_CHECK(ctx, r==m, "si-string", what << ": SI string '" << si << "' denotes " << r.str() << ", expected " << m.str());
  if (sym) {
    std::string s = u.to_string(); Reader rd; rd.sym = *sym;
    try { r = rd.parse(s); } catch (std::exception& e) { ctx.fail("to_string-unreadable", what + ": to_string '" + s + "': " + e.what()); }
    MC_CHECK(ctx, r==m, "to_string", what << ": to_string '" << s << "' denotes " << r.str() << ", expected " << m.str());
  }
  ctx.outcome(si + "|" + u.to_string());
}
static const std::vector<Q> powers = {Q(1),Q(2),Q(0),Q(-1),Q(1,2),Q(3),Q(-2),Q(2,3),Q(-3,2)};

MC_SCENARIO(predefined_units, "each predefined unit against its SI definition; all prefixes on it, both sides; rename", 1) {
  static auto P = predefined();
  auto& e = P[ctx.choose(int(P.size()),"unit")];
  static const std::vector<std::pair<ScalingFactor,int>> pre = {{pf::nano,-9},{pf::micro,-6},{pf::milli,-3},{pf::centi,-2},{pf::hecto,2},{pf::kilo,3},{pf::mega,6},{pf::giga,9}};
  auto sy = syms();
  MC_CHECK(ctx, e.u.to_string()==e.name, "name", e.name << " prints as " << e.u.to_string());
  agree(ctx, e.u, e.m, e.name, &sy);
  int k = ctx.choose(int(pre.size())+1,"prefix");
  if (k == int(pre.size())) { auto r = e.u.rename("zork"); sy["zork"]=e.m; MC_CHECK(ctx, r==e.u && !(r!=e.u), "rename-eq", e.name << " renamed differs"); MC_CHECK(ctx, r.to_string()=="zork", "rename", "got " << r.to_string()); agree(ctx, r, e.m, e.name+" renamed", &sy); return; }
  U m = umul(e.m, scal(10,Q(pre[k].second))); m.den = 1;
  bool right = ctx.flag("right");
  Units u = right ? e.u*pre[k].first : pre[k].first*e.u;
  agree(ctx, u, m, (right?"unit*prefix ":"prefix*unit ")+e.name, &sy);
  if (e.u.has_symbol()) MC_CHECK(ctx, u.to_string()==std::string(1,"numchkMG"[k])+e.name, "prefix-symbol", "10^" << pre[k].second << " times " << e.name << " prints as " << u.to_string());
}

MC_SCENARIO(laws, "all triples of 24 units x 9 powers: associativity, commutativity, inverse, powers; equality iff same exponents and scaling", 2) {
  auto& A = alphabet();
  auto& a = A[ctx.choose(int(A.size()),"u")]; auto& b = A[ctx.choose(int(A.size()),"v")];
  MC_LOG(ctx, "u=" << a.name << " v=" << b.name);
  if (guard(a.m,b.m)) {
    bool eq = a.u==b.u; MC_CHECK(ctx, eq==(a.m==b.m), "eq", a.name << (eq?" == ":" != ") << b.name); MC_CHECK(ctx, (a.u!=b.u)==!eq, "ne", a.name << " vs " << b.name);
  }
  int k = ctx.choose(int(A.size())+int(powers.size()),"w or power");
  auto sy = syms();
  std::string w = a.name + "," + b.name;
  if (k < int(A.size())) {
    auto& c = A[k]; w += "," + c.name;
    U ab = a.m*b.m; 
    if (!guard(a.m,b.m) || !guard(ab,c.m) || !guard(b.m,c.m) || !guard(b.m*c.m,a.m)) return;
    agree(ctx, a.u*b.u, ab, w+" u*v", &sy); agree(ctx, a.u/b.u, a.m/b.m, w+" u/v", &sy);
    auto l = (a.u*b.u)*c.u, r = a.u*(b.u*c.u);
    U abc = ab*c.m;
    agree(ctx, l, abc, w+" (u*v)*w", &sy); agree(ctx, r, abc, w+" u*(v*w)", &sy);
    if (guard(abc,abc)) MC_CHECK(ctx, l==r, "assoc", w);
    if (guard(ab,ab)) MC_CHECK(ctx, a.u*b.u==b.u*a.u, "commut", w);
    if (guard(ab,b.m)) { auto q = (a.u*b.u)/b.u; agree(ctx, q, a.m, w+" (u*v)/v", &sy); }
    if (guard(b.m*c.m,a.m)) agree(ctx, a.u/(b.u*c.u), a.m/(b.m*c.m), w+" u/(v*w)", &sy);
    if (guard(b.m/c.m,a.m)) agree(ctx, a.u/(b.u/c.u), a.m/(b.m/c.m), w+" u/(v/w)", &sy);
  } else {
    Q p = powers[k-int(A.size())]; w += "^" + p.str();
    U ap = upow(a.m,p); 
    if (ap.s.bits()*ap.den > 60) return;
    agree(ctx, pow(a.u,rc(p)), ap, w+" u^p", &sy);
    if (p.d==1) agree(ctx, pow(a.u,int(p.n)), ap, w+" u^int", &sy);
    if (p==Q(1,2)) agree(ctx, sqrt(a.u), ap, w+" sqrt", &sy);
    U bp = upow(b.m,p);
    if (guard(a.m,b.m) && guard(ap,bp) && (a.m*b.m).s.bits()*double(p.d)*a.m.den*b.m.den*std::abs(double(p.n)) <= 60) {
      agree(ctx, pow(a.u*b.u,rc(p)), ap*bp, w+" (u*v)^p", nullptr);
      agree(ctx, pow(a.u,rc(p))*pow(b.u,rc(p)), ap*bp, w+" u^p*v^p", nullptr);
    }
    for (auto& p2 : powers) {
      U x = upow(ap,p2); if (x.s.bits()*x.den > 60) continue;
      agree(ctx, pow(pow(a.u,rc(p)),rc(p2)), upow(a.m,p*p2), w+" (u^p)^q", nullptr);
      U y = upow(a.m,p2); if (guard(ap,y)) agree(ctx, pow(a.u,rc(p))*pow(a.u,rc(p2)), upow(a.m,p+p2), w+" u^p*u^q", nullptr);
    }
  }
}

MC_SCENARIO(exponents, "every pair of powers 0, +-1, 2, 3, +-1/2, 1/3, 2/3, 3/2, 1/6 of every two of the 7 base units, with and without the scalings 1, 10, 2^(1/2), 2^(1/3), 4^(1/2): equality, product, quotient", 2) {
  static const std::vector<Q> E = {Q(0),Q(1),Q(-1),Q(2),Q(3),Q(1,2),Q(-1,2),Q(1,3),Q(2,3),Q(3,2),Q(1,6)}; static const std::vector<std::pair<Q,Q>> F = {{Q(1),Q(1)},{Q(10),Q(1)},{Q(2),Q(1,2)},{Q(2),Q(1,3)},{Q(4),Q(1,2)}};
  static const char* nm[] = {"m","s","kg","K","A","mol","cd"}; static const std::vector<Units> B = {eu::m,eu::s,eu::kg,eu::K,eu::A,eu::mol,eu::cd};
  int i = ctx.choose(7,"unit"), j = ctx.choose(7,"other unit"), p = ctx.choose(int(E.size()),"power"), f = ctx.choose(int(F.size()),"scaling");
  auto mkU = [&](int b, Q e, int g) { Units u = pow(B[size_t(b)],rc(e)); return g ? u*ScalingFactor(rc(F[size_t(g)].first),rc(F[size_t(g)].second)) : u; };
  auto mkM = [&](int b, Q e, int g) { U m = base(b,e.n,e.d); m.den = double(e.d); return g ? umul(m,scal(F[size_t(g)].first,F[size_t(g)].second)) : m; };
  auto sy = syms(); Units u = mkU(i,E[size_t(p)],f); U m = mkM(i,E[size_t(p)],f); auto name = [&](int b, Q e, int g) { return std::string(nm[b])+"^"+e.str()+" scaling "+std::to_string(g); }; agree(ctx,u,m,name(i,E[size_t(p)],f),&sy);
  for (auto& q : E) for (int g=0; g<int(F.size()); ++g) {
    Units v = mkU(j,q,g); U n = mkM(j,q,g); std::string w = name(i,E[size_t(p)],f)+" and "+name(j,q,g); if (!guard(m,n)) continue;
    MC_CHECK(ctx, (u==v)==(m==n) && (u!=v)!=(m==n), "eq", w << ": == is " << (u==v)); agree(ctx,u*v,m*n,w+" product",nullptr); agree(ctx,u/v,m/n,w+" quotient",nullptr);
    U mn = m*n; if (!f && !g) { MC_CHECK(ctx, (u*v==u)==(mn==m), "eq", w << ": product == first"); MC_CHECK(ctx, (u*v==v)==(mn==n), "eq", w << ": product == second"); }
  }
  ctx.state(mc::hash_str(m.str()));
}
struct Hist { Units u; U m; std::map<std::string,U> sy; int fresh = 0; };
MC_SCENARIO(histories, "all sequences of 3 (thorough 4) operations from 24 (mul/div by unit or scaling or rational on either side, pow, sqrt, rename), every intermediate unit compared with the exact model", 2) {
  static const std::vector<Ent> pool = { {"m",eu::m,symtab().at("m")}, {"s",eu::s,symtab().at("s")}, {"J",eu::J,symtab().at("J")}, {"km",pf::kilo*eu::m,scal(1000)*symtab().at("m")}, {"h",eu::h,symtab().at("h")} };
  int depth = ctx.tier() ? 4 : 3;
  auto& st = pool[ctx.choose(3,"start")];
  Hist H{st.u, st.m, syms()};
  for (int step=0; step<depth; ++step) {
    if (H.u.to_string().size() > 30) { std::string n = "zz" + std::to_string(H.fresh++); H.u = H.u.rename(n); H.sy[n] = H.m; }
    int op = ctx.choose(24,"op"); std::string w = "step " + std::to_string(step) + " on " + H.u.to_string() + ": ";
    U nm; bool ok = true;
    auto apply = [&](const char* name, const U& m, bool legal, auto fn) { w += name; if (!legal) { ok = false; return; } H.u = fn(); nm = m; };
    if (op < 5) { auto& e = pool[op]; apply("*unit", H.m*e.m, guard(H.m,e.m), [&]{ return H.u*e.u; }); }
    else if (op < 10) { auto& e = pool[op-5]; apply("/unit", H.m/e.m, guard(H.m,e.m), [&]{ return H.u/e.u; }); }
    else if (op < 12) { auto& e = pool[op-10]; apply("unit/", e.m/H.m, guard(H.m,e.m), [&]{ return e.u/H.u; }); }
    else if (op < 16) { static const std::vector<Q> ps={Q(2),Q(-1),Q(2,3),Q(0)}; Q p=ps[op-12]; U r=upow(H.m,p); apply("pow", r, r.s.bits()*r.den<=60, [&]{ return pow(H.u,rc(p)); }); }
    else if (op == 16) { U r=upow(H.m,Q(1,2)); apply("sqrt", r, r.s.bits()*r.den<=60, [&]{ return sqrt(H.u); }); }
    else if (op == 17) { U k=scal(10,3); apply("kilo*", H.m*k, guard(H.m,k), [&]{ return pf::kilo*H.u; }); nm.den=H.m.den; }
    else if (op == 18) { U k=scal(10,-3); apply("*milli", H.m*k, guard(H.m,k), [&]{ return H.u*pf::milli; }); nm.den=H.m.den; }
    else if (op == 19) { U k=scal(12); apply("/12", H.m/k, guard(H.m,k), [&]{ return H.u/12; }); }
    else if (op == 20) { U k=scal(1); apply("1/", k/H.m, guard(H.m,k), [&]{ return 1/H.u; }); }
    else if (op == 21) { U k=scal(Q(5,6)); apply("5/6*", H.m*k, guard(H.m,k), [&]{ return RationalConstant(5,6)*H.u; }); }
    else if (op == 22) { U k=scal(2,Q(1,2)); apply("/sqrt2", H.m/k, guard(H.m,k), [&]{ return H.u/ScalingFactor(2,RationalConstant(1,2)); }); }
    else { std::string n = "zz" + std::to_string(H.fresh++); apply("rename", H.m, true, [&]{ return H.u.rename(n); }); H.sy[n] = H.m; }
    MC_LOG(ctx, w);
    if (!ok) return;
    H.m = nm;
    agree(ctx, H.u, H.m, w, &H.sy);
    for (auto& e : alphabet()) if (guard(H.m,e.m)) MC_CHECK(ctx, (H.u==e.u)==(H.m==e.m), "eq", w << " compared with " << e.name);
    uint64_t h = mc::hash_str(H.m.str() + H.u.to_string()); ctx.state(h);
  }
}
