#include "../mc/mc.hpp"
#include <memory>
#include "ekat_factory.hpp"
#include "ekat_string_utils.hpp"
#include <array>
struct Prod { int id = 0, arg = 0; std::string sarg; virtual ~Prod() = default; };
static std::vector<std::string> g_calls;
template <int I> static std::shared_ptr<Prod> mk(const int a, const std::string s) { g_calls.push_back(std::to_string(I)+","+std::to_string(a)+","+s); auto p = std::make_shared<Prod>(); p->id = I; p->arg = a; p->sarg = s; return p; }
template <int I> static std::unique_ptr<Prod> mk0() { auto p = std::make_unique<Prod>(); p->id = I; return p; }
using F = ekat::Factory<Prod,std::string,std::shared_ptr<Prod>,int,std::string>;
using FC = ekat::Factory<Prod,ekat::CaseInsensitiveString,std::shared_ptr<Prod>,int,std::string>;
using F0 = ekat::Factory<Prod,std::string,std::unique_ptr<Prod>>;
static std::string low(std::string s) { for (auto& c : s) c = char(tolower(c)); return s; }
template <class FT, class K, bool CI> static void run(mc::Ctx& ctx, int depth) {
  static const std::vector<std::string> keys = {"one","ONE","two",""};
  auto& f = FT::instance(); f.clean_up();
  std::map<std::string,int> m; using C = typename FT::creator_type; static const std::array<C,3> cr = {&mk<1>,&mk<2>,&mk<3>};
  auto norm = [&](const std::string& k) { return CI ? low(k) : k; };
  for (int step=0; step<depth; ++step) {
    int op = ctx.choose(29,"op"); std::string w = "step " + std::to_string(step) + ": ";
    if (op < 24) {
      auto& k = keys[size_t(op%4)]; int c = (op/4)%3; bool rep = op >= 12; bool isnew = !m.count(norm(k));
      bool def = !rep && ctx.flag("omit-flag");
      bool r = def ? f.register_product(K(k), cr[size_t(c)]) : f.register_product(K(k), cr[size_t(c)], rep);
      w += "register '" + k + "' with creator " + std::to_string(c+1) + (rep?" replacing":"") + " "; MC_LOG(ctx, w << r);
      MC_CHECK(ctx, r==(isnew||rep), "register-result", w << "returned " << r);
      if (isnew||rep) m[norm(k)] = c+1;
    } else if (op < 28) {
      auto& k = keys[size_t(op-24)]; w += "create '" + k + "' "; g_calls.clear(); auto it = m.find(norm(k)); bool thr=false;
      try { auto p = FT::instance().create(K(k), 5+step, std::string("arg")); if (it!=m.end()) MC_CHECK(ctx, p && p->id==it->second && p->arg==5+step && p->sarg=="arg", "product", w << "gave product " << p->id << " with " << p->arg << "," << p->sarg << ", expected creator " << it->second); }
      catch (const mc::Violation&) { throw; } catch (const std::exception&) { thr = true; }
      MC_LOG(ctx, w << (thr?"threw":"ok"));
      MC_CHECK(ctx, thr==(it==m.end()), thr?"create-throws":"unknown-created", w << (thr?"threw":"returned a product")); MC_CHECK(ctx, g_calls.size()==(thr?0u:1u), "creator-calls", w << g_calls.size() << " creator calls");
    } else { f.clean_up(); m.clear(); w += "clean_up"; MC_LOG(ctx, w); }
    MC_CHECK(ctx, f.register_size()==m.size(), "size", w << ": size " << f.register_size() << ", expected " << m.size());
    for (auto& k : keys) MC_CHECK(ctx, f.has_product(K(k))==(m.count(norm(k))!=0), "has_product", w << ": has_product('" << k << "')");
    // what each key creates now
    for (auto& k : keys) if (m.count(norm(k))) { auto p = f.create(K(k), 1, std::string("x")); MC_CHECK(ctx, p && p->id==m[norm(k)], "others-changed", w << ": '" << k << "' now creates " << p->id << ", expected " << m[norm(k)]); }
    std::string st; for (auto& kv : m) st += kv.first + std::to_string(kv.second) + ";"; ctx.state(mc::hash_str(st)); ctx.outcome(st);
  }
}
MC_SCENARIO(string_keys, "all sequences of 3 (thorough 4) operations: register 4 keys x 3 creators x replace flag, create each key, clean up", 2) { run<F,std::string,false>(ctx, ctx.tier()?4:3); }
MC_SCENARIO(case_insensitive_keys, "the same with case-insensitive keys", 2) { run<FC,ekat::CaseInsensitiveString,true>(ctx, ctx.tier()?4:3); }
MC_SCENARIO(factories_are_separate, "all sequences of 4 registrations/cleanups over two factory types with the same key and no-argument creators with unique_ptr", 1) {
  auto& a = F0::instance(); auto& b = F::instance(); a.clean_up(); b.clean_up(); bool ra=false, rb=false;
  for (int i=0;i<4;++i) { int op = ctx.choose(4,"op"); if (op==0) { a.register_product("k",&mk0<1>); ra=true; } if (op==1) { b.register_product("k",&mk<2>); rb=true; } if (op==2) { a.clean_up(); ra=false; } if (op==3) { b.clean_up(); rb=false; }
    MC_CHECK(ctx, a.has_product("k")==ra && b.has_product("k")==rb, "separate", "after op " << op); bool t=false; try { auto p=F0::instance().create("k"); MC_CHECK(ctx,p->id==1,"product","unique_ptr factory gave " << p->id); } catch (const mc::Violation&) { throw; } catch (const std::exception&) { t=true; } MC_CHECK(ctx, t==!ra, "create", "unique_ptr factory"); }
  ctx.outcome(uint64_t(ra)*2+rb);
}
MC_SCENARIO(many_products, "0-60 and up to 513 products registered in 3 orders, every third of them replaced, some registered twice, then all created, twice", 1) {
  int n = mc::size(ctx,0,60,"n"), order = ctx.choose(3,"order"), ci = ctx.choose(2,"case-insensitive"); static const std::array<typename F::creator_type,3> cr = {&mk<1>,&mk<2>,&mk<3>};
  auto go = [&](auto& f, auto key) { f.clean_up(); auto nm = [&](int i) { return "Product" + std::to_string(i*7%521) + std::string(size_t(i%20),'x'); };
    for (int j=0;j<n;++j) { int i = order==0 ? j : order==1 ? n-1-j : int((j*37+11)%521)%n; bool had = f.has_product(key(nm(i))); bool r = f.register_product(key(nm(i)), cr[size_t(i%3)]); MC_CHECK(ctx, r==!had, "register-result", nm(i) << " returned " << r); }
    for (int j=0;j<n;++j) if (!f.has_product(key(nm(j)))) MC_CHECK(ctx, f.register_product(key(nm(j)), cr[size_t(j%3)]), "register-result", nm(j)); 
    for (int j=0;j<n;j+=3) MC_CHECK(ctx, f.register_product(key(nm(j)), cr[size_t((j+1)%3)], true), "register-result", nm(j) << " replaced"); for (int j=1;j<n;j+=3) MC_CHECK(ctx, !f.register_product(key(nm(j)), cr[size_t((j+1)%3)]), "register-result", nm(j) << " again");
    MC_CHECK(ctx, int(f.register_size())==n, "size", f.register_size() << " products, expected " << n);
    for (int k=0;k<2;++k) for (int j=0;j<n;++j) { auto s = nm(j); if (ci) for (auto& c : s) c = char(k ? toupper(c) : tolower(c)); auto p = f.create(key(s), int(j), std::string(s)); int e = 1 + (j%3==0 ? (j+1)%3 : j%3); MC_CHECK(ctx, p && p->id==e && p->arg==j && p->sarg==s, "product", s << " gave product " << p->id << ", expected " << e); }
    bool thr=false; try { f.create(key("Product"), 1, std::string("x")); } catch (const std::exception&) { thr=true; } MC_CHECK(ctx, thr, "unknown-created", "a prefix of a registered name"); f.clean_up(); MC_CHECK(ctx, f.register_size()==0, "size", "after clean_up"); };
  if (ci) go(FC::instance(), [](const std::string& s) { return ekat::CaseInsensitiveString(s); }); else go(F::instance(), [](const std::string& s) { return s; }); ctx.outcome(mc::mix(uint64_t(n),uint64_t(order)));
}
