#pragma once
#include "strgen.hpp"
#include "ekat_yaml.hpp"
#include <cmath>
#include <cstdio>
#include <fstream>
#include <unistd.h>
#include <variant>
#include <vector>
#include <map>
using ekat::ParameterList; using ES = ParameterList::EmptySeq;
using VI = std::vector<int>; using VD = std::vector<double>; using VC = std::vector<char>; using VS = std::vector<std::string>;
struct Empty {};
using Val = std::variant<bool,int,double,std::string,VC,VI,VD,VS,Empty>;
struct Tree { std::map<std::string,Val> p; std::map<std::string,Tree> s; };
inline std::string sv(const Val& v) { static const char* N[] = {"bool","int","double","string","bools","ints","doubles","strings","empty"}; return std::string(N[v.index()]) + " " + std::visit([](auto& x)->std::string { using T=std::decay_t<decltype(x)>; if constexpr (std::is_same_v<T,Empty>) return "[]"; else return mc::show(x); }, v); }
inline std::string fname(const char* tag) { return std::string("y_") + tag + std::to_string(getpid()) + ".yaml"; }
inline bool same_d(double a, double b, double tol) { return a==b || std::abs(a-b) <= tol*std::abs(a); }
// what the list holds under the name
inline bool fetch(const ParameterList& l, const std::string& n, Val& v) {
  if (l.isType<bool>(n)) v = l.get<bool>(n); else if (l.isType<int>(n)) v = l.get<int>(n); else if (l.isType<double>(n)) v = l.get<double>(n);
  else if (l.isType<std::string>(n)) v = l.get<std::string>(n); else if (l.isType<VC>(n)) v = l.get<VC>(n); else if (l.isType<VI>(n)) v = l.get<VI>(n);
  else if (l.isType<VD>(n)) v = l.get<VD>(n); else if (l.isType<VS>(n)) v = l.get<VS>(n); else if (l.isType<ES>(n)) v = Empty{}; else return false;
  return true;
}
inline bool same(const Val& a, const Val& b, double tol) {
  if (a.index() != b.index()) return false;
  if (auto x = std::get_if<double>(&a)) return same_d(*x, std::get<double>(b), tol);
  if (auto x = std::get_if<VD>(&a)) { auto& y = std::get<VD>(b); if (x->size()!=y.size()) return false; for (size_t i=0;i<y.size();++i) if (!same_d((*x)[i],y[i],tol)) return false; return true; }
  return std::visit([&](auto& x) { using T=std::decay_t<decltype(x)>; if constexpr (std::is_same_v<T,Empty>) return true; else return x==std::get<T>(b); }, a);
}
inline void compare(mc::Ctx& ctx, const ParameterList& l, const Tree& t, const std::string& w, double tol) {
  auto pn = l.param_names(), sn = l.sublist_names(); std::sort(pn.begin(),pn.end()); std::sort(sn.begin(),sn.end());
  VS ep, es; for (auto& kv : t.p) ep.push_back(kv.first); for (auto& kv : t.s) es.push_back(kv.first);
  MC_CHECK(ctx, pn==ep, "params", w << "parameters are " << mc::show(pn) << ", expected " << mc::show(ep));
  MC_CHECK(ctx, sn==es, "sublists", w << "sublists are " << mc::show(sn) << ", expected " << mc::show(es));
  for (auto& kv : t.p) { Val v; bool ok = fetch(l, kv.first, v); MC_CHECK(ctx, ok, "type", w << mc::show(kv.first) << " has none of the documented types");
    MC_CHECK(ctx, same(kv.second, v, tol), v.index()==kv.second.index() ? "value" : "type", w << mc::show(kv.first) << " is " << sv(v) << ", expected " << sv(kv.second)); }
  for (auto& kv : t.s) compare(ctx, l.sublist(kv.first), kv.second, w + mc::show(kv.first) + " > ", tol);
}
inline void put(const std::string& f, const std::string& text) { FILE* o = fopen(f.c_str(),"w"); fwrite(text.data(),1,text.size(),o); fclose(o); }
