// Reference model for units, scaling factors and rationals: exact, independent of the code under
// test, plus a reader for the printed forms.
#pragma once
#include "../mc/mc.hpp"
#include <cmath>
#include <map>
#include <optional>
#include <stdexcept>

namespace um {
using ll = long long;
using i128 = __int128;
struct Q {                       // exact rational
  ll n = 0, d = 1;
  Q(ll a = 0, ll b = 1) : Q(i128(a), i128(b), 0) {}
  Q(i128 a, i128 b, int) {
    if (b == 0) throw std::domain_error("x/0");
    if (b < 0) { a = -a; b = -b; }
    i128 x = a < 0 ? -a : a, y = b; while (y) { i128 t = x % y; x = y; y = t; }
    if (x > 1) { a /= x; b /= x; }
    if (a == 0) b = 1;
    const i128 lim = i128(1) << 62;
    if (a > lim || a < -lim || b > lim) throw std::overflow_error("Q");
    n = ll(a); d = ll(b);
  }
  bool operator==(const Q& o) const { return n == o.n && d == o.d; }
  bool operator!=(const Q& o) const { return !(*this == o); }
  bool operator<(const Q& o) const { return n != o.n ? n < o.n : d < o.d; }
  std::string str() const { return std::to_string(n) + "/" + std::to_string(d); }
};
inline Q operator+(Q a, Q b) { return Q(i128(a.n)*b.d + i128(b.n)*a.d, i128(a.d)*b.d, 0); }
inline Q operator-(Q a, Q b) { return Q(i128(a.n)*b.d - i128(b.n)*a.d, i128(a.d)*b.d, 0); }
inline Q operator*(Q a, Q b) { return Q(i128(a.n)*b.n, i128(a.d)*b.d, 0); }
inline Q operator/(Q a, Q b) { return Q(i128(a.n)*b.d, i128(a.d)*b.n, 0); }
inline Q operator-(Q a) { return Q(-a.n, a.d); }
inline Q qpow(Q a, int p) { Q r(1); if (p < 0) { a = Q(1)/a; p = -p; } while (p--) r = r*a; return r; }

// value of a scaling factor: sign * prod prime^exponent ; zero flagged
struct S {
  int sign = 1;
  std::map<ll, Q> f;
  bool operator==(const S& o) const { return sign == o.sign && f == o.f; }
  void mul(ll p, Q e) { auto it = f.emplace(p, Q(0)).first; it->second = it->second + e; if (it->second.n == 0) f.erase(it); }
  static S from(Q b) {
    S s; if (b.n == 0) { s.sign = 0; return s; }
    if (b.n < 0) { s.sign = -1; b.n = -b.n; }
    auto fac = [&](ll v, int sg) { for (ll p = 2; p*p <= v; ++p) while (v % p == 0) { s.mul(p, Q(sg)); v /= p; } if (v > 1) s.mul(v, Q(sg)); };
    fac(b.n, 1); fac(b.d, -1);
    return s;
  }
  double log2abs() const { double x = 0; for (auto& kv : f) x += std::log2(double(kv.first)) * double(kv.second.n) / double(kv.second.d); return x; }
  // bits of the larger of numerator and denominator
  double bits() const { double a = 0, b = 0; for (auto& kv : f) { double t = std::log2(double(kv.first)) * double(kv.second.n) / double(kv.second.d); if (t > 0) a += t; else b -= t; } return std::max(a, b); }
  double value() const { return sign * std::exp2(log2abs()); }
  std::string str() const { std::string r = sign < 0 ? "-" : sign == 0 ? "0" : ""; for (auto& kv : f) r += "[" + std::to_string(kv.first) + "^" + kv.second.str() + "]"; return r.empty() ? "1" : r; }
};
inline S smul(S a, const S& b, int dir = 1) { a.sign *= b.sign; for (auto& kv : b.f) a.mul(kv.first, dir > 0 ? kv.second : -kv.second); return a; }
inline S spow(const S& a, Q p) {
  S r; for (auto& kv : a.f) r.mul(kv.first, kv.second * p);
  if (p.n == 0) return S{};
  if (a.sign < 0) r.sign = (p.n % 2 != 0) ? -1 : 1;
  if (a.sign == 0) r.sign = 0;
  return r;
}

struct U {                       // units
  Q e[7]; S s;
  double den = 1;                // bound on the denominators of exponents used to get s (overflow guard only)
  bool operator==(const U& o) const { for (int i=0;i<7;++i) if (e[i] != o.e[i]) return false; return s == o.s; }
  bool dimless() const { for (auto& x : e) if (x.n) return false; return true; }
  bool scaled() const { return !(s == S{}); }
  std::string str() const { std::string r = s.str(); for (int i=0;i<7;++i) r += " " + e[i].str(); return r; }
};
inline U umul(const U& a, const U& b, int dir = 1) { U r; for (int i=0;i<7;++i) r.e[i] = dir>0 ? a.e[i]+b.e[i] : a.e[i]-b.e[i]; r.s = smul(a.s,b.s,dir); r.den = a.den*b.den; return r; }
inline U upow(const U& a, Q p) { U r; for (int i=0;i<7;++i) r.e[i] = a.e[i]*p; r.s = spow(a.s,p); r.den = a.den*double(p.d); return r; }

// ---- reader for printed forms: usual precedence (^ over unary minus over * and /), blank = '*'.
struct Reader {
  std::string t; size_t i = 0; std::map<std::string, U> sym;
  [[noreturn]] void bad(const std::string& w) { throw std::runtime_error("cannot read '" + t + "' at " + std::to_string(i) + ": " + w); }
  void ws() { while (i < t.size() && t[i] == ' ') ++i; }
  U parse(const std::string& s) { t = s; i = 0; ws(); U u = product(); ws(); if (i != t.size()) bad("trailing text"); return u; }
  U product() {
    U u = unary();
    while (true) {
      size_t k = i; ws();
      if (i < t.size() && t[i] == '*') { ++i; ws(); u = umul(u, unary()); }
      else if (i < t.size() && t[i] == '/') { ++i; ws(); u = umul(u, unary(), -1); }
      else if (i < t.size() && i > k && t[i] != ')') { u = umul(u, unary()); }
      else { return u; }
    }
  }
  U unary() { if (i < t.size() && t[i] == '-') { ++i; U u = unary(); u.s.sign = -u.s.sign; return u; } return power(); }
  U power() {
    U b = atom();
    if (i < t.size() && t[i] == '^') {
      ++i; bool neg = false; if (i < t.size() && t[i] == '-') { neg = true; ++i; }
      U e = atom(); if (!e.dimless()) bad("exponent with units");
      Q q(1); if (e.s.sign == 0) q = Q(0); else { for (auto& kv : e.s.f) { if (kv.second.d != 1) bad("irrational exponent"); q = q * qpow(Q(kv.first), int(kv.second.n)); } if (e.s.sign < 0) q = -q; }
      if (neg) q = -q;
      return upow(b, q);
    }
    return b;
  }
  U atom() {
    if (i >= t.size()) bad("unexpected end");
    if (t[i] == '(') { ++i; ws(); U u = product(); ws(); if (i >= t.size() || t[i] != ')') bad("missing )"); ++i; return u; }
    if (isdigit((unsigned char)t[i])) { ll v = 0; while (i < t.size() && isdigit((unsigned char)t[i])) { if (v > (1LL<<62)/10) bad("number too large"); v = v*10 + (t[i++]-'0'); } U u; u.s = S::from(Q(v)); return u; }
    size_t k = i; while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i]=='_')) ++i;
    if (k == i) bad("unexpected character");
    return symbol(t.substr(k, i-k));
  }
  U symbol(const std::string& n) {
    auto it = sym.find(n); if (it != sym.end()) return it->second;
    if (!n.empty() && isdigit((unsigned char)n[0])) { U u; u.s = S::from(Q(std::stoll(n))); return u; }
    static const std::map<char,int> pre = {{'n',-9},{'u',-6},{'m',-3},{'c',-2},{'h',2},{'k',3},{'M',6},{'G',9}};
    if (n.size() > 1 && pre.count(n[0])) { U u = symbol(n.substr(1)); U p; p.s = spow(S::from(Q(10)), Q(pre.at(n[0]))); return umul(u, p); }
    bad("unknown symbol '" + n + "'");
  }
};
// The SI string: blank-separated tokens, each "symbol" or "symbol^rational"; an optional scaling first.
inline U read_si(const std::string& s) {
  static const std::vector<std::string> b = {"m","s","kg","K","A","mol","cd"};
  U u; size_t i = 0; bool first = true;
  while (i < s.size()) {
    size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size();
    std::string tok = s.substr(i, j-i); i = j+1;
    if (tok.empty()) throw std::runtime_error("empty token in '" + s + "'");
    auto c = tok.find('^'); std::string nm = tok.substr(0, c);
    int k = -1; for (int q=0;q<7;++q) if (b[q]==nm) k = q;
    if (k >= 0) {
      Q e(1);
      if (c != std::string::npos) {
        std::string ex = tok.substr(c+1); if (ex.size()>2 && ex.front()=='(' && ex.back()==')') ex = ex.substr(1, ex.size()-2);
        auto sl = ex.find('/'); e = sl==std::string::npos ? Q(std::stoll(ex)) : Q(std::stoll(ex.substr(0,sl)), std::stoll(ex.substr(sl+1)));
      }
      u.e[k] = u.e[k] + e;
    } else if (first) { Reader r; u = umul(u, r.parse(tok)); }
    else throw std::runtime_error("unknown token '" + tok + "' in '" + s + "'");
    first = false;
  }
  return u;
}
} // namespace um
