#pragma once
#include "../mc/mc.hpp"
// every string over the alphabet with length in [lo,hi], shortest first
inline std::string gen(mc::Ctx& ctx, const std::string& alpha, int hi, const char* label = "string", int lo = 0) {
  int n = lo + ctx.choose(hi - lo + 1, label);
  std::string s;
  for (int i = 0; i < n; ++i) s += alpha[size_t(ctx.choose(int(alpha.size())))];
  return s;
}
// as one exactly sized heap buffer, so that address sanitizer sees reads past the end
inline std::string tight(const std::string& s) { std::string r; r.reserve(s.size()); r.assign(s); r.shrink_to_fit(); return r; }
