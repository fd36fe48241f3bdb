// A reference model of a view: base address, extents and strides of the elements it must address.
#pragma once
#include "mc.hpp"
#include "../mc/kokkos_seq.hpp"
#include <Kokkos_Core.hpp>
#include <array>
#include <utility>
struct VM {
  const void* base; size_t elem; std::vector<long> ext, str;
  int rank() const { return int(ext.size()); }
  template <class T> const T* at(const std::vector<long>& i) const { long o = 0; for (size_t k = 0; k < i.size(); ++k) o += i[k] * str[k]; return reinterpret_cast<const T*>(static_cast<const char*>(base) + o * long(elem)); }
  std::string show() const { std::string s = "("; for (size_t i = 0; i < ext.size(); ++i) s += (i ? "," : "") + std::to_string(ext[i]); return s + ")"; }
};
template <class F> void for_all(const std::vector<long>& ext, F&& f) {
  std::vector<long> i(ext.size(), 0); for (long e : ext) if (e <= 0) return;
  while (true) { f(i); int k = int(ext.size()) - 1; while (k >= 0 && ++i[k] == ext[k]) i[k--] = 0; if (k < 0) return; }
}
// indices at both ends and in the middle of every dimension only
template <class F> void for_corners(const std::vector<long>& ext, F&& f) {
  std::vector<std::vector<long>> c; std::vector<long> n; for (long e : ext) { std::vector<long> v; for (long i : {0l, 1l, e / 2, e - 1}) if (i >= 0 && i < e && (v.empty() || v.back() < i)) v.push_back(i); n.push_back(long(v.size())); c.push_back(v); }
  for_all(n, [&](const std::vector<long>& k) { std::vector<long> i(k.size()); for (size_t d = 0; d < k.size(); ++d) i[d] = c[d][k[d]]; f(i); });
}
inline bool vm_corners = false;
template <class V, size_t... I> auto& call_view(const V& v, const std::vector<long>& i, std::index_sequence<I...>) { return v(int(i[I])...); }
template <class V> auto& elem(const V& v, const std::vector<long>& i) { return call_view(v, i, std::make_index_sequence<size_t(V::rank)>()); }
template <class V> void verify(mc::Ctx& ctx, const V& v, const VM& m, const std::string& key, const std::string& what) {
  using T = typename V::value_type;
  MC_CHECK(ctx, int(V::rank) == m.rank(), key + ":rank", what << ": wrong rank");
  for (int k = 0; k < m.rank(); ++k) MC_CHECK(ctx, long(v.extent(k)) == m.ext[k], key + ":extent", what << ": extent " << k << " is " << v.extent(k) << ", expected " << m.ext[k]);
  auto one = [&](const std::vector<long>& i) {
    const T* p = &elem(v, i); const T* e = m.at<T>(i);
    MC_CHECK(ctx, p == e, key + ":element", what << ": element " << mc::show(i) << " lies at offset " << (p - static_cast<const T*>(m.base)) << " from the start, expected " << (e - static_cast<const T*>(m.base)));
  };
  if (vm_corners) for_corners(m.ext, one); else for_all(m.ext, one);
}
inline std::vector<long> right_strides(const std::vector<long>& e) { std::vector<long> s(e.size(), 1); for (int k = int(e.size()) - 2; k >= 0; --k) s[k] = s[k + 1] * e[k + 1]; return s; }
inline std::vector<long> left_strides(const std::vector<long>& e) { std::vector<long> s(e.size(), 1); for (size_t k = 1; k < e.size(); ++k) s[k] = s[k - 1] * e[k - 1]; return s; }
template <class T, int N> struct PtrN { using type = typename PtrN<T, N - 1>::type*; };
template <class T> struct PtrN<T, 0> { using type = T; };
template <class V, size_t... I> V make_view(typename V::pointer_type p, const std::vector<long>& e, std::index_sequence<I...>) { return V(p, size_t(e[I])...); }
template <class V> V make_view(typename V::pointer_type p, const std::vector<long>& e) { return make_view<V>(p, e, std::make_index_sequence<size_t(V::rank_dynamic)>()); }
