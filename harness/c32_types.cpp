// Type lists, maps keyed by types, and type traits.
#include "strgen.hpp"
#include "ekat_meta_utils.hpp"
#include "ekat_type_traits.hpp"
#include "ekat_std_type_traits.hpp"
#include <array>
#include <functional>
#include <ostream>
using namespace ekat; using mc::Ctx;
namespace {
template <int I> struct Tag { int id = I; };
struct Plain { int v; bool operator==(const Plain& o) const { return v == o.v; } };
template <class T> T mk(int v) { if constexpr (std::is_same<T, std::string>::value) return std::string(size_t(v), 'x'); else if constexpr (std::is_same<T, Plain>::value) return Plain{v}; else return T(v); }
template <class T> int rd(const T& t) { if constexpr (std::is_same<T, std::string>::value) return int(t.size()); else if constexpr (std::is_same<T, Plain>::value) return t.v; else return int(t); }
template <class T> struct TypeId;
#define TID(T, n) template <> struct TypeId<T> { static constexpr int id = n; }
TID(int, 0); TID(double, 1); TID(std::string, 2); TID(Plain, 3); TID(char, 4);
template <class F, size_t... I> void at_index(int i, F f, std::index_sequence<I...>) { ((int(I) == i ? (f(std::integral_constant<int, int(I)>{}), 0) : 0), ...); }

// ---- histories of a TypeMap
template <class M> struct Model { std::vector<int> v, type; };
template <class V, class M, class Mod> void look(Ctx& ctx, const M& m, const Mod& d, const char* n, const std::string& w) {
  for (int x = 0; x < 4; ++x) { bool e = false; for (size_t i = 0; i < d.v.size(); ++i) e = e || (d.type[i] == TypeId<V>::id && d.v[i] == x);
    bool got = m.template has_v<V>(mk<V>(x)); MC_CHECK(ctx, got == e, "has_v", w << "has_v(" << n << " " << x << ") is " << got); }
}
template <class Keys, class Vals> void hist(Ctx& ctx, int steps) {
  using M = TypeMap<Keys, Vals>; constexpr int N = M::size; using Seq = std::make_index_sequence<N>;
  std::vector<M> m(2); Model<M> d[2]; std::string w;
  for (int q = 0; q < 2; ++q) at_index(-1, [](auto) {}, Seq{}), d[q].v.assign(N, 0), d[q].type.assign(N, 0);
  auto each = [&](auto f) { for (int i = 0; i < N; ++i) at_index(i, f, Seq{}); };
  each([&](auto i) { using V = type_list_get<Vals, decltype(i)::value>; using K = type_list_get<Keys, decltype(i)::value>; for (int q = 0; q < 2; ++q) { m[q].template at<K>() = mk<V>(0); d[q].type[i] = TypeId<V>::id; } });
  for (int s = 0; s < steps; ++s) {
    int q = ctx.choose(2, "map"), op = ctx.choose(N + 1, "key");
    if (op == N) { m[q] = m[1 - q]; d[q] = d[1 - q]; w += "copy " + std::to_string(1 - q) + " to " + std::to_string(q) + "; "; }
    else { int x = 1 + ctx.choose(2, "value"); at_index(op, [&](auto i) { m[q].template at<type_list_get<Keys, decltype(i)::value>>() = mk<type_list_get<Vals, decltype(i)::value>>(x); }, Seq{}); d[q].v[op] = x; w += "map " + std::to_string(q) + " key " + std::to_string(op) + " = " + std::to_string(x) + "; "; }
    MC_LOG(ctx, w);
    for (int k = 0; k < 2; ++k) { const M& c = m[k];
      each([&](auto i) { int got = rd(c.template at<type_list_get<Keys, decltype(i)::value>>()), got2 = rd(m[k].template at<type_list_get<Keys, decltype(i)::value>>()); MC_CHECK(ctx, got == d[k].v[i] && got2 == got, "at", w << "map " << k << " key " << i << " holds " << got << "/" << got2 << ", expected " << d[k].v[i]); });
      look<int>(ctx, c, d[k], "int", w); look<double>(ctx, c, d[k], "double", w); look<std::string>(ctx, c, d[k], "string", w); look<Plain>(ctx, c, d[k], "Plain", w); look<char>(ctx, c, d[k], "char", w);
      for (int i = 0; i < N; ++i) ctx.state(mc::mix(d[k].v[i], i + 16 * k)); }
  }
  each([&](auto i) { using K = type_list_get<Keys, decltype(i)::value>; bool h = M::template has_t<K>(), t = std::is_same<typename M::template at_t<K>, type_list_get<Vals, decltype(i)::value>>::value; MC_CHECK(ctx, h && t, "has_t", "key " << i << " not found, or with another type"); });
  MC_CHECK(ctx, !M::template has_t<Tag<9>>() && (std::is_same<typename M::template at_t<Tag<9>>, typename M::NotFound>::value), "has_t", "an absent key is found"); uint64_t o = 0; for (int k = 0; k < 2; ++k) for (int x : d[k].v) o = o * 3 + uint64_t(x); ctx.outcome(o);
}
using K1 = TypeList<Tag<0>>; using K2 = TypeList<Tag<1>, int>; using K3 = TypeList<int, float, double>; using K4 = TypeList<char, Tag<1>, double, std::string>;
}
MC_SCENARIO(typemap, "maps of 1-4 keys with values of equal and different types; every sequence of 3 (thorough 4) writes and copies on two maps; all lookups by key and by value after each step", 2) {
  int n = ctx.tier() ? 4 : 3;
  switch (ctx.choose(6, "map type")) {
    case 0: hist<K1, TypeList<int>>(ctx, n); break;
    case 1: hist<K2, TypeList<int, int>>(ctx, n); break;
    case 2: hist<K3, TypeList<std::string, std::string, std::string>>(ctx, n); break;
    case 3: hist<K3, TypeList<int, double, int>>(ctx, n); break;
    case 4: hist<K4, TypeList<Plain, std::string, double, int>>(ctx, n); break;
    case 5: hist<K4, TypeList<double, Plain, Plain, double>>(ctx, n); break;
  }
}
// ---- loops
namespace {
struct Count { std::vector<int>* v; int n; template <int I> void operator()(Tag<I> x) { if (n == int(v->size())) v->push_back(x.id); ++n; } };
struct CountStop { std::vector<int>* v; int n, stop; template <int I> bool operator()(Tag<I> x) { if (n == int(v->size())) v->push_back(x.id); return ++n > stop; } };
template <class S> struct TagsOf; template <int... I> struct TagsOf<std::integer_sequence<int, I...>> { using type = TypeList<Tag<(I * 7 + 3) % 41>...>; using ints = TypeList<std::conditional_t<I % 3 == 0, int, std::conditional_t<I % 3 == 1, std::string, Plain>>...>; };
template <int N> using Tags = typename TagsOf<std::make_integer_sequence<int, N>>::type; template <int N> using Mixed = typename TagsOf<std::make_integer_sequence<int, N>>::ints;
template <class TL> void loops(Ctx& ctx) {
  constexpr int N = type_list_size<TL>::value; int stop = ctx.choose(N + 1, "stop after"), kind = ctx.choose(7, "function"), nth = 0; std::vector<int> v, e;
  switch (kind) {
    case 0: TypeListFor<TL>([&](auto t) { v.push_back(t.id); }); break;
    case 1: TypeListFor<TL>([&](auto t) -> bool { v.push_back(t.id); return ++nth > stop; }); break;
    case 2: TypeListFor<TL>([&](auto t) -> int { v.push_back(t.id); return 1; }); break;       // only bool stops
    case 3: { auto f = [&](auto t) { v.push_back(decltype(t)().id); return v.size() > size_t(stop); }; TypeListFor<TL> l(f); break; }
    case 5: { Count f{&v, 0}; TypeListFor<TL> l(f); MC_CHECK(ctx, f.n == N, "state", "a function object that counts its calls counted " << f.n << " of " << N); break; }
    case 6: { CountStop f{&v, 0, stop}; TypeListFor<TL> l(f); MC_CHECK(ctx, f.n == std::min(N, stop + 1), "state", "a function object that counts its calls counted " << f.n); break; }
    case 4: { const auto f = [&](auto t) { v.push_back(decltype(t)().id); }; TypeListFor<TL> l(f); break; }
  }
  bool stops = kind == 1 || kind == 3 || kind == 6; for (int i = 0; i < N; ++i) { at_index(i, [&](auto k) { e.push_back(type_list_get<TL, decltype(k)::value>().id); }, std::make_index_sequence<N>{}); if (stops && i == stop) break; }
  MC_CHECK(ctx, v == e, "loop", "function kind " << kind << ", stop after " << stop << ": visited " << mc::show(v) << ", expected " << mc::show(e)); ctx.outcome(mc::show(v));
}
}
MC_SCENARIO(loops_over_types, "lists of 1-6, 11 and 20 types (also repeated): functions returning void, bool, int, with and without state of their own; stopping at every position") {
  switch (ctx.choose(9, "list")) {
    case 7: loops<Tags<11>>(ctx); break;
    case 8: loops<Tags<20>>(ctx); break;
    case 0: loops<TypeList<Tag<3>>>(ctx); break;
    case 1: loops<TypeList<Tag<3>, Tag<1>>>(ctx); break;
    case 2: loops<TypeList<Tag<3>, Tag<1>, Tag<2>>>(ctx); break;
    case 3: loops<TypeList<Tag<1>, Tag<1>, Tag<2>, Tag<1>>>(ctx); break;
    case 4: loops<TypeList<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>>>(ctx); break;
    case 5: loops<TypeList<Tag<5>, Tag<4>, Tag<3>, Tag<2>, Tag<1>, Tag<0>>>(ctx); break;
    case 6: loops<TypeList<Tag<2>, Tag<2>>>(ctx); break;
  }
}
// ---- long maps: one write, all lookups
namespace { template <int N> void long_map(Ctx& ctx) {
  using M = TypeMap<Tags<N>, Mixed<N>>; using Seq = std::make_index_sequence<N>; M m; auto each = [&](auto f) { for (int i = 0; i < N; ++i) at_index(i, f, Seq{}); };
  auto K = [](auto i) { return type_list_get<Tags<N>, decltype(i)::value>(); }; auto V = [](auto i) { return type_list_get<Mixed<N>, decltype(i)::value>(); };
  each([&](auto i) { m.template at<decltype(K(i))>() = mk<decltype(V(i))>(0); }); int w = ctx.choose(N, "written"), x = 1 + ctx.choose(2, "value"); at_index(w, [&](auto i) { m.template at<decltype(K(i))>() = mk<decltype(V(i))>(x); }, Seq{}); M c = m; const M& cc = c;
  each([&](auto i) { int g = rd(cc.template at<decltype(K(i))>()); MC_CHECK(ctx, g == (decltype(i)::value == w ? x : 0), "value", "of " << N << " keys, key " << decltype(i)::value << " has " << g << " after writing key " << w); MC_CHECK(ctx, (FirstOf<decltype(K(i)), Tags<N>>::pos == decltype(i)::value), "first-of", "key " << decltype(i)::value << " of " << N); });
  for (int q = 0; q < 3; ++q) { int others[3] = {0, 0, 0}; for (int i = 0; i < N; ++i) if (i != w) ++others[i % 3];
    MC_CHECK(ctx, cc.has_v(mk<int>(q)) == ((w % 3 == 0 && q == x) || (q == 0 && others[0] > 0)), "has_v", N << " keys, int " << q << ", key " << w << " is " << x); MC_CHECK(ctx, cc.has_v(mk<std::string>(q)) == ((w % 3 == 1 && q == x) || (q == 0 && others[1] > 0)), "has_v", N << " keys, string " << q); MC_CHECK(ctx, cc.has_v(mk<Plain>(q)) == ((w % 3 == 2 && q == x) || (q == 0 && others[2] > 0)), "has_v", N << " keys, Plain " << q); }
  bool u = is_type_list_unique<Tags<N>>::value && !is_type_list_unique<type_list_cat<Tags<N>, TypeList<Tag<3>>>>::value; MC_CHECK(ctx, u, "unique", N << " types"); ctx.outcome(uint64_t(N * 100 + w * 2 + x));
} }
MC_SCENARIO(long_maps, "maps of 7, 11 and 20 keys with values of 3 types: one written, all looked up by key and by value") { switch (ctx.choose(3, "keys")) { case 0: long_map<7>(ctx); break; case 1: long_map<11>(ctx); break; default: long_map<20>(ctx); } }
// ---- lists: number c in base 3 with n digits is the list Tag<digit>...
namespace {
constexpr int p3(int n) { return n ? 3 * p3(n - 1) : 1; }
template <int C, size_t... I> TypeList<Tag<C / p3(int(I)) % 3>...> decode(std::index_sequence<I...>);
template <int N, int C> using L = decltype(decode<C>(std::make_index_sequence<N>{}));
template <class T> struct Box {};
template <int N, int C> struct Facts {
  static void get(int* f) { using T = L<N, C>; f[0] = FirstOf<Tag<0>, T>::pos; f[1] = FirstOf<Tag<1>, T>::pos; f[2] = FirstOf<Tag<2>, T>::pos; f[3] = FirstOf<Tag<7>, T>::pos; f[4] = is_type_list_unique<T>::value; f[5] = int(type_list_size<T>::value);
    f[6] = same<apply_template_t<Box, T>>(std::make_index_sequence<N>{}); }
  template <class A, size_t... I> static bool same(std::index_sequence<I...>) { return type_list_size<A>::value == N && (std::is_same<type_list_get<A, int(I)>, Box<type_list_get<L<N, C>, int(I)>>>::value && ...); }
};
template <int N, int... C> auto table(std::integer_sequence<int, C...>) { return std::array<void (*)(int*), sizeof...(C)>{&Facts<N, C>::get...}; }
template <int N, int C, int M, int D> bool cat_ok() { using X = type_list_cat<L<N, C>, L<M, D>>; return std::is_same<X, L<N + M, C + p3(N) * D>>::value; }
template <int N, int M, int... Q> auto cats(std::integer_sequence<int, Q...>) { return std::array<bool, sizeof...(Q)>{cat_ok<N, Q % p3(N), M, Q / p3(N)>()...}; }
template <int N> void list_case(Ctx& ctx) {
  static const auto t = table<N>(std::make_integer_sequence<int, p3(N)>{}); int c = ctx.choose(p3(N), "list"), f[7]; t[size_t(c)](f); int first[4] = {-1, -1, -1, -1}; bool uniq = true; std::string w;
  for (int i = 0; i < N; ++i) { int d = c / p3(i) % 3; w += std::to_string(d); if (first[d] >= 0) uniq = false; else first[d] = i; }
  for (int d = 0; d < 4; ++d) MC_CHECK(ctx, f[d] == first[d], "first-of", "list " << w << ": first of " << d << " is " << f[d] << ", expected " << first[d]);
  MC_CHECK(ctx, bool(f[4]) == uniq, "unique", "list " << w << ": unique is " << f[4]); MC_CHECK(ctx, f[5] == N, "size", "list " << w << ": size " << f[5]); MC_CHECK(ctx, f[6], "apply-template", "list " << w); ctx.outcome(w);
}
template <int N, int M> void cat_case(Ctx& ctx) { static const auto t = cats<N, M>(std::make_integer_sequence<int, p3(N) * p3(M)>{}); int q = ctx.choose(p3(N) * p3(M), "lists"); MC_CHECK(ctx, t[size_t(q)], "cat", "lists " << q % p3(N) << " and " << q / p3(N) << " of " << N << " and " << M << " types"); ctx.outcome(uint64_t(q)); }
}
MC_SCENARIO(lists, "every list of 1-5 types out of 3: first position of each type, uniqueness, size, template application; concatenation of all pairs of lists of 1-2 types, 0 and 2, 3 and 1") {
  switch (ctx.choose(11, "lengths")) {
    case 0: list_case<1>(ctx); break; case 1: list_case<2>(ctx); break; case 2: list_case<3>(ctx); break; case 3: list_case<4>(ctx); break; case 4: list_case<5>(ctx); break;
    case 5: cat_case<1, 1>(ctx); break; case 6: cat_case<1, 2>(ctx); break; case 7: cat_case<2, 1>(ctx); break; case 8: cat_case<2, 2>(ctx); break; case 9: cat_case<0, 2>(ctx); break; case 10: cat_case<3, 1>(ctx); break;
  }
}
// ---- traits of data types: base, P pointers, A extents
namespace {
template <class T, int P> struct AddP { using type = typename AddP<T, P - 1>::type*; }; template <class T> struct AddP<T, 0> { using type = T; };
template <class T, int A> struct AddA { using type = typename AddA<T, A - 1>::type[A + 1]; }; template <class T> struct AddA<T, 0> { using type = T; };
template <class B, int P, int A> void data_type(Ctx& ctx, const char* n) {
  using D = typename AddA<typename AddP<B, P>::type, A>::type;
  MC_CHECK(ctx, int(GetRanks<D>::rank) == P + A && int(GetRanks<D>::rank_dynamic) == P, "ranks", n << " with " << P << " pointers and " << A << " extents: rank " << int(GetRanks<D>::rank) << ", dynamic " << int(GetRanks<D>::rank_dynamic));
  bool v = std::is_same<typename ValueType<D>::type, B>::value && std::is_same<typename ValueType<D&>::type, B>::value; MC_CHECK(ctx, v, "value-type", n << " with " << P << " pointers and " << A << " extents");
  bool d = std::is_same<typename DataND<B, P>::type, typename AddP<B, P>::type>::value && std::is_same<typename remove_all_pointers<typename AddP<B, P>::type>::type, B>::value; MC_CHECK(ctx, d, "data-nd", n << " with " << P << " dimensions");
  bool c = std::is_same<typename remove_all_consts<typename AddP<B, P>::type>::type, typename AddP<typename std::remove_const<B>::type, P>::type>::value; MC_CHECK(ctx, c, "remove-all-consts", n << " with " << P << " pointers"); ctx.outcome(uint64_t(P * 8 + A));
}
template <class B, int P> void da(Ctx& ctx, const char* n) { switch (ctx.choose(4, "extents")) { case 0: data_type<B, P, 0>(ctx, n); break; case 1: data_type<B, P, 1>(ctx, n); break; case 2: data_type<B, P, 2>(ctx, n); break; case 3: data_type<B, P, 3>(ctx, n); break; } }
template <class B> void dp(Ctx& ctx, const char* n) { switch (ctx.choose(9, "pointers")) { case 0: da<B, 0>(ctx, n); break; case 1: da<B, 1>(ctx, n); break; case 2: da<B, 2>(ctx, n); break; case 3: da<B, 3>(ctx, n); break; case 4: da<B, 4>(ctx, n); break; case 5: da<B, 5>(ctx, n); break; case 6: da<B, 6>(ctx, n); break; case 7: da<B, 7>(ctx, n); break; case 8: da<B, 8>(ctx, n); break; } }
// pointers with const at any level: bits of C, level 0 is the base
template <int P, int C> struct CP { using in = typename CP<P - 1, C>::type*; using type = typename std::conditional<(C >> P & 1), const in, in>::type; };
template <int C> struct CP<0, C> { using type = typename std::conditional<(C & 1), const int, int>::type; };
template <int P, int C> unsigned cfacts() { using T = typename CP<P, C>::type; return unsigned(std::is_same<typename remove_all_consts<T>::type, typename AddP<int, P>::type>::value) | unsigned(std::is_same<typename std::remove_const<typename remove_all_pointers<T>::type>::type, int>::value) << 1 |
  unsigned(std::is_same<typename std::remove_const<typename ValueType<T>::type>::type, int>::value) << 2; }
template <int P, int... C> auto ctab(std::integer_sequence<int, C...>) { return std::array<unsigned, sizeof...(C)>{cfacts<P, C>()...}; }
template <int P> void cc(Ctx& ctx) { static const auto t = ctab<P>(std::make_integer_sequence<int, (2 << P)>{}); int c = ctx.choose(2 << P, "consts"); unsigned f = t[size_t(c)];
  MC_CHECK(ctx, f & 1, "remove-all-consts", P << " pointers, const at levels (bits) " << c << ": consts are left"); MC_CHECK(ctx, f & 2, "remove-all-pointers", P << " pointers, const at levels (bits) " << c << ": pointers are left"); MC_CHECK(ctx, f & 4, "value-type", P << " pointers, const at levels (bits) " << c); ctx.outcome(uint64_t(c)); }
struct NoOps {}; struct OnlyEq { bool operator==(const OnlyEq&) const { return true; } bool operator==(int) const { return true; } }; struct OnlyOut {}; std::ostream& operator<<(std::ostream& o, const OnlyOut&) { return o; }
}
MC_SCENARIO(data_types, "base types int, const double, Tag, const float; 0-8 pointers; 0-3 extents: rank, dynamic rank, value type, data type of a rank, removal of pointers and consts") {
  switch (ctx.choose(4, "base")) { case 0: dp<int>(ctx, "int"); break; case 1: dp<const double>(ctx, "const double"); break; case 2: dp<Tag<1>>(ctx, "Tag"); break; case 3: dp<const float>(ctx, "const float"); break; }
}
MC_SCENARIO(const_pointers, "int with 0-4 pointers, const at every subset of levels: remove_all_consts, remove_all_pointers, value type") {
  switch (ctx.choose(5, "pointers")) { case 0: cc<0>(ctx); break; case 1: cc<1>(ctx); break; case 2: cc<2>(ctx); break; case 3: cc<3>(ctx); break; case 4: cc<4>(ctx); break; }
}
MC_SCENARIO(has_operators, "existence of == and << for pairs of types with and without; vectors; single precision") {
  struct Case { const char* n; bool got, want; };
  static const Case C[] = {
    {"int==int", EqualExists<int, int>::value, true}, {"int==double", EqualExists<int, double>::value, true}, {"NoOps==NoOps", EqualExists<NoOps, NoOps>::value, false}, {"OnlyEq==OnlyEq", EqualExists<OnlyEq, OnlyEq>::value, true}, {"OnlyEq==int", EqualExists<OnlyEq, int>::value, true},
    {"OnlyEq==string", EqualExists<OnlyEq, std::string>::value, false}, {"string==int", EqualExists<std::string, int>::value, false}, {"string==const char*", EqualExists<std::string, const char*>::value, true}, {"NoOps==int", EqualExists<NoOps, int>::value, false}, {"OnlyOut==OnlyOut", EqualExists<OnlyOut, OnlyOut>::value, false},
    {"<<int", StreamExists<int>::value, true}, {"<<string", StreamExists<std::string>::value, true}, {"<<NoOps", StreamExists<NoOps>::value, false}, {"<<OnlyOut", StreamExists<OnlyOut>::value, true}, {"<<OnlyEq", StreamExists<OnlyEq>::value, false}, {"<<vector", StreamExists<std::vector<int>>::value, false}, {"<<char*", StreamExists<const char*>::value, true},
    {"vector<int>", is_vector_v<std::vector<int>>, true}, {"vector<vector>", is_vector_v<std::vector<std::vector<int>>>, true}, {"int vector", is_vector_v<int>, false}, {"array", is_vector_v<std::array<int, 2>>, false}, {"string vector", is_vector_v<std::string>, false},
    {"single float", bool(is_single_precision<float>::value), true}, {"single double", bool(is_single_precision<double>::value), false}, {"single int", bool(is_single_precision<int>::value), false}, {"single long double", bool(is_single_precision<long double>::value), false}};
  auto& c = C[size_t(ctx.choose(int(sizeof C / sizeof C[0]), "case"))]; MC_CHECK(ctx, c.got == c.want, "trait", c.n << " is " << c.got); ctx.outcome(c.got);
}
