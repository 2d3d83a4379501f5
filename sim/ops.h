// Generic workload templates; compiled with -fsanitize=thread instrumentation against /repo/vir.
#pragma once
#include <vir/simd_execution.h>
#include <vir/simd_permute.h>
#include <vir/simd_resize.h>
#include <vir/simd_bitset.h>
#include <vir/simd_bit.h>
#include <vir/simd_cvt.h>
#include <vir/simd_iota.h>
#include <vir/simd_float_ops.h>
#include <vir/simd_benchmarking.h>
#include <array>
#include <cstring>
#include <functional>
#include <numeric>
#include <algorithm>
#include <ranges>
#include <span>
#include <tuple>
#include <utility>
#include <vector>
#include "sim.h"

namespace stdx = vir::stdx;
using sim::OpCtx;
using vir::execution::simd;

using i8 = signed char; using u8 = unsigned char; using i16 = short; using u16 = unsigned short;
using i32 = int; using u32 = unsigned; using i64 = long; using u64 = unsigned long; using f32 = float; using f64 = double;
using ll = long long; using ull = unsigned long long;
using chr = char; using c16 = char16_t; using c32 = char32_t; using wch = wchar_t; using c8 = char8_t;

template <class T> struct P2 { T x, y; };
template <class T> struct P3 { T x, y, z; };
template <class T> struct P4 { T a, b, c, d; };
template <class A, class B> struct AB { A a; B b; };
template <class A, class B, class C> struct ABC { A a; B b; C c; };
template <class T> struct P1 { T x; };
template <class T> struct P5 { T a, b, c, d, e; };
template <class T> struct P6 { T a, b, c, d, e, f; };
template <class T> struct P8 { T a, b, c, d, e, f, g, h; };
struct M9 { i8 a; f32 b; i16 c; f64 d; u8 e; i32 f; u16 g; i64 h; f32 i; };
template <class T> struct Line { P2<T> a, b; };
struct Mix { int i; float f; };
struct Pad { char c; int i; short s; };
struct Mix3 { double d; float f; float g; };
struct Nest { P2<float> p; int k; };

template <class T> struct tyc;
#define TY(T, E) template <> struct tyc<T> { static constexpr sim::Ty v = sim::E; };
TY(i8, I8) TY(u8, U8) TY(i16, I16) TY(u16, U16) TY(i32, I32) TY(u32, U32) TY(i64, I64) TY(u64, U64) TY(f32, F32) TY(f64, F64) TY(bool, BL)
TY(ll, I64) TY(ull, U64) TY(char, I8) TY(char16_t, U16) TY(char32_t, U32) TY(wchar_t, I32) TY(char8_t, U8)

// ---- members of element types and of their simdized counterparts
template <class T> struct is_p2 : std::false_type {}; template <class T> struct is_p2<P2<T>> : std::true_type {};
template <class T> struct is_p3 : std::false_type {}; template <class T> struct is_p3<P3<T>> : std::true_type {};
template <class T> struct is_p4 : std::false_type {}; template <class T> struct is_p4<P4<T>> : std::true_type {};
template <class T> struct is_ab : std::false_type {}; template <class A, class B> struct is_ab<AB<A, B>> : std::true_type {};
template <class T> struct is_abc : std::false_type {}; template <class A, class B, class C> struct is_abc<ABC<A, B, C>> : std::true_type {};
template <class T> struct is_p1 : std::false_type {}; template <class T> struct is_p1<P1<T>> : std::true_type {};
template <class T> struct is_p5 : std::false_type {}; template <class T> struct is_p5<P5<T>> : std::true_type {};
template <class T> struct is_p6 : std::false_type {}; template <class T> struct is_p6<P6<T>> : std::true_type {};
template <class T> struct is_p8 : std::false_type {}; template <class T> struct is_p8<P8<T>> : std::true_type {};
template <class T> struct is_line : std::false_type {}; template <class T> struct is_line<Line<T>> : std::true_type {};
template <class T> struct is_tup : std::false_type {};
template <class... Ts> struct is_tup<std::tuple<Ts...>> : std::true_type {}; template <class A, class B> struct is_tup<std::pair<A, B>> : std::true_type {};
template <class T, std::size_t N> struct is_tup<std::array<T, N>> : std::true_type {};

// calls f(member) for each flattened scalar member; E is the element type, v an E or simdize<E>
template <class E, bool Vec, class V, class F>
  inline void each_m(V& v, F&& f)
  {
    if constexpr (std::is_arithmetic_v<E>) f(v);
    else if constexpr (is_p2<E>::value) { f(v.x); f(v.y); }
    else if constexpr (is_p3<E>::value) { f(v.x); f(v.y); f(v.z); }
    else if constexpr (is_p4<E>::value) { f(v.a); f(v.b); f(v.c); f(v.d); }
    else if constexpr (is_ab<E>::value) { f(v.a); f(v.b); }
    else if constexpr (is_abc<E>::value) { f(v.a); f(v.b); f(v.c); }
    else if constexpr (is_p1<E>::value) { f(v.x); }
    else if constexpr (is_p5<E>::value) { f(v.a); f(v.b); f(v.c); f(v.d); f(v.e); }
    else if constexpr (is_p6<E>::value) { f(v.a); f(v.b); f(v.c); f(v.d); f(v.e); f(v.f); }
    else if constexpr (is_p8<E>::value) { f(v.a); f(v.b); f(v.c); f(v.d); f(v.e); f(v.f); f(v.g); f(v.h); }
    else if constexpr (std::is_same_v<E, M9>)
      { if constexpr (Vec) { f(get<0>(v)); f(get<1>(v)); f(get<2>(v)); f(get<3>(v)); f(get<4>(v)); f(get<5>(v)); f(get<6>(v)); f(get<7>(v)); f(get<8>(v)); }
        else { f(v.a); f(v.b); f(v.c); f(v.d); f(v.e); f(v.f); f(v.g); f(v.h); f(v.i); } }
    else if constexpr (is_line<E>::value) { f(v.a.x); f(v.a.y); f(v.b.x); f(v.b.y); }
    else if constexpr (std::is_same_v<E, Mix>) { if constexpr (Vec) { f(get<0>(v)); f(get<1>(v)); } else { f(v.i); f(v.f); } }
    else if constexpr (std::is_same_v<E, Pad>) { if constexpr (Vec) { f(get<0>(v)); f(get<1>(v)); f(get<2>(v)); } else { f(v.c); f(v.i); f(v.s); } }
    else if constexpr (std::is_same_v<E, Mix3>) { if constexpr (Vec) { f(get<0>(v)); f(get<1>(v)); f(get<2>(v)); } else { f(v.d); f(v.f); f(v.g); } }
    else if constexpr (std::is_same_v<E, Nest>) { if constexpr (Vec) { f(get<0>(v).x); f(get<0>(v).y); f(get<1>(v)); } else { f(v.p.x); f(v.p.y); f(v.k); } }
    else if constexpr (is_tup<E>::value)
      {
        if constexpr (Vec) [&]<std::size_t... I>(std::index_sequence<I...>) { (f(get<I>(v)), ...); }(std::make_index_sequence<std::tuple_size_v<E>>());
        else [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::get<I>(v)), ...); }(std::make_index_sequence<std::tuple_size_v<E>>());
      }
  }

template <class E> const sim::ElemDesc* elem(const char* name)
{
  sim::ElemDesc d{};
  std::strncpy(d.name, name, sizeof d.name - 1);
  d.size = sizeof(E); d.align = alignof(E);
  alignas(E) static unsigned char raw[sizeof(E)];
  E& e = *reinterpret_cast<E*>(raw);
  each_m<E, false>(e, [&](auto& m) {
    d.ty[d.nm] = tyc<std::remove_cvref_t<decltype(m)>>::v;
    d.off[d.nm] = static_cast<unsigned short>(reinterpret_cast<char*>(&m) - reinterpret_cast<char*>(raw));
    ++d.nm;
  });
  return sim_elem(&d);
}

template <class V> using elem_t = typename std::remove_cvref_t<V>::value_type;

// log the lanes of v (all members)
template <class V> inline void log_cols(OpCtx* c, const V& v)
{
  using E = elem_t<V>;
  each_m<E, true>(v, [&](const auto& m) {
    using M = std::remove_cvref_t<decltype(m)>;
    using T = typename M::value_type;
    T buf[M::size()];
    m.copy_to(buf, stdx::element_aligned);
    sim_col(c, buf, tyc<T>::v, int(M::size()));
  });
}
template <class V> inline void log_chunk(OpCtx* c, const V& v) { sim_chunk(c, int(V::size())); log_cols(c, v); }

template <class V> inline void bump(V& v, long k)
{
  long j = 0;
  each_m<elem_t<V>, true>(v, [&](auto& m) { using T = typename std::remove_cvref_t<decltype(m)>::value_type; m += static_cast<T>(k + j); ++j; });
}

// j-th flattened member as the requested scalar type
template <class U, int J, class V> inline auto member_as(const V& v)
{
  using E = elem_t<V>;
  constexpr int N = V::size();
  vir::simdize<U, N> r = U();
  int j = 0;
  each_m<E, true>(v, [&](const auto& m) { if (j++ == J) r = stdx::static_simd_cast<vir::simdize<U, N>>(m); });
  return r;
}
template <class E> constexpr int nmem()
{
  if constexpr (std::is_arithmetic_v<E>) return 1;
  else if constexpr (is_p2<E>::value || is_ab<E>::value || std::is_same_v<E, Mix>) return 2;
  else if constexpr (is_p3<E>::value || std::is_same_v<E, Pad> || std::is_same_v<E, Mix3> || std::is_same_v<E, Nest>) return 3;
  else if constexpr (is_abc<E>::value) return 3;
  else if constexpr (is_p1<E>::value) return 1;
  else if constexpr (is_p5<E>::value) return 5;
  else if constexpr (is_p6<E>::value) return 6;
  else if constexpr (is_p8<E>::value) return 8;
  else if constexpr (std::is_same_v<E, M9>) return 9;
  else if constexpr (is_p4<E>::value || is_line<E>::value) return 4;
  else return int(std::tuple_size_v<E>);
}
template <class E, int J> struct mem_ty;
template <class E, int J> struct mem_ty { static auto f() {
    if constexpr (std::is_arithmetic_v<E>) return E();
    else if constexpr (is_p2<E>::value) return decltype(E::x)();
    else if constexpr (is_p3<E>::value || is_p1<E>::value) return decltype(E::x)();
    else if constexpr (is_p5<E>::value || is_p6<E>::value || is_p8<E>::value) return decltype(E::a)();
    else if constexpr (std::is_same_v<E, M9>) return std::tuple_element_t<J, std::tuple<i8, f32, i16, f64, u8, i32, u16, i64, f32>>();
    else if constexpr (is_abc<E>::value) { if constexpr (J == 0) return decltype(E::a)(); else if constexpr (J == 1) return decltype(E::b)(); else return decltype(E::c)(); }
    else if constexpr (is_p4<E>::value) return decltype(E::a)();
    else if constexpr (is_ab<E>::value) { if constexpr (J == 0) return decltype(E::a)(); else return decltype(E::b)(); }
    else if constexpr (is_line<E>::value) return decltype(E::a.x)();
    else if constexpr (std::is_same_v<E, Mix>) { if constexpr (J == 0) return int(); else return float(); }
    else if constexpr (std::is_same_v<E, Pad>) { if constexpr (J == 0) return char(); else if constexpr (J == 1) return int(); else return short(); }
    else if constexpr (std::is_same_v<E, Mix3>) { if constexpr (J == 0) return double(); else return float(); }
    else if constexpr (is_tup<E>::value) return std::tuple_element_t<J, E>();
  } using type = decltype(f()); };

// out_j = sum_a coef_a * in_a(j % nm_a) + k + j
template <class OutT, class... Vs> inline auto combine(long k, const std::array<int, sizeof...(Vs)>& coef, const Vs&... vs)
{
  constexpr int N = std::get<0>(std::tuple{int(Vs::size())...});
  auto one = [&]<int J>(std::integral_constant<int, J>) {
    using U = typename mem_ty<OutT, J>::type;
    vir::simdize<U, N> r = static_cast<U>(k + J);
    int a = 0;
    ((r += member_as<U, J % nmem<elem_t<Vs>>()>(vs) * static_cast<U>(coef[a]), ++a), ...);
    return r;
  };
  if constexpr (std::is_arithmetic_v<OutT>) return one(std::integral_constant<int, 0>());
  else return [&]<int... J>(std::integer_sequence<int, J...>) { return vir::simdize<OutT, N>{one(std::integral_constant<int, J>())...}; }(std::make_integer_sequence<int, nmem<OutT>()>());
}

// ---- iterators / ranges
template <class T> struct CIter   // user-defined contiguous iterator
{
  using iterator_concept = std::contiguous_iterator_tag; using iterator_category = std::random_access_iterator_tag;
  using value_type = std::remove_cv_t<T>; using element_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
  T* p = nullptr;
  constexpr T& operator*() const { return *p; }
  constexpr T* operator->() const { return p; }
  constexpr T& operator[](std::ptrdiff_t i) const { return p[i]; }
  constexpr CIter& operator++() { ++p; return *this; } constexpr CIter operator++(int) { auto t = *this; ++p; return t; }
  constexpr CIter& operator--() { --p; return *this; } constexpr CIter operator--(int) { auto t = *this; --p; return t; }
  constexpr CIter& operator+=(std::ptrdiff_t i) { p += i; return *this; } constexpr CIter& operator-=(std::ptrdiff_t i) { p -= i; return *this; }
  friend constexpr CIter operator+(CIter a, std::ptrdiff_t i) { return {a.p + i}; } friend constexpr CIter operator+(std::ptrdiff_t i, CIter a) { return {a.p + i}; }
  friend constexpr CIter operator-(CIter a, std::ptrdiff_t i) { return {a.p - i}; } friend constexpr std::ptrdiff_t operator-(CIter a, CIter b) { return a.p - b.p; }
  friend constexpr bool operator==(CIter a, CIter b) { return a.p == b.p; } friend constexpr auto operator<=>(CIter a, CIter b) { return a.p <=> b.p; }
};
template <class T> struct Rng3 { T* b; T* e; T* begin() const { return b; } T* end() const { return e; } };

enum It { PTR, VEC, SPAN, STD, CIT, CPTR, URNG, SVEC };
template <int IT, class T> inline auto mk(void* p)
{
  if constexpr (IT == VEC || IT == SVEC) return __gnu_cxx::__normal_iterator<T*, std::vector<T>>(static_cast<T*>(p));
  else if constexpr (IT == CIT) return CIter<T>{static_cast<T*>(p)};
  else if constexpr (IT == CPTR) return static_cast<const T*>(p);
  else return static_cast<T*>(p);
}
template <int IT> constexpr bool is_rng = IT == SPAN || IT == URNG;
template <int IT> constexpr bool is_std = IT == STD || IT == SVEC;
template <int IT, class T> inline auto rg(void* p, std::size_t n)
{ if constexpr (IT == URNG) return Rng3<T>{static_cast<T*>(p), static_cast<T*>(p) + n}; else return std::span<T>(static_cast<T*>(p), n); }

struct Guard { OpCtx* c; };

// ---- for_each
enum Ck { REF, VAL, CREF, VREF, VVAL, FOBJ, CFOBJ, RREF, RVREF };   // RREF, RVREF: leave every bit as it is
template <class V> inline void fe_mut(OpCtx* c, V& v) { bump(v, c->k); }
struct FObj { OpCtx* c; template <class V> void operator()(V& v) const { sim_enter(c, 0, 1); log_chunk(c, v); bump(v, c->k); sim_leave(c, 0); }
  template <class V> void operator()(const V&& v) const = delete; };
struct CFObj { OpCtx* c; template <class V> void operator()(const V& v) const { sim_enter(c, 0, 1); log_chunk(c, v); sim_leave(c, 0); } };

template <class T, int IT, class Pol, class F> inline void call_fe(Pol pol, OpCtx* c, F&& f)
{
  if constexpr (is_rng<IT>) { auto r = rg<IT, T>(c->in[0], c->n); sim_begin(c); vir::for_each(pol, r, f); }
  else
    {
      auto b = mk<IT, T>(c->in[0]); auto e = b + std::ptrdiff_t(c->n);
      sim_begin(c);
      if constexpr (is_std<IT>) std::for_each(pol, b, e, f); else vir::for_each(pol, b, e, f);
    }
  sim_end(c);
}
template <class T, class Pol, int CK, int IT> void run_fe(OpCtx* c)
{
  constexpr Pol pol;
  if constexpr (CK == REF) call_fe<T, IT>(pol, c, [c](auto& v) { sim_enter(c, 0, 1); log_chunk(c, v); bump(v, c->k); sim_leave(c, 0); });
  else if constexpr (CK == VAL) call_fe<T, IT>(pol, c, [c](auto v) { sim_enter(c, 0, 1); log_chunk(c, v); bump(v, c->k); sim_leave(c, 0); });
  else if constexpr (CK == CREF) call_fe<T, IT>(pol, c, [c](const auto& v) { sim_enter(c, 0, 1); log_chunk(c, v); sim_leave(c, 0); });
  else if constexpr (CK == VREF) call_fe<T, IT>(pol, c, [c](auto&... v) { sim_enter(c, 0, int(sizeof...(v))); (log_chunk(c, v), ...); (bump(v, c->k), ...); sim_leave(c, 0); });
  else if constexpr (CK == VVAL) call_fe<T, IT>(pol, c, [c](auto... v) { sim_enter(c, 0, int(sizeof...(v))); (log_chunk(c, v), ...); (bump(v, c->k), ...); sim_leave(c, 0); });
  else if constexpr (CK == RREF) call_fe<T, IT>(pol, c, [c](auto& v) { sim_enter(c, 0, 1); log_chunk(c, v); sim_leave(c, 0); });
  else if constexpr (CK == RVREF) call_fe<T, IT>(pol, c, [c](auto&... v) { sim_enter(c, 0, int(sizeof...(v))); (log_chunk(c, v), ...); sim_leave(c, 0); });
  else if constexpr (CK == FOBJ) { FObj f{c}; call_fe<T, IT>(pol, c, f); }
  else if constexpr (CK == CFOBJ) { CFObj f{c}; call_fe<T, IT>(pol, c, f); }
}

// ---- transform
template <class OutT, class... Vs> inline auto tr_call(OpCtx* c, const std::array<int, sizeof...(Vs)>& coef, const Vs&... vs)
{
  sim_enter(c, 0, 1);
  sim_chunk(c, std::get<0>(std::tuple{int(Vs::size())...}));
  (log_cols(c, vs), ...);
  auto r = combine<OutT>(c->k, coef, vs...);
  sim_leave(c, 0);
  return r;
}
template <class A, class O, class Pol, int IT, bool RAW = false> void run_tr1(OpCtx* c)
{
  constexpr Pol pol;
  O* ri = nullptr;
  auto f = [c](const auto& v) {
    if constexpr (RAW) { sim_enter(c, 0, 1); log_chunk(c, v); auto r = v; sim_leave(c, 0); return r; }
    else return tr_call<O>(c, {1}, v);
  };
  if constexpr (is_rng<IT>)
    {
      auto r = rg<IT, A>(c->in[0], c->n); auto o = rg<IT, O>(c->out, c->n);
      sim_begin(c); auto e = vir::transform(pol, r, o, f); ri = std::to_address(e);
    }
  else
    {
      auto b = mk<IT, A>(c->in[0]); auto e = b + std::ptrdiff_t(c->n); auto o = mk<(IT == CPTR ? PTR : IT), O>(c->out);
      sim_begin(c);
      if constexpr (is_std<IT>) { auto x = std::transform(pol, b, e, o, f); ri = std::to_address(x); }
      else { auto x = vir::transform(pol, b, e, o, f); ri = std::to_address(x); }
    }
  sim_end(c);
  c->ret_it = ri;
}
template <class A, class B, class O, class Pol, int IT> void run_tr2(OpCtx* c)
{
  constexpr Pol pol;
  O* ri = nullptr;
  auto f = [c](const auto& v, const auto& w) { return tr_call<O>(c, {1, 2}, v, w); };
  if constexpr (is_rng<IT>)
    {
      auto r = rg<IT, A>(c->in[0], c->n); auto r2 = rg<IT, B>(c->in[1], c->n + (c->k == 2)); auto o = rg<IT, O>(c->out, c->n + (c->k == 3));
      sim_begin(c); auto e = vir::transform(pol, r, r2, o, f); ri = std::to_address(e);
    }
  else
    {
      auto b = mk<IT, A>(c->in[0]); auto e = b + std::ptrdiff_t(c->n); auto b2 = mk<IT, B>(c->in[1]); auto o = mk<(IT == CPTR ? PTR : IT), O>(c->out);
      sim_begin(c);
      if constexpr (is_std<IT>) { auto x = std::transform(pol, b, e, b2, o, f); ri = std::to_address(x); }
      else { auto x = vir::transform(pol, b, e, b2, o, f); ri = std::to_address(x); }
    }
  sim_end(c);
  c->ret_it = ri;
}
#if __cpp_lib_ranges_zip >= 202110L
template <class A, class B, class O, class Pol> void run_trz2(OpCtx* c)
{
  constexpr Pol pol;
  O* ri = nullptr;
  // zip_view ends with its shortest range
  std::span<A> r1(static_cast<A*>(c->in[0]), c->n + (c->k == 1)); std::span<B> r2(static_cast<B*>(c->in[1]), c->n + 3 * (c->k == 2)); std::span<O> o(static_cast<O*>(c->out), c->n);
  auto z = std::views::zip(r1, r2);
  sim_begin(c);
  auto e = vir::transform(pol, z, o, [c](const auto& t) { return tr_call<O>(c, {1, 2}, std::get<0>(t), std::get<1>(t)); });
  ri = std::to_address(e);
  sim_end(c);
  c->ret_it = ri;
}
template <class A, class B, class D, class O, class Pol> void run_trz3(OpCtx* c)
{
  constexpr Pol pol;
  O* ri = nullptr;
  std::span<A> r1(static_cast<A*>(c->in[0]), c->n + (c->k == 1)); std::span<B> r2(static_cast<B*>(c->in[1]), c->n + 3 * (c->k == 2)); std::span<D> r3(static_cast<D*>(c->in[2]), c->n);
  std::span<O> o(static_cast<O*>(c->out), c->n);
  auto z = std::views::zip(r1, r2, r3);
  sim_begin(c);
  auto e = vir::transform(pol, z, o, [c](const auto& t) { return tr_call<O>(c, {1, 1, 1}, std::get<0>(t), std::get<1>(t), std::get<2>(t)); });
  ri = std::to_address(e);
  sim_end(c);
  c->ret_it = ri;
}
#endif

// ---- reductions
template <int SEM> struct RedOp
{
  OpCtx* c;
  template <class X, class Y> auto operator()(const X& a, const Y& b) const
  {
    sim_enter(c, 1, 2);
    auto r = [&] {
      if constexpr (SEM == sim::S_MAX || SEM == sim::S_MAXD) { if constexpr (std::is_arithmetic_v<X>) return a < b ? b : a; else { using stdx::max; return max(a, b); } }
      else if constexpr (SEM == sim::S_MIN) { if constexpr (std::is_arithmetic_v<X>) return b < a ? b : a; else { using stdx::min; return min(a, b); } }
      else if constexpr (SEM == sim::S_XOR) return a ^ b;
      else if constexpr (SEM == sim::S_MUL) return a * b;
      else if constexpr (SEM == sim::S_AND) return a & b;
      else if constexpr (SEM == sim::S_OR) return a | b;
      else return a + b;
    }();
    sim_leave(c, 1);
    return r;
  }
};
template <class R, int SEM> struct TrOp
{
  OpCtx* c;
  template <class... Vs> auto operator()(const Vs&... vs) const
  {
    constexpr int N = std::get<0>(std::tuple{int(Vs::size())...});
    sim_enter(c, 0, 1);
    sim_chunk(c, N);
    (log_cols(c, vs), ...);
    auto r = [&] {
      if constexpr (SEM == sim::S_SUMK)
        {
          vir::simdize<R, N> s = R(0);
          auto one = [&](const auto& v) { each_m<elem_t<decltype(v)>, true>(v, [&](const auto& m) { s += stdx::static_simd_cast<vir::simdize<R, N>>(m); }); };
          (one(vs), ...);
          return vir::simdize<R, N>(s + s + R(1));
        }
      else if constexpr (SEM == sim::S_DOT) { auto t = std::tie(vs...); return vir::simdize<R, N>(member_as<R, 0>(std::get<0>(t)) * member_as<R, 0>(std::get<1>(t))); }
      else if constexpr (SEM == sim::S_MAXD) { auto t = std::tie(vs...); return vir::simdize<R, N>(member_as<R, 0>(std::get<0>(t)) + member_as<R, 0>(std::get<1>(t))); }
      else return member_as<R, 0>(std::get<0>(std::tie(vs...)));
    }();
    sim_leave(c, 0);
    return r;
  }
};
template <class T> inline long to_long(T x) { return static_cast<long>(x); }
// FORM: 0 reduce(), 1 reduce(init), 2 reduce(init, op), 3 reduce(init, function object of the standard library)
template <int SEM> auto std_op()
{
  if constexpr (SEM == sim::S_XOR) return std::bit_xor<>();
  else if constexpr (SEM == sim::S_MUL) return std::multiplies<>();
  else if constexpr (SEM == sim::S_AND) return std::bit_and<>();
  else if constexpr (SEM == sim::S_OR) return std::bit_or<>();
  else return std::plus<>();
}
template <class T, class Pol, int FORM, int SEM, int IT> void run_red(OpCtx* c)
{
  constexpr Pol pol;
  T init = static_cast<T>(c->init), r;
  auto op = [&] { if constexpr (FORM == 3) return std_op<SEM>(); else return RedOp<SEM>{c}; }();
  if constexpr (is_rng<IT>)
    {
      auto x = rg<IT, T>(c->in[0], c->n);
      sim_begin(c);
      if constexpr (FORM == 0) r = vir::reduce(pol, x); else if constexpr (FORM == 1) r = vir::reduce(pol, x, init); else r = vir::reduce(pol, x, init, op);
    }
  else
    {
      auto b = mk<IT, T>(c->in[0]); auto e = b + std::ptrdiff_t(c->n);
      sim_begin(c);
      if constexpr (is_std<IT>)
        { if constexpr (FORM == 0) r = std::reduce(pol, b, e); else if constexpr (FORM == 1) r = std::reduce(pol, b, e, init); else r = std::reduce(pol, b, e, init, op); }
      else
        { if constexpr (FORM == 0) r = vir::reduce(pol, b, e); else if constexpr (FORM == 1) r = vir::reduce(pol, b, e, init); else r = vir::reduce(pol, b, e, init, op); }
    }
  sim_end(c);
  c->ret = to_long(r);
}
// FORM: 0 inner product, 1 binary ops, 2 unary ops
template <class A, class B, class R, class Pol, int FORM, int SEM, int IT> void run_tred(OpCtx* c)
{
  constexpr Pol pol;
  R init = static_cast<R>(c->init), r;
  RedOp<SEM> op{c}; TrOp<R, SEM> tr{c};
  if constexpr (is_rng<IT>)
    {
      auto x = rg<IT, A>(c->in[0], c->n); auto y = rg<IT, B>(c->in[FORM == 2 ? 0 : 1], c->n); (void)y;
      sim_begin(c);
      if constexpr (FORM == 0) r = vir::transform_reduce(pol, x, y, init); else if constexpr (FORM == 1) r = vir::transform_reduce(pol, x, y, init, op, tr);
      else r = vir::transform_reduce(pol, x, init, op, tr);
    }
  else
    {
      auto b = mk<IT, A>(c->in[0]); auto e = b + std::ptrdiff_t(c->n); auto b2 = mk<IT, B>(c->in[FORM == 2 ? 0 : 1]); (void)b2;
      sim_begin(c);
      if constexpr (is_std<IT>)
        {
          if constexpr (FORM == 0) r = std::transform_reduce(pol, b, e, b2, init); else if constexpr (FORM == 1) r = std::transform_reduce(pol, b, e, b2, init, op, tr);
          else r = std::transform_reduce(pol, b, e, init, op, tr);
        }
      else
        {
          if constexpr (FORM == 0) r = vir::transform_reduce(pol, b, e, b2, init); else if constexpr (FORM == 1) r = vir::transform_reduce(pol, b, e, b2, init, op, tr);
          else r = vir::transform_reduce(pol, b, e, init, op, tr);
        }
    }
  sim_end(c);
  c->ret = to_long(r);
}

// ---- count_if
template <class T, class Pol, int SEM, int IT> void run_cnt(OpCtx* c)
{
  constexpr Pol pol;
  int r;
  auto pred = [c](const auto& v) {
    sim_enter(c, 0, 1);
    log_chunk(c, v);
    using U = typename mem_ty<T, 0>::type;
    auto m0 = member_as<U, 0>(v);
    auto m = [&] {
      if constexpr (SEM == sim::S_LT) return m0 < static_cast<U>(c->k);
      else if constexpr (SEM == sim::S_EQ) return m0 == static_cast<U>(c->k);
      else return m0 == m0;
    }();
    sim_leave(c, 0);
    return m;
  };
  if constexpr (is_rng<IT>) { auto x = rg<IT, T>(c->in[0], c->n); sim_begin(c); r = vir::count_if(pol, x, pred); }
  else
    {
      auto b = mk<IT, T>(c->in[0]); auto e = b + std::ptrdiff_t(c->n);
      sim_begin(c);
      if constexpr (is_std<IT>) r = std::count_if(pol, b, e, pred); else r = vir::count_if(pol, b, e, pred);
    }
  sim_end(c);
  c->ret = r;
}

// ---- registration helpers
template <class T, int N> constexpr int align_for()
{
  if constexpr (std::is_arithmetic_v<T>)
    {
      using V = vir::simdize<T, N>;
      constexpr std::size_t a = stdx::memory_alignment_v<V>;
      if constexpr (V::size() > 1 && V::size() * sizeof(T) % a == 0 && a > sizeof(T)) return int(a);
    }
  return 0;
}
template <class T, int N> constexpr int width() { return int(vir::simdize<T, N>::size()); }
template <class A, class B, int N> constexpr int width2() { return N ? N : std::max(width<A, 0>(), width<B, 0>()); }

inline sim::OpDesc mkdesc(const char* name, sim::Kind k, int sem, unsigned pf, int M, sim::RunFn run)
{
  sim::OpDesc d{};
  std::strncpy(d.name, name, sizeof d.name - 1);
  d.kind = k; d.sem = sim::Sem(sem); d.flags = pf; d.M = M ? M : 1; d.W = 1; d.run = run;
  return d;
}
#if VIR_CHECK_PRECONDITIONS >= 4
#define BADF sim::F_ABORT
#else
#define BADF 0u
#endif
// pf: policy flag bits, N: prefer_size (0 none), M: unroll
#define REG_FE(NAME, T, TN, POL, PF, N, M, CK, IT, BAD) do { \
    auto d = mkdesc(NAME, BAD ? sim::K_BAD : sim::K_FE, (CK == VAL || CK == CREF || CK == VVAL || CK == CFOBJ) ? sim::S_NONE : (CK == RREF || CK == RVREF) ? sim::S_RAW : sim::S_ADD, \
      (PF) | (BAD ? BADF | sim::F_BADSIZE : 0u) | ((CK == REF || CK == VREF || CK == FOBJ || CK == RREF || CK == RVREF) ? sim::F_WB : 0), M, &run_fe<T, std::remove_cv_t<decltype(POL)>, CK, IT>); \
    d.nin = 1; d.in[0] = elem<T>(TN); d.W = width<T, N>(); d.align = align_for<T, N>(); sim_register(&d); } while (0)
#define REG_TR1(NAME, A, AN, O, ON, POL, PF, N, M, IT, BAD) do { \
    auto d = mkdesc(NAME, BAD ? sim::K_BAD : sim::K_TR, sim::S_ADD, (PF) | (BAD ? BADF | sim::F_BADSIZE : 0u) | sim::F_RETIT | (std::is_same_v<A, O> ? sim::F_INPLACE : 0), M, &run_tr1<A, O, std::remove_cv_t<decltype(POL)>, IT>); \
    d.nin = 1; d.in[0] = elem<A>(AN); d.out = elem<O>(ON); constexpr int w = width<A, N>(); d.W = w; d.align = align_for<O, w>(); sim_register(&d); } while (0)
#define REG_TRR(NAME, A, AN, POL, PF, N, M, IT) do { \
    auto d = mkdesc(NAME, sim::K_TR, sim::S_RAW, (PF) | sim::F_RETIT | sim::F_INPLACE, M, &run_tr1<A, A, std::remove_cv_t<decltype(POL)>, IT, true>); \
    d.nin = 1; d.in[0] = elem<A>(AN); d.out = d.in[0]; constexpr int w = width<A, N>(); d.W = w; d.align = align_for<A, w>(); sim_register(&d); } while (0)
#define REG_TR2(NAME, A, AN, B, BN, O, ON, POL, PF, N, M, IT, BAD) do { \
    auto d = mkdesc(NAME, BAD ? sim::K_BAD : sim::K_TR, sim::S_ADD2, (PF) | (BAD ? BADF | sim::F_BADSIZE : 0u) | sim::F_RETIT | (std::is_same_v<A, O> ? sim::F_INPLACE : 0), M, &run_tr2<A, B, O, std::remove_cv_t<decltype(POL)>, IT>); \
    d.nin = 2; d.in[0] = elem<A>(AN); d.in[1] = elem<B>(BN); d.out = elem<O>(ON); constexpr int w = width2<A, B, N>(); d.W = w; d.align = align_for<O, w>(); sim_register(&d); } while (0)
#define REG_TRZ2(NAME, A, AN, B, BN, O, ON, POL, PF, N, M) do { \
    auto d = mkdesc(NAME, sim::K_TR, sim::S_ADD2, (PF) | sim::F_RETIT, M, &run_trz2<A, B, O, std::remove_cv_t<decltype(POL)>>); \
    d.nin = 2; d.in[0] = elem<A>(AN); d.in[1] = elem<B>(BN); d.out = elem<O>(ON); constexpr int w = width2<A, B, N>(); d.W = w; d.align = align_for<O, w>(); sim_register(&d); } while (0)
#define REG_TRZ3(NAME, A, AN, B, BN, D, DN, O, ON, POL, PF, N, M) do { \
    auto d = mkdesc(NAME, sim::K_TR, sim::S_ADD3, (PF) | sim::F_RETIT, M, &run_trz3<A, B, D, O, std::remove_cv_t<decltype(POL)>>); \
    d.nin = 3; d.in[0] = elem<A>(AN); d.in[1] = elem<B>(BN); d.in[2] = elem<D>(DN); d.out = elem<O>(ON); constexpr int w = N ? N : std::max({width<A, 0>(), width<B, 0>(), width<D, 0>()}); d.W = w; d.align = align_for<O, w>(); sim_register(&d); } while (0)
#define REG_RED(NAME, T, TN, POL, PF, N, M, FORM, SEM, IT, BAD) do { \
    auto d = mkdesc(NAME, BAD ? sim::K_BAD : sim::K_RED, sim::SEM, (PF) | (BAD ? BADF | sim::F_BADSIZE : 0u) | sim::F_NOCB | (FORM == 0 ? sim::F_INIT0 : 0) | (FORM == 2 ? sim::F_OPCB : 0), M, &run_red<T, std::remove_cv_t<decltype(POL)>, FORM, sim::SEM, IT>); \
    d.nin = 1; d.in[0] = elem<T>(TN); d.rty = tyc<T>::v; d.W = width<T, N>(); d.align = align_for<T, N>(); sim_register(&d); } while (0)
#define REG_TRED(NAME, A, AN, B, BN, R, POL, PF, N, M, FORM, SEM, IT, BAD) do { \
    auto d = mkdesc(NAME, BAD ? sim::K_BAD : sim::K_RED, sim::SEM, (PF) | (BAD ? BADF | sim::F_BADSIZE : 0u) | (FORM == 0 ? sim::F_NOCB : 0), M, &run_tred<A, B, R, std::remove_cv_t<decltype(POL)>, FORM, sim::SEM, IT>); \
    d.nin = FORM == 2 ? 1 : 2; d.in[0] = elem<A>(AN); d.in[1] = elem<B>(BN); d.rty = tyc<R>::v; constexpr int w = FORM == 2 ? width<A, N>() : width2<A, B, N>(); d.W = w; d.align = align_for<A, w>(); sim_register(&d); } while (0)
#define REG_CNT(NAME, T, TN, POL, PF, N, M, SEM, IT, BAD) do { \
    auto d = mkdesc(NAME, BAD ? sim::K_BAD : sim::K_CNT, sim::SEM, (PF) | (BAD ? BADF | sim::F_BADSIZE : 0u), M, &run_cnt<T, std::remove_cv_t<decltype(POL)>, sim::SEM, IT>); \
    d.nin = 1; d.in[0] = elem<T>(TN); d.W = width<T, N>(); d.align = align_for<T, N>(); sim_register(&d); } while (0)
