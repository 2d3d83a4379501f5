// Loads/stores, masked loads/stores, value operations and precondition violations.
#pragma once
#include "ops.h"

enum Fl { EA, VA, OA };
template <int FL> constexpr auto ls_flag()
{ if constexpr (FL == EA) return stdx::element_aligned; else if constexpr (FL == VA) return stdx::vector_aligned; else return stdx::overaligned<64>; }
template <class T, int N> using SV = vir::simdize<T, N>;

template <class T> constexpr sim::Ty ty_or() { if constexpr (std::is_arithmetic_v<T>) return tyc<T>::v; else return sim::I8; }
template <bool RAW = false, class V> inline void report_lanes(OpCtx* c, const V& v)
{
  using E = elem_t<V>;
  for (std::size_t i = 0; i < std::size_t(V::size()); ++i)
    {
      E e = static_cast<E>(v[i]);
      each_m<E, false>(e, [&](auto& m) { long x = 0; if constexpr (RAW) std::memcpy(&x, &m, sizeof m); else x = static_cast<long>(m); sim_result(c, &x, sizeof x); });
    }
}

// load N elements of A into a vector of T, store to O.  ST 0: constructor, 1: copy_from
template <class V, class A, class O, int FL, int ST, int SEM> void run_ls(OpCtx* c)
{
  const A* in = static_cast<const A*>(c->in[0]); O* out = static_cast<O*>(c->out);
  constexpr auto fl = ls_flag<FL>();
  sim_begin(c);
  V v = [&] { if constexpr (ST == 0) return V(in, fl); else { V x; x.copy_from(in, fl); return x; } }();
  sim_end(c);
  report_lanes<SEM == sim::S_RAW || SEM == sim::S_CVT>(c, v);
  if constexpr (SEM == sim::S_ADD) bump(v, c->k);
  sim_begin(c);
  v.copy_to(out, fl);
  sim_end(c);
}
template <class M, int FL, int ST> void run_lsm(OpCtx* c)
{
  const bool* in = static_cast<const bool*>(c->in[0]); bool* out = static_cast<bool*>(c->out);
  constexpr auto fl = ls_flag<FL>();
  sim_begin(c);
  M v = [&] { if constexpr (ST == 0) return M(in, fl); else { M x; x.copy_from(in, fl); return x; } }();
  sim_end(c);
  for (std::size_t i = 0; i < M::size(); ++i) { long x = v[i]; sim_result(c, &x, sizeof x); }
  sim_begin(c);
  v.copy_to(out, fl);
  sim_end(c);
}
template <class V, class U, int FL> constexpr int ls_align()
{
  if constexpr (FL == EA) return 0;
  else if constexpr (FL == OA) return 64;
  else if constexpr (std::is_arithmetic_v<U>) return int(stdx::memory_alignment_v<V, U>);
  else return int(alignof(U));
}
#define REG_LS(NAME, T, N, A, AN, O, ON, FL, ST, SEM) do { using V = SV<T, N>; \
    constexpr int al = std::max(ls_align<V, A, FL>(), ls_align<V, O, FL>()); \
    auto d = mkdesc(NAME, sim::K_LS, sim::SEM, sim::F_FIXN | sim::F_NOCB | (FL == EA ? 0 : sim::F_VALIGN) | (std::is_same_v<A, O> ? sim::F_INPLACE : 0), 1, &run_ls<V, A, O, FL, ST, sim::SEM>); \
    d.nin = 1; d.in[0] = elem<A>(AN); d.out = elem<O>(ON); d.W = int(V::size()); d.align = al; d.rty = ty_or<T>(); sim_register(&d); } while (0)
#define REG_LSM(NAME, T, N, FL, ST) do { using M = SV<T, N>::mask_type; \
    auto d = mkdesc(NAME, sim::K_LS, sim::S_COPY, sim::F_FIXN | sim::F_NOCB | (FL == EA ? 0 : sim::F_VALIGN) | sim::F_INPLACE, 1, &run_lsm<M, FL, ST>); \
    d.nin = 1; d.in[0] = elem<bool>("bool"); d.out = d.in[0]; d.W = int(M::size()); d.align = FL == EA ? 0 : FL == OA ? 64 : int(stdx::memory_alignment_v<M, bool>); sim_register(&d); } while (0)

// ---- masked (fallback implementation only: stdlib masked loads are not part of this repository)
template <class M> inline M mk_mask(unsigned long bits) { return M([=](auto i) -> bool { return bits >> int(i) & 1; }); }
// any bit pattern; the same function is in core.cc
template <class T> inline T raw_lane(long k, int i)
{ unsigned long z = (static_cast<unsigned long>(k) + 1) * 0x9e3779b97f4a7c15ul + static_cast<unsigned long>(i) * 0xbf58476d1ce4e5b9ul; z ^= z >> 29; z *= 0x94d049bb133111ebul; z ^= z >> 32; T t; std::memcpy(&t, &z, sizeof t); return t; }
template <class V, bool RAW> inline V mk_lanes(long k)
{
  using T = typename V::value_type;
  if constexpr (RAW) { alignas(V) T b[V::size()]; for (int i = 0; i < int(V::size()); ++i) b[i] = raw_lane<T>(k, i); return V(b, stdx::element_aligned); }
  else return V([=](auto i) -> T { return static_cast<T>(k + long(int(i))); });
}
template <class V> inline V mk_cvt(long k, long bits)
{ using T = typename V::value_type; alignas(V) T b[V::size()]; for (int i = 0; i < int(V::size()); ++i) b[i] = sim::cvt_lane<T>(k, i, bits); return V(b, stdx::element_aligned); }
template <class V> inline V mk_val(long k) { using T = typename V::value_type; return V([=](auto i) -> T { return static_cast<T>(k + long(int(i))); }); }
template <class V, class U, int FL, bool CONST, bool RAW = false, bool CVT = false> void run_mst(OpCtx* c)
{
  using M = typename V::mask_type;
  M m = mk_mask<M>(c->mask); V v = CVT ? mk_cvt<V>(c->k, c->init) : mk_lanes<V, RAW>(c->k); U* out = static_cast<U*>(c->out);
  sim_begin(c);
  if constexpr (CONST) { const V& cv = v; where(m, cv).copy_to(out, ls_flag<FL>()); } else where(m, v).copy_to(out, ls_flag<FL>());
  sim_end(c);
}
template <class V, class U, int FL, bool CONST, bool RAW = false> void run_mld(OpCtx* c)
{
  using M = typename V::mask_type; using T = typename V::value_type;
  M m = mk_mask<M>(c->mask); V v = mk_lanes<V, RAW>(c->k); const U* in = static_cast<const U*>(c->in[0]);
  sim_begin(c);
  V r = v;
  if constexpr (CONST) { const V& cv = v; r = where(m, cv).copy_from(in, ls_flag<FL>()); } else where(m, r).copy_from(in, ls_flag<FL>());
  sim_end(c);
  for (std::size_t i = 0; i < V::size(); ++i) { T x = r[i]; sim_result(c, &x, sizeof x); }
}
template <class M, int FL, bool CONST> void run_mstm(OpCtx* c)
{
  M m = mk_mask<M>(c->mask), v = M([=](auto i) -> bool { return c->k >> (int(i) & 31) & 1; }); bool* out = static_cast<bool*>(c->out);
  sim_begin(c);
  if constexpr (CONST) { const M& cv = v; where(m, cv).copy_to(out, ls_flag<FL>()); } else where(m, v).copy_to(out, ls_flag<FL>());
  sim_end(c);
}
// ST 0 where, 1 const where, 2 constructor with mask (unselected lanes are false)
template <class M, int FL, int ST> void run_mldm(OpCtx* c)
{
  M m = mk_mask<M>(c->mask), v = M([=](auto i) -> bool { return c->k >> (int(i) & 31) & 1; }); const bool* in = static_cast<const bool*>(c->in[0]);
  sim_begin(c);
  M r = v;
  if constexpr (ST == 2) r = M(in, m, ls_flag<FL>());
  else if constexpr (ST == 1) { const M& cv = v; r = where(m, cv).copy_from(in, ls_flag<FL>()); }
  else where(m, r).copy_from(in, ls_flag<FL>());
  sim_end(c);
  for (std::size_t i = 0; i < M::size(); ++i) { bool x = r[i]; sim_result(c, &x, 1); }
}
template <class T, class U, bool CONST, bool LOAD> void run_mb(OpCtx* c)   // where(bool, T)
{
  const bool m = c->mask & 1; T v = static_cast<T>(c->k);
  if constexpr (LOAD)
    {
      const U* in = static_cast<const U*>(c->in[0]);
      sim_begin(c);
      T r = v;
      if constexpr (CONST) { const T& cv = v; r = stdx::where(m, cv).copy_from(in, stdx::element_aligned); } else stdx::where(m, r).copy_from(in, stdx::element_aligned);
      sim_end(c);
      sim_result(c, &r, sizeof r);
    }
  else
    {
      U* out = static_cast<U*>(c->out);
      sim_begin(c);
      if constexpr (CONST) { const T& cv = v; stdx::where(m, cv).copy_to(out, stdx::element_aligned); } else stdx::where(m, v).copy_to(out, stdx::element_aligned);
      sim_end(c);
    }
}
#define MLSDESC(NAME, FLG, FL, FN) mkdesc(NAME, sim::K_MLS, sim::S_MCOPY, sim::F_FIXN | sim::F_NOCB | (FLG) | (FL == EA ? 0 : sim::F_VALIGN), 1, FN)
#define REG_MST(NAME, T, N, U, UN, FL, C) do { using V = SV<T, N>; auto d = MLSDESC(NAME, sim::F_MSTORE, FL, (&run_mst<V, U, FL, C>)); \
    d.nin = 0; d.out = elem<U>(UN); d.W = int(V::size()); d.align = ls_align<V, U, FL>(); sim_register(&d); } while (0)
#define REG_MLD(NAME, T, TN, N, U, UN, FL, C) do { using V = SV<T, N>; auto d = MLSDESC(NAME, sim::F_MLOAD, FL, (&run_mld<V, U, FL, C>)); \
    d.nin = 1; d.in[0] = elem<U>(UN); d.out = elem<T>(TN); d.W = int(V::size()); d.align = ls_align<V, U, FL>(); sim_register(&d); } while (0)
#define REG_MSTR(NAME, T, TN, N, FL, C) do { using V = SV<T, N>; auto d = MLSDESC(NAME, sim::F_MSTORE, FL, (&run_mst<V, T, FL, C, true>)); \
    d.sem = sim::S_RAW; d.nin = 0; d.out = elem<T>(TN); d.W = int(V::size()); d.align = ls_align<V, T, FL>(); sim_register(&d); } while (0)
#define REG_MLDR(NAME, T, TN, N, FL, C) do { using V = SV<T, N>; auto d = MLSDESC(NAME, sim::F_MLOAD, FL, (&run_mld<V, T, FL, C, true>)); \
    d.sem = sim::S_RAW; d.nin = 1; d.in[0] = elem<T>(TN); d.out = d.in[0]; d.W = int(V::size()); d.align = ls_align<V, T, FL>(); sim_register(&d); } while (0)
#define REG_MSTC(NAME, T, TN, N, U, UN, FL, C) do { using V = SV<T, N>; auto d = MLSDESC(NAME, sim::F_MSTORE, FL, (&run_mst<V, U, FL, C, false, true>)); \
    d.sem = sim::S_CVT; d.rty = tyc<T>::v; d.nin = 0; d.out = elem<U>(UN); d.W = int(V::size()); d.align = ls_align<V, U, FL>(); sim_register(&d); } while (0)
#define REG_MLDC(NAME, T, TN, N, U, UN, FL, C) do { using V = SV<T, N>; auto d = MLSDESC(NAME, sim::F_MLOAD, FL, (&run_mld<V, U, FL, C>)); \
    d.sem = sim::S_CVT; d.rty = tyc<T>::v; d.nin = 1; d.in[0] = elem<U>(UN); d.out = elem<T>(TN); d.W = int(V::size()); d.align = ls_align<V, U, FL>(); sim_register(&d); } while (0)
#define REG_MSTM(NAME, T, N, FL, C) do { using M = SV<T, N>::mask_type; auto d = MLSDESC(NAME, sim::F_MSTORE, FL, (&run_mstm<M, FL, C>)); \
    d.nin = 0; d.out = elem<bool>("bool"); d.W = int(M::size()); d.align = FL == EA ? 0 : FL == OA ? 64 : int(stdx::memory_alignment_v<M, bool>); sim_register(&d); } while (0)
#define REG_MLDM(NAME, T, N, FL, ST) do { using M = SV<T, N>::mask_type; auto d = MLSDESC(NAME, sim::F_MLOAD | (ST == 2 ? sim::F_INIT0 : 0), FL, (&run_mldm<M, FL, ST>)); \
    d.nin = 1; d.in[0] = elem<bool>("bool"); d.out = d.in[0]; d.W = int(M::size()); d.align = FL == EA ? 0 : FL == OA ? 64 : int(stdx::memory_alignment_v<M, bool>); sim_register(&d); } while (0)
#define REG_MBS(NAME, T, U, UN, C) do { auto d = MLSDESC(NAME, sim::F_MSTORE, EA, (&run_mb<T, U, C, false>)); d.nin = 0; d.out = elem<U>(UN); d.W = 1; sim_register(&d); } while (0)
#define REG_MBL(NAME, T, TN, U, UN, C) do { auto d = MLSDESC(NAME, sim::F_MLOAD, EA, (&run_mb<T, U, C, true>)); d.nin = 1; d.in[0] = elem<U>(UN); d.out = elem<T>(TN); d.W = 1; sim_register(&d); } while (0)

// ---- value operations: F(OpCtx*, const V&) computes and reports everything it produces
template <class X> inline void rep(OpCtx* c, const X& x)
{
  if constexpr (std::is_arithmetic_v<X>) { sim_result(c, &x, sizeof x); }
  else if constexpr (stdx::is_simd_v<X> || stdx::is_simd_mask_v<X>)
    for (std::size_t i = 0; i < X::size(); ++i) { typename X::value_type y = x[i]; sim_result(c, &y, sizeof y); }
  else if constexpr (requires { x.to_ullong(); }) { unsigned long long y = x.to_ullong(); sim_result(c, &y, sizeof y); }
  else if constexpr (requires { std::tuple_size<X>::value; } && !requires { x.as_tuple(); }) std::apply([&](const auto&... y) { (rep(c, y), ...); }, x);
  else report_lanes(c, x);
}
template <class V, class F> inline void run_val(OpCtx* c)
{
  using T = typename V::value_type;
  const T* in = static_cast<const T*>(c->in[0]);
  sim_begin(c);
  V v(in, stdx::element_aligned);
  auto r = F::f(c, v);
  sim_end(c);
  rep(c, r);
}
#define VALOP(NAME, EXPR) struct NAME { template <class V> static auto f([[maybe_unused]] OpCtx* c, [[maybe_unused]] const V& v) { \
    using T [[maybe_unused]] = typename V::value_type; constexpr int N [[maybe_unused]] = int(V::size()); return EXPR; } };
namespace vp = vir::simd_permutations;
VALOP(v_rev, vir::simd_permute(v, vp::reverse))
VALOP(v_rot1, vir::simd_permute(v, vp::rotate<1>))
VALOP(v_rot2, vir::simd_permute(v, vp::rotate<2>))
VALOP(v_shift1, vir::simd_permute(v, vp::shift<1>))
VALOP(v_shiftm2, vir::simd_permute(v, vp::shift<-2>))
VALOP(v_dupe, vir::simd_permute(v, vp::duplicate_even))
VALOP(v_bcl, vir::simd_permute(v, vp::broadcast_last))
VALOP(v_bcf, vir::simd_permute(v, vp::broadcast_first))
VALOP(v_swap, vir::simd_permute(v, vp::swap_neighbors<>))
VALOP(v_lam, vir::simd_permute(v, [](auto i) { return (int(i) * 3 + 1) % N; }))
VALOP(v_shin, (vir::simd_shift_in<1>(v, V(T(1)))))
VALOP(v_shin2, (vir::simd_shift_in<-2>(v, V(T(2)), V(T(3)))))
VALOP(v_resz, (vir::simd_resize<N + 3>(v)))
VALOP(v_resz1, (vir::simd_resize<1>(v)))
VALOP(v_reszm, (vir::simd_resize<2>(v < T(c->k))))
VALOP(v_bits, vir::to_bitset(v < T(c->k)))
VALOP(v_frombits, (vir::to_simd_mask<typename V::mask_type>(std::bitset<std::size_t(N)>(c->mask))))
VALOP(v_iota, v + vir::iota_v<V>)
VALOP(v_sum, reduce(v, std::plus<>()))
VALOP(v_hmax, hmax(v))
VALOP(v_hmin, hmin(v))
VALOP(v_add, v + v)
VALOP(v_minmax, stdx::minmax(v, V(T(c->k))))
VALOP(v_clamp, stdx::clamp(v, V(T(1)), V(T(9))))
VALOP(v_cmp, v < T(c->k))
VALOP(v_pop, popcount(v < T(c->k)))
VALOP(v_ffs, any_of(v < T(c->k)) ? stdx::find_first_set(v < T(c->k)) : -1)
VALOP(v_fls, any_of(v < T(c->k)) ? stdx::find_last_set(v < T(c->k)) : -1)
struct v_where { template <class V> static auto f(OpCtx* c, const V& v) { V r = v; where(v < typename V::value_type(c->k), r) += typename V::value_type(1); return r; } };
struct v_subs { template <class V> static auto f(OpCtx* c, const V& v) { V r = v; for (std::size_t i = 0; i < V::size(); ++i) r[i] = v[V::size() - 1 - i]; (void)c; return r; } };
VALOP(v_castf, (stdx::static_simd_cast<SV<float, N>>(v)))
VALOP(v_castd, (stdx::static_simd_cast<SV<double, N>>(v)))
VALOP(v_castc, (stdx::static_simd_cast<SV<signed char, N>>(v)))
struct v_split { template <class V> static auto f(OpCtx*, const V& v) { constexpr int N = int(V::size()); auto [a, b] = stdx::split<N / 2, N - N / 2>(v); return stdx::concat(b, a); } };
VALOP(v_bcast, (vir::simd_bit_cast<stdx::rebind_simd_t<vir::meta::as_int_t<T>, V>>(v)))
struct v_fop { template <class V> static auto f(OpCtx*, const V& v) { using namespace vir::simd_float_ops; return (v & (v + V(1))) ^ (v | V(2)); } };
VALOP(v_sqrt, sqrt(v * v))
VALOP(v_floor, floor(v * T(0.5f)))
VALOP(v_sin, sin(v))
VALOP(v_exp, exp(v * T(0.01f)))
VALOP(v_ldexp, (ldexp(v, stdx::fixed_size_simd<int, N>(3))))
struct v_frexp { template <class V> static auto f(OpCtx*, const V& v) { stdx::fixed_size_simd<int, int(V::size())> e; V m = frexp(v, &e); return std::tuple{m, e}; } };
struct v_modf { template <class V> static auto f(OpCtx*, const V& v) { V ip; V m = modf(v * typename V::value_type(0.25f), &ip); return m + ip; } };
VALOP(v_fma, fma(v, v, V(T(1))))
VALOP(v_hyp3, hypot(v, v, v))
VALOP(v_abs, abs(v))
VALOP(v_isnan, isnan(v))
VALOP(v_div, v / V(T(3)))
VALOP(v_shl, (v << 2) + (v >> 1))
VALOP(v_mod, v % V(T(7)))
VALOP(v_not, ~v)
VALOP(v_sidx, v[std::size_t(c->mask % std::size_t(N))])
// operators, conversions and reductions, several per entry point
struct v_arith { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; V r = v; const V b(static_cast<T>(c->k + 1));
    r += b; r -= V(T(1)); r *= b; r /= b; ++r; r++; --r; r--; V s = r + -(-v); s = s - b * T(2) + v / b; return s + static_cast<V>(+s); } };
struct v_intop { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; V r = v; const V b(static_cast<T>(c->k + 1)), one(T(1));
    r %= b; r |= one; r &= V(T(63)); r ^= b; r <<= one; r >>= one; r = (r & v) | (r ^ b); return (r << one) + (r >> one) + (r << 1) + (~r & one) + r % b; } };
struct v_rel { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; const V b(static_cast<T>(c->k));
    return std::tuple{v < b, v <= b, v > b, v >= b, v == b, v != b, !v}; } };
struct v_mops { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; using M = typename V::mask_type; M a = v < static_cast<T>(c->k), b = v > T(2); M d = a;
    d &= b; d |= !a; d ^= (a && b) || (a & b); return std::tuple{d, (a | b) ^ d, a == b, a != d, M(true), M(b)}; } };
struct v_mred { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; auto a = v < static_cast<T>(c->k);
    return std::tuple{all_of(a), any_of(a), none_of(a), some_of(a), popcount(a), stdx::all_of(true), stdx::any_of(false), stdx::popcount(true)}; } };
struct v_msub { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; auto a = v < static_cast<T>(c->k); auto b = a; int n = 0;
    for (std::size_t i = 0; i < V::size(); ++i) { b[i] = !static_cast<const decltype(a)&>(a)[V::size() - 1 - i]; n += b[i]; } return std::tuple{b, n}; } };
struct v_whr { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; V r = v; auto a = v < static_cast<T>(c->k);
    where(a, r) = V(T(9)); where(!a, r) -= T(1); where(a, r) *= V(T(2)); where(!a, r) /= V(T(2)); where(a, r)++; ++where(a, r); where(!a, r)--; --where(a, r); r += -where(a, v); where(a, r) += v; return r; } };
struct v_whri { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; V r = v; auto a = v < static_cast<T>(c->k);
    where(a, r) %= V(T(5)); where(!a, r) &= V(T(7)); where(a, r) |= V(T(8)); where(!a, r) ^= V(T(3)); where(a, r) <<= V(T(1)); where(!a, r) >>= V(T(1)); return r; } };
struct v_whm { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; auto a = v < static_cast<T>(c->k), b = v > T(3); auto r = b; where(a, r) = !b; where(b, r) ^= a; return r; } };
struct v_wred { template <class V> static auto f(OpCtx* c, const V& v) { using T = typename V::value_type; auto a = v < static_cast<T>(c->k);
    return std::tuple{reduce(where(a, v), T(0), std::plus<>()), hmax(where(a, v)), hmin(where(!a, v))}; } };
struct v_red { template <class V> static auto f(OpCtx*, const V& v) { return std::tuple{reduce(v), reduce(v, [](auto x, auto y) { return x + y; }), reduce(v, std::multiplies<>())}; } };
struct v_conv { template <class V> static auto f(OpCtx*, const V& v) { constexpr int N = int(V::size()); auto a = stdx::to_fixed_size(v); stdx::fixed_size_simd<typename V::value_type, N> b = a;
    auto m = stdx::to_fixed_size(v < b[0]); return std::tuple{a, b, m, stdx::simd_cast<typename V::value_type>(v)}; } };
VALOP(v_gen, (V([&](auto i) { return T(v[(std::size_t(i) + 1) % std::size_t(N)]); })))
VALOP(v_szc, (vir::simd_size_cast<SV<T, N + 1>>(v)))
VALOP(v_szm, (vir::simd_size_cast<typename SV<T, 2>::mask_type>(v < T(c->k))))
struct v_cvt { template <class V> static auto f(OpCtx*, const V& v) { SV<float, int(V::size())> r = vir::cvt(v); SV<int, int(V::size())> q = vir::cvt(r); return std::tuple{r, q}; } };
struct v_fake { template <class V> static auto f(OpCtx* c, const V& v) { V r = v; typename V::value_type k = static_cast<typename V::value_type>(c->k); vir::fake_modify(r, k); vir::fake_read(r, k); return std::tuple{r, k}; } };
struct v_mcast { template <class V> static auto f(OpCtx* c, const V& v) { auto a = v < static_cast<typename V::value_type>(c->k); return stdx::static_simd_cast<typename SV<int, int(V::size())>::mask_type>(a); } };
struct v_spla { template <class V> static auto f(OpCtx*, const V& v) { constexpr int N = int(V::size()); auto x = stdx::split<SV<typename V::value_type, N / 2>>(v); return stdx::concat(x[1], x[0], v); } };
struct v_mm { template <class V> static auto f(OpCtx* c, const V& v) { const V b(static_cast<typename V::value_type>(c->k)); return std::tuple{stdx::min(v, b), stdx::max(v, b)}; } };
struct v_iotab { template <class V> static auto f(OpCtx*, const V& v) { using T = typename V::value_type; return v + V(vir::iota_v<T[4]>[3]) + V(vir::iota_v<std::array<T, 3>>[2]); } };
struct v_bitf { template <class V> static auto f(OpCtx* c, const V&) { using T = typename V::value_type; return vir::to_simd_mask<T>(std::bitset<V::size()>(c->mask)); } };
// every mathematical function
#define M1(NAME) VALOP(v_m_##NAME, NAME(v * T(0.125f)))
#define M2(NAME) VALOP(v_m_##NAME, std::tuple(NAME(v, v + V(T(1))), NAME(v, T(3)), NAME(T(2), v)))
M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(sinh) M1(cosh) M1(tanh) M1(asinh) M1(acosh) M1(atanh) M1(log) M1(log10) M1(log1p) M1(log2) M1(logb)
M1(erf) M1(erfc) M1(tgamma) M1(lgamma) M1(trunc) M1(ceil) M1(round) M1(nearbyint) M1(rint) M1(isfinite) M1(isinf) M1(isnormal) M1(signbit) M1(fpclassify)
M1(lround) M1(llround) M1(lrint) M1(llrint) M1(ilogb)
M2(pow) M2(fmod) M2(remainder) M2(nextafter) M2(copysign) M2(fdim) M2(fmax) M2(fmin) M2(isgreater) M2(isgreaterequal) M2(isless) M2(islessequal) M2(islessgreater) M2(isunordered)
M2(atan2) M2(hypot)
VALOP(v_m_fma3, std::tuple(fma(v, T(2), T(1)), fma(T(2), v, T(1)), fma(T(2), T(3), v), hypot(v, T(2), T(1)), hypot(T(2), v, T(1)), hypot(T(2), T(1), v)))
struct v_m_remquo { template <class V> static auto f(OpCtx*, const V& v) { stdx::fixed_size_simd<int, int(V::size())> q(0); V r = remquo(v, V(3), &q); return std::tuple{r, q}; } };
struct v_m_scalb { template <class V> static auto f(OpCtx*, const V& v) { constexpr int N = int(V::size()); return std::tuple{scalbn(v, stdx::fixed_size_simd<int, N>(2)), scalbln(v, stdx::fixed_size_simd<long, N>(-1))}; } };
#define REG_VAL(NAME, OP, T, TN, N) do { using V = SV<T, N>; auto d = mkdesc(NAME, sim::K_VAL, sim::S_GOLD, sim::F_FIXN | sim::F_NOCB, 1, &run_val<V, OP>); \
    d.nin = 1; d.in[0] = elem<T>(TN); d.W = int(V::size()); sim_register(&d); } while (0)

// ---- violated preconditions of the fallback implementation
enum Bad { B_SUB, B_CSUB, B_MSUB, B_CMSUB, B_FFS, B_FLS };
template <class V, int B> void run_bad(OpCtx* c)
{
  using T = typename V::value_type; using M = typename V::mask_type;
  V v(static_cast<const T*>(c->in[0]), stdx::element_aligned);
  M m([=](auto i) -> bool { return c->mask >> int(i) & 1; });
  long r = 0;
  std::size_t idx = V::size() + std::size_t(c->k - 1) * std::size_t(c->k - 1);
  if (c->k == 5) idx = ~std::size_t();
  asm volatile("" : "+m"(v), "+m"(m), "+r"(idx));
  sim_begin(c);
  if constexpr (B == B_SUB) r = static_cast<long>(static_cast<T>(v[idx]));
  else if constexpr (B == B_CSUB) r = static_cast<long>(static_cast<const V&>(v)[idx]);
  else if constexpr (B == B_MSUB) r = static_cast<bool>(m[idx]);
  else if constexpr (B == B_CMSUB) r = static_cast<const M&>(m)[idx];
  else { M z(false); asm volatile("" : "+m"(z)); r = B == B_FFS ? stdx::find_first_set(z) : stdx::find_last_set(z); }
  asm volatile("" :: "r"(r));
  sim_end(c);
}
#define REG_BAD(NAME, T, TN, N, B) do { using V = SV<T, N>; auto d = mkdesc(NAME, sim::K_BAD, sim::S_GOLD, sim::F_FIXN | sim::F_NOCB | BADF, 1, &run_bad<V, B>); \
    d.nin = 1; d.in[0] = elem<T>(TN); d.W = int(V::size()); sim_register(&d); } while (0)
