// Calls on ranges of more than 2^31 / 2^32 elements.  The range is a window of the address space in which every
// 1 MB chunk maps the same memory, so that the whole range exists (and is bounded by inaccessible pages) without
// needing the memory.  Single caller, not instrumented (2^32 steps would take too long).
#pragma once
#include "ops2.h"

namespace hg
{
  using sim::HugeCtx;

  template <class P> void fe_val(HugeCtx* c, P p)
  {
    auto* b = static_cast<const u8*>(c->in);
    u64 lanes = 0, hits = 0;
    vir::for_each(p, b, b + c->n, [&](const auto&... x) { ((lanes += x.size(), hits += popcount(x == static_cast<u8>(c->k))), ...); });
    c->lanes = lanes; c->got = hits;
  }
  template <class P> void fe_ref(HugeCtx* c, P p)
  {
    auto* b = static_cast<u8*>(c->out);
    u64 lanes = 0;
    vir::for_each(p, b, b + c->n, [&](auto&... x) { ((lanes += x.size(), x += 1), ...); });
    c->lanes = lanes;
  }
  template <class P> void tr(HugeCtx* c, P p)
  {
    auto* b = static_cast<const u8*>(c->in);
    auto* o = static_cast<u8*>(c->out);
    u64 lanes = 0;
    c->ret = vir::transform(p, b, b + c->n, o, [&](const auto& x) { lanes += x.size(); return x * 2 + 1; });
    c->lanes = lanes;
  }
  template <class P> void tr2(HugeCtx* c, P p)
  {
    auto* b = static_cast<const u8*>(c->in);
    auto* o = static_cast<u8*>(c->out);
    u64 lanes = 0;
    c->ret = vir::transform(p, b, b + c->n, b, o, [&](const auto& x, const auto& y) { lanes += x.size(); return x + y + 1; });
    c->lanes = lanes;
  }
  template <class P> void red(HugeCtx* c, P p)
  {
    auto* b = static_cast<const u8*>(c->in);
    c->got = vir::reduce(p, b, b + c->n, static_cast<u8>(c->k), std::plus<>());
  }
  template <class P> void tred(HugeCtx* c, P p)
  {
    auto* b = static_cast<const u8*>(c->in);
    c->got = vir::transform_reduce(p, b, b + c->n, static_cast<u8>(c->k), std::plus<>(), [](const auto& x) { return x + 1; });
  }
  template <class P> void tred2(HugeCtx* c, P p)
  {
    auto* b = static_cast<const u8*>(c->in);
    c->got = vir::transform_reduce(p, b, b + c->n, b, static_cast<u8>(c->k), std::plus<>(), [](const auto& x, const auto& y) { return x + y; });
  }
  template <class P> void cnt(HugeCtx* c, P p)
  {
    auto* b = static_cast<const u8*>(c->in);
    c->got = vir::count_if(p, b, b + c->n, [k = static_cast<u8>(c->k)](const auto& x) { return x == k; });
  }
}
#define REG_HUGE(NAME, PROP, KIND, POL) \
  do { sim::HugeDesc d{}; std::strncpy(d.name, NAME, sizeof d.name - 1); d.prop = PROP; d.kind = #KIND; \
       d.run = [](sim::HugeCtx* c) { constexpr auto p = POL; hg::KIND(c, p); }; sim_register_huge(&d); } while (0)
