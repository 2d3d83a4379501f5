// Workload generation, swarm configuration, minimisation, driver.  Included by core.cc.

static int g_prop = 1;
static bool prop_differential() { return g_prop == 8; }

static bool is_alg(Kind k) { return k == K_FE || k == K_TR || k == K_RED || k == K_CNT; }

static bool belongs(const Violation& v)
{
  switch (g_prop)
  {
    case 1: return v.c == V_FE || ((v.c == V_FAULT || v.c == V_HANG) && v.kind == K_FE);
    case 2: return v.c == V_TR || ((v.c == V_FAULT || v.c == V_HANG) && v.kind == K_TR);
    case 3: return v.c == V_RED || ((v.c == V_FAULT || v.c == V_HANG) && v.kind == K_RED);
    case 4: return v.c == V_CNT || ((v.c == V_FAULT || v.c == V_HANG) && v.kind == K_CNT);
    case 5: return v.c == V_FOOT;
    case 6: return v.c == V_EXC;
    case 7: return v.c == V_TORN;
    case 8: return v.c == V_CONC;
    case 9: return v.c == V_MLS || ((v.c == V_FAULT || v.c == V_HANG) && v.kind == K_MLS);
    case 10: return v.c == V_LS || ((v.c == V_FAULT || v.c == V_HANG) && v.kind == K_LS);
    case 11: return v.c == V_PROG || v.c == V_HANG;
    case 12: return v.c == V_FAILSTOP;
    case 13: return v.c == V_POLICY;
  }
  return false;
}

static bool primary_kind(const OpDesc& d)
{
  switch (g_prop)
  {
    case 1: return d.kind == K_FE;
    case 2: return d.kind == K_TR;
    case 3: return d.kind == K_RED;
    case 4: return d.kind == K_CNT;
    case 5: return is_alg(d.kind) || d.kind == K_LS || d.kind == K_MLS;
    case 6: return is_alg(d.kind) && (!(d.flags & F_NOCB) || (d.flags & F_OPCB));
    case 7: return (d.kind == K_FE && (d.flags & F_WB)) || d.kind == K_TR || d.kind == K_LS || (d.kind == K_MLS && (d.flags & F_MSTORE)) || d.kind == K_RED;
    case 8: return d.kind != K_BAD && d.kind != K_ENV;
    case 9: return d.kind == K_MLS;
    case 10: return d.kind == K_LS;
    case 11: return is_alg(d.kind) || d.kind == K_LS || d.kind == K_MLS || d.kind == K_VAL;
    case 12: return d.kind == K_BAD || (d.flags & F_MATCH) || d.kind == K_VAL;
    case 13: return is_alg(d.kind) && !(d.flags & F_NOCB);
  }
  return false;
}

static u64 choose_n(const OpDesc& d, Rng& g, u64 sys, bool giant)
{
  if (d.flags & F_FIXN) return u64(d.W);
  const u64 W = d.W, M = d.M, WM = W * M;
  u64 n;
  // systematic part: walk through all sizes up to 3 unrolled blocks plus a bit
  if (sys != ~0ull && (sys & 1)) n = ((sys >> 1) * 5) % (3 * WM + 2 * W + 3);
  else switch (g.below(8))
  {
    case 0: n = g.below(4); break;
    case 1: n = W * g.below(4) + g.below(3); break;
    case 2: n = W * (1 + g.below(3)) - 1 - g.below(std::min<u64>(W, 2)); break;
    case 3: n = WM * g.below(4) + W * g.below(M + 1) + g.below(W); break;
    case 4: n = g.below(W + 1); break;
    default: n = g.below(3 * WM + 3); break;
  }
  const u64 es = d.kind == K_TR && d.out ? d.out->size : d.in[0]->size;
  if ((d.flags & F_AUTO) && g.chance(0.06)) n = 4000 / es + g.below(3 * W + 8) - std::min<u64>(W, 4000 / es);
  else if (g.chance(0.004)) n += WM * g.below(40);
  else if (g.chance(0.0005)) n += WM * g.below(300);
  else if (g.chance(0.003)) n = (200ull << g.below(7)) + g.below(200ull << g.below(7));   // up to about 25000 elements
  if (n > 30000) n = 30000;
  u64 all = d.out ? d.out->size : 0, mx = all;
  for (int i = 0; i < d.nin; ++i) { all += d.in[i]->size; mx = std::max<u64>(mx, d.in[i]->size); }
  if (n * all > 400000) n = 400000 / all;   // everything has to fit into the arena
  if (giant && is_alg(d.kind))
    {
      // beyond the range of 8 and 16 bit counters (elements and chunks)
      const u64 e0 = d.in[0]->size;
      const u64 top = std::min<u64>(2400000 / mx, 8000000 / all);
      switch (g.below(3))
      {
        case 0: n = 9000 + g.below(60000); break;
        case 1: n = 65536 * W + g.below(20000); break;
        default: n = e0 == 2 ? 530000 + g.below(40000) : 66000 + g.below(top); break;
      }
      if (n > top) n = top - g.below(top / 4);
    }
  if (d.flags & F_MATCH) n -= n % W;
  if (d.kind == K_BAD) { if (n < 1) n = 1; if (n % W == 0) n += W > 1 ? 1 + g.below(W - 1) : 0; }
  if (d.kind == K_RED && d.rty == I8 && (d.sem == S_SUMK)) n = std::min<u64>(n, 36);
  if (d.kind == K_RED && d.rty == I8 && (d.flags & F_MATCH) && d.sem == S_SUMK) n -= n % W;
  return n;
}

static i64 ty_lim(Ty t) // bound for exact, non-overflowing sums
{
  switch (t)
  {
    case I8: return 100; case U8: return 240; case I16: return 30000; case U16: return 60000;
    case F32: return 4000000; case F64: return 1ll << 50; case BL: return 1; default: return 1000000000;
  }
}

static void ty_full(Ty t, i64& lo, i64& hi) // every value (64 bit: almost)
{
  switch (t)
  {
    case I8: lo = -128; hi = 127; break; case U8: lo = 0; hi = 255; break;
    case I16: lo = -32768; hi = 32767; break; case U16: lo = 0; hi = 65535; break;
    case I32: lo = -2147483648ll; hi = 2147483647; break; case U32: lo = 0; hi = 4294967295ll; break;
    default: ty_range(t, lo, hi);
  }
}

struct RegReq { const ElemDesc* el; u64 n; int align; int mode; i64 lo, hi; bool ro; };

static int add_region(Plan& p, Rng& g, const RegReq& q)
{
  Region r; r.el = q.el; r.len = u32(q.n * q.el->size); r.mode = q.mode; r.lo = q.lo; r.hi = q.hi; r.seed = g.next();
  r.off = u32(std::max<int>(q.align, q.el->align)); // temporarily: alignment
  p.regs.push_back(r);
  return int(p.regs.size()) - 1;
}

static bool is_signed_ty(Ty t) { return t == I8 || t == I16 || t == I32 || t == I64 || t == F32 || t == F64; }

static int add_slot(Plan& p, Rng& g, int op, int thread, u64 sys, std::vector<u8>& ro_shared, bool allow_reuse, bool giant = false)
{
  const OpDesc& d = g_ops[op];
  Slot s; s.op = op; s.thread = thread;
  s.n = choose_n(d, g, sys, giant);
  s.k = g.range(1, 5);
  s.init = 0;
  // common value range of all types involved
  i64 lo = -(1ll << 40), hi = 1ll << 40;
  auto narrow = [&](const ElemDesc* e) { for (int m = 0; m < e->nm; ++m) { i64 a, b; ty_range(e->ty[m], a, b); lo = std::max(lo, a); hi = std::min(hi, b); } };
  for (int i = 0; i < d.nin; ++i) narrow(d.in[i]);
  if (d.out) narrow(d.out);
  int mode = 0;
  if (d.sem == S_CVT)
    {
      // float -> integer must stay in range (after rounding to the float type); everything else is defined for any value
      auto fl = [](Ty t) { return t == F32 || t == F64; };
      const Ty a = d.kind == K_MLS && (d.flags & F_MSTORE) ? d.rty : d.in[0]->ty[0], o = d.kind == K_MLS && (d.flags & F_MLOAD) ? d.rty : d.out->ty[0];
      lo = -(1ll << 62); hi = 1ll << 62;
      bool safe = false;
      auto step = [&](Ty x, Ty y) {
        if (!fl(x) || fl(y)) return;
        i64 l, h; ty_full(y, l, h);
        if (y == I64 || y == U64 || y == I32 || y == U32) { h = std::min<i64>(h, 1ll << 61); h -= h / 4096; if (l < 0) { l = std::max<i64>(l, -(1ll << 61)); l += -l / 4096; } }
        lo = std::max(lo, l); hi = std::min(hi, h); safe = true;
      };
      step(a, d.rty); step(d.rty, o);
      if (!fl(a))
        {
          i64 l, h; ty_full(a, l, h);
          if (a == I64) { l = -(1ll << 62); h = 1ll << 62; }
          if (a == U64) { l = 0; h = 1ll << 62; }
          lo = std::max(lo, l); hi = std::min(hi, h);
          // the lane type could wrap around: T(a) is what has to be in range then
          if (safe && !fl(d.rty)) { i64 l2, h2; ty_full(d.rty, l2, h2); lo = std::max(lo, l2); hi = std::min(hi, h2); }
        }
      int b = 0; while (b < 62 && (1ll << (b + 1)) <= hi) ++b;
      s.init = b | (lo < 0 ? 64 : 0);
    }
  i64 lo1 = lo, hi1 = hi; int mode1 = 0;
  switch (d.kind)
  {
    case K_FE: case K_TR: case K_LS:
      if (d.sem == S_RAW) { mode = 4; lo = 0; hi = 1; }
      else if (d.sem == S_CVT) mode = 6;
      else if (d.sem == S_ADD2 || d.sem == S_ADD3) { lo /= 4; hi /= 4; hi -= 4; lo1 = lo; hi1 = hi; }
      else { hi -= 12; if (lo < 0) lo += 12; }
      break;
    case K_RED:
      {
        i64 a, b; ty_range(d.rty, a, b); lo = std::max(lo, a); hi = std::min(hi, b);
        const bool sg = is_signed_ty(d.rty);
        i64 lim = std::min(ty_lim(d.rty), ty_lim(d.in[0]->ty[0]));
        switch (d.sem)
        {
          case S_SUM: case S_SUMX:
            // sums of unsigned integers are exact modulo 2^n
            if (!sg && d.in[0]->ty[0] == d.rty && g.next() & 1) { mode = 2; ty_full(d.rty, lo, hi); s.init = g.range(lo, hi); break; }
            mode = 1; hi = lim - 6; lo = is_signed_ty(d.in[0]->ty[0]) && sg ? -hi : 0; s.init = sg ? g.range(-5, 5) : g.range(0, 5); break;
          case S_SUMK:
            mode = 1; hi = std::max<i64>(1, (lim - 6 - i64(s.n)) / 2 / d.in[0]->nm); lo = sg && is_signed_ty(d.in[0]->ty[0]) ? -hi : 0; s.init = sg ? g.range(-5, 5) : g.range(0, 5);
            break;
          case S_DOT: mode = 1; hi = std::max<i64>(1, (lim - 6) / 3); lo = sg && is_signed_ty(d.in[0]->ty[0]) ? -hi : 0; mode1 = 2; lo1 = 0; hi1 = 3; s.init = sg ? g.range(-5, 5) : g.range(0, 5); break;
          case S_MAX: case S_MIN: case S_MAXD:
            mode = g.next() & 1 ? 3 : 2; if (d.sem == S_MIN) mode = 2;
            if (d.sem != S_MAXD && d.in[0]->nm == 1 && d.in[0]->ty[0] == d.rty && g.next() & 1) ty_full(d.rty, lo, hi);
            if (d.sem == S_MAXD) { lo /= 2; hi /= 2; lo1 = lo; hi1 = hi; mode1 = 2; }
            if (d.sem == S_MIN) s.init = hi; else s.init = lo;
            if (g.chance(0.3)) s.init = g.range(lo, hi);
            break;
          case S_XOR: case S_AND: case S_OR: case S_MUL:
            mode = d.sem == S_MUL ? 5 : 2; s.init = d.sem == S_AND ? -1 : g.range(0, 100);
            ty_full(d.rty, lo, hi);
            if (d.sem == S_MUL) s.init |= 1;
            if (d.sem == S_AND && g.chance(0.7)) lo = hi - std::min<i64>(hi - lo, 6);
            if (d.sem == S_OR && g.chance(0.7)) { lo = 0; hi = 1; }
            break;
          default: break;
        }
        break;
      }
    case K_CNT:
      if (d.sem == S_RAW) { mode = 4; lo = 0; hi = 1; break; }
      if (d.sem == S_LT && d.in[0]->nm == 1 && g.next() & 1) ty_full(d.in[0]->ty[0], lo, hi);
      s.k = g.range(lo, hi); mode = 0; if (d.sem == S_EQ) { hi = std::min<i64>(hi, lo + 2 + i64(g.below(4))); s.k = g.range(lo, hi); mode = 2; } break;
    case K_VAL: mode = 2; hi = std::min<i64>(hi, 100); lo = std::max<i64>(lo, -100); break;
    case K_MLS: if (d.sem == S_CVT) { mode = 6; s.k = d.flags & F_MLOAD ? g.range(1, 40) : i64(g.next() >> 20); break; }
      if (d.sem == S_RAW) { mode = 4; lo = 0; hi = 1; s.k = i64(g.next() >> 20); break; }
      hi -= 70; if (s.n > 40 && hi > 10) hi -= 0; mode = 0; s.k = g.range(1, 40); break;
    default: break;
  }
  if (d.kind == K_MLS)
    {
      const u64 all = s.n >= 64 ? ~0ull : (1ull << s.n) - 1;
      switch (g.below(7))
      {
        case 0: s.mask = all; break;
        case 1: s.mask = 0; break;
        case 2: s.mask = 1ull << g.below(s.n); break;
        case 3: s.mask = (1ull << g.below(s.n)) - 1; break;
        case 4: s.mask = all & ~((1ull << g.below(s.n)) - 1); break;
        default: s.mask = g.next(); if (g.next() & 1) s.mask |= g.next(); else s.mask &= g.next(); break;
      }
      s.mask &= all;
      s.k = d.out && d.out->ty[0] == BL ? i64(g.next() & 0xffffffff) : s.k;
      if (d.flags & F_MSTORE && d.out->ty[0] == BL) s.k = i64(g.next() & 0xffffffff);
    }
  if (d.kind == K_VAL) s.mask = g.next();
  const int al = d.flags & F_VALIGN ? d.align : 1;
  for (int i = 0; i < d.nin; ++i)
    {
      const bool ro = !(d.kind == K_FE && (d.flags & F_WB));
      i64 l = i ? lo1 : lo, h = i ? hi1 : hi; int md = i ? mode1 : mode;
      int reg = -1;
      if (ro && s.n && al <= 1 && g.chance(0.3))
        for (size_t r = 0; r < p.regs.size() && reg < 0; ++r)
          if (ro_shared[r] && p.regs[r].el == d.in[i] && p.regs[r].mode == md && p.regs[r].lo == l && p.regs[r].hi == h && p.regs[r].len >= s.n * d.in[i]->size && p.regs[r].mode != 1) reg = int(r);
      if (!ro && allow_reuse && thread >= 0 && g.chance(0.35))
        for (size_t q = p.slots.size(); q-- > 0 && reg < 0;)
          if (p.slots[q].thread == thread && g_ops[p.slots[q].op].kind == K_FE && (g_ops[p.slots[q].op].flags & F_WB) && g_ops[p.slots[q].op].in[0] == d.in[i] && (g_ops[p.slots[q].op].sem == S_RAW) == (d.sem == S_RAW))
            {
              reg = p.slots[q].reg[0];
              u64 mx = p.regs[reg].len / d.in[i]->size;
              if (s.n > mx) s.n = mx;
              if (d.flags & F_MATCH) s.n -= s.n % d.W;
            }
      if (reg < 0)
        {
          reg = add_region(p, g, {d.in[i], s.n, (i == 0 || d.kind == K_LS || d.kind == K_MLS) ? al : 1, md, l, h, ro});
          ro_shared.push_back(ro && d.kind != K_BAD);
        }
      s.reg[i] = reg;
    }
  if (d.out && !(d.flags & F_MLOAD) && d.kind != K_VAL)
    {
      // in place: the output is one (or, if inputs are shared, several) of the inputs
      if (((d.flags & F_INPLACE) || d.kind == K_TR) && s.n && g.chance(0.4))
        {
          const int i = d.nin > 1 ? int(g.below(d.nin)) : 0;
          bool others = p.regs[s.reg[i]].el != d.out || !ro_shared[s.reg[i]];
          for (auto& q : p.slots) for (int r : q.reg) if (r == s.reg[i]) others = true;
          if (!others) { s.reg[3] = s.reg[i]; ro_shared[s.reg[i]] = 0; }
        }
      if (s.reg[3] < 0)
        {
          s.reg[3] = add_region(p, g, {d.out, s.n, al, 0, 0, 1, false});
          auto& r = p.regs[s.reg[3]]; ty_range(d.out->ty[0], r.lo, r.hi); r.mode = 2;
          ro_shared.push_back(0);
        }
    }
  p.slots.push_back(s);
  return int(p.slots.size()) - 1;
}

static void layout(Plan& p, Rng& g)
{
  std::vector<int> ord(p.regs.size());
  for (size_t i = 0; i < ord.size(); ++i) ord[i] = int(i);
  for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[g.below(i)]);
  u64 total = 0;
  for (auto& r : p.regs) total += r.len + 256;
  if (total > ARENA_SZ - 16384) { std::fprintf(stderr, "sim: plan does not fit into the arena\n"); std::_Exit(98); }
  const int style = int(g.below(4));
  const double gapp = g.chance(0.6) ? 0.15 : 0.7;
  auto gap = [&]() -> u64 { return g.chance(gapp) ? (g.chance(0.2) ? g.below(64) : g.below(20)) : 0; };
  if (style == 0)
    {
      u64 cur = ARENA_SZ; bool first = true;
      for (int i : ord)
        {
          Region& r = p.regs[i]; const u64 al = r.off;
          if (!first) cur -= gap();
          first = false;
          cur = (cur - r.len) / al * al;
          r.off = u32(cur);
        }
    }
  else
    {
      u64 cur = style == 1 ? 0 : 8192 + (g.chance(0.3) ? 0 : g.below(128));
      bool first = true;
      for (int i : ord)
        {
          Region& r = p.regs[i]; const u64 al = r.off;
          if (!first) cur += gap();
          first = false;
          if (g.chance(0.1)) cur = (cur + 63) / 64 * 64;
          cur = (cur + al - 1) / al * al;
          r.off = u32(cur);
          cur += r.len;
        }
    }
}

static std::vector<int> g_elig, g_bg, g_all;

static void gen_plan(Plan& p, Cfg& c, Rng& g, u64 r)
{
  std::vector<u8> ro;
  const u64 ne = g_elig.size();
  const int primary = g_elig[(r * 7919 + r / ne) % ne];
  const u64 sys = r / ne;
  // swarm: threads and fault mix
  static const int tw[] = {1, 2, 2, 2, 3, 3, 4, 2};
  p.threads = tw[g.below(8)];
  if (g_prop == 8 && p.threads == 1 && g.chance(0.5)) p.threads = 2;
  if (g_prop == 11 && p.threads == 1) p.threads = 2;
  auto pw = [&](int a, int b) { return 1.0 / double(1ull << g.range(a, b)); };
  static const int sw[] = {0, 0, 0, 1, 2, 3, 5, 4};
  c.strat = sw[g.below(8)]; c.p = pw(1, 6);
  c.max_faults = 0;
  const bool faulty = !g.chance(0.3);
  int F = 0; // bit set: 1 kill 2 sig 4 nest 8 throw 16 stall 32 alloc
  switch (g_prop)
  {
    case 1: case 2: case 3: case 4: case 13: if (faulty) F = int(g.next() & (2 | 4 | 16)) | (g.chance(0.15) ? 1 : 0); break;
    case 5: if (faulty) F = int(g.next() & (1 | 2 | 4 | 8 | 16)); break;
    case 6: F = 8 | (faulty ? int(g.next() & (2 | 4 | 16)) : 0); break;
    case 7: F = 1 | (faulty ? int(g.next() & (2 | 4 | 16)) : 0); break;
    case 8: if (faulty || p.threads == 1) F = int(g.next() & (2 | 4 | 16)) | (p.threads == 1 ? 2 | 4 : 0) | (g.chance(0.1) ? 1 : 0); break;
    case 9: case 10: if (faulty) F = int(g.next() & (1 | 2 | 16)); break;
    case 11: F = 16 | int(g.next() & 1) | (g.next() & 1 ? 32 : 0) | int(g.next() & (2 | 4)); break;
    case 12: if (faulty) F = int(g.next() & (2 | 4 | 16)); break;
  }
  if (F) c.max_faults = int(g.range(1, 4));
  if (F & 1) c.kill_p = pw(1, 8);
  if (F & 2) c.sig_p = pw(1, 7);
  if (F & 4) c.nest_p = pw(0, 5);
  if (F & 8) c.throw_p = pw(0, 5);
  if (F & 16) c.stall_p = pw(1, 8);
  c.alloc_fail = F & 32;
  p.recover = g_prop == 7;
  const bool reuse = g_prop != 7 && g_prop != 8 && g_prop != 12;
  int env_thread = -1;
  if (p.threads > 1 && g_prop != 8 && g.chance(0.2)) env_thread = p.threads - 1;
  auto bg = [&]() { return g.chance(0.6) ? g_elig[g.below(ne)] : g_bg[g.below(g_bg.size())]; };
  const bool giant = mix(r, 1277) % (g_prop == 4 ? 3000 : 16384) == 0 && g_prop != 8;
  add_slot(p, g, primary, 0, sys, ro, reuse, giant);
  for (int t = 0; t < p.threads; ++t)
    {
      if (t == env_thread) continue;
      int cnt = t == 0 ? int(g.below(3)) / 2 : 1 + int(g.below(4)) / 3;
      if (t > 0 && g_prop == 8 && g.chance(0.35)) { add_slot(p, g, primary, t, ~0ull, ro, reuse); --cnt; }  // same entry point concurrently
      for (int i = 0; i < cnt; ++i)
        {
          int o = bg();
          if (g_ops[o].kind == K_BAD && t != 0) continue;
          if (g_ops[o].kind == K_BAD && g_ops[primary].kind == K_BAD) continue;
          add_slot(p, g, o, t, ~0ull, ro, reuse);
        }
    }
  if (F & (2 | 4))
    {
      int cnt = 1 + int(g.below(2));
      for (int i = 0; i < cnt; ++i)
        {
          int o = g_prop == 8 && g.chance(0.5) ? primary : bg();
          if (g_ops[o].kind == K_BAD) continue;
          if (g_ops[o].flags & F_FEWCB) continue;
          add_slot(p, g, o, -1, ~0ull, ro, reuse);
        }
    }
  if (env_thread >= 0)
    {
      int cnt = 1 + int(g.below(3));
      for (int i = 0; i < cnt; ++i)
        {
          Slot s; s.op = g_env_op; s.thread = env_thread; s.n = 1 + g.below(8); s.k = g.range(1, 200);
          Region r; r.el = g_byte_elem; r.len = u32(s.n); r.mode = 2; r.lo = 0; r.hi = 255; r.seed = g.next(); r.off = 1;
          p.regs.push_back(r); ro.push_back(0);
          s.reg[3] = int(p.regs.size()) - 1;
          p.slots.push_back(s);
        }
    }
  layout(p, g);
  u64 steps = 0; for (auto& s : p.slots) steps += s.n;
  if (steps > 1500 && g.chance(0.8))
    {
      // spread switches and faults over the whole of long calls
      const double f = 300.0 / double(steps);
      for (double* x : {&c.kill_p, &c.sig_p, &c.stall_p, &c.throw_p, &c.nest_p}) *x *= f;
      if (c.strat != 1) c.p = std::max(c.p * f, 1e-5);
    }
  if (c.strat == 1) { u64 est = 0; for (auto& s : p.slots) est += 4 + s.n / 2; int d = int(g.range(1, 4)); for (int i = 0; i < d; ++i) c.pct.push_back(u32(1 + g.below(est + 8))); }
}

// ------------------------------------------------------------------ plan <-> text
static std::string plan_text(const Plan& p)
{
  std::string o;
  o += fmts("threads %d\nrecover %d\n", p.threads, int(p.recover));
  for (size_t i = 0; i < p.regs.size(); ++i)
    {
      auto& r = p.regs[i];
      o += fmts("region %zu off %u len %u elem %s fill %d lo %lld hi %lld seed %llu\n", i, r.off, r.len, r.el->name, r.mode, (long long)r.lo, (long long)r.hi, (unsigned long long)r.seed);
    }
  for (size_t i = 0; i < p.slots.size(); ++i)
    {
      auto& s = p.slots[i];
      o += fmts("slot %zu thread %d n %llu k %lld init %lld mask %llu regs %d %d %d %d op %s\n", i, s.thread, (unsigned long long)s.n, (long long)s.k, (long long)s.init,
                (unsigned long long)s.mask, s.reg[0], s.reg[1], s.reg[2], s.reg[3], g_ops[s.op].name);
    }
  for (auto& d : p.dec)
    o += fmts("decision thread %d step %u %s %d\n", int(d.fiber), d.step, act_name[d.act], d.arg);
  return o;
}
static bool plan_parse(FILE* f, Plan& p, std::map<std::string, std::string>& hdr)
{
  char line[2000];
  while (std::fgets(line, sizeof line, f))
    {
      std::string l(line); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
      if (l.empty()) continue;
      if (l[0] == '#')
        {
          auto c = l.find(": "); if (c != std::string::npos) hdr[l.substr(2, c - 2)] = l.substr(c + 2);
          continue;
        }
      unsigned idx; char a[200], b[200];
      if (!l.compare(0, 8, "threads ")) p.threads = std::atoi(l.c_str() + 8);
      else if (!l.compare(0, 8, "recover ")) p.recover = std::atoi(l.c_str() + 8);
      else if (!l.compare(0, 7, "region "))
        {
          Region r; long long lo, hi; unsigned long long sd;
          if (std::sscanf(l.c_str(), "region %u off %u len %u elem %199s fill %d lo %lld hi %lld seed %llu", &idx, &r.off, &r.len, a, &r.mode, &lo, &hi, &sd) != 8) return false;
          r.lo = lo; r.hi = hi; r.seed = sd;
          for (auto* e : g_elems) if (!std::strcmp(e->name, a)) r.el = e;
          if (!r.el) return false;
          p.regs.push_back(r);
        }
      else if (!l.compare(0, 5, "slot "))
        {
          Slot s; unsigned long long n, mk; long long k, in;
          if (std::sscanf(l.c_str(), "slot %u thread %d n %llu k %lld init %lld mask %llu regs %d %d %d %d op %199s", &idx, &s.thread, &n, &k, &in, &mk, &s.reg[0], &s.reg[1], &s.reg[2], &s.reg[3], b) != 11) return false;
          s.n = n; s.k = k; s.init = in; s.mask = mk; s.op = op_by_name(b);
          if (s.op < 0) return false;
          p.slots.push_back(s);
        }
      else if (!l.compare(0, 9, "decision "))
        {
          Decision d; int f2, arg; unsigned st;
          if (std::sscanf(l.c_str(), "decision thread %d step %u %199s %d", &f2, &st, a, &arg) != 4) return false;
          d.fiber = u8(f2); d.step = st; d.arg = arg; d.act = A_N;
          for (int i = 0; i < A_N; ++i) if (!std::strcmp(act_name[i], a)) d.act = Act(i);
          if (d.act == A_N) return false;
          p.dec.push_back(d);
        }
      else return false;
    }
  return !p.slots.empty();
}

static const Violation* first_viol(int cls)
{
  for (auto& v : S.viol) if (belongs(v) && (cls < 0 || int(v.c) == cls)) return &v;
  return nullptr;
}

static bool still_fails(Plan& q, int cls) { exec_checked(q, true, prop_differential()); return first_viol(cls) != nullptr; }

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void minimise(Plan& p, int cls)
{
  u64 budget = 3000;
  const u64 pts0 = T_points;
  const double t0 = now_s();   // only bounds how small the file gets; what it replays does not depend on it
  auto tryp = [&](Plan& q) -> bool {
    if (!budget || T_points - pts0 > 20000000 || now_s() - t0 > 15) return false;
    --budget;
    if (!still_fails(q, cls)) return false;
    q.dec = S.rec;      // what was really applied
    Plan chk = q;
    if (!still_fails(chk, cls)) return false;
    p = q;
    return true;
  };
  { Plan q = p; q.dec.clear(); tryp(q); }
  for (int pass = 0; pass < 4; ++pass)
    {
      bool changed = false;
      for (size_t i = 0; i < p.slots.size(); ++i)
        if (p.slots[i].thread != 100) { Plan q = p; q.slots[i].thread = 100; changed |= tryp(q); }
      for (size_t len = std::max<size_t>(1, p.dec.size() / 2); p.dec.size() && len >= 1; len /= 2)
        {
          for (size_t i = 0; i < p.dec.size();)
            {
              Plan q = p; q.dec.erase(q.dec.begin() + i, q.dec.begin() + std::min(p.dec.size(), i + len));
              if (tryp(q)) changed = true; else i += len;
            }
          if (len == 1) break;
        }
      for (size_t i = 0; i < p.slots.size(); ++i)
        {
          if (p.slots[i].thread == 100) continue;
          const OpDesc& d = g_ops[p.slots[i].op];
          if (d.flags & F_FIXN || d.kind == K_ENV) continue;
          const u64 unit = d.flags & F_MATCH ? d.W : 1;
          for (u64 cut = p.slots[i].n / 2 / unit * unit; cut >= unit && cut > 0; cut = cut / 2 / unit * unit)
            while (p.slots[i].n > cut)
              {
                Plan q = p; q.slots[i].n -= cut;
                if (d.kind == K_BAD && (q.slots[i].n % d.W == 0)) break;
                if (!tryp(q)) break;
                changed = true;
              }
        }
      if (!changed) break;
    }
  // remove dropped slots from the file: they keep their index, so only mark them
}

static int write_replay(const char* path, const char* exe, Plan& p, const Violation& v, u64 seed, u64 run, u64 hash)
{
  FILE* f = std::fopen(path, "w");
  if (!f) return -1;
  std::fprintf(f, "# vir-simd deterministic simulation replay\n# property: C%02d\n# mode: %s\n# seed: %llu\n# run: %llu\n# class: %s\n# violation: %s\n# hash: %016llx\n", g_prop, exe,
               (unsigned long long)seed, (unsigned long long)run, vclass_name[v.c], v.what.c_str(), (unsigned long long)hash);
  std::fputs(plan_text(p).c_str(), f);
  std::fclose(f);
  return 0;
}

extern "C" void sim_register_all();
#include "huge.inc"

extern "C" int sim_main(int argc, char** argv)
{
  // fixed memory map
  void* a = mmap(reinterpret_cast<void*>(ARENA - 65536), ARENA_SZ + 131072, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  void* b = mmap(reinterpret_cast<void*>(STK - 65536), (STK_SZ + 65536) * MAXF + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (a != reinterpret_cast<void*>(ARENA - 65536) || b != reinterpret_cast<void*>(STK - 65536)) { std::fprintf(stderr, "sim: mmap failed\n"); return 98; }
  mprotect(reinterpret_cast<void*>(ARENA), ARENA_SZ, PROT_READ | PROT_WRITE);
  for (int i = 0; i < MAXF; ++i) mprotect(reinterpret_cast<void*>(STK + u64(i) * (STK_SZ + 65536)), STK_SZ, PROT_READ | PROT_WRITE);
  stack_t ss{}; ss.ss_size = 65536; ss.ss_sp = std::malloc(ss.ss_size); sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask);
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
  itimerval tv{}; tv.it_value.tv_sec = 1; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  std::set_terminate(on_terminate);

  ElemDesc be{}; std::strcpy(be.name, "byte"); be.size = 1; be.align = 1; be.nm = 1; be.ty[0] = U8; g_byte_elem = const_cast<ElemDesc*>(sim_elem(&be));
  sim_register_all();
  OpDesc ed{}; std::strcpy(ed.name, "env.byte-stores"); ed.kind = K_ENV; ed.nin = 0; ed.W = 1; ed.M = 1; g_ops.push_back(ed); g_env_op = int(g_ops.size()) - 1;
  T_opcount.assign(g_ops.size(), 0);
  snap_init();
  fpenv_init();

  std::string progress; volatile u64* prog = nullptr;
  std::string replay, out, exe = argv[0]; u64 seed = 1, shard = 0, nshards = 1, runs = 1000, start = 0; double wall = 1e9; bool hashes = false; const char* hash_out = nullptr;
  if (auto s = exe.rfind('/'); s != std::string::npos) exe = exe.substr(s + 1);
  bool list = false, huge = false;
  for (int i = 1; i < argc; ++i)
    {
      std::string x = argv[i];
      auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
      if (x == "--prop") g_prop = std::atoi(nx());
      else if (x == "--seed") seed = std::strtoull(nx(), 0, 10);
      else if (x == "--runs") runs = std::strtoull(nx(), 0, 10);
      else if (x == "--start") start = std::strtoull(nx(), 0, 10);
      else if (x == "--shard") shard = std::strtoull(nx(), 0, 10);
      else if (x == "--nshards") nshards = std::strtoull(nx(), 0, 10);
      else if (x == "--wall") wall = std::atof(nx());
      else if (x == "--replay") replay = nx();
      else if (x == "--out") out = nx();
      else if (x == "--hashes") hashes = true;
      else if (x == "--hash-out") hash_out = nx();
      else if (x == "--progress") progress = nx();
      else if (x == "--trace") S.trace = true;
      else if (x == "--list") list = true;
      else if (x == "--huge") huge = true;
    }
  if (list) { for (auto& d : g_ops) std::printf("%s kind=%d W=%d M=%d align=%d flags=%x\n", d.name, d.kind, d.W, d.M, d.align, d.flags); return 0; }

  if (huge) return huge_main(seed, shard, nshards, replay, out);
  if (!replay.empty())
    {
      FILE* f = std::fopen(replay.c_str(), "r");
      if (!f) return 95;
      Plan p; std::map<std::string, std::string> hdr;
      bool ok = plan_parse(f, p, hdr);
      std::fclose(f);
      if (!ok) { std::fprintf(stderr, "sim: cannot parse replay file\n"); return 95; }
      if (hdr.count("property")) g_prop = std::atoi(hdr["property"].c_str() + 1);
      exec_checked(p, true, prop_differential());
      const u64 h = S.hash;
      for (auto& v : S.viol) if (belongs(v)) std::printf("violation class=%s: %s\n", vclass_name[v.c], v.what.c_str());
      std::printf("hash %016llx\n", (unsigned long long)h);
      bool cls = false; for (auto& v : S.viol) if (belongs(v) && hdr["class"] == vclass_name[v.c]) cls = true;
      const bool same = hdr.count("hash") && fmts("%016llx", (unsigned long long)h) == hdr["hash"];
      if (!same) std::printf("hash differs from the recorded one (%s)\n", hdr["hash"].c_str());
      return cls ? (same ? 1 : 4) : 3;
    }

  for (size_t i = 0; i < g_ops.size(); ++i)
    {
      if (g_ops[i].kind == K_ENV) continue;
      if (primary_kind(g_ops[i])) g_elig.push_back(int(i));
      if (g_ops[i].kind != K_BAD && !(g_prop != 8 && g_ops[i].kind == K_VAL)) g_bg.push_back(int(i));
    }
  if (g_bg.empty()) g_bg = g_elig;
  if (g_elig.empty()) { std::fprintf(stderr, "sim: no eligible operation\n"); return 94; }

  if (!progress.empty())
    {
      // current run number, readable by the driver even if this process dies
      int fd = ::open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && !::ftruncate(fd, 4096))
        { void* q = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (q != MAP_FAILED) prog = static_cast<volatile u64*>(q); }
      if (fd >= 0) ::close(fd);
    }
  std::unordered_set<u64> seen_nt;
  int rc = 0;
  const double t0 = now_s();
  std::string samples;
  int nsamples = 0;
  u64 done = 0;
  for (u64 r = start + shard; r < start + runs; r += nshards)
    {
      if (prog) *prog = r + 1;
      Plan p; Cfg c;
      Rng g(mix(seed, r));
      gen_plan(p, c, g, r);
      S.cfg = c; S.rng = Rng(mix(mix(seed, r), 0x5eed));
      exec_checked(p, false, prop_differential());
      ++done;
      const u64 h = S.hash;
      if (S.midop_switches || S.nfaults) { seen_nt.insert(S.sched_hash ^ mix(h, 1)); }
      if (hashes) std::printf("%llu %016llx %zu\n", (unsigned long long)r, (unsigned long long)h, S.rec.size());
      if (nsamples < 2 && S.midop_switches && S.nfaults && p.slots.size() <= 4)
        { p.dec = S.rec; samples += fmts("run %llu hash %016llx\n", (unsigned long long)r, (unsigned long long)h) + plan_text(p) + "\x1e"; ++nsamples; }
      if (const Violation* v0 = first_viol(-1))
        {
          Violation v = *v0;
          p.dec = S.rec;
          Plan raw = p;
          exec_checked(raw, true, prop_differential());
          const Violation* v1 = first_viol(int(v.c));
          if (!v1 || S.hash != h)
            {
              std::printf("NONDETERMINISM run %llu: first hash %016llx second %016llx, class %s %s\n", (unsigned long long)r, (unsigned long long)h, (unsigned long long)S.hash, vclass_name[v.c], v1 ? "again" : "not again");
              rc = 20;
              break;
            }
          minimise(p, int(v.c));
          exec_checked(p, true, prop_differential());
          v1 = first_viol(int(v.c));
          if (!v1) { p = raw; exec_checked(p, true, prop_differential()); v1 = first_viol(int(v.c)); }
          Violation fin = v1 ? *v1 : v;
          if (!out.empty()) write_replay(out.c_str(), exe.c_str(), p, fin, seed, r, S.hash);
          std::printf("FOUND run %llu class=%s %s\n", (unsigned long long)r, vclass_name[fin.c], fin.what.c_str());
          rc = 10;
          break;
        }
      if (now_s() - t0 > wall) break;
    }
  const double dt = now_s() - t0;
  std::printf("STAT runs %llu\nSTAT points %llu\nSTAT ops %llu\nSTAT switches %llu\nSTAT midop_switches %llu\nSTAT callbacks %llu\nSTAT seconds %.3f\nSTAT distinct %zu\nSTAT eligible %zu\n",
              (unsigned long long)done, (unsigned long long)T_points, (unsigned long long)T_ops, (unsigned long long)T_switch, (unsigned long long)T_mid, (unsigned long long)T_callbacks, dt, seen_nt.size(), g_elig.size());
  for (int i = 0; i < A_N; ++i) std::printf("FAULT %s %llu\n", act_name[i], (unsigned long long)T_faults[i]);
  for (auto& x : T_probe) std::printf("PROBE %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
  u64 never = 0, mn = ~0ull; for (int o : g_elig) { if (!T_opcount[o]) ++never; mn = std::min(mn, T_opcount[o]); }
  std::printf("STAT eligible_never_run %llu\nSTAT eligible_min_runs %llu\n", (unsigned long long)never, (unsigned long long)mn);
  if (!samples.empty()) { std::string e; for (char ch : samples) { if (ch == '\n') e += "\\n"; else e += ch; } std::printf("SAMPLES %s\n", e.c_str()); }
  if (hash_out)
    { FILE* f = std::fopen(hash_out, "wb"); if (f) { for (u64 x : seen_nt) std::fwrite(&x, 8, 1, f); std::fclose(f); } }
  std::fflush(stdout);
  return rc;
}
