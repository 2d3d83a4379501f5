// Deterministic simulator core.  Uninstrumented; linked as libsimcore.so.
//
// Caller threads are fibers inside this one OS thread.  Every memory access the library makes
// outside its own stack frame, every entry to / exit from a user callable, every allocation and
// every lock operation is a scheduling point; at each of them the scheduler (PRNG or replay list)
// decides who runs next and which fault fires.
#include "sim.h"
#include <algorithm>
#include <array>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <pthread.h>

using namespace sim;
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

// ------------------------------------------------------------------ PRNG
struct Rng
{
  u64 s;
  explicit Rng(u64 x = 0) : s(x) {}
  u64 next()
  {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + i64(below(u64(b - a + 1))); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
static u64 mix(u64 a, u64 b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15)); r.next(); return r.next(); }

// ------------------------------------------------------------------ registry
static std::vector<ElemDesc*> g_elems;
static std::vector<OpDesc> g_ops;
static int g_env_op = -1;
static ElemDesc* g_byte_elem;

extern "C" const ElemDesc* sim_elem(const ElemDesc* e)
{
  for (auto* x : g_elems) if (!std::strcmp(x->name, e->name)) return x;
  auto* n = new ElemDesc(*e);
  g_elems.push_back(n);
  return n;
}
extern "C" void sim_register(const OpDesc* d) { g_ops.push_back(*d); }
static std::vector<HugeDesc> g_huge_ops;
extern "C" void sim_register_huge(const HugeDesc* d) { g_huge_ops.push_back(*d); }
static int op_by_name(const std::string& s)
{
  for (size_t i = 0; i < g_ops.size(); ++i) if (s == g_ops[i].name) return int(i);
  return -1;
}

// ------------------------------------------------------------------ arena
static constexpr u64 ARENA = 0x510000100000ull;
static constexpr size_t ARENA_SZ = 16 * 1024 * 1024;
static constexpr u64 STK = 0x520000000000ull;
static constexpr size_t STK_SZ = 512 * 1024;
static constexpr int MAXF = 5;
static u8* const mem = reinterpret_cast<u8*>(ARENA);
static u8 shadow[ARENA_SZ];

static bool in_arena(u64 a) { return a >= ARENA && a < ARENA + ARENA_SZ; }

// ------------------------------------------------------------------ scalar model (int64)
static const int ty_size[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1};
static i64 rd(Ty t, const void* p)
{
  switch (t)
  {
    case I8: { int8_t v; std::memcpy(&v, p, 1); return v; }
    case U8: { uint8_t v; std::memcpy(&v, p, 1); return v; }
    case I16: { int16_t v; std::memcpy(&v, p, 2); return v; }
    case U16: { uint16_t v; std::memcpy(&v, p, 2); return v; }
    case I32: { int32_t v; std::memcpy(&v, p, 4); return v; }
    case U32: { uint32_t v; std::memcpy(&v, p, 4); return v; }
    case I64: { int64_t v; std::memcpy(&v, p, 8); return v; }
    case U64: { uint64_t v; std::memcpy(&v, p, 8); return i64(v); }
    case F32: { float v; std::memcpy(&v, p, 4); if (!(v > -1e18f && v < 1e18f)) { u32 b; std::memcpy(&b, p, 4); return i64(0x7ff0000000000000ll) ^ b; }
                if (float(i64(v)) != v) { u32 b; std::memcpy(&b, p, 4); return i64(0x7fe0000000000000ll) ^ b; } return i64(v); }
    case F64: { double v; std::memcpy(&v, p, 8); if (!(v > -1e18 && v < 1e18)) { u64 b; std::memcpy(&b, p, 8); return i64(0x7ff0000000000000ll ^ (b >> 12)); }
                if (double(i64(v)) != v) { u64 b; std::memcpy(&b, p, 8); return i64(0x7fe0000000000000ll ^ (b >> 12)); } return i64(v); }
    case BL: { u8 v; std::memcpy(&v, p, 1); return v; }
  }
  return 0;
}
static void wr(Ty t, void* p, i64 x)
{
  switch (t)
  {
    case I8: case U8: { int8_t v = int8_t(x); std::memcpy(p, &v, 1); break; }
    case I16: case U16: { int16_t v = int16_t(x); std::memcpy(p, &v, 2); break; }
    case I32: case U32: { int32_t v = int32_t(x); std::memcpy(p, &v, 4); break; }
    case I64: case U64: { std::memcpy(p, &x, 8); break; }
    case F32: { float v = float(x); std::memcpy(p, &v, 4); break; }
    case F64: { double v = double(x); std::memcpy(p, &v, 8); break; }
    case BL: { u8 v = x != 0; std::memcpy(p, &v, 1); break; }
  }
}
static i64 rdraw(Ty t, const void* p) { i64 x = 0; std::memcpy(&x, p, size_t(ty_size[t])); return x; }
static bool is_nan(Ty t, const void* p) { if (t == F32) { float v; std::memcpy(&v, p, 4); return v != v; } if (t == F64) { double v; std::memcpy(&v, p, 8); return v != v; } return false; }
template <class F> static auto with_ty(Ty t, F&& f)
{
  switch (t)
  {
    case I8: return f(int8_t()); case U8: return f(uint8_t()); case I16: return f(int16_t()); case U16: return f(uint16_t());
    case I32: return f(int32_t()); case U32: return f(uint32_t()); case I64: return f(int64_t()); case U64: return f(uint64_t());
    case F32: return f(float()); case F64: return f(double()); default: return f(bool());
  }
}
// the bits of static_cast<b>(x), x given by its bits in type a
static i64 cvt_bits(Ty a, Ty b, i64 bits)
{
  return with_ty(a, [&](auto x) { std::memcpy(&x, &bits, sizeof x); return with_ty(b, [&](auto y) { y = static_cast<decltype(y)>(x); i64 r = 0; std::memcpy(&r, &y, sizeof y); return r; }); });
}
static i64 cvt_lane_bits(Ty t, i64 k, u64 i, i64 bits)
{ return with_ty(t, [&](auto x) { if constexpr (!std::is_same_v<decltype(x), bool>) x = sim::cvt_lane<decltype(x)>(k, int(i), bits); i64 r = 0; std::memcpy(&r, &x, sizeof x); return r; }); }
static u64 raw_lane(i64 k, u64 i)
{ u64 z = (u64(k) + 1) * 0x9e3779b97f4a7c15ull + i * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; z ^= z >> 32; return z; }
static i64 wrap_ty(Ty t, i64 x) { u8 b[8]; wr(t, b, x); return rd(t, b); }
static void ty_range(Ty t, i64& lo, i64& hi)
{
  switch (t)
  {
    case I8: lo = -110; hi = 110; break;
    case U8: lo = 0; hi = 240; break;
    case I16: lo = -32000; hi = 32000; break;
    case U16: lo = 0; hi = 65000; break;
    case I32: lo = -1000000000; hi = 1000000000; break;
    case U32: lo = 0; hi = 4000000000ll; break;
    case I64: lo = -(1ll << 60); hi = 1ll << 60; break;
    case U64: lo = 0; hi = 1ll << 61; break;
    case F32: lo = -8000000; hi = 8000000; break;
    case F64: lo = -(1ll << 51); hi = 1ll << 51; break;
    case BL: lo = 0; hi = 1; break;
  }
}

// ------------------------------------------------------------------ plan
struct Region { u32 off = 0, len = 0; const ElemDesc* el = nullptr; int mode = 0; i64 lo = 0, hi = 0; u64 seed = 0; };
struct Slot { int op = 0, thread = 0; u64 n = 0; i64 k = 0, init = 0; u64 mask = 0; int reg[4] = {-1, -1, -1, -1}; };
enum Act : u8 { A_SWITCH, A_KILL, A_SIGOP, A_NEST, A_THROW, A_STALL, A_ALLOCFAIL, A_N };
static const char* act_name[] = {"switch", "kill", "sigop", "nest", "throw", "stall", "allocfail"};
struct Decision { u8 fiber; u32 step; Act act; int arg; };
static constexpr u32 STEP_END = 0x80000000u;

struct Plan
{
  std::vector<Region> regs;
  std::vector<Slot> slots;   // thread >= 0: program order of that thread; thread < 0: pool (nested / signal)
  int threads = 1;
  std::vector<Decision> dec;
  bool recover = false;      // re-run killed operations afterwards
  std::string note;
};

// ------------------------------------------------------------------ run state
enum VClass : u8 { V_FE, V_TR, V_RED, V_CNT, V_FOOT, V_EXC, V_TORN, V_CONC, V_MLS, V_LS, V_PROG, V_FAILSTOP, V_POLICY, V_FAULT, V_HANG, V_N };
static const char* vclass_name[] = {"for_each-result", "transform-result", "reduce-result", "count-result", "footprint", "exception", "torn-state",
  "differs-from-solo", "masked-access", "load-store", "progress", "fail-stop", "policy", "unexpected-fault", "hang"};

struct Violation { VClass c; Kind kind; std::string what; int slot; u64 at; };

enum Pt : u8 { P_READ, P_WRITE, P_ENTER, P_LEAVE, P_ALLOC, P_GLOBAL, P_BEGIN, P_END, P_ENV, P_LOCK };
static const char* pt_name[] = {"read", "write", "enter", "leave", "alloc", "static", "begin", "end", "env", "lock"};

struct Range { u64 lo = 0, hi = 0; bool rd = false, wr = false; const ElemDesc* el = nullptr; bool masked = false; };
struct Chunk { u32 first, w; };
struct Inv { u8 which; u32 nargs; u32 c0, c1; };

enum Status : u8 { ST_NONE, ST_RUN, ST_DONE, ST_EXC, ST_DEAD, ST_TRAP };
struct OpState
{
  int slot = -1;
  const OpDesc* d = nullptr;
  OpCtx ctx{};
  Range r[4]; int nr = 0;
  u64 mask = ~0ull;
  // the writable range
  u64 wlo = 0, whi = 0; const ElemDesc* wel = nullptr; u64 wn = 0;
  std::vector<u8> oldv, newv;
  i64 exp_ret = 0; bool has_ret = false;
  std::vector<u64> exp_lanes;      // hash of the element tuple i
  std::vector<u64> lanes;          // as observed
  std::vector<Chunk> chunks;
  std::vector<Inv> invs;
  std::vector<u8> result;          // from sim_result
  std::vector<u8> exp_result; bool has_exp_result = false;
  u32 col = 0;
  bool throwing = false; u64 exc_id = 0; bool after_throw_call = false; int throw_inv = -1; bool late = false;
  bool in_cb = false; int cb_which = 0;
  Status st = ST_NONE;
  u64 steps = 0, acc = 0, writes = 0, cbs = 0;
  bool allocfail = false;
  int msgs = 0; std::string msg;
};

struct Outcome { Status st = ST_NONE; i64 ret = 0; i64 ret_it = -1; u64 memhash = 0, cbhash = 0, reshash = 0; };

enum FState : u8 { FS_NEW, FS_READY, FS_BLOCKED, FS_STALLED, FS_DEAD, FS_DONE };
struct EhGlobals { void* caught; unsigned uncaught; };
struct Fiber
{
  int id = 0;
  void* sp = nullptr;
  u64 lo = 0, hi = 0;
  FState st = FS_DONE;
  std::vector<int> prog;
  std::vector<OpState*> frames;
  u32 step = 0;
  bool in_lib = false;
  u64 pend_lo = 0, pend_hi = 0;
  void* block_on = nullptr;
  EhGlobals eh{};
  std::vector<u8> tls;
  u64 prio = 0;
  bool recovery = false;
  bool crashed = false;
};

struct Cfg   // per run (swarm)
{
  int strat = 0; double p = 0.1;
  double kill_p = 0, sig_p = 0, nest_p = 0, throw_p = 0, stall_p = 0;
  bool alloc_fail = false;
  int max_faults = 0;
  std::vector<u32> pct; // change points (global step)
};

static struct Sim
{
  Fiber f[MAXF];
  Fiber* cur = nullptr;
  void* main_sp = nullptr;
  Plan* plan = nullptr;
  Cfg cfg;
  Rng rng;
  bool replay = false;
  std::map<std::pair<int, u32>, std::vector<Decision>> rep;
  std::vector<Decision> rec;
  u64 gstep = 0, hash = 0, sched_hash = 0;
  u64 switches = 0, midop_switches = 0;
  u64 faults[A_N] = {};
  int nfaults = 0;
  bool finishing = false;
  std::vector<Violation> viol;
  std::vector<Outcome> out;
  std::vector<u8> pool_used;
  u64 step_cap = 400000;
  bool aborted = false;
  int nthreads = 0;
  u64 exc_ctr = 0;
  // fault landing info
  int sig = 0; u64 sigaddr = 0;
  bool trace = false;
  std::vector<OpState*> live;
  u64 op_done[16] = {};
  std::vector<int> killed_slots;
  bool solo = false;
} S;

// stats
static u64 T_runs, T_points, T_ops, T_switch, T_mid, T_callbacks, T_steps_sim;
static u64 T_faults[A_N];
static u64 T_kind[16];
static std::vector<u64> T_opcount;
static std::map<std::string, u64> T_probe;
#define PROBE(name) do { static u64& _c = T_probe[name]; ++_c; } while (0)

static void hash_add(u64 x) { S.hash = (S.hash ^ x) * 0x100000001b3ull; S.hash ^= S.hash >> 29; }

static void tracef(const char* fmt, ...)
{
  if (!S.trace) return;
  va_list ap; va_start(ap, fmt); std::vprintf(fmt, ap); va_end(ap);
}

static std::string fmts(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static std::string fmts(const char* fmt, ...)
{
  char buf[1200]; va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  return buf;
}

static void violate(VClass c, OpState* o, const std::string& w)
{
  if (S.viol.size() < 64)
    {
      Violation v{c, o ? o->d->kind : K_ENV, w, o ? o->slot : -1, S.gstep};
      if (o) v.what += fmts(" [op %s n=%llu]", o->d->name, (unsigned long long)S.plan->slots[o->slot].n);
      tracef("  !! %s: %s\n", vclass_name[c], v.what.c_str());
      S.viol.push_back(v);
    }
}

// ------------------------------------------------------------------ exe image snapshot (hidden state of the library)
struct Seg { u8* p; size_t n; std::vector<u8> img; };
static std::vector<Seg> g_segs;
static size_t g_tls_size; static u8* g_tls_base; static std::vector<u8> g_tls_img;

static int phdr_cb(dl_phdr_info* info, size_t, void*)
{
  static bool first = true;
  if (!first) return 0;
  first = false; // first entry is the main program
  u64 relro_lo = 0, relro_hi = 0;
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO)
      { relro_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr; relro_hi = (relro_lo + info->dlpi_phdr[i].p_memsz) & ~4095ull; }
  for (int i = 0; i < info->dlpi_phnum; ++i)
    {
      auto& ph = info->dlpi_phdr[i];
      if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W))
        {
          u64 lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
          if (relro_hi > lo) lo = relro_hi;
          if (hi > lo) g_segs.push_back({reinterpret_cast<u8*>(lo), size_t(hi - lo), {}});
        }
      if (ph.p_type == PT_TLS)
        {
          g_tls_size = (ph.p_memsz + ph.p_align - 1) / ph.p_align * ph.p_align;
          u64 fs; asm("mov %%fs:0, %0" : "=r"(fs));
          g_tls_base = reinterpret_cast<u8*>(fs - g_tls_size);
        }
    }
  return 0;
}
static void snap_init()
{
  dl_iterate_phdr(phdr_cb, nullptr);
  for (auto& s : g_segs) s.img.assign(s.p, s.p + s.n);
  if (g_tls_size) g_tls_img.assign(g_tls_base, g_tls_base + g_tls_size);
}
static void snap_restore()
{
  for (auto& s : g_segs) std::memcpy(s.p, s.img.data(), s.n);
  if (g_tls_size) std::memcpy(g_tls_base, g_tls_img.data(), g_tls_size);
}

// ------------------------------------------------------------------ fiber switching
extern "C" void sim_swap(void** save, void* to);
asm(R"(
.text
.globl sim_swap
.hidden sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
.globl sim_fiber_entry
.hidden sim_fiber_entry
.type sim_fiber_entry,@function
sim_fiber_entry:
  xorl %ebp, %ebp
  call sim_fiber_main
  ud2
.size sim_fiber_entry,.-sim_fiber_entry
)");
extern "C" void sim_fiber_entry();
extern "C" __attribute__((noreturn, visibility("hidden"), used)) void sim_fiber_main();

static EhGlobals* ehg() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

static void to_main()   // called on a fiber
{
  Fiber* f = S.cur;
  f->eh = *ehg();
  if (g_tls_size) std::memcpy(f->tls.data(), g_tls_base, g_tls_size);
  sim_swap(&f->sp, S.main_sp);
}
static void to_fiber(Fiber* f)   // called on main
{
  S.cur = f;
  *ehg() = f->eh;
  if (g_tls_size) std::memcpy(g_tls_base, f->tls.data(), g_tls_size);
  sim_swap(&S.main_sp, f->sp);
  S.cur = nullptr;
}
static void fiber_init(Fiber& f, int id)
{
  f = Fiber();
  f.id = id;
  f.lo = STK + u64(id) * (STK_SZ + 65536) ; f.hi = f.lo + STK_SZ;
  std::memset(reinterpret_cast<void*>(f.hi - 16384), 0, 16384);
  u64* sp = reinterpret_cast<u64*>(f.hi - 64);
  *--sp = 0;
  *--sp = 0;
  *--sp = reinterpret_cast<u64>(&sim_fiber_entry);
  for (int i = 0; i < 6; ++i) *--sp = 0;
  --sp;
  u32 mx; asm volatile("stmxcsr %0" : "=m"(mx)); uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw));
  u32* q = reinterpret_cast<u32*>(sp); q[0] = mx; q[1] = cw;
  f.sp = sp;
  f.st = FS_READY;
  f.eh = {};
  if (g_tls_size) f.tls = g_tls_img;
}

// ------------------------------------------------------------------ op preparation / model
static u64 tup_hash(u64 h, i64 v) { h = (h ^ u64(v)) * 0x9fb21c651e98df25ull; return h ^ (h >> 31); }
static constexpr u64 TUP0 = 0x1234567;

static void op_prepare(OpState& o, int slot)
{
  const Slot& s = S.plan->slots[slot];
  const OpDesc& d = g_ops[s.op];
  o.slot = slot; o.d = &d; o.st = ST_RUN;
  o.mask = s.mask;
  auto& c = o.ctx;
  c.n = s.n; c.k = s.k; c.init = s.init; c.mask = s.mask; c.ret = 0; c.ret_it = nullptr; c.priv = &o;
  auto addr = [&](int i) -> u64 { return s.reg[i] < 0 ? 0 : ARENA + S.plan->regs[s.reg[i]].off; };
  const bool masked_l = d.flags & F_MLOAD, masked_s = d.flags & F_MSTORE;
  for (int i = 0; i < d.nin; ++i)
    {
      c.in[i] = reinterpret_cast<void*>(addr(i));
      Range r; r.lo = addr(i); r.hi = r.lo + s.n * d.in[i]->size; r.rd = true; r.el = d.in[i];
      r.masked = masked_l;
      if (d.kind == K_FE && (d.flags & F_WB)) r.wr = true;
      o.r[o.nr++] = r;
    }
  if (d.out && s.reg[3] >= 0)
    {
      c.out = reinterpret_cast<void*>(addr(3));
      Range r; r.lo = addr(3); r.hi = r.lo + s.n * d.out->size; r.wr = true; r.el = d.out; r.masked = masked_s;
      bool merged = false;
      for (int i = 0; i < o.nr; ++i) if (o.r[i].lo == r.lo && s.reg[3] == s.reg[i]) { o.r[i].wr = true; merged = true; }
      if (!merged) o.r[o.nr++] = r;
    }
  if (d.kind == K_ENV)
    {
      Range r; r.lo = addr(3); r.hi = r.lo + s.n; r.wr = r.rd = true; r.el = g_byte_elem; o.r[o.nr++] = r;
      c.out = reinterpret_cast<void*>(r.lo);
    }
  for (int i = 0; i < o.nr; ++i)
    if (o.r[i].wr && o.r[i].hi > o.r[i].lo)
      { o.wlo = o.r[i].lo; o.whi = o.r[i].hi; o.wel = o.r[i].el; o.wn = s.n; }
  // memory must be what the model believes
  for (int i = 0; i < o.nr; ++i)
    {
      const Range& r = o.r[i];
      if (r.hi > r.lo && std::memcmp(reinterpret_cast<void*>(r.lo), shadow + (r.lo - ARENA), r.hi - r.lo))
        {
          if (d.kind != K_ENV)
            violate(V_FOOT, nullptr, fmts("memory of slot %d changed while no call owned it", slot));
          std::memcpy(shadow + (r.lo - ARENA), reinterpret_cast<void*>(r.lo), r.hi - r.lo);
        }
    }
  if (o.whi > o.wlo)
    {
      o.oldv.assign(reinterpret_cast<u8*>(o.wlo), reinterpret_cast<u8*>(o.whi));
      o.newv = o.oldv;
    }
  auto inv = [&](int a, u64 i, int m) -> i64 {
    const u8* q = static_cast<u8*>(c.in[a]) + i * d.in[a]->size + d.in[a]->off[m];
    return d.sem == S_RAW ? rdraw(d.in[a]->ty[m], q) : d.sem == S_CVT ? cvt_bits(d.in[a]->ty[m], d.rty, rdraw(d.in[a]->ty[m], q)) : rd(d.in[a]->ty[m], q);
  };
  const u64 n = s.n;
  auto setnew = [&](u64 i, int m, i64 v) { if (d.sem == S_RAW || d.sem == S_CVT) std::memcpy(o.newv.data() + i * o.wel->size + o.wel->off[m], &v, size_t(ty_size[o.wel->ty[m]])); else wr(o.wel->ty[m], o.newv.data() + i * o.wel->size + o.wel->off[m], v); };
  switch (d.kind)
  {
    case K_FE: case K_TR: case K_LS:
      if (d.kind != K_LS && !(d.flags & F_NOCB))
        {
          o.exp_lanes.resize(n);
          for (u64 i = 0; i < n; ++i)
            {
              u64 h = TUP0;
              for (int a = 0; a < d.nin; ++a) for (int m = 0; m < d.in[a]->nm; ++m) h = tup_hash(h, inv(a, i, m));
              o.exp_lanes[i] = h;
            }
        }
      if (d.kind == K_LS)
        {
          o.has_exp_result = true;
          for (u64 i = 0; i < n; ++i)
            for (int m = 0; m < d.in[0]->nm; ++m) { i64 x = inv(0, i, m); const u8* q = reinterpret_cast<u8*>(&x); o.exp_result.insert(o.exp_result.end(), q, q + 8); }
        }
      if (o.wel)
        for (u64 i = 0; i < n; ++i)
          for (int m = 0; m < o.wel->nm; ++m)
            {
              i64 v = 0;
              switch (d.sem)
              {
                case S_ADD: v = inv(0, i, m % d.in[0]->nm) + s.k + m; break;
                case S_ADD2: v = inv(0, i, m % d.in[0]->nm) + 2 * inv(1, i, m % d.in[1]->nm) + s.k + m; break;
                case S_ADD3: v = inv(0, i, m % d.in[0]->nm) + inv(1, i, m % d.in[1]->nm) + inv(2, i, m % d.in[2]->nm) + s.k + m; break;
                case S_COPY: case S_RAW: v = inv(0, i, m % d.in[0]->nm); break;
                case S_CVT: v = cvt_bits(d.rty, o.wel->ty[m], inv(0, i, 0)); break;
                default: break;
              }
              setnew(i, m, v);
            }
      break;
    case K_RED:
      {
        o.has_ret = true;
        if (!(d.flags & F_NOCB))
          {
            o.exp_lanes.resize(n);
            for (u64 i = 0; i < n; ++i)
              {
                u64 h = TUP0;
                for (int a = 0; a < d.nin; ++a) for (int m = 0; m < d.in[a]->nm; ++m) h = tup_hash(h, inv(a, i, m));
                o.exp_lanes[i] = h;
              }
          }
        i64 acc = (d.flags & F_INIT0) ? 0 : s.init;
        for (u64 i = 0; i < n; ++i)
          {
            i64 x = 0;
            switch (d.sem)
            {
              case S_SUMK: for (int m = 0; m < d.in[0]->nm; ++m) x += inv(0, i, m); x = 2 * x + 1; break;
              case S_DOT: x = inv(0, i, 0) * inv(1, i, 0); break;
              case S_MAXD: x = inv(0, i, 0) + inv(1, i, 0); break;
              default: x = inv(0, i, 0);
            }
            switch (d.sem)
            {
              case S_MAX: case S_MAXD: acc = std::max(acc, x); break;
              case S_MIN: acc = std::min(acc, x); break;
              case S_XOR: acc ^= x; break;
              case S_MUL: acc = i64(u64(acc) * u64(x)); break;
              case S_AND: acc &= x; break;
              case S_OR: acc |= x; break;
              default: acc = i64(u64(acc) + u64(x));
            }
          }
        o.exp_ret = wrap_ty(d.rty, acc);
        break;
      }
    case K_CNT:
      {
        o.has_ret = true;
        i64 c2 = 0;
        o.exp_lanes.resize(n);
        for (u64 i = 0; i < n; ++i)
          {
            u64 h = TUP0;
            for (int m = 0; m < d.in[0]->nm; ++m) h = tup_hash(h, inv(0, i, m));
            o.exp_lanes[i] = h;
            i64 x = inv(0, i, 0);
            c2 += d.sem == S_LT ? x < s.k : d.sem == S_EQ ? x == s.k : d.sem == S_RAW ? !is_nan(d.in[0]->ty[0], static_cast<u8*>(c.in[0]) + i * d.in[0]->size + d.in[0]->off[0]) : true;
          }
        o.exp_ret = c2;
        break;
      }
    case K_MLS:
      if (d.flags & F_MSTORE)
        {
          // value vector: lane i holds k + i (bool: (k>>i)&1)
          for (u64 i = 0; i < n; ++i)
            if (s.mask >> i & 1)
              setnew(i, 0, d.sem == S_CVT ? cvt_bits(d.rty, o.wel->ty[0], cvt_lane_bits(d.rty, s.k, i, s.init)) : d.sem == S_RAW ? i64(raw_lane(s.k, i)) : o.wel->ty[0] == BL ? (s.k >> (i & 31)) & 1 : s.k + i64(i));
        }
      if (d.flags & F_MLOAD)
        {
          o.has_exp_result = true;
          o.exp_result.resize(n * d.out->size);
          for (u64 i = 0; i < n; ++i)
            {
              i64 v = (s.mask >> i & 1) ? inv(0, i, 0) : (d.flags & F_INIT0) ? 0 : d.sem == S_RAW ? i64(raw_lane(s.k, i)) : d.out->ty[0] == BL ? (s.k >> (i & 31)) & 1 : s.k + i64(i);
              if (d.sem == S_RAW || (d.sem == S_CVT && (s.mask >> i & 1))) std::memcpy(o.exp_result.data() + i * d.out->size, &v, d.out->size);
              else wr(d.out->ty[0], o.exp_result.data() + i * d.out->size, v);
            }
        }
      break;
    default: break;
  }
}

// every scalar of the writable range overlapping [lo,hi) must be old or new
static bool chk_old_new(OpState& o, u64 lo, u64 hi, bool need_new, bool need_old, std::string* why)
{
  if (!o.wel) return true;
  lo = std::max(lo, o.wlo); hi = std::min(hi, o.whi);
  if (lo >= hi) return true;
  const ElemDesc& e = *o.wel;
  u64 i0 = (lo - o.wlo) / e.size, i1 = (hi - 1 - o.wlo) / e.size;
  for (u64 i = i0; i <= i1; ++i)
    for (int m = 0; m < e.nm; ++m)
      {
        u64 off = i * e.size + e.off[m];
        int sz = ty_size[e.ty[m]];
        if (o.wlo + off + sz <= lo || o.wlo + off >= hi) continue;
        const u8* p = reinterpret_cast<u8*>(o.wlo) + off;
        bool is_old = !std::memcmp(p, o.oldv.data() + off, sz), is_new = !std::memcmp(p, o.newv.data() + off, sz);
        if ((need_new && !is_new) || (need_old && !is_old) || (!is_old && !is_new))
          {
            *why = fmts("element %llu member %d is %lld (old %lld, new %lld)", (unsigned long long)i, m, (long long)rd(e.ty[m], p),
                        (long long)rd(e.ty[m], o.oldv.data() + off), (long long)rd(e.ty[m], o.newv.data() + off));
            return false;
          }
      }
  return true;
}

static VClass func_class(Kind k)
{
  switch (k)
  {
    case K_FE: return V_FE; case K_TR: return V_TR; case K_RED: return V_RED; case K_CNT: return V_CNT;
    case K_LS: return V_LS; case K_MLS: return V_MLS; default: return V_CONC;
  }
}

static void flush_pending(Fiber* f)
{
  if (f->pend_hi)
    {
      u64 lo = f->pend_lo, hi = f->pend_hi;
      f->pend_lo = f->pend_hi = 0;
      if (!f->frames.empty())
        {
          OpState& o = *f->frames.back();
          std::string why;
          if (!chk_old_new(o, lo, hi, false, false, &why)) violate(V_TORN, &o, "value that is neither old nor new became visible: " + why);
        }
    }
}

static void commit_shadow(OpState& o)
{
  if (o.whi > o.wlo) std::memcpy(shadow + (o.wlo - ARENA), reinterpret_cast<void*>(o.wlo), o.whi - o.wlo);
}

static u64 memhash(OpState& o)
{
  u64 h = 77;
  if (o.wel)
    for (u64 i = 0; i < o.wn; ++i) for (int m = 0; m < o.wel->nm; ++m)
      h = tup_hash(h, rd(o.wel->ty[m], reinterpret_cast<u8*>(o.wlo) + i * o.wel->size + o.wel->off[m]));
  return h;
}

static void check_policy(OpState& o)
{
  const OpDesc& d = *o.d;
  const Slot& s = S.plan->slots[o.slot];
  if (d.flags & F_NOCB) return;
  const u64 n = s.n;
  u64 full = 0; u64 mcalls = 0;
  for (auto& iv : o.invs)
    {
      if (iv.which != 0) continue;
      const bool unroll_args = d.kind == K_FE && d.M > 1;
      if (iv.nargs != 1 && !(unroll_args && int(iv.nargs) == d.M))
        { violate(V_POLICY, &o, fmts("callable invoked with %u chunks (unroll factor %d)", iv.nargs, d.M)); return; }
      if (iv.nargs > 1) ++mcalls;
      for (u32 c = iv.c0; c < iv.c1; ++c)
        {
          u32 w = o.chunks[c].w;
          if ((d.flags & F_SIZED) && int(w) > d.W) { violate(V_POLICY, &o, fmts("chunk of width %u exceeds the chosen width %d", w, d.W)); return; }
          if (iv.nargs > 1 && int(w) != d.W) { violate(V_POLICY, &o, fmts("unrolled chunk of width %u, expected %d", w, d.W)); return; }
          if ((d.flags & F_MATCH) && int(w) != d.W)
            { violate(V_POLICY, &o, fmts("chunk of width %u although the size is a multiple of %d by contract", w, d.W)); return; }
          if (int(w) == d.W) ++full;
        }
    }
  // enough elements: the preferred width has to be used (a prologue takes fewer than one aligned chunk)
  const u64 slack = d.align && (d.flags & (F_ALIGNED | F_AUTO)) ? u64(d.align) / (d.kind == K_TR ? d.out->size : d.in[0]->size) : 0;
  if ((d.flags & F_SIZED) && d.W > 1 && n >= u64(d.W) + slack)
    {
      const u64 mn = (n - slack) / d.W;
      if (full < mn) { violate(V_POLICY, &o, fmts("only %llu chunks of the requested width %d for %llu elements", (unsigned long long)full, d.W, (unsigned long long)n)); return; }
    }
  if (d.kind == K_FE && d.M > 1 && n >= u64(d.W) * d.M + slack && mcalls < (n - slack) / (u64(d.W) * d.M))
    { violate(V_POLICY, &o, fmts("only %llu unrolled calls with %d chunks for %llu elements", (unsigned long long)mcalls, d.M, (unsigned long long)n)); return; }
  if ((d.flags & F_ALIGNED) && d.align && d.W > 1)
    {
      // full-width chunks must start at aligned addresses of the aligned range
      std::unordered_map<u64, i64> idx; // hash -> index, -1 if ambiguous
      for (u64 i = 0; i < n; ++i) { auto it = idx.emplace(o.exp_lanes[i], i64(i)); if (!it.second) it.first->second = -1; }
      const u64 base = d.kind == K_TR ? u64(o.ctx.out) : u64(o.ctx.in[0]);
      const u64 es = d.kind == K_TR ? d.out->size : d.in[0]->size;
      for (auto& c : o.chunks)
        if (int(c.w) == d.W && c.first < o.lanes.size())
          {
            auto it = idx.find(o.lanes[c.first]);
            if (it == idx.end() || it->second < 0) continue;
            if ((base + it->second * es) % d.align)
              { violate(V_POLICY, &o, fmts("full-width chunk at element %lld starts at a misaligned address (align %d)", (long long)it->second, d.align)); return; }
            PROBE("aligned-chunk-verified");
          }
    }
}

static void check_lanes(OpState& o, VClass c)
{
  if (o.d->flags & F_NOCB) return;
  if (o.lanes.size() != o.exp_lanes.size())
    { violate(c, &o, fmts("callable saw %zu elements, the range has %zu", o.lanes.size(), o.exp_lanes.size())); return; }
  if (o.lanes.size() > 40000)   // giant ranges: compare as multisets by a sum of hashes, no lane order
    {
      u64 x = 0, y = 0;
      for (u64 h : o.lanes) x += mix(h, 11);
      for (u64 h : o.exp_lanes) y += mix(h, 11);
      if (x != y) violate(c, &o, "callable did not see every element of the range exactly once");
      PROBE("giant-range-verified");
      return;
    }
  std::vector<u64> a = o.lanes, b = o.exp_lanes;
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  if (a != b) { violate(c, &o, "callable did not see every element of the range exactly once"); return; }
  // neighbouring lanes of a chunk are neighbouring elements
  std::unordered_map<u64, i64> idx; // hash -> index, -1 if ambiguous
  for (u64 i = 0; i < o.exp_lanes.size(); ++i) { auto it = idx.emplace(o.exp_lanes[i], i64(i)); if (!it.second) it.first->second = -1; }
  for (auto& k : o.chunks)
    {
      i64 prev = -1;
      for (u32 l = 0; l < k.w && k.first + l < o.lanes.size(); ++l)
        {
          const i64 i = idx[o.lanes[k.first + l]];
          if (i >= 0 && prev >= 0 && i != prev + 1)
            { violate(c, &o, fmts("lanes %u and %u of a chunk hold elements %lld and %lld", l - 1, l, (long long)prev, (long long)i)); return; }
          prev = i;
          if (i >= 0) PROBE("lane-order-verified");
        }
    }
}

static void op_finish(OpState& o)   // normal return
{
  const OpDesc& d = *o.d;
  const Slot& s = S.plan->slots[o.slot];
  o.st = ST_DONE;
  std::string why;
  const VClass fc = func_class(d.kind);
  if (o.throwing)
    violate(V_EXC, &o, "exception thrown by the callable was swallowed: the call returned normally");
  else switch (d.kind)
  {
    case K_FE: case K_TR: case K_LS:
      if (!chk_old_new(o, o.wlo, o.whi, true, false, &why)) violate(fc, &o, "wrong result after return: " + why);
      if ((d.flags & F_RETIT) && o.ctx.ret_it != static_cast<u8*>(o.ctx.out) + s.n * d.out->size)
        violate(fc, &o, fmts("returned iterator is off by %lld bytes", (long long)(static_cast<u8*>(o.ctx.ret_it) - (static_cast<u8*>(o.ctx.out) + s.n * d.out->size))));
      if (d.kind != K_LS) { check_lanes(o, fc); check_policy(o); }
      else if (o.result != o.exp_result)
        {
          u64 i = 0; while (i + 8 <= o.result.size() && i + 8 <= o.exp_result.size() && !std::memcmp(&o.result[i], &o.exp_result[i], 8)) i += 8;
          i64 a = 0, b = 0; if (i + 8 <= o.result.size()) std::memcpy(&a, &o.result[i], 8); if (i + 8 <= o.exp_result.size()) std::memcpy(&b, &o.exp_result[i], 8);
          violate(fc, &o, fmts("lane %llu member %llu of the loaded vector is %lld, memory held %lld", (unsigned long long)(i / 8 / d.in[0]->nm), (unsigned long long)(i / 8 % d.in[0]->nm), (long long)a, (long long)b));
        }
      break;
    case K_RED: case K_CNT:
      if (o.ctx.ret != o.exp_ret) violate(fc, &o, fmts("returned %ld, expected %lld", o.ctx.ret, (long long)o.exp_ret));
      if (!(d.flags & F_NOCB)) check_lanes(o, fc);
      check_policy(o);
      break;
    case K_MLS:
      if (!chk_old_new(o, o.wlo, o.whi, true, false, &why)) violate(fc, &o, fmts("mask %llx: wrong result: ", (unsigned long long)s.mask) + why);
      if (o.has_exp_result && o.result != o.exp_result)
        {
          u64 i = 0; while (i < o.result.size() && i < o.exp_result.size() && o.result[i] == o.exp_result[i]) ++i;
          violate(fc, &o, fmts("mask %llx: loaded vector differs at byte %llu", (unsigned long long)s.mask, (unsigned long long)i));
        }
      break;
    case K_BAD:
      violate(V_FAILSTOP, &o, "a call with violated precondition returned instead of trapping");
      break;
    default: break;
  }
  const u64 bound = 256 + 96 * (s.n + 8) * 6;
  if (o.steps > bound) violate(V_PROG, &o, fmts("call needed %llu of its own steps, bound %llu", (unsigned long long)o.steps, (unsigned long long)bound));
  Outcome& oc = S.out[o.slot];
  oc.st = ST_DONE; oc.ret = o.ctx.ret; oc.ret_it = o.ctx.ret_it ? i64(u64(o.ctx.ret_it) - ARENA) : -1;
  oc.memhash = memhash(o);
  u64 h = 5; for (u64 l : o.lanes) h += mix(l, 3); oc.cbhash = h;
  h = 9; for (u8 b : o.result) h = tup_hash(h, b); oc.reshash = h;
  hash_add(oc.memhash); hash_add(u64(oc.ret)); hash_add(oc.reshash);
  commit_shadow(o);
}

struct SimExc { u64 id; virtual ~SimExc() {} };
struct SimExcD : SimExc { u64 id2; };
struct SimStdExc : std::runtime_error { u64 id; explicit SimStdExc(u64 i) : std::runtime_error("simulated"), id(i) {} };
struct SimOom : std::bad_alloc { u64 id; explicit SimOom(u64 i) : id(i) {} };
[[noreturn]] static void throw_exc(u64 id, int kind, bool lib)
{
  switch (kind)
  {
    case 1: { SimStdExc e(id); S.cur->in_lib = lib; throw e; }
    case 2: S.cur->in_lib = lib; throw SimOom(id);
    case 3: S.cur->in_lib = lib; throw id;
    default: { SimExcD e; e.id = id; e.id2 = id + 1; S.cur->in_lib = lib; throw e; }
  }
}

// the floating-point environment (rounding mode, flush-to-zero, exception masks) is per-thread state that outlives a call
static u32 g_mxcsr = 0x1f80; static uint16_t g_fcw = 0x37f;
static void fpenv_init() { asm volatile("stmxcsr %0" : "=m"(g_mxcsr)); asm volatile("fnstcw %0" : "=m"(g_fcw)); g_mxcsr &= ~0x3fu; }
static void fpenv_check(OpState* o, const char* where)
{
  u32 mx; uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
  if ((mx & ~0x3fu) == g_mxcsr && cw == g_fcw) return;
  violate(V_CONC, o, fmts("floating-point environment changed by the library %s (MXCSR %x instead of %x, control word %x instead of %x)", where, mx & ~0x3fu, g_mxcsr, cw, g_fcw));
  asm volatile("ldmxcsr %0" : : "m"(g_mxcsr)); asm volatile("fldcw %0" : : "m"(g_fcw));
}

static void op_exception(OpState& o, bool mine, u64 id)
{
  const OpDesc& d = *o.d;
  o.st = ST_EXC;
  std::string why;
  if (!o.throwing) { violate(o.allocfail ? V_PROG : V_EXC, &o, o.allocfail ? "allocation failure escaped from the call" : "call threw although no callable did"); }
  else
    {
      if (!mine || id != o.exc_id) violate(V_EXC, &o, "the exception that arrived is not the one the callable threw");
      if (o.after_throw_call) violate(V_EXC, &o, "callable invoked again after it had thrown");
      // lanes of completed invocations are new (for_each with write back); the rest old
      if ((d.kind == K_FE || d.kind == K_TR) && o.wel)
        {
          const bool lost_ok = d.kind == K_TR; // an unrolled transform stores a group of results together
          std::unordered_map<u64, int> want; // element hash -> count seen in completed invocations
          for (size_t v = 0; v < o.invs.size(); ++v)
            {
              auto& iv = o.invs[v];
              if (iv.which != 0 || int(v) == o.throw_inv) continue;
              for (u32 c = iv.c0; c < iv.c1; ++c)
                for (u32 l = 0; l < o.chunks[c].w; ++l)
                  if (o.chunks[c].first + l < o.lanes.size()) ++want[o.lanes[o.chunks[c].first + l]];
            }
          // unambiguous elements only
          std::unordered_map<u64, int> mult; for (u64 h : o.exp_lanes) ++mult[h];
          for (u64 i = 0; i < o.wn; ++i)
            {
              if (mult[o.exp_lanes[i]] != 1) continue;
              const bool done = want.count(o.exp_lanes[i]);
              const u64 lo = o.wlo + i * o.wel->size;
              if (!chk_old_new(o, lo, lo + o.wel->size, done && !lost_ok, !done, &why))
                {
                  violate(V_EXC, &o, std::string(done ? "element of a completed invocation lost its result after an exception: "
                                                      : "element whose invocation did not complete was modified: ") + why);
                  break;
                }
              PROBE("exc-element-verified");
            }
        }
      if (o.wel && !chk_old_new(o, o.wlo, o.whi, false, false, &why)) violate(V_EXC, &o, "after exception: " + why);
    }
  S.out[o.slot].st = ST_EXC;
  hash_add(0xe0); hash_add(memhash(o));
  commit_shadow(o);
}

// ------------------------------------------------------------------ scheduling
static void record(u8 f, u32 step, Act a, int arg) { S.rec.push_back({f, step, a, arg}); }

static int pick_runnable_random(int except)
{
  int c[MAXF], n = 0;
  for (int i = 0; i < S.nthreads; ++i) if (i != except && S.f[i].st == FS_READY) c[n++] = i;
  return n ? c[S.rng.below(n)] : -1;
}

static int pool_pick()
{
  int n = 0, c[16];
  for (size_t i = 0; i < S.plan->slots.size() && n < 16; ++i) if (S.plan->slots[i].thread < 0 && !S.pool_used[i]) c[n++] = int(i);
  return n ? c[S.rng.below(n)] : -1;
}

static void run_slot_on_current(int slot, bool nested);

struct Choice { Act act; int arg; };

static bool choose_random(Fiber* f, Pt pt, Choice* ch)
{
  const Cfg& c = S.cfg;
  if (S.solo) return false;
  const bool fault_ok = S.nfaults < c.max_faults && f->frames.size() >= 1 && !f->recovery;
  if (fault_ok)
    {
      OpState* o = f->frames.back();
      const bool env = o->d->kind == K_ENV;
      if (!env && (pt == P_ENTER || pt == P_LEAVE) && c.throw_p > 0 && f->frames.size() == 1 && S.rng.chance(c.throw_p))
        { *ch = {A_THROW, 0}; return true; }
      if (!env && (pt == P_ENTER || pt == P_LEAVE) && c.nest_p > 0 && f->frames.size() < 3 && S.rng.chance(c.nest_p))
        { int s = pool_pick(); if (s >= 0) { *ch = {A_NEST, s}; return true; } }
      if ((pt == P_READ || pt == P_WRITE || pt == P_GLOBAL) && c.sig_p > 0 && f->frames.size() < 3 && S.rng.chance(c.sig_p))
        { int s = pool_pick(); if (s >= 0) { *ch = {A_SIGOP, s}; return true; } }
      if (c.kill_p > 0 && pt != P_BEGIN && pt != P_END && S.rng.chance(c.kill_p)) { *ch = {A_KILL, 0}; return true; }
      if (c.stall_p > 0 && pt != P_END && S.rng.chance(c.stall_p)) { *ch = {A_STALL, 0}; return true; }
      if (c.alloc_fail && pt == P_ALLOC) { *ch = {A_ALLOCFAIL, 0}; return true; }
    }
  double p = c.p;
  switch (c.strat)
  {
    case 0: break;
    case 1: // PCT
      {
        for (u32 cp : c.pct) if (cp == S.gstep) f->prio = S.rng.next() % 1000; // demote
        int best = f->id;
        for (int i = 0; i < S.nthreads; ++i) if (S.f[i].st == FS_READY && S.f[i].prio > S.f[best].prio) best = i;
        if (best != f->id) { *ch = {A_SWITCH, best}; return true; }
        return false;
      }
    case 2: p = (pt == P_WRITE || pt == P_GLOBAL || pt == P_LOCK) ? std::min(1.0, c.p * 6) : c.p / 8; break;
    case 3: p = (pt == P_ENTER || pt == P_LEAVE) ? std::min(1.0, c.p * 6) : c.p / 8; break;
    case 4: p = 0; break;
    case 5: p = 1; break;
  }
  if (p > 0 && S.rng.chance(p))
    {
      int t = pick_runnable_random(f->id);
      if (t >= 0) { *ch = {A_SWITCH, t}; return true; }
    }
  return false;
}

static int g_next; // next fiber wanted by the yielding fiber

static void yield_to(int t) { g_next = t; to_main(); }

static void block_current(void* on)
{
  Fiber* f = S.cur;
  f->st = FS_BLOCKED; f->block_on = on;
  g_next = -1;
  to_main();
}
static void wake(void* on)
{
  for (int i = 0; i < MAXF; ++i) if (S.f[i].st == FS_BLOCKED && S.f[i].block_on == on) { S.f[i].st = FS_READY; S.f[i].block_on = nullptr; }
}

// returns true if the operation at this point must fail (throw / alloc failure)
static bool point(Pt pt, u64 a, u32 sz)
{
  Fiber* f = S.cur;
  OpState* o = f->frames.empty() ? nullptr : f->frames.back();
  const u32 st = f->step++;
  ++S.gstep; ++T_points;
  if (o) ++o->steps;
  hash_add((u64(f->id) << 56) ^ (u64(pt) << 48) ^ (u64(sz) << 32) ^ (in_arena(a) ? a - ARENA : 0));
  if (S.trace)
    std::printf("  #%llu thread %d step %u %s%s %s+%lld size %u\n", (unsigned long long)S.gstep, f->id, st, f->frames.size() > 1 ? "(nested) " : "", pt_name[pt],
                in_arena(a) ? "arena" : a ? "global" : "-", in_arena(a) ? (long long)(a - ARENA) : 0, sz);
  if (S.gstep > S.step_cap && !S.aborted)
    {
      S.aborted = true;
      violate(V_HANG, o, "step budget of the run exhausted: no progress");
    }
  if (S.aborted) { f->st = FS_DEAD; g_next = -1; to_main(); }
  bool fail = false;
  auto apply = [&](const Choice& c) {
    switch (c.act)
    {
      case A_SWITCH:
        if (c.arg < S.nthreads && S.f[c.arg].st == FS_READY && c.arg != f->id)
          {
            record(f->id, st, A_SWITCH, c.arg);
            ++S.switches; if (o && pt != P_BEGIN && pt != P_END) { ++S.midop_switches; S.sched_hash = mix(S.sched_hash, (u64(f->id) << 40) | (u64(c.arg) << 32) | st); }
            tracef("  -- switch %d -> %d\n", f->id, c.arg);
            yield_to(c.arg);
          }
        break;
      case A_KILL:
        record(f->id, st, A_KILL, 0);
        ++S.faults[A_KILL]; ++S.nfaults; S.sched_hash = mix(S.sched_hash, 0x1000000ull + st + (u64(f->id) << 32));
        tracef("  -- kill thread %d\n", f->id);
        f->st = FS_DEAD; g_next = -1; to_main();
        break;
      case A_STALL:
        record(f->id, st, A_STALL, 0);
        ++S.faults[A_STALL]; ++S.nfaults; S.sched_hash = mix(S.sched_hash, 0x2000000ull + st + (u64(f->id) << 32));
        tracef("  -- stall thread %d\n", f->id);
        f->st = FS_STALLED; g_next = -1; to_main();
        break;
      case A_SIGOP: case A_NEST:
        if (size_t(c.arg) < S.plan->slots.size() && S.plan->slots[c.arg].thread < 0 && !S.pool_used[c.arg])
          {
            record(f->id, st, c.act, c.arg);
            ++S.faults[c.act]; ++S.nfaults; S.sched_hash = mix(S.sched_hash, 0x3000000ull + st + (u64(f->id) << 32) + (u64(c.arg) << 40));
            tracef("  -- %s slot %d on thread %d\n", act_name[c.act], c.arg, f->id);
            S.pool_used[c.arg] = 1;
            const bool il = f->in_lib; f->in_lib = false;
            run_slot_on_current(c.arg, true);
            f->in_lib = il;
          }
        break;
      case A_THROW:
        if (pt == P_ENTER || pt == P_LEAVE)
          {
            record(f->id, st, A_THROW, 0); ++S.faults[A_THROW]; ++S.nfaults; fail = true;
            S.sched_hash = mix(S.sched_hash, 0x4000000ull + st + (u64(f->id) << 32));
          }
        break;
      case A_ALLOCFAIL:
        if (pt == P_ALLOC) { record(f->id, st, A_ALLOCFAIL, 0); ++S.faults[A_ALLOCFAIL]; ++S.nfaults; fail = true; if (o) o->allocfail = true; }
        break;
      default: break;
    }
  };
  if (S.replay)
    {
      auto it = S.rep.find({f->id, st});
      if (it != S.rep.end()) for (auto& d : it->second) apply({d.act, d.arg});
    }
  else
    {
      Choice c;
      // more than one action may happen at one point, e.g. a signal and then a switch
      for (int i = 0; i < 2 && choose_random(f, pt, &c); ++i) { apply(c); if (fail) break; }
    }
  return fail;
}

static void check_end_pending(Fiber* f) { flush_pending(f); }

static void env_body(OpState& o)
{
  u8* p = static_cast<u8*>(o.ctx.out);
  for (u64 i = 0; i < o.ctx.n; ++i)
    {
      point(P_ENV, u64(p + i), 1);
      u8 v = u8(o.ctx.k * 37 + i * 11 + 1);
      p[i] = v; o.newv[i] = v;
      shadow[u64(p + i) - ARENA] = v;
    }
}

static void run_slot_on_current(int slot, bool)
{
  Fiber* f = S.cur;
  flush_pending(f);
  OpState* o = new OpState;
  S.live.push_back(o);
  op_prepare(*o, slot);
  f->frames.push_back(o);
  ++T_ops; ++T_kind[o->d->kind]; ++T_opcount[S.plan->slots[slot].op];
  tracef("  >> thread %d slot %d %s n=%llu\n", f->id, slot, o->d->name, (unsigned long long)o->ctx.n);
  bool exc = false, mine = false; u64 id = 0;
  if (o->d->kind == K_ENV) { env_body(*o); }
  else
    {
      try { o->d->run(&o->ctx); }
      catch (SimExcD& e) { exc = true; mine = e.id2 == e.id + 1; id = e.id; }
      catch (SimStdExc& e) { exc = mine = true; id = e.id; }
      catch (SimOom& e) { exc = mine = true; id = e.id; }
      catch (u64& e) { exc = mine = true; id = e; }
      catch (...) { exc = true; }
      if (exc) fpenv_check(o, "when the exception arrived");
    }
  f = S.cur;
  f->in_lib = false;
  check_end_pending(f);
  if (exc) op_exception(*o, mine, id); else op_finish(*o);
  tracef("  << thread %d slot %d %s\n", f->id, slot, exc ? "exception" : "done");
  f->frames.pop_back();
}

extern "C" void sim_fiber_main()
{
  Fiber* f = S.cur;
  for (size_t i = 0; i < f->prog.size(); ++i) run_slot_on_current(f->prog[i], false);
  f->st = FS_DONE;
  g_next = -1;
  to_main();
  std::abort();
}

// ------------------------------------------------------------------ hooks called from instrumented code
static inline bool on_own_stack(Fiber* f, u64 a) { return a - f->lo < STK_SZ; }

static void check_access(Fiber* f, u64 a, u32 sz, bool w)
{
  if (f->frames.empty()) return;
  OpState& o = *f->frames.back();
  ++o.acc; if (w) ++o.writes;
  if (o.d->kind == K_BAD)
    {
      bool in = false;
      for (int i = 0; i < o.nr; ++i) in |= a >= o.r[i].lo && a + sz <= o.r[i].hi;
      if (w || !in) violate(V_FAILSTOP, &o, fmts("%s of %u bytes at arena+%lld although a precondition is violated", w ? "write" : "read", sz, (long long)(a - ARENA)));
      return;
    }
  for (int i = 0; i < o.nr; ++i)
    {
      const Range& r = o.r[i];
      if (a >= r.lo && a + sz <= r.hi && (w ? r.wr : true))
        {
          if (r.masked)
            {
              u64 e0 = (a - r.lo) / r.el->size, e1 = (a + sz - 1 - r.lo) / r.el->size;
              for (u64 e = e0; e <= e1; ++e)
                if (!(o.mask >> e & 1))
                  {
                    violate(V_MLS, &o, fmts("mask %llx: unselected lane %llu %s", (unsigned long long)o.mask, (unsigned long long)e, w ? "written" : "read"));
                    violate(V_FOOT, &o, fmts("mask %llx: unselected lane %llu %s", (unsigned long long)o.mask, (unsigned long long)e, w ? "written" : "read"));
                    return;
                  }
            }
          return;
        }
    }
  // an access may span two adjacent ranges of the same call (e.g. in0 directly followed by in1)? not legal for one object access, but harmless if both are permitted
  bool all = true, anyin = false;
  for (u64 b = a; b < a + sz; ++b)
    {
      bool ok = false;
      for (int i = 0; i < o.nr; ++i) if (b >= o.r[i].lo && b < o.r[i].hi) { anyin = true; if (w ? o.r[i].wr : true) ok = true; }
      if (!ok) all = false;
    }
  if (all) return;
  bool input = false;
  if (w) for (int i = 0; i < o.nr; ++i) if (a >= o.r[i].lo && a < o.r[i].hi) input = true;
  std::string where;
  for (int i = 0; i < o.nr; ++i) where += fmts(" [%lld,%lld)%s", (long long)(o.r[i].lo - ARENA), (long long)(o.r[i].hi - ARENA), o.r[i].wr ? "rw" : "r");
  std::string msg = input ? fmts("write of %u bytes at arena+%lld into an input-only range; ranges of the call:", sz, (long long)(a - ARENA))
                          : fmts("%s of %u bytes at arena+%lld outside the ranges of the call%s:", w ? "write" : "read", sz, (long long)(a - ARENA), anyin ? " (partly inside)" : "");
  violate(V_FOOT, &o, msg + where);
  if (input && (o.d->kind == K_FE || o.d->kind == K_TR || o.d->kind == K_CNT)) violate(func_class(o.d->kind), &o, msg + where);
  if (o.d->kind == K_LS) violate(V_LS, &o, msg + where);
  if (o.d->kind == K_MLS) violate(V_MLS, &o, msg + where);
}

static inline void access_hook(u64 a, u32 sz, bool w)
{
  Fiber* f = S.cur;
  if (!f || !f->in_lib || on_own_stack(f, a)) return;
  f->in_lib = false;   // everything below is simulator code
  flush_pending(f);
  if (in_arena(a) || in_arena(a + sz - 1))
    {
      check_access(f, a, sz, w);
      point(w ? P_WRITE : P_READ, a, sz);
      S.cur->in_lib = true;
      if (w) { f->pend_lo = a; f->pend_hi = a + sz; }
      return;
    }
  // static, thread-local or heap storage
  if (a - STK < MAXF * (STK_SZ + 65536)) PROBE("other-thread-stack");
  if (w) PROBE("static-or-heap-write");
  if (w || f->frames.empty() || f->frames.back()->d->kind != K_VAL || true) point(P_GLOBAL, a, sz);
  S.cur->in_lib = true;
}

extern "C"
{
#define RW(N) void __tsan_read##N(void* p) { access_hook(u64(p), N, false); } \
  void __tsan_write##N(void* p) { access_hook(u64(p), N, true); } \
  void __tsan_unaligned_read##N(void* p) { access_hook(u64(p), N, false); } \
  void __tsan_unaligned_write##N(void* p) { access_hook(u64(p), N, true); } \
  void __tsan_volatile_read##N(void* p) { access_hook(u64(p), N, false); } \
  void __tsan_volatile_write##N(void* p) { access_hook(u64(p), N, true); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access_hook(u64(p), N, false); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access_hook(u64(p), N, true); }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  void __tsan_read_range(void* p, unsigned long n) { if (n) access_hook(u64(p), u32(n), false); }
  void __tsan_write_range(void* p, unsigned long n) { if (n) access_hook(u64(p), u32(n), true); }
  void __tsan_vptr_update(void**, void*) {}
  void __tsan_vptr_read(void**) {}
  void __tsan_func_entry(void*) {}
  void __tsan_func_exit(void*) {}
  void __tsan_init() {}

#define ATOMIC(B, T) \
  T __tsan_atomic##B##_load(const T* p, int) { access_hook(u64(p), B / 8, false); return *p; } \
  void __tsan_atomic##B##_store(T* p, T v, int) { access_hook(u64(p), B / 8, true); *p = v; } \
  T __tsan_atomic##B##_exchange(T* p, T v, int) { access_hook(u64(p), B / 8, true); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(T* p, T v, int) { access_hook(u64(p), B / 8, true); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(T* p, T v, int) { access_hook(u64(p), B / 8, true); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(T* p, T v, int) { access_hook(u64(p), B / 8, true); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(T* p, T v, int) { access_hook(u64(p), B / 8, true); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(T* p, T v, int) { access_hook(u64(p), B / 8, true); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(T* p, T v, int) { access_hook(u64(p), B / 8, true); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(T* p, T* e, T v, int, int) { access_hook(u64(p), B / 8, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(T* p, T* e, T v, int, int) { access_hook(u64(p), B / 8, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(T* p, T e, T v, int, int) { access_hook(u64(p), B / 8, true); T o = *p; if (o == e) *p = v; return o; }
  ATOMIC(8, u8) ATOMIC(16, uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)
  void __tsan_atomic_thread_fence(int) {}
  void __tsan_atomic_signal_fence(int) {}

  void* __wrap_memcpy(void* d, const void* s, size_t n)
  { if (n) { access_hook(u64(s), u32(n), false); access_hook(u64(d), u32(n), true); } return std::memcpy(d, s, n); }
  void* __wrap_memmove(void* d, const void* s, size_t n)
  { if (n) { access_hook(u64(s), u32(n), false); access_hook(u64(d), u32(n), true); } return std::memmove(d, s, n); }
  void* __wrap_memset(void* d, int c, size_t n)
  { if (n) access_hook(u64(d), u32(n), true); return std::memset(d, c, n); }
  // clang calls these instead of the library functions
  void* __tsan_memcpy(void* d, const void* s, size_t n) { return __wrap_memcpy(d, s, n); }
  void* __tsan_memmove(void* d, const void* s, size_t n) { return __wrap_memmove(d, s, n); }
  void* __tsan_memset(void* d, int c, size_t n) { return __wrap_memset(d, c, n); }
  int __wrap_memcmp(const void* a, const void* b, size_t n)
  { if (n) { access_hook(u64(a), u32(n), false); access_hook(u64(b), u32(n), false); } return std::memcmp(a, b, n); }

  static bool alloc_point()
  {
    Fiber* f = S.cur;
    if (!f || !f->in_lib) return false;
    f->in_lib = false;
    flush_pending(f);
    PROBE("library-allocation");
    bool r = point(P_ALLOC, 0, 0);
    S.cur->in_lib = true;
    return r;
  }
  void* __wrap_malloc(size_t n) { if (alloc_point()) { errno = ENOMEM; return nullptr; } return std::malloc(n); }
  void* __wrap_calloc(size_t a, size_t b) { if (alloc_point()) { errno = ENOMEM; return nullptr; } return std::calloc(a, b); }
  void* __wrap_realloc(void* p, size_t n) { if (alloc_point()) { errno = ENOMEM; return nullptr; } return std::realloc(p, n); }
  void* __wrap_aligned_alloc(size_t a, size_t n) { if (alloc_point()) { errno = ENOMEM; return nullptr; } return ::aligned_alloc(a, n); }

  // locks: owned by the simulator
  struct SimMutex { int owner; int depth; };
  static std::unordered_map<void*, SimMutex> g_mutex;
  int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
  {
    Fiber* f = S.cur;
    if (!f) return 0;
    const bool il = f->in_lib;
    f->in_lib = false;
    flush_pending(f);
    PROBE("library-lock");
    point(P_LOCK, 0, 0);
    for (;;)
      {
        auto it = g_mutex.find(m);
        if (it == g_mutex.end()) { g_mutex[m] = {f->id, 1}; break; }
        if (it->second.owner == f->id)
          {
            OpState* o = f->frames.empty() ? nullptr : f->frames.back();
            violate(V_PROG, o, "call deadlocks on a lock its own thread already holds (re-entry)");
            f->st = FS_DEAD; g_next = -1; to_main();
          }
        block_current(m);
      }
    f->in_lib = il;
    return 0;
  }
  int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
  {
    Fiber* f = S.cur;
    if (!f) return 0;
    if (g_mutex.count(m)) return EBUSY;
    g_mutex[m] = {f->id, 1};
    return 0;
  }
  int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { g_mutex.erase(m); if (S.cur) wake(m); return 0; }

  // function-local statics of the library
  static std::unordered_map<void*, int> g_guard;
  int __cxa_guard_acquire(uint64_t* g)
  {
    Fiber* f = S.cur;
    if (*reinterpret_cast<u8*>(g)) return 0;
    if (!f) { return 1; }
    for (;;)
      {
        if (*reinterpret_cast<u8*>(g)) return 0;
        auto it = g_guard.find(g);
        if (it == g_guard.end()) { g_guard[g] = f->id; return 1; }
        if (it->second == f->id)
          {
            violate(V_PROG, f->frames.empty() ? nullptr : f->frames.back(), "recursive initialisation of a library static");
            f->st = FS_DEAD; g_next = -1; to_main();
          }
        const bool il = f->in_lib; f->in_lib = false;
        block_current(g);
        f->in_lib = il;
      }
  }
  void __cxa_guard_release(uint64_t* g) { *reinterpret_cast<u8*>(g) = 1; if (S.cur) { g_guard.erase(g); wake(g); } }
  void __cxa_guard_abort(uint64_t* g) { if (S.cur) { g_guard.erase(g); wake(g); } }
  int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }

  // ---- workload interface
  void sim_begin(OpCtx* c)
  {
    (void)c;
    Fiber* f = S.cur;
    point(P_BEGIN, 0, 0);
    S.cur->in_lib = true; (void)f;
  }
  void sim_end(OpCtx*)
  {
    Fiber* f = S.cur;
    f->in_lib = false;
    flush_pending(f);
    if (!f->frames.empty()) fpenv_check(f->frames.back(), "after the call");
    point(P_END, 0, 0);
  }
  void sim_enter(OpCtx* c, int which, int nargs)
  {
    Fiber* f = S.cur;
    OpState& o = *static_cast<OpState*>(c->priv);
    const bool real = f->in_lib;
    f->in_lib = false;
    flush_pending(f);
    ++T_callbacks; ++o.cbs;
    if (real) fpenv_check(&o, "inside the callable");
    if (o.throwing) o.after_throw_call = true;
    if (o.d->kind == K_BAD) violate(V_FAILSTOP, &o, "callable invoked although a precondition is violated");
    o.in_cb = true; o.cb_which = which;
    o.invs.push_back({u8(which), u32(nargs), u32(o.chunks.size()), u32(o.chunks.size())});
    const size_t my_inv = o.invs.size() - 1;
    hash_add(0xcb00 + which);
    if (point(P_ENTER, 0, u32(nargs)))
      {
        o.throwing = true; o.exc_id = ++S.exc_ctr * 1000 + 7; o.throw_inv = int(my_inv); o.late = false; o.in_cb = false;
        PROBE("throw-on-entry");
        throw_exc(o.exc_id, int((S.plan->slots[o.slot].k + my_inv) & 3), real);
      }
  }
  void sim_chunk(OpCtx* c, int w)
  {
    OpState& o = *static_cast<OpState*>(c->priv);
    o.chunks.push_back({u32(o.lanes.size()), u32(w)});
    o.invs.back().c1 = u32(o.chunks.size());
    o.lanes.resize(o.lanes.size() + w, TUP0);
  }
  void sim_col(OpCtx* c, const void* buf, int ty, int w)
  {
    OpState& o = *static_cast<OpState*>(c->priv);
    if (o.chunks.empty()) return;
    const Chunk ch = o.chunks.back();
    const u8* p = static_cast<const u8*>(buf);
    for (u32 i = 0; i < u32(w) && i < ch.w; ++i)
      {
        i64 v = o.d->sem == S_RAW ? rdraw(Ty(ty), p + size_t(i) * ty_size[ty]) : rd(Ty(ty), p + size_t(i) * ty_size[ty]);
        hash_add(u64(v));
        o.lanes[ch.first + i] = tup_hash(o.lanes[ch.first + i], v);
      }
  }
  void sim_leave(OpCtx* c, int which)
  {
    (void)which;
    OpState& o = *static_cast<OpState*>(c->priv);
    const size_t my_inv = o.invs.size() - 1;
    if (o.d->W > 1 && which == 0 && !o.chunks.empty() && int(o.chunks.back().w) < o.d->W) PROBE("callback-partial-width");
    if (point(P_LEAVE, 0, 0))
      {
        o.throwing = true; o.exc_id = ++S.exc_ctr * 1000 + 7; o.throw_inv = int(my_inv); o.late = true; o.in_cb = false;
        PROBE("throw-on-exit");
        throw_exc(o.exc_id, int((S.plan->slots[o.slot].k + my_inv) & 3), true);
      }
    o.in_cb = false;
    S.cur->in_lib = true;
  }
  void sim_result(OpCtx* c, const void* buf, size_t bytes)
  {
    OpState& o = *static_cast<OpState*>(c->priv);
    const u8* p = static_cast<const u8*>(buf);
    o.result.insert(o.result.end(), p, p + bytes);
  }
}

void* operator new(size_t n)
{
  Fiber* f = S.cur;
  if (f && f->in_lib && alloc_point()) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t al)
{
  Fiber* f = S.cur;
  if (f && f->in_lib && alloc_point()) throw std::bad_alloc();
  void* p = ::aligned_alloc(size_t(al), (n + size_t(al) - 1) / size_t(al) * size_t(al));
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { Fiber* f = S.cur; if (f && f->in_lib && alloc_point()) return nullptr; return std::malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { std::free(p); }

// ------------------------------------------------------------------ process faults
static void fault_landing() __attribute__((noreturn));
static void fault_landing()
{
  // on a scratch stack, not on the fiber's (which may be damaged)
  void* dummy;
  Fiber* f = S.cur;
  f->crashed = true;
  f->st = FS_DEAD;
  f->in_lib = false;
  f->eh = {};
  g_next = -1;
  sim_swap(&dummy, S.main_sp);
  __builtin_unreachable();
}
alignas(64) static u8 landing_stack[65536];
static volatile u64 g_wd_last; static volatile int g_wd_ticks;

static sigjmp_buf g_huge_jmp; static bool g_huge;   // huge.inc

static void redirect(ucontext_t* uc)
{
  uc->uc_mcontext.gregs[REG_RIP] = greg_t(&fault_landing);
  u64 sp = reinterpret_cast<u64>(landing_stack) + sizeof landing_stack - 128;
  sp = (sp & ~63ull) - 8;
  uc->uc_mcontext.gregs[REG_RSP] = greg_t(sp);
  uc->uc_mcontext.gregs[REG_EFL] &= ~0x400; // DF
}
static void on_signal(int sig, siginfo_t* si, void* ucv)
{
  auto* uc = static_cast<ucontext_t*>(ucv);
  if (g_huge) siglongjmp(g_huge_jmp, sig);
  if (sig == SIGVTALRM)
    {
      // armed anew each time: a clock that jumps (paused or stolen virtual CPU) is one tick, not many
      itimerval tv{}; tv.it_value.tv_sec = 1; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
      if (!S.cur) { g_wd_ticks = 0; return; }
      if (g_wd_last == S.gstep) g_wd_ticks = g_wd_ticks + 1; else { g_wd_last = S.gstep; g_wd_ticks = 0; }
      if (g_wd_ticks < (S.cur->frames.empty() ? 30 : 3)) return;
      g_wd_ticks = 0;
      S.sig = SIGVTALRM; S.sigaddr = 0;
      redirect(uc);
      return;
    }
  if (!S.cur)
    {
      const char m[] = "sim: fatal signal in simulator core\n";
      (void)!::write(2, m, sizeof m - 1);
      ::_exit(97);
    }
  S.sig = sig; S.sigaddr = u64(si->si_addr);
  redirect(uc);
}
extern "C" [[noreturn]] void __wrap_abort()
{
  if (S.cur) { S.sig = SIGABRT; S.sigaddr = 0; fault_landing(); }
  if (g_huge) siglongjmp(g_huge_jmp, SIGABRT);
  std::abort();
}
static void on_terminate()
{
  if (S.cur) { S.sig = SIGUSR1; S.sigaddr = 0; fault_landing(); }
  std::abort();
}
static void note_msg(const char* fmt, va_list ap)
{
  if (!S.cur || S.cur->frames.empty()) return;
  char b[2000];
  std::vsnprintf(b, sizeof b, fmt, ap);
  OpState& o = *S.cur->frames.back();
  ++o.msgs; o.msg += b;
  hash_add(0x3355); PROBE("diagnostic-printed");
}
static void note_str(const char* fmt, ...) { va_list ap; va_start(ap, fmt); note_msg(fmt, ap); va_end(ap); }
extern "C" int __wrap_fprintf(FILE*, const char* f, ...) { va_list ap; va_start(ap, f); note_msg(f, ap); va_end(ap); return 0; }
extern "C" int __wrap___fprintf_chk(FILE*, int, const char* f, ...) { va_list ap; va_start(ap, f); note_msg(f, ap); va_end(ap); return 0; }
extern "C" int __wrap_printf(const char* f, ...) { va_list ap; va_start(ap, f); note_msg(f, ap); va_end(ap); return 0; }
extern "C" int __wrap_vfprintf(FILE*, const char* f, va_list ap) { note_msg(f, ap); return 0; }
extern "C" int __wrap___vfprintf_chk(FILE*, int, const char* f, va_list ap) { note_msg(f, ap); return 0; }
extern "C" ssize_t __wrap_write(int, const void* p, size_t n) { note_str("%.*s", int(n), static_cast<const char*>(p)); return ssize_t(n); }
extern "C" int __wrap_puts(const char* s) { note_str("%s", s); return 0; }
extern "C" int __wrap_fputs(const char* s, FILE*) { note_str("%s", s); return 0; }
extern "C" size_t __wrap_fwrite(const void* p, size_t sz, size_t n, FILE*) { note_str("%.*s", int(sz * n), static_cast<const char*>(p)); return n; }

static bool has_number(const std::string& s, u64 n)
{
  const std::string d = std::to_string(n);
  for (size_t p = s.find(d); p != s.npos; p = s.find(d, p + 1))
    if ((!p || !std::isdigit(u8(s[p - 1]))) && (p + d.size() >= s.size() || !std::isdigit(u8(s[p + d.size()])))) return true;
  return false;
}

static void handle_crash(Fiber* f)
{
  f->crashed = false;
  OpState* o = f->frames.empty() ? nullptr : f->frames.back();
  const bool in_cb = o && o->in_cb; (void)in_cb;
  hash_add(0xdead0000 + S.sig);
  tracef("  -- thread %d crashed, signal %d\n", f->id, S.sig);
  if (!o) { std::fprintf(stderr, "sim: signal %d outside a call\n", S.sig); std::_Exit(97); }
  o->st = ST_TRAP;
  S.out[o->slot].st = ST_TRAP;
  std::string why;
  if (o->d->kind == K_BAD)
    {
      const bool ab = o->d->flags & F_ABORT;
      const bool trap = S.sig == SIGABRT || S.sig == SIGILL || S.sig == SIGTRAP;
      if (trap && ab && !o->msgs) violate(V_FAILSTOP, o, "aborted without printing a diagnostic");
      else if (trap && ab && ((o->d->flags & F_BADSIZE) ? !has_number(o->msg, S.plan->slots[o->slot].n) : o->msg.size() < 10))
        violate(V_FAILSTOP, o, "the diagnostic does not say which size was wrong: " + o->msg.substr(0, 200));
      if (!trap) violate(V_FAILSTOP, o, fmts("violated precondition ended in signal %d instead of %s", S.sig, ab ? "a message and abort()" : "a trap"));
      if (o->wel && !chk_old_new(*o, o->wlo, o->whi, false, true, &why)) violate(V_FAILSTOP, o, "violated precondition, but memory was modified before the trap: " + why);
      PROBE("trap-observed");
      return;
    }
  const char* n = S.sig == SIGSEGV ? "memory fault (SEGV)" : S.sig == SIGBUS ? "memory fault (BUS)" : S.sig == SIGILL ? "trap (illegal instruction)" : S.sig == SIGFPE ? "arithmetic trap"
    : S.sig == SIGABRT ? "abort" : S.sig == SIGUSR1 ? "std::terminate" : S.sig == SIGVTALRM ? "no step for seconds: endless loop without memory traffic" : "signal";
  if (S.sig == SIGVTALRM) { violate(V_HANG, o, n); return; }
  violate(V_FAULT, o, fmts("call ended in %s%s", n, S.sig == SIGSEGV && (S.sigaddr >= ARENA - 65536 && S.sigaddr < ARENA + ARENA_SZ + 65536)
           ? fmts(" at arena%+lld", (long long)(S.sigaddr - ARENA)).c_str() : ""));
  if (S.sig == SIGSEGV && ((S.sigaddr >= ARENA - 65536 && S.sigaddr < ARENA) || (S.sigaddr >= ARENA + ARENA_SZ && S.sigaddr < ARENA + ARENA_SZ + 65536)))
    violate(V_FOOT, o, "access to an unmapped page next to the range");
  if (o->throwing || S.sig == SIGUSR1) violate(V_EXC, o, std::string("after a callable threw: ") + n);
  if (S.sig == SIGILL || S.sig == SIGABRT || S.sig == SIGTRAP) violate(V_FAILSTOP, o, std::string("legal call ended in ") + n);
}

// ------------------------------------------------------------------ run
static void fill_region(const Region& r)
{
  if (!r.el) { for (u32 i = 0; i < r.len; ++i) mem[r.off + i] = u8(0xA5 ^ i); return; }
  const ElemDesc& e = *r.el;
  u64 n = r.len / e.size;
  Rng g(r.seed);
  for (u32 i = 0; i < r.len; ++i) mem[r.off + i] = 0;
  i64 span = r.hi - r.lo + 1;
  if (span < 1) span = 1;
  i64 budget = r.hi > 0 ? r.hi : -r.lo;
  for (int m = 0; m < e.nm; ++m)
    {
      i64 start = i64(g.below(u64(span)));
      i64 stride = 1 + i64(g.below(u64(std::max<i64>(1, span / 3))));
      while (span > 2 && std::__gcd(stride, span) != 1) ++stride;
      i64 left = budget;
      double pz = n ? std::min(1.0, double(budget) / (2.0 * n)) : 1;
      for (u64 i = 0; i < n; ++i)
        {
          i64 v = 0;
          switch (r.mode)
          {
            case 0: v = r.lo + i64((__int128(start) + __int128(stride) * i64(i)) % span); break;  // distinct for a whole period
            case 1: // |sum| bounded by budget
              if (g.chance(pz))
                {
                  i64 mx = std::max<i64>(1, std::min<i64>(left, std::max<i64>(1, n ? 2 * budget / i64(n) : budget)));
                  v = 1 + i64(g.below(u64(mx)));
                  if (v > left) v = left;
                  left -= v;
                  if (r.lo < 0 && (g.next() & 1)) v = -v;
                }
              break;
            case 2: v = r.lo + i64(g.below(u64(span))); break;
            case 5: v = r.lo + i64(g.below(u64(span))); v |= 1; break;
            case 4: // any bit pattern, special floating-point values, extreme integers
              {
                u64 b = g.next();
                const Ty t = e.ty[m];
                if (t == F32 && g.chance(0.5)) { static const u32 sp[] = {0x80000000u, 0, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc12345u, 0x7f800001u, 0xffbfffffu, 1, 0x807fffffu, 0x7f7fffffu, 0x3f800000u, 0x4b800001u, 0x5f000000u}; b = sp[g.below(14)]; }
                else if (t == F64 && g.chance(0.5))
                  { static const u64 sp[] = {1ull << 63, 0, 0x7ffull << 52, 0xfffull << 52, 0x7ff8ull << 48, 0xfff8000012345678ull, (0x7ffull << 52) | 1, 0xfff7ffffffffffffull, 1, (1ull << 63) | ((1ull << 52) - 1), 0x7fefffffffffffffull, 0x3ffull << 52, 0x4340000000000001ull, 0x43e0000000000000ull}; b = sp[g.below(14)]; }
                else if (t != F32 && t != F64 && g.chance(0.4)) { const int bits = ty_size[t] * 8; const u64 top = 1ull << (bits - 1); const u64 sp[] = {0, ~0ull, top, top - 1, 1, top + 1}; b = sp[g.below(6)]; }
                if (t == BL) b &= 1;
                std::memcpy(mem + r.off + i * e.size + e.off[m], &b, size_t(ty_size[t]));
                continue;
              }
            case 6: // conversions: fractions, values that need rounding, extreme integers; within [lo, hi]
              {
                const Ty t = e.ty[m];
                const u64 z = g.next();
                i64 b = r.lo + i64(u64(__int128(z >> 8) % (__int128(r.hi) - r.lo + 1)));
                switch (z & 7)
                {
                  case 0: b = r.hi - i64(g.below(3)); break;
                  case 1: b = r.lo + i64(g.below(3)); break;
                  case 2: case 3: b = i64(g.below(40)) - 20; break;
                  case 4: b = (1ll << g.below(61)) + i64(g.below(3)) - 1; break;
                  case 5: b = -((1ll << g.below(61)) + i64(g.below(3)) - 1); break;
                }
                b = std::min(std::max(b, r.lo), r.hi);
                if (t == F32 || t == F64)
                  {
                    double x = double(b);
                    if (z & 0x70 && b > r.lo && b < r.hi) x += (double((z >> 10) % 8) - 4) / 8;
                    if (t == F32) { float y = float(x); std::memcpy(mem + r.off + i * e.size, &y, 4); } else std::memcpy(mem + r.off + i * e.size, &x, 8);
                  }
                else std::memcpy(mem + r.off + i * e.size, &b, size_t(ty_size[t]));
                continue;
              }
            case 3: // extreme at the edges: mostly low values, one distinguished
              v = r.lo + i64(g.below(u64(std::max<i64>(1, span / 2)))); break;
          }
          wr(e.ty[m], mem + r.off + i * e.size + e.off[m], v);
        }
      if (r.mode == 3 && n)
        {
          u64 w = g.below(4), at = w == 0 ? 0 : w == 1 ? n - 1 : g.below(n);
          wr(e.ty[m], mem + r.off + at * e.size + e.off[m], r.hi);
        }
    }
  if (e.ty[0] == BL) for (u64 i = 0; i < n; ++i) mem[r.off + i] = g.next() & 1;
}

static u32 plan_extent(const Plan& p, u32* lo_out)
{
  u32 lo = ARENA_SZ, hi = 0;
  for (auto& r : p.regs) { lo = std::min(lo, r.off); hi = std::max(hi, r.off + r.len); }
  lo = lo > 4096 ? (lo - 4096) : 0; hi = std::min<u32>(ARENA_SZ, hi + 4096);
  *lo_out = lo;
  return hi;
}

static u32 g_dirty_lo = 0, g_dirty_hi = ARENA_SZ;

static void final_compare(u32 lo, u32 hi)
{
  // exclude the ranges of unfinished calls (checked separately) and struct padding
  struct Ex { u64 lo, hi; };
  std::vector<Ex> ex;
  for (auto* o : S.live)
    if (o->whi > o->wlo && o->st != ST_DONE && o->st != ST_EXC) ex.push_back({o->wlo - ARENA, o->whi - ARENA});
  if (!std::memcmp(mem + lo, shadow + lo, hi - lo)) return;
  for (u32 i = lo; i < hi; ++i)
    if (mem[i] != shadow[i])
      {
        bool skip = false;
        for (auto& e : ex) if (i >= e.lo && i < e.hi) skip = true;
        if (skip) continue;
        std::string who = "gap";
        for (size_t r = 0; r < S.plan->regs.size(); ++r) { auto& g = S.plan->regs[r]; if (i >= g.off && i < g.off + g.len) who = fmts("region %zu", r); }
        violate(V_FOOT, nullptr, fmts("byte arena+%u (%s) holds %u, the model says %u: a store outside the call's ranges or a lost update", i, who.c_str(), mem[i], shadow[i]));
        return;
      }
}

static void exec(Plan& p, bool replay, bool solo)
{
  for (auto* o : S.live) delete o;
  S.live.clear();
  S.plan = &p; S.replay = replay; S.solo = solo;
  S.rec.clear(); S.rep.clear();
  if (replay) for (auto& d : p.dec) S.rep[{d.fiber, d.step}].push_back(d);
  S.gstep = 0; S.hash = 0xcbf29ce484222325ull; S.sched_hash = 1; S.switches = S.midop_switches = 0;
  std::memset(S.faults, 0, sizeof S.faults); S.nfaults = 0;
  S.viol.clear(); S.aborted = false; S.exc_ctr = 0; S.killed_slots.clear();
  S.out.assign(p.slots.size(), Outcome()); S.pool_used.assign(p.slots.size(), 0);
  S.sig = 0; S.nthreads = p.threads;
  g_mutex.clear(); g_guard.clear();
  snap_restore();
  // arena content
  u32 lo, hi = plan_extent(p, &lo);
  for (u32 i = g_dirty_lo; i < g_dirty_hi; ++i) mem[i] = u8(0x5a);
  for (u32 i = lo; i < hi; ++i) mem[i] = u8(0x5a ^ (i * 7));
  g_dirty_lo = lo; g_dirty_hi = hi;
  for (auto& r : p.regs) fill_region(r);
  std::memcpy(shadow + lo, mem + lo, hi - lo);
  for (int i = 0; i < MAXF; ++i) { S.f[i].st = FS_DONE; S.f[i].id = i; }
  u64 est = 0;
  for (auto& s : p.slots) est += s.n;
  S.step_cap = 20000 + est * 400;
  for (int t = 0; t < p.threads; ++t)
    {
      fiber_init(S.f[t], t);
      S.f[t].prio = 1000 + (replay || solo ? 0 : S.rng.below(1000));
      for (size_t i = 0; i < p.slots.size(); ++i) if (p.slots[i].thread == t) S.f[t].prog.push_back(int(i));
    }
  int next = 0;
  int last = -1;
  bool resumed_stalled = false;
  for (;;)
    {
      if (next < 0 || S.f[next].st != FS_READY)
        {
          int c[MAXF], n = 0;
          for (int i = 0; i < S.nthreads; ++i) if (S.f[i].st == FS_READY) c[n++] = i;
          if (!n)
            {
              // everyone that is left is blocked, stalled, dead or done
              bool blocked = false, stalled = false;
              for (int i = 0; i < S.nthreads; ++i) { blocked |= S.f[i].st == FS_BLOCKED; stalled |= S.f[i].st == FS_STALLED; }
              if (blocked)
                {
                  for (int i = 0; i < S.nthreads; ++i)
                    if (S.f[i].st == FS_BLOCKED)
                      violate(V_PROG, S.f[i].frames.empty() ? nullptr : S.f[i].frames.back(),
                              "call waits forever for another thread that is stalled, dead or waiting itself");
                }
              if (stalled)
                {
                  // all others finished without the stalled threads; now let those finish too
                  for (int i = 0; i < S.nthreads; ++i) if (S.f[i].st == FS_STALLED) S.f[i].st = FS_READY;
                  resumed_stalled = true; next = -1; (void)resumed_stalled;
                  continue;
                }
              break;
            }
          int pick = c[0];
          if (last >= 0)
            {
              if (replay) { auto it = S.rep.find({last, STEP_END | S.f[last].step}); if (it != S.rep.end()) for (auto& d : it->second) if (d.arg < S.nthreads && S.f[d.arg].st == FS_READY) { pick = d.arg; record(u8(last), STEP_END | S.f[last].step, A_SWITCH, pick); break; } }
              else if (!solo)
                {
                  if (S.cfg.strat == 1) { for (int i = 0; i < n; ++i) if (S.f[c[i]].prio > S.f[pick].prio) pick = c[i]; }
                  else pick = c[S.rng.below(n)];
                  if (pick != c[0]) record(u8(last), STEP_END | S.f[last].step, A_SWITCH, pick);
                }
            }
          next = pick;
        }
      Fiber* f = &S.f[next];
      last = next;
      g_next = -1;
      to_fiber(f);
      if (f->crashed) handle_crash(f);
      next = g_next;
      if (S.aborted) break;
    }
  // dead calls: state must be old or new everywhere
  for (auto* o : S.live)
    if (o->st == ST_RUN)
      {
        o->st = ST_DEAD;
        S.out[o->slot].st = ST_DEAD;
        std::string why;
        if (!chk_old_new(*o, o->wlo, o->whi, false, false, &why)) violate(V_TORN, o, "after the caller was killed: " + why);
        else if (o->acc) PROBE("killed-mid-call-state-verified");
        hash_add(memhash(*o));
        if (o->steps > 2) S.killed_slots.push_back(o->slot);
      }
  final_compare(lo, hi);
  if (p.recover && !S.aborted && !S.killed_slots.empty())
    {
      // a recovering thread repeats the interrupted transforms (not in place): must give the full result
      std::vector<int> redo;
      for (int s : S.killed_slots)
        {
          const OpDesc& d = g_ops[p.slots[s].op];
          bool inplace = false;
          for (int i = 0; i < 3; ++i) if (p.slots[s].reg[i] >= 0 && p.slots[s].reg[i] == p.slots[s].reg[3]) inplace = true;
          if (((d.kind == K_TR || d.kind == K_LS) && !inplace) || d.kind == K_MLS || d.kind == K_RED || d.kind == K_CNT) redo.push_back(s);
        }
      if (!redo.empty())
        {
          for (auto* o : S.live) if (o->st == ST_DEAD) { commit_shadow(*o); }
          fiber_init(S.f[0], 0);
          S.f[0].prog = redo; S.f[0].recovery = true; S.f[0].step = 0x40000000;
          const size_t before = S.viol.size();
          for (int i = 1; i < MAXF; ++i) S.f[i].st = FS_DONE;
          to_fiber(&S.f[0]);
          if (S.f[0].crashed) handle_crash(&S.f[0]);
          for (size_t i = before; i < S.viol.size(); ++i)
            if (S.viol[i].c == V_TR || S.viol[i].c == V_RED || S.viol[i].c == V_CNT || S.viol[i].c == V_LS || S.viol[i].c == V_MLS || S.viol[i].c == V_FAULT)
              { S.viol[i].c = V_TORN; S.viol[i].what = "re-running the interrupted call: " + S.viol[i].what; }
          PROBE("recovery-rerun");
        }
    }
  hash_add(S.viol.size());
  if (!solo)
    {
      ++T_runs; T_switch += S.switches; T_mid += S.midop_switches;
      for (int i = 0; i < A_N; ++i) T_faults[i] += S.faults[i];
      T_steps_sim += S.gstep;
    }
}

// C08: compare with solo executions of the same calls
static void exec_checked(Plan& p, bool replay, bool differential)
{
  std::vector<Outcome> gold;
  std::vector<u8> solo_bad;
  if (differential)
    {
      gold.resize(p.slots.size()); solo_bad.assign(p.slots.size(), 0);
      for (size_t i = 0; i < p.slots.size(); ++i)
        {
          if (g_ops[p.slots[i].op].kind == K_ENV) continue;
          Plan q; q.regs = p.regs; q.slots = p.slots; q.threads = 1;
          for (size_t j = 0; j < q.slots.size(); ++j) q.slots[j].thread = j == i ? 0 : 100;
          const bool tr = S.trace; S.trace = false;
          exec(q, false, true);
          S.trace = tr;
          gold[i] = S.out[i];
          if (S.out[i].st != ST_DONE) solo_bad[i] = 1;
        }
    }
  exec(p, replay, false);
  if (differential)
    for (size_t i = 0; i < p.slots.size(); ++i)
      {
        if (g_ops[p.slots[i].op].kind == K_ENV || solo_bad[i]) continue;
        const Outcome& o = S.out[i];
        OpState* os = nullptr;
        for (auto* l : S.live) if (l->slot == int(i)) os = l;
        if (o.st == ST_TRAP) { violate(V_CONC, os, "call crashed when overlapping with other calls, but completes on its own"); continue; }
        if (o.st != ST_DONE) continue;
        const char* w = o.ret != gold[i].ret ? "return value" : o.ret_it != gold[i].ret_it ? "returned iterator" : o.memhash != gold[i].memhash ? "written data"
          : o.reshash != gold[i].reshash ? "result value" : o.cbhash != gold[i].cbhash ? "set of values passed to the callable" : nullptr;
        if (w) violate(V_CONC, os, std::string(w) + " differs from the same call executed on its own");
        else PROBE("solo-equal");
      }
}

#include "gen.inc"
