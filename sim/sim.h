// Interface between the instrumented workload TUs (which contain the real vir-simd code) and the
// uninstrumented simulator core (libsimcore.so).  Everything here is type-erased on purpose.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim
{
  enum Ty : uint8_t { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, BL };

  struct ElemDesc
  {
    char name[40];
    uint16_t size, align;
    uint8_t nm;          // number of (flattened) scalar members
    Ty ty[12];
    uint16_t off[12];
  };

  enum Kind : uint8_t
  {
    K_FE,    // for_each
    K_TR,    // transform
    K_RED,   // reduce / transform_reduce
    K_CNT,   // count_if
    K_LS,    // whole loads/stores
    K_MLS,   // masked loads/stores
    K_VAL,   // value operation, differential (solo) oracle only
    K_BAD,   // call that violates a documented precondition
    K_ENV    // harness thread doing plain byte stores (stub client)
  };

  enum : uint32_t
  {
    // FE callable flavours
    F_WB      = 1 << 0,  // elements are written back (modified)
    F_VARIADIC= 1 << 1,  // callable accepts any number of chunks
    // policy
    F_ALIGNED = 1 << 2,
    F_AUTO    = 1 << 3,
    F_MATCH   = 1 << 4,
    F_SIZED   = 1 << 5,
    F_INPLACE = 1 << 6,  // out may be in[0] (same element type)
    F_RETIT   = 1 << 7,  // returns output iterator
    F_FIXN    = 1 << 8,  // n is fixed to W
    F_MASKSEL = 1 << 9,  // lane mask selects what may be touched
    F_MLOAD   = 1 << 10, // masked load (in[0] masked)
    F_MSTORE  = 1 << 11, // masked store (out masked)
    F_NOOUTALIGN = 1 << 12,
    F_NOCB    = 1 << 13, // no user callable involved
    F_ABORT   = 1 << 14, // fails by abort() instead of trap
    F_VALIGN  = 1 << 15, // buffers must be aligned to `align` (vector_aligned flag)
    F_STRICTW = 1 << 16,
    F_MULTIRED= 1 << 17,
    F_FEWCB   = 1 << 18,
    F_OPCB    = 1 << 20, // reduction with a user operation but no element callable
    F_BADSIZE = 1 << 21, // the violated precondition is about the size of the range
    F_INIT0   = 1 << 19, // reduce without init argument (init is T{})
  };

  // semantics of the callable / combination (all data is integer valued; model works in int64)
  enum Sem : uint8_t
  {
    S_ADD,     // FE / TR1 / LS: out_j = in_(j%nm_in) + k + j
    S_NONE,    // FE by value: nothing is written
    S_ADD2,    // TR2: out_j = in0_j + 2*in1_j + k + j
    S_ADD3,    // zip of three: in0 + in1 + in2 + k + j
    S_SUM,     // RED plus
    S_MAX, S_MIN, S_XOR,
    S_SUMK,    // TRED1: sum (2*x + 1)  (struct: sum of all members)
    S_DOT,     // TRED2: sum x*y
    S_MAXD,    // TRED2: max(x+y)
    S_LT,      // CNT: x < k
    S_EQ,      // CNT: x == k
    S_ALL,     // CNT: true
    S_COPY,    // LS: out = in
    S_MCOPY,   // masked: selected lanes: out = in (store)
    S_GOLD,    // value op
    S_SUMX,    // sum of cast x
    S_RAW,     // FE / TR1 / LS / MLS: out is bitwise in (any bit pattern: NaN, -0, inf, denormals, extreme integers); CNT: x == x
    S_MUL, S_AND, S_OR,
    S_CVT,     // LS / MLS: in -> lane type (rty) -> out by static_cast, with fractions, values that need rounding, wrap-around
  };

  struct OpCtx
  {
    void* in[3];
    void* out;
    std::size_t n;
    long k;           // small parameter
    long init;        // reduction init
    uint64_t mask;
    // results
    long ret;
    void* ret_it;
    void* priv;
  };

  using RunFn = void (*)(OpCtx*);

  // lane i of the vector of a masked store with S_CVT: |value| < 2^(bits & 63), negative ones only if bits & 64
  template <class T> inline T cvt_lane(long k, int i, long bits)
  {
    unsigned long z = (static_cast<unsigned long>(k) + 77) * 0x9e3779b97f4a7c15ul + static_cast<unsigned long>(i) * 0xbf58476d1ce4e5b9ul;
    z ^= z >> 29; z *= 0x94d049bb133111ebul; z ^= z >> 32;
    const int b = int(bits & 63);
    const long mag = long((z >> 1 & ((1ul << b) - 1)) >> (b ? int((z >> 13) % unsigned(b)) : 0));
    const bool neg = (bits & 64) && (z & 1);
    if constexpr (T(0.5) != T(0)) { const T v = static_cast<T>(mag) + static_cast<T>(int(z >> 5 & 7)) / T(8); return neg ? -v : v; }
    else return static_cast<T>(neg ? -mag : mag);
  }

  // one call on a range that does not fit into memory (huge.h)
  struct HugeCtx
  {
    const void* in; void* out;
    std::uint64_t n;
    long k;
    std::uint64_t lanes; long got; void* ret;
  };
  struct HugeDesc { char name[80]; int prop; const char* kind; void (*run)(HugeCtx*); };

  struct OpDesc
  {
    char name[120];
    Kind kind;
    Sem sem;
    const ElemDesc* in[3];
    uint8_t nin;
    const ElemDesc* out;   // null: no output range
    Ty rty;                // reduction result type
    int W;                 // chunk width
    int M;                 // unroll (1 if none)
    int align;             // memory alignment in bytes of the aligned range (prefer_aligned), or 0
    uint32_t flags;
    RunFn run;
  };
}

extern "C"
{
  const sim::ElemDesc* sim_elem(const sim::ElemDesc*);   // interns
  void sim_register(const sim::OpDesc*);
  void sim_register_huge(const sim::HugeDesc*);
  void sim_begin(sim::OpCtx*);
  void sim_end(sim::OpCtx*);
  // may switch threads, run nested calls, or throw
  void sim_enter(sim::OpCtx*, int which, int nargs);
  void sim_chunk(sim::OpCtx*, int w);
  void sim_col(sim::OpCtx*, const void* buf, int ty, int w);
  void sim_leave(sim::OpCtx*, int which);
  void sim_result(sim::OpCtx*, const void* buf, std::size_t bytes);
}
