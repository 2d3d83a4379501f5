import json
EX="vir/simd_execution.h"; SI="vir/simdize.h"; SD="vir/simd.h"; DE="vir/detail.h"
def P(id,title,st,over,txt,why,files,mech,state=None,obs=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None)
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: a["observe_at"]=obs
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=txt),why_tests_cant=why,anchors=a)
A=["schedules","inputs","programs","configurations"]
L=[
P("C01","SIMD for_each processes every element exactly once and writes back exactly that",
 "For every range, length, alignment and policy, for_each hands every element of the range to the callable exactly once, in the lanes of contiguous chunks, whichever other callers run meanwhile. When the callable takes its chunk by mutable reference, each element afterwards holds exactly what the callable left for it; when it takes the chunk by value or by const reference, nothing in the range is written at all.",
 A,"over all interleavings with other callers in the same process, all range lengths and start addresses, element types (arithmetic, char types, structs, tuples, pairs, arrays), policies (size, unroll, alignment modes), callable forms and builds",
 "testsuite/tests/simd_execution.cpp samples a few lengths of a few scalar types, single-threaded, from well-aligned vectors; it cannot see reads/writes that a concurrent owner of the neighbouring or same read-only memory would notice, nor short misaligned ranges.",
 [EX,SI],[("chunked main loop, unrolling and write-back",EX+":1108-1205"),("alignment prologue",EX+":90-219, 560-640"),("epilogue / jump tables",EX+":221-356"),("load, invoke, write back",EX+":48-60")],
 obs=["arguments seen by the callable, lane by lane","every memory access of the caller thread to the arena","memory after the call"]),
P("C02","SIMD transform fills exactly the output range, in place or not, and says so",
 "transform (one, two or more inputs, iterators or ranges) applies the operation exactly once to every position and stores exactly that result at that position of the output, also when the output is one of the inputs; inputs that are not the output are never written. The returned position is one past the last element written.",
 A,"over all interleavings with other callers, lengths, alignments, aliasing output==input, element type combinations (incl. structs and different sizes), policies, iterator and range overloads (incl. ranges of different lengths) and builds",
 "the existing tests check a few type combinations with fixed lengths and unaliased, aligned memory, single-threaded.",
 [EX],[("transform driver",EX+":713-812"),("transform prologue and epilogue",EX+":640-711"),("iterator, range and zip overloads",EX+":1225-1320")],
 obs=["callable arguments and results","returned iterator","memory accesses and final memory"]),
P("C03","SIMD reduce and transform_reduce are the generalized sum over each element once",
 "reduce and transform_reduce return exactly the generalized sum of init and all (transformed) elements: each element contributes exactly once, init exactly once, for associative and commutative operations, independent of chunking, alignment, unrolling and of what other callers do meanwhile. An empty range yields init.",
 A,"over all interleavings with other callers, lengths, alignments, element/accumulator types, operations (sum, min, max, xor, inner product, user operations), policies, overloads and builds",
 "the existing tests reduce a handful of ranges; combinations of prologue, unroll remainder and epilogue (each with its own accumulator) are a product space they do not reach.",
 [EX],[("transform_reduce driver and accumulators",EX+":943-1105"),("prologue / epilogue accumulation",EX+":813-941"),("reduce overloads",EX+":1427-1485")],
 obs=["returned value compared with an exact integer reference","memory accesses"]),
P("C04","SIMD count_if counts exactly the elements that satisfy the predicate",
 "count_if returns exactly the number of elements for which the predicate holds, for every length including lengths far beyond what any counter of the element type's width can hold, every alignment and policy, and leaves the range untouched.",
 A,"over all interleavings with other callers, lengths (also > 2^8 and > 2^16 chunks), alignments, element types, predicates, policies and builds",
 "the existing test counts small ranges of few types; overflow of per-lane or per-chunk counts and prologue/unroll/epilogue combinations are not reached.",
 [EX],[("count_if",EX+":1487-1545"),("for_each used underneath",EX+":1120-1180")],obs=["returned count","memory accesses"]),
P("C05","Library calls touch no memory outside the ranges they were given",
 "No algorithm, load or store reads or writes a single byte outside the element ranges the caller passed, and none writes to a range that was passed as read-only. Two callers that work on adjacent, non-overlapping ranges at the same time therefore never lose each other's updates and never observe each other.",
 ["schedules","inputs","programs","configurations"],"over all interleavings of callers on adjacent ranges, all lengths, start addresses, element types, policies, algorithms, whole and masked loads and stores, and builds",
 "an over-read or a read-modify-write of a neighbouring byte leaves single-threaded results correct; only a concurrent neighbour or a watched access shows it.",
 [EX,SI,SD],[("chunk sizes near the ends of a range",EX+":182-356"),("struct loads and stores via permutation",SI+":589-900"),("whole and masked loads/stores",SD+":675-840, 1289-1300, 1612-1630, 1988-2050")],
 obs=["every memory access (instrumented) plus guard pages and poisoned gaps"]),
P("C06","An exception from a callable stops the call and keeps exactly the completed work",
 "When a callable throws, the same exception reaches the caller, no callable is invoked again, inputs are unchanged, no element whose own invocation did not complete has changed, and every element holds its old value or its complete result. With for_each every invocation that completed keeps its result. The library stays fully usable afterwards, in this and all other threads.",
 ["fault_sequences","schedules","inputs","configurations"],"over every invocation index at which a callable may throw, in every algorithm, policy and length, with other callers running before, during and after",
 "no existing test throws from a callable.",
 [EX],[("load / invoke / write-back ordering",EX+":48-86"),("transform store after invoke",EX+":755-810")],obs=["exception object identity","callback log","memory after the unwind","later calls"]),
P("C07","A caller killed at any instant leaves only old or new values behind",
 "If the executing thread or process is killed at an arbitrary instant of a call on shared or persistent memory, every scalar in the destination is either its old value or its final value, everything outside the destination and all inputs are intact, and repeating a transform, reduction or store afterwards yields the full result.",
 ["crash_points","schedules","inputs","configurations"],"over every memory access of every mutating call as the crash point, with other callers continuing",
 "no existing test stops a call half-way; intermediate values in the destination are invisible after completion.",
 [EX,SI,SD],[("results are computed in registers and stored once",EX+":48-86"),("struct stores",SI+":820-941"),("simd stores",SD+":681-690, 1295-1300, 1621-1630")],obs=["memory image at the crash point","result of the re-run"]),
P("C08","Concurrent, nested and signal-handler calls behave as if each ran alone",
 "The library keeps no state between or across calls: any mix of simultaneous calls from several threads, calls made from inside callables and calls made from signal handlers that interrupt another call return the results and leave the memory that each call would have produced alone.",
 ["schedules","histories","programs","configurations"],"over all interleavings, nestings and interruption points of algorithm calls, loads, stores and value operations (casts, permutations, resizing, math, masks, conversions), including repeated calls in one process",
 "the tests are single-threaded; hidden scratch storage, caches or lazily initialised tables give right answers in every test that runs one call at a time.",
 [EX,SI,SD,"vir/simd_permute.h","vir/simd_resize.h","vir/simd_bitset.h","vir/simd_iota.h","vir/simd_cvt.h","vir/simd_bit.h","vir/simd_float_ops.h",DE],[("all temporaries are automatic objects; no static mutable data",EX+":48-1105"),("value operations",SD+":840-2600"),("permutations and resizing","vir/simd_permute.h:1-337, vir/simd_resize.h:1-73")],
 obs=["results of each call vs. its sequential reference model","writes to static storage"]),
P("C09","Masked loads and stores of the fallback touch exactly the selected elements",
 "A masked load or store reads or writes memory only for lanes whose mask bit is set: unselected elements are neither read (they may be inaccessible or owned by another thread) nor written (not even with their old value), and selected ones are transferred with the right conversion. Unselected lanes of the target register keep their value.",
 ["schedules","inputs","configurations","fault_sequences"],"over all masks, element types and conversions, widths, alignments, and concurrent writers of the unselected elements",
 "writing back an unselected element unchanged, or reading and discarding it, is invisible to a single-threaded test on ordinary memory.",
 [SD],[("masked copy_from / copy_to for simd, mask, bool",SD+":1975-2060, 2165-2245"),("masked constructors and loops",SD+":660-690, 820-840, 1285-1300, 1600-1630")],obs=["every access, per element","inaccessible unselected elements","lane values"]),
P("C10","Whole loads and stores move exactly N elements, in order, and nothing else",
 "Loading a simd, a mask or a simdized structure from memory (constructor or copy_from) yields element i of the source in lane i, for every member, reading exactly N elements; storing writes lane i to element i and exactly N elements, with members and conversions intact. Storing what was loaded reproduces the bytes of every member.",
 ["schedules","inputs","programs","configurations"],"over widths, element types (scalars, conversions, structs of 2-4 members, mixed-size members, tuples, pairs, arrays), alignment flags, addresses, builds and concurrent owners of the neighbours",
 "the permutation tables behind structure loads/stores are per (structure, width) special cases; tests sample a few and check values only.",
 [SI,SD],[("structure loads by permutation",SI+":589-820"),("structure stores by permutation",SI+":824-900"),("member-wise gather/scatter",SI+":480-520"),("simd and mask loads/stores",SD+":675-690, 828-840, 1289-1300, 1612-1630")],obs=["lane values","every access"]),
P("C11","Every call finishes in a bounded number of its own steps, whatever others do",
 "A library call never waits for another thread and never allocates: it completes within a number of its own steps proportional to the range length even if every other caller is stalled forever or died in the middle of a call, and it completes correctly while memory allocation fails.",
 ["schedules","fault_sequences","inputs","configurations"],"over all stalls, deaths and allocation failures injected at any point of any concurrent call",
 "no test stalls or kills a concurrent caller or makes allocations fail.",
 [EX,SI,SD],[("no locks, no lazily initialised statics, no allocation in any algorithm",EX+":48-1545")],obs=["step counter per call","intercepted locks, guards and allocators"]),
P("C12","Violated preconditions stop the program before any damage; legal calls never do",
 "With precondition checking at its default or a higher level, a call that violates a documented precondition (a range size that is no multiple of the width under assume_matching_size, a lane index out of bounds, first/last set lane of an empty mask) traps or aborts before it invokes a callable or writes anything; at the printing levels it first prints the failed condition. Calls that satisfy their preconditions never trap.",
 ["inputs","schedules","histories","configurations"],"over all violating and conforming argument combinations of the checked entry points, all checking levels that stop the program, with other callers in flight",
 "the tests contain no death tests: a check that is lost, inverted or moved behind the first store passes them all.",
 [SD,EX],[("precondition macro and levels",SD+":41-170"),("matching-size precondition",EX+":713-812, 943-1000, 1120-1160"),("index and empty-mask preconditions of the fallback",SD+":686-700, 839-855, 980-1075, 1300-1315, 1629-1645")],obs=["trap/abort event","stderr text","memory and callback log at the trap"]),
P("C13","Execution policy modifiers keep their promises about chunk shapes",
 "Under assume_matching_size every chunk has the full width; with a preferred size N all full chunks have N lanes and none more; with unrolling by M a variadic callable is invoked with M or with one chunk at a time, never more, and M full chunks as long as enough elements remain; with prefer_aligned full-width chunks start at addresses aligned for vector access (of the output, for transform).",
 A,"over all policies and their combinations, lengths, start addresses, element types, algorithms, callable forms and interleavings",
 "results do not depend on the chunk shapes, so result-based tests cannot see a broken policy; tests check a few shapes only.",
 [EX],[("policy type and modifiers",EX+":420-530"),("unrolled and single loops",EX+":1120-1180, 755-810, 1000-1090"),("alignment prologue",EX+":536-640")],obs=["chunk width, address and argument count of every callable invocation"]),
]
def N(id,title,st,files,mech,over=("inputs","programs","configurations")):
    return P(id,title,st,list(over),"over all lane values and types","exhaustive over values/types is out of reach of sampled unit tests",files,mech)
NA=[
(N("C14","Fallback simd and simd_mask arithmetic equals element-wise scalar semantics","Every operator, comparison, reduction, min/max/clamp and where-assignment of the fallback simd types equals the corresponding scalar operation applied lane by lane.",[SD],[("operators and reductions",SD+":840-2600")]),
 "A pure function of the operand values: no schedule, clock, I/O or fault can influence it. (That such operations keep no hidden state between concurrent calls is claimed as C08, and one value program per operation family runs there against a scalar model.)"),
(N("C15","Mathematical functions of the fallback equal std:: functions lane by lane","Each math overload of the fallback returns, per lane, what the std function returns for that lane.",[SD],[("math overloads",SD+":2300-2600")]),
 "Pure function of the input lanes; nothing for a scheduler or fault injector to decide (re-entrancy is covered by C08)."),
(N("C16","Casts, cvt, bit_cast, resize and bitset conversions preserve values","Element type conversions, bit casts, resizing and mask/bitset round trips keep every lane's value (or bits) and order.",[SD,"vir/simd_cast.h","vir/simd_cvt.h","vir/simd_bit.h","vir/simd_resize.h","vir/simd_bitset.h"],[("conversions","vir/simd_resize.h:1-73, vir/simd_bitset.h:1-62, vir/simd_bit.h:1-31")]),
 "Pure functions of the input value; no nondeterminism or fault surface (re-entrancy is covered by C08)."),
(N("C17","Permutations place exactly the lane the index function names","simd_permute, the predefined permutations and simd_shift_in return, for each result lane, the lane (or constant) the index function selects.",["vir/simd_permute.h"],[("permute and shift_in","vir/simd_permute.h:1-337")]),
 "Pure function of the operands and a compile-time index function (re-entrancy is covered by C08)."),
(N("C18","Bitwise operators on floating-point simd act on the object representation","The float operators &, |, ^ yield the lane-wise bit operation on the value representation.",["vir/simd_float_ops.h"],[("operators","vir/simd_float_ops.h:1-72")]),
 "Pure function of the input; no schedule or fault in it."),
(N("C19","simdize, struct reflection, concepts and iota map types as documented","The type mapping of simdize, the member count/type queries, the concepts, iota constants and version macros equal their documentation for every type.",[SI,"vir/struct_reflect.h","vir/simd_concepts.h","vir/simd_iota.h","vir/simd_version.h"],[("type mapping",SI+":1-480"),("reflection","vir/struct_reflect.h:1-537")],("programs",)),
 "Decided entirely at compile time: there is no execution to schedule or inject faults into."),
(N("C20","constexpr_wrapper expressions equal the wrapped constants' expressions","Every operator on constexpr_wrapper arguments yields a wrapper of the value of the expression on the wrapped constants; literals parse to their value.",["vir/constexpr_wrapper.h"],[("operators and literals","vir/constexpr_wrapper.h:1-472")],("programs",)),
 "Compile-time only; no runtime behaviour to simulate."),
(N("C21","Constant evaluation of algorithms gives the run-time result","Evaluating an algorithm in a constant expression gives the same result as calling it at run time.",[EX],[("constant-evaluated branches",EX+":1120-1180")],("programs","inputs")),
 "The compiler's evaluator executes the code: single-threaded, fault-free, outside any simulator's control. (One defect found by reading was repaired, see known_findings.txt.)"),
(N("C22","Benchmark helpers neither elide nor change the values passed through them","fake_modify and fake_read keep values unchanged while acting as optimisation barriers.",["vir/simd_benchmarking.h"],[("barriers","vir/simd_benchmarking.h:1-101")],("inputs","configurations")),
 "A statement about the optimiser's freedom and performance; identity functions at run time with no schedule or fault surface."),
]
with open("/verif/properties.jsonl","w") as f:
    for p in L+[x for x,_ in NA]: f.write(json.dumps(p,ensure_ascii=False)+"\n")
lev={"C01":"every access of the real code is a scheduling point","C05":"","C12":""}
note="Seeded sampling, not proof: the property held on every simulated run of the reported seeds. Real code: all of vir/*.h as compiled by g++ 13 (and libstdc++'s <experimental/simd> where the build uses it). Simulated: threads, signals, kills, stalls, allocator, locks, the memory the ranges live in. Trusts the compiler's access instrumentation and the reference model in sim/."
checks=[]
for p in L:
    checks.append(dict(property=p["id"],quick_cmd="python3 harness/run.py check %s --tier quick"%p["id"],thorough_cmd="python3 harness/run.py check %s --tier thorough"%p["id"],
      technique="deterministic simulation with fault injection (seeded schedules and faults over instrumented real code, reference-model oracle)",level="exploration",level_note=note))
json.dump(dict(version=1,setup_cmd="true",checks=checks,not_applicable=[dict(property=x["id"],reason=r) for x,r in NA],
   notes="No hooks in /repo: the seams are the compiler's memory-access instrumentation of the header-only library, the ranges, callables, allocator and lock/guard symbols, all owned by sim/. Replay: python3 harness/run.py replay <file>."),open("/verif/MANIFEST.json","w"),indent=1)
