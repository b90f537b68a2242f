#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is reviewable)."""
import json, os
P=[]
ARCH=["src/arch/*.rs","src/arch_legacy/*.rs"]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Operations on one atomic are linearizable: no torn, lost or invented value",
  "Any concurrent history of load, store, swap, compare_exchange, compare_exchange_weak and fetch_update calls on one AtomicMaybeUninit, of any supported width and with any valid orderings, is equivalent to executing the calls one at a time in an order that respects call/return precedence. In particular a load or read-modify-write never returns a mixture of bytes of two different values, and no completed store, swap or successful compare-exchange is lost or applied twice.",
  ["schedules","inputs","configurations"],
  "all interleavings (at the granularity of machine memory accesses) of 2-3 threads with 1-3 calls each, all operation kinds and widths, every supported target implementation",
  "The stress tests run a few random schedules on one x86 host; a torn 64/128-bit access, an un-locked read-modify-write or an ignored failed store-conditional needs one particular interleaving, and 15 of the 16 architectures are never executed.",
  ["src/lib.rs","src/raw.rs"]+ARCH,
  [("single-instruction or LL/SC / CAS-loop inline assembly","src/arch/*.rs"),("sub-word mask/shift helper","src/utils.rs create_sub_word_mask_values")])

p("C02","load, store and swap transfer exactly the right bytes",
  "Executed without interference, store(v) makes the atomic hold exactly the bytes of v, load returns exactly the bytes held, and swap(v) returns the bytes held before and leaves the bytes of v, for every value, every supported type (8 to 128 bits, signed, unsigned, pointer-sized), every valid ordering and every object address allowed by the type's alignment.",
  ["inputs","configurations"],
  "all byte positions and bit positions of every width, all 8-bit values, all aligned offsets inside a word/line, all orderings, all targets and target-feature variants",
  "Unit tests use a few integers at one address on x86; wrong halves of a register pair, a wrong shift for one offset in the containing word, or sign/zero extension show only for particular values, offsets, endianness and targets.",
  ["src/lib.rs","src/utils.rs"]+ARCH,
  [("register-pair splitting and zero extension","src/utils.rs MaybeUninit64/MaybeUninit128/ZeroExtend"),("asm templates","src/arch/*.rs")])

p("C03","compare_exchange succeeds iff the bytes are equal, and reports it truthfully",
  "compare_exchange(current,new) on initialized data stores new and returns Ok(previous) exactly when the held bytes equal current, and otherwise leaves the atomic unmodified and returns Err(previous); it never fails spuriously. compare_exchange_weak behaves the same except that it may fail spuriously, and a returned Ok always means that this call's new value replaced a value bytewise equal to current, a returned Err that nothing was stored by this call.",
  ["inputs","schedules","configurations"],
  "all single-bit differences of every width, all 8-bit pairs, all valid ordering pairs, all offsets, injected store-conditional failures and interfering writers, all targets",
  "Tests compare a handful of values; comparisons that ignore some bits, compare stale upper register bits, return a stale flag or write back on failure only show for particular values, register contents, orderings or interference.",
  ["src/lib.rs compare_exchange, compare_exchange_weak","src/raw.rs"]+ARCH,
  [("CAS instruction / LL-SC loop and result flag","src/arch/*.rs atomic_compare_exchange(_weak)"),("ok -> Ok/Err mapping","src/lib.rs")])

p("C04","Memory outside the atomic is never changed or lost",
  "No operation changes any byte outside the bytes of the AtomicMaybeUninit object, and a concurrent atomic or plain write by another thread to neighbouring bytes (for example inside the same machine word) is never overwritten, whatever the object's position in its containing word.",
  ["schedules","inputs","configurations"],
  "all offsets of 8/16-bit atomics in a word and all neighbouring objects, with a concurrent neighbour writer, all interleavings, all targets",
  "The only tests that look at neighbouring bytes are randomized, single-threaded and run on x86 only; lost neighbour updates need a write between the load and the store of a wider access.",
  ["src/utils.rs"]+ARCH,
  [("sub-word LL/SC or CAS loops with mask","src/utils.rs create_sub_word_mask_values, src/arch/*.rs atomic_sub_word")])

p("C05","load is read-only",
  "load never modifies the atomic's memory, and a load of a type not wider than a pointer performs no write access at all, so it works on read-only memory; a wider load may perform a write access only if it rewrites the value already there atomically.",
  ["inputs","schedules","configurations"],
  "all values (including the value used as comparison operand by CAS-based loads), orderings, widths, offsets, interleavings with a concurrent writer, all targets",
  "A CAS- or LL/SC-based load passes every value-based test; only read-only pages or a concurrent writer at the right moment distinguish it, and tests check neither for most widths and targets.",
  ["src/raw.rs AtomicLoad docs","src/lib.rs load"]+ARCH,
  [("plain load instruction selection","src/arch/*.rs atomic_load")])

p("C06","Acquire/Release publication is never violated",
  "When an acquire (or stronger) operation reads a value written by a release (or stronger) operation, or by a read-modify-write in its release sequence, everything before the release in its thread is visible to everything after the acquire in the reading thread, transitively. This holds for every combination of load, store, swap, compare_exchange (success and failure orderings) and compare_exchange_weak, every width, and on every supported memory model and compiler reordering.",
  ["schedules","programs","configurations"],
  "all executions of the litmus programs (message passing, write-to-read causality, ISA2, release sequences, S, load buffering with acquire/release) allowed by the target's memory model",
  "x86 hardware hides almost every missing barrier and the tests never run elsewhere; a weak-memory outcome is one rare hardware schedule.",
  ["src/lib.rs"]+ARCH,
  [("acquire/release instruction suffixes and fences per ordering","src/arch/*.rs atomic_rmw!/atomic_load/atomic_store"),("success/failure ordering upgrade","src/utils.rs upgrade_success_ordering"),("implicit memory clobber of asm!","src/arch/*.rs options(...)")])

p("C07","SeqCst operations have a single total order",
  "All SeqCst operations, whatever their kind and width and the objects they act on, are consistent with one total order that agrees with program order and happens-before, as in the C++20/Rust memory model; a SeqCst failure ordering counts for failed compare_exchange. In particular store buffering, IRIW, and R/2+2W style outcomes forbidden by that model never occur.",
  ["schedules","programs","configurations"],
  "all executions of the SB, IRIW, R, 2+2W, W+RWC, S, and mixed SeqCst/release-acquire litmus programs allowed by the target's memory model",
  "Needs store-buffer or non-multi-copy-atomic behaviour of hardware the tests do not run on, and on x86 a rare timing.",
  ["src/lib.rs"]+ARCH,
  [("xchg / lock or / dmb / sync / fence placement for SeqCst","src/arch/*.rs")])

p("C08","Each atomic has one modification order, even with Relaxed orderings",
  "For every single AtomicMaybeUninit all threads agree on one modification order: reads in a thread never go backwards in it, a thread reads its own latest write or a later one, and each read-modify-write reads the value immediately preceding its own write. This holds with Relaxed orderings, on weakly ordered hardware, for every width.",
  ["schedules","programs","configurations"],
  "all executions of coherence litmus programs (CoRR, CoRW, CoWR, CoWW, CoRMW) and RMW atomicity programs with 2-3 threads allowed by the target's memory model",
  "Coherence violations are rare hardware schedules and compiler-reordering effects; the tests only sample x86.",
  ["src/lib.rs"]+ARCH,
  [("single-copy-atomic accesses, exclusives, locked instructions; asm memory effects","src/arch/*.rs")])

p("C09","Exactly the documented invalid orderings panic, before any effect",
  "load panics exactly for Release and AcqRel, store exactly for Acquire and AcqRel, compare_exchange, compare_exchange_weak and fetch_update exactly when the failure/fetch ordering is Release or AcqRel; such a call has no effect on memory. Every other combination of orderings, on every operation and type, is accepted and completes without panicking or undefined behaviour.",
  ["inputs","configurations"],
  "all 5 orderings (25 pairs) for every operation, type, target, with and without debug assertions",
  "Tests check a subset of the panics on x86; a missing match arm for one ordering pair in one architecture (unreachable!()) or an assert placed after the effect is not seen.",
  ["src/lib.rs","src/utils.rs assert_load_ordering, assert_store_ordering, assert_compare_exchange_ordering"]+ARCH,
  [("ordering assertions","src/utils.rs"),("per-architecture match on ordering","src/arch/*.rs")])

p("C10","fetch_update is an atomic read-modify-write loop",
  "fetch_update calls f with a value the atomic held, returns Ok(previous) only after atomically replacing exactly that previous value by the f(previous) just computed, and returns Err(value) without storing anything only when f returned None for that value. On a failed attempt it retries with the value observed, f is never called again after it returned None or after success, and the set/fetch orderings apply to the store and to the loads.",
  ["schedules","inputs","histories","configurations"],
  "all interleavings of 2-3 threads doing fetch_update (increment, conditional, None at each point) against stores/swaps/CAS, spurious failures injected, all ordering pairs, sequential and concurrent",
  "Tests run it single-threaded or in a stress loop on x86 where compare_exchange_weak never fails spuriously; stale retry values and swapped orderings need interference.",
  ["src/lib.rs fetch_update"],
  [("load + compare_exchange_weak loop","src/lib.rs fetch_update")])

p("C11","Every operation terminates: retry loops repeat only because of interference",
  "Running alone from any reachable point, every operation completes within a small bounded number of steps, and a strong operation repeats its internal loop only when another thread modified the same memory in between or a store-conditional failed spuriously. Hence some thread always makes progress (lock-freedom) and no operation deadlocks or livelocks by itself.",
  ["schedules","inputs","configurations"],
  "from every reachable state of the 2-3 thread programs, all widths, values and offsets, all targets",
  "An infinite retry for particular values (for example a comparison including garbage bits) or after a particular failure never occurs in the sampled schedules on x86.",
  ["src/lib.rs fetch_update"]+ARCH,
  [("LL/SC and CAS retry loops","src/arch/*.rs")])

p("C12","Uninitialized bytes are legal and initialized bytes survive",
  "Storing, loading, swapping, moving in or out, and compare-exchanging values of which any subset of bytes is uninitialized is never undefined behaviour, and every byte that was initialized is transferred unchanged whatever the uninitialized bytes are. Comparison of initialized equal bytes is unaffected, and the success flag always tells the truth about whether the new value was stored.",
  ["inputs","configurations"],
  "every subset of initialized/uninitialized bytes up to 8 bytes (representative subsets for 16), every operation, contents of uninitialized bytes enumerated from an alphabet, all targets",
  "Undefined behaviour on uninitialized bytes is invisible to native tests and Miri cannot run inline assembly.",
  ["src/lib.rs","src/utils.rs","src/raw.rs"]+ARCH,
  [("MaybeUninit operands / by-pointer operands instead of integers","src/arch/*.rs, src/arch_legacy/*.rs"),("transmute helpers","src/utils.rs")])

p("C13","The caller's registers, flags, stack and FPU state are preserved",
  "Whatever registers the compiler assigns to the operands, an operation changes no caller-visible machine state other than its declared results: callee values in other registers (including reserved ones such as rbx), preserved flags, the direction flag, the x87 stack, the stack memory and the red zone are unchanged, and its inputs are read before any result overwrites them. The result never depends on what unrelated registers or unspecified upper register bits contain.",
  ["inputs","programs","configurations"],
  "every register assignment permitted by the operand constraints (including results sharing a register with inputs), several contents of all other registers, every retry path, every operation, type, ordering and target",
  "The compiler picks one register assignment per call site; an under-declared clobber or a missing early-clobber miscompiles only in call sites with other register pressure.",
  ARCH+["src/gen/utils.rs"],
  [("asm! operand constraints, clobbers and options","src/arch/*.rs"),("ptr_reg! / ptr_modifier!","src/gen/utils.rs, src/arch/x86.rs")])

p("C14","Layout, conversions and pointer access behave like the plain value",
  "AtomicMaybeUninit<T> has the same size as T and alignment equal to its size, and new, const_new, From, from_ptr, as_ptr, get_mut and into_inner view the very same bytes: what is put in by any of them (any bytes, initialized or not) is what any of the others and the atomic operations see. Debug formatting prints without reading the value.",
  ["inputs","histories","configurations"],
  "all sequences up to length 4 of construction, access and conversion operations over a value alphabet, for all types and targets",
  "Tests exercise single conversions with a few initialized values on x86; chains through pointers, uninitialized bytes and targets where the natural alignment is smaller (for example i686 u64, AVR, M68k, MSP430) are not covered.",
  ["src/lib.rs"],
  [("repr(C) with zero-sized alignment field","src/lib.rs AtomicMaybeUninit, private::Align*"),("transmute_copy_by_val","src/utils.rs")])

p("C15","Configuration macros tell the truth about availability",
  "On every target and target-feature set, cfg_has_atomic_{8,16,32,64,128,ptr,cas}! keep their body exactly when the corresponding types implement load/store (for cas: swap and compare-exchange), cfg_no_* is the exact complement, availability of a width never depends on anything but the target and features, and signed, unsigned and pointer-sized types of one width are available together. The availability on each documented target agrees with the documented table.",
  ["configurations"],
  "every supported built-in target and each documented target-feature/cfg variant, both implementations (current and pre-1.74)",
  "Tests compile only three configurations; the macros are hand-maintained per architecture separately from the implementations.",
  ["src/arch/cfgs/*.rs","src/lib.rs","README.md"],
  [("cfg macros","src/arch/cfgs/*.rs"),("trait impls","src/arch/*.rs")])

p("C16","On interrupt-based targets operations are atomic and restore the interrupt state",
  "On single-core targets whose read-modify-write operations work by disabling interrupts (AVR, MSP430), and for word-splitting accesses there, an interrupt handler operating on the same atomic at any instruction boundary sees and leaves it as if the interrupted operation had happened entirely before or after. On return the interrupt-enable state and the rest of the status register meant to be preserved are exactly as before the call, both with interrupts initially enabled and disabled.",
  ["schedules","inputs","configurations"],
  "an interrupt handler performing any operation at every instruction boundary, both initial interrupt states, all operations, types and values, AVR and MSP430",
  "These targets are never run by the tests; the window is a single instruction.",
  ["src/arch/avr.rs","src/arch/msp430.rs"],
  [("in/cli/out SREG, dint/eint sequences","src/arch/avr.rs, src/arch/msp430.rs")])

# Which widths must always be available etc. belongs to C15.
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
