#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, subprocess
T = "TLA+ specification checked with TLC; "
HIST = ("real histories of safe public calls, instrumented elements and allocator, each recorded "
        "step validated by TLC as a transition of the reference machine (Matreex.tla)")
CLAIMED = {
 "C01": (T + HIST + "; programs exhaustive over single calls and pairs and simulated from the machine",
         "The reference machine is explored exhaustively for small shapes; real runs are bound to it "
         "by trace validation of every step, for 19 element layouts, under an allocator that guards and poisons every "
         "block; some histories under Miri. Bounded: shapes <= 6x6, and single operations on large matrices (Bulk)."),
 "C02": (T + "fault-enumerated real histories: a panic is injected at every user-code call point of "
         "every operation and TLC decides whether the observed aftermath is one the fault machine allows",
         "Every call of user code in the covered programs is a fault point (small shapes); on larger shapes faults of "
         "every magnitude. 14 element layouts; some programs under Miri."),
 "C05": (T + HIST + "; the permutation argument of the in-place transposition proved for every shape (TLAPS, thorough)", "Exhaustive over shapes <= 6x6 and both orders for single calls; large shapes, zero-sized shapes up to usize::MAX and Miri runs sampled."),
 "C07": (T + "pairs of real runs that differ only in storage order, validated by TLC (TracePair)",
         "Exhaustive over order flips of the covered programs, small shapes."),
 "C08": (T + "two-limb model of the checked size computations (SizeCheck) explored for every pair of words; real "
         "size-taking calls with boundary arguments for element types of 0, 1, 8 and 4096 bytes, under an allocator that "
         "records or refuses huge requests, validated by TLC with big-number arithmetic (TraceSize)",
         "Small-word model exhaustive; real calls on all pairs of boundary values (powers of two, square roots, "
         "factorizations around usize::MAX and isize::MAX)."),
 "C09": (T + HIST, "Exhaustive over small shapes and targets, plus boundary values of usize."),
 "C10": (T + HIST, "Exhaustive over all index pairs of shapes <= 4x4, plus boundary index values, index types whose accessors "
         "change their answer, zero-sized shapes up to usize::MAX and large matrices."),
 "C11": (T + "product machine with recorded factor pairs (Product/TraceProduct), real products "
         "validated by TLC", "Exhaustive over operand shapes <= 4 and orders; free-monoid element type."),
 "C12": (T + HIST, "Exhaustive over shape pairs <= 3x3, orders and all call forms."),
 "C14": (T + HIST, "Exhaustive over shape pairs <= 4x4 and orders; large shapes and zero-sized ones beyond 2^32 sampled."),
 "C03": (T + "pointer-level model of the mutable iterators (IterMut) explored for every interleaving; the "
         "schedules TLC prints from GenIter are replayed on the real iterators, natively and under Miri, "
         "and every recorded step validated by TLC (TraceIter)",
         "Pointer model exhaustive for small shapes, strides and element sizes incl. zero; replays exhaustive "
         "over all interleavings for shapes <= 2x2, sampled above; zero-sized counts up to usize::MAX."),
 "C04": (T + "access protocol with adversarial index values on a small word (Index) explored exhaustively; real "
         "accesses for all index types, forms and boundary values, natively (debug, release) and under Miri, "
         "validated by TLC (TraceIndex)",
         "Small-word model exhaustive; real index values: all small ones, extremes, and values whose product "
         "with a stride wraps around."),
 "C06": (T + "reference views (Views, IterRef); schedules printed by TLC replayed on all real views, each step "
         "validated by TLC (TraceIter), natively and under Miri",
         "All shapes <= 4x4, every n, both orders, mixed front/back schedules."),
 "C13": (T + "word-level model of the wrapping arithmetic (Wrapping) explored for every index and extent of a "
         "small word; real accesses validated by TLC against the mathematical remainder (TraceIndex)",
         "Word of 6 (9 in the thorough tier) bits exhaustive; real windows of 3 periods either way plus extremes."),
 "C15": (T + "element iterators replayed over schedules printed by TLC and over histories, every item validated "
         "by TLC (TraceIter, TraceHist)", "All shapes <= 4x4 and larger ones, both orders, 12 element types."),
 "C16": (T + "model of work splitting (Par); real parallel calls on pools of 1..64 threads validated by TLC against "
         "the sequential meaning (TracePar); also under Miri", "Schedules of real pools are sampled, not enumerated."),
 "C17": (T + "model of vectors, threads and element classes (Threads); the type checker's verdicts on generated client "
         "programs and real threaded runs (assignments and interleavings printed by TLC from GenThreads, replayed in "
         "order; also under Miri's data-race detector) validated by TLC (TraceThreads)",
         "960 probe programs (27 element types, 14 generic contexts, outer and inner iterators); all assignments for "
         "few vectors, all interleavings for tiny shapes, sampled above."),
 "C18": (T + "big-number semantics of the 14 primitive types (Scalar; integers of any width, IEEE 754 floats "
         "correctly rounded, checked against a search on a toy format by FloatMC), the operators' design explored over a small word (ScalarMC); every type x operator x "
         "operand form of the real operators validated by TLC (TraceScalar); the generic family by TraceHist",
         "All 14 x 5 x 18 forms (and negation); values sampled (any bit pattern for floats) with witnesses for operand order, limits, overflow, "
         "signed zeros, infinities, NaN."),
 "C19": (T + HIST, "All constructors over all row-length vectors up to a bound."),
 "C20": (T + "model of the formatter's line cache and cursor (RenderMC); texts printed by three feature builds of the crate "
         "under several environments, tokenised and validated by TLC (Render, TraceRender)",
         "All shapes <= 4x4 (6x6 thorough) and sizes around the label-width steps, both orders, 19 families of texts."),
}
LEVEL = "model_checking"
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=--cfg verif_hooks", "source_commits": []},
     "checks": [], "not_applicable": []}
for p, (tech, note) in sorted(CLAIMED.items()):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p,
                        "thorough_cmd": "python3 check.py %s --thorough" % p,
                        "evidence_file": "evidence/%s.json" % p,
                        "technique": tech, "level": LEVEL, "level_note": note})
for i in range(1, 21):
    p = "C%02d" % i
    if p not in CLAIMED:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
