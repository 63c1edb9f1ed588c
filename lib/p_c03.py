"""C03: the mutable row/column iterators, as a pointer machine and for real."""
import bulk
from vlib import Check, cases, miri_cases
from p_iter import *


def run():
    ck = Check("C03")
    if not ck.quick:
        ck.prove("ProofArith")
        ck.prove("ProofIter")
    q = ck.quick
    ck.model("IterMut", "IterMut" if q else "IterMut_deep", workers=8)
    for bad in ("onepast", "zstbase", "noempty"):
        ck.model_bad("IterMut", "IterMut_" + bad)
    jobs = {}
    for L in range(5):
        for M in range(5):
            if (L <= 2 and M <= (2 if q else 3)) or L == 0 or M == 0:
                jobs[(L, M, "all")] = dict(L=L, M=M)
            else:
                jobs[(L, M, "some")] = dict(L=L, M=M, num=40 if q else 400, depth=40, seed=ck.seed)
            jobs[(L, M, "rich")] = dict(L=L, M=M, rich=True, num=25 if q else 250, depth=16,
                                        seed=ck.seed + 1)
    if not q:
        jobs[(7, 5, "some")] = dict(L=7, M=5, num=300, depth=60, seed=ck.seed + 2)
    jobs[(5, 7, "some")] = dict(L=5, M=7, num=20 if q else 300, depth=60, seed=ck.seed + 3)
    # long schedules on shapes with very long rows
    S = pool(jobs)
    rng = ck.rng
    C, n = [], ck.seed
    types = SIZED + ZST
    for (L, M, kind), scheds in sorted(S.items()):
        for s in scheds:
            for mode in (2, 3):
                n += 1
                if q and len(scheds) > 300 and n % 2:
                    continue
                nr, nc = (L, M) if mode == 2 else (M, L)
                for o in (0, 1):
                    C.append(case(types[(n * 7 + o * 5) % 12], mode, o, nr, nc, 0, s))
    # every type, every shape, straight through
    for L in range(4):
        for M in range(4):
            for ty in types:
                for mode in (2, 3):
                    for o in (0, 1):
                        nr, nc = (L, M) if mode == 2 else (M, L)
                        C.append(case(ty, mode, o, nr, nc, 0, straight(L, M)))
    # skips to, beyond and far beyond the end
    for L in range(5):
        for M in range(6):
            for s in leaps(rng, L, M, 12 if q else 150):
                n += 1
                mode = 2 + n % 2
                nr, nc = (L, M) if mode == 2 else (M, L)
                C.append(case(types[(n * 7) % 12], mode, (n // 2) % 2, nr, nc, 0, s))
    # large shapes
    for (L, M) in [(1, 100), (100, 1), (10, 10), (3, 33), (33, 3)]:
        for mode in (2, 3):
            for o in (0, 1):
                n += 1
                nr, nc = (L, M) if mode == 2 else (M, L)
                C.append(case(SIZED[n % 9], mode, o, nr, nc, 0, straight(L, M)))
                C.append(case(SIZED[(n + 4) % 9], mode, o, nr, nc, 0, straight(L, M, "b")))
    # zero-sized elements, counts up to usize::MAX
    base = [["n", 0, 0], ["b", 0, 0], ["n", 1, 0], ["b", 1, 0], ["N", 1, 1], ["b", 2, 0], ["n", 2, 0]]
    for (nr, nc) in HUGE:
        for mode in (2, 3):
            L, M = (nr, nc) if mode == 2 else (nc, nr)
            # commands whose iterator exists in this shape
            have = 2 if L != 1 else 1
            s = [c for c in base if c[1] <= have]
            if L > 4 or L < 0:
                s = s + [["N", 0, 2], ["n", have + 1, 0], ["B", 0, 1], ["b", have + 2, 0]]
            if L == 1:
                s = s + [["n", 0, 0], ["b", 0, 0], ["n", 1, 0]]
            for o in (0, 1):
                for ty in ZST:
                    C.append(case(ty, mode, o, nr, nc, 0, s))
    for k in (0, 1, 2, 3, 100, 2 ** 31, -1, -2):
        for mode in (2, 3):
            for o in (0, 1):
                for ty in (0, 5, 9, 11):
                    n += 1
                    # k empty rows (columns): counts and nothing else
                    s = [["n", 0, 0], ["b", 0, 0]] + \
                        ([["n", 1, 0], ["b", 1, 0]] if k != 0 else []) + \
                        ([["b", 2, 0]] if k not in (0, 1) else [])
                    nr, nc = (k, 0) if mode == 2 else (0, k)
                    C.append(case(ty, mode, o, nr, nc, 0, s))
                    C.append(case(ty, mode, o, nc, nr, 0, [["n", 0, 0], ["b", 0, 0]]))
    cases(ck, "iters", C, "TraceIter", count=count)
    if not q:
        cases(ck, "iters", C, "TraceIter", tag="rel", profile="release", count=count)
    # the same under Miri: pointers outside the buffer, overlapping references
    pick = [c for c in C if int(c.split()[1]) in (2, 3) and len(c) < (90 if q else 160)]
    M_ = rng.sample(pick, min(len(pick), 110 if q else 4000))
    M_ += [c for c in C if c.split()[3].startswith("-") or c.split()[4].startswith("-")][:: (7 if q else 1)]
    miri_cases(ck, "iters", M_, "TraceIter", count=count)
    ck.assumptions.append("aliasing model of the Miri replay: Tree Borrows")
    bulk.run(ck, [23, 24])
    return ck.finish({"schedules": len(C)})
