"""C06: all row and column views against the logical matrix."""
import bulk
from vlib import Check, cases, miri_cases, hist
from p_iter import *
from gen import mk, prog


def run():
    ck = Check("C06")
    if not ck.quick:
        ck.prove("ProofArith")
        ck.prove("ProofIter")
    q = ck.quick
    ck.model("Views")
    ck.model_bad("Views", "Views_bad")
    jobs = {}
    for L in range(5):
        for M in range(5):
            if L * M <= 4:
                jobs[(L, M, "all")] = dict(L=L, M=M)
            jobs[(L, M, "rich")] = dict(L=L, M=M, rich=True, num=20 if q else 300, depth=16,
                                        seed=ck.seed + 1)
    for L in range(7):
        jobs[(L, 0, "flat")] = dict(L=L, flat=True, rich=True, num=40 if q else 400, depth=9,
                                    seed=ck.seed + 2)
        if L <= 4:
            jobs[(L, 0, "fall")] = dict(L=L, flat=True)
    S = pool(jobs)
    C, n = [], ck.seed
    types = SIZED + ZST
    # rows and columns, shared and exclusive, the same schedule on each
    for (L, M, kind), scheds in sorted(S.items()):
        if kind in ("flat", "fall"):
            continue
        step = max(1, len(scheds) // (40 if q else 1000))
        for s in scheds[::step]:
            n += 1
            for mode in range(4):
                nr, nc = (L, M) if mode in (0, 2) else (M, L)
                for o in (0, 1):
                    C.append(case(types[(n * 7 + o * 5) % 12], mode, o, nr, nc, 0, s))
    # the nth views: every n around the limits
    for (L, _, kind), scheds in sorted(S.items()):
        if kind not in ("flat", "fall"):
            continue
        step = max(1, len(scheds) // (24 if q else 400))
        for s in scheds[::step]:
            for mode in range(4, 8):
                for o in (0, 1):
                    n += 1
                    other = 1 + n % 4
                    k = (n // 4) % other
                    nr, nc = (other, L) if mode in (4, 6) else (L, other)
                    C.append(case(types[n % 12], mode, o, nr, nc, k, s))
    fin = [["n", 0, 0], ["b", 0, 0], ["N", 0, 1], ["C", 0, 0]]
    for nr in range(4):
        for nc in range(4):
            for mode in range(4, 8):
                for o in (0, 1):
                    for k in [0, 1, 2, 3, 4, 5, -1, -2, -4, -5, 256, 257, 65536, 65537, 2 ** 32 + 1, 2 ** 48, nr * nc, nr + nc]:
                        n += 1
                        lim = nr if mode in (4, 6) else nc
                        C.append(case(types[n % 12], mode, o, nr, nc, k, fin if 0 <= k < lim else []))
    # skips to, beyond and far beyond the end
    for L in range(5):
        for M in range(6):
            for s in leaps(ck.rng, L, M, 10 if q else 100):
                for mode in range(4):
                    n += 1
                    nr, nc = (L, M) if mode in (0, 2) else (M, L)
                    C.append(case(types[(n * 7) % 12], mode, (n // 4) % 2, nr, nc, 0, s))
        for s in leaps(ck.rng, L, 0, 25 if q else 200, flat=True):
            for mode in range(4, 8):
                n += 1
                other = 1 + n % 4
                nr, nc = (other, L) if mode in (4, 6) else (L, other)
                C.append(case(types[n % 12], mode, (n // 8) % 2, nr, nc, (n // 4) % other, s))
    # straight through, larger shapes
    for (L, M) in [(1, 60), (60, 1), (7, 9), (9, 7), (3, 33), (33, 3), (16, 2), (2, 16)]:
        for mode in range(4):
            for o in (0, 1):
                nr, nc = (L, M) if mode in (0, 2) else (M, L)
                n += 1
                for st in ("n", "b"):
                    C.append(case(SIZED[n % 9], mode, o, nr, nc, 0, straight(L, M, st)))
        for mode in range(4, 8):
            for o in (0, 1):
                for k in (0, L // 2, L - 1, L, M):
                    nr, nc = (L, M) if mode in (4, 6) else (M, L)
                    n += 1
                    ok = k < L
                    C.append(case(SIZED[n % 9], mode, o, nr, nc, k, [["C" if n % 2 else "R", 0, 0]] if ok else []))
    # zero-sized elements, extents up to usize::MAX
    for (nr, nc) in HUGE:
        for mode in range(4):
            L, M = (nr, nc) if mode in (0, 2) else (nc, nr)
            s = [["n", 0, 0], ["n", 1, 0], ["b", 1, 0], ["N", 1, 1]]
            if L != 1:
                s += [["b", 0, 0], ["n", 2, 0], ["b", 2, 0]]
            else:
                s += [["b", 0, 0], ["n", 0, 0]]
            for o in (0, 1):
                n += 1
                C.append(case(ZST[n % 3], mode, o, nr, nc, 0, s))
        for mode in range(4, 8):
            lim = nr if mode in (4, 6) else nc
            for k in [0, 1, 2, -1, -4, lim]:
                u = k % 2 ** 64 if k != -4 else 2 ** 63 - 1
                real = {-1: 2 ** 64 - 1, -2: 2 ** 63, -4: 2 ** 63 - 1, -5: 2 ** 32, -6: 2 ** 64 - 2}
                ul, uk = real.get(lim, lim), real.get(k, k)
                for o in (0, 1):
                    n += 1
                    C.append(case(ZST[n % 3], mode, o, nr, nc, k,
                                  [["n", 0, 0], ["b", 0, 0], ["N", 0, 2]] if uk < ul else []))
    cases(ck, "iters", C, "TraceIter", count=count)
    if not q:
        cases(ck, "iters", C, "TraceIter", tag="rel", profile="release", count=count)
        M_ = ck.rng.sample([c for c in C if len(c) < 120], 1500)
        miri_cases(ck, "iters", M_, "TraceIter", count=count)
    # the views as steps of histories, among other operations
    P = []
    for i in range(40 if q else 400):
        nr, nc = i % 4, (i // 4) % 4
        ops = mk(0, nr, nc, i % 2)
        for mid in ([], ["transpose 0"], ["itermut 0 0 1"], ["itermut 0 1 2"], ["sw 0"], ["sww 0"], ["resize 0 3 2 0"]):
            ops += mid + ["iter 0 %d" % a for a in (0, 1)]
            ops += ["nth 0 %d %d" % (a, k) for a in range(4) for k in (0, 1, 3)]
        P.append(prog(["TB", "T4", "T24", "Z1", "N4", "T16", "T2"][i % 7], ops))
    hist(ck, P)
    bulk.run(ck, [23, 24, 25])
    return ck.finish({"schedules": len(C), "programs": len(P)})
