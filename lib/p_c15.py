"""C15: element iteration follows the storage order, indices are the elements' own."""
import bulk
from vlib import Check, cases, miri_cases, hist
from p_iter import *
from gen import mk, prog, ALL


def run():
    ck = Check("C15")
    if not ck.quick:
        ck.prove("ProofArith")
        ck.prove("ProofIter")
    q = ck.quick
    ck.model("Views")
    jobs = {}
    for L in range(8 if q else 10):
        if L <= 6:
            jobs[(L, "all")] = dict(L=L, flat=True)
        jobs[(L, "rich")] = dict(L=L, flat=True, rich=True, num=60 if q else 600, depth=10,
                                 seed=ck.seed + 1)
    jobs[(12, "rich")] = dict(L=12, flat=True, rich=True, num=60 if q else 600, depth=16, seed=ck.seed + 2)
    jobs[(30, "rich")] = dict(L=30, flat=True, rich=True, num=40 if q else 300, depth=24, seed=ck.seed + 3)
    S = pool(jobs)
    shapes = {}
    for r in range(31):
        for c in range(31):
            shapes.setdefault(r * c, []).append((r, c))
    shapes[0] = [(0, 0), (0, 3), (4, 0), (0, 1), (1, 0)]
    C, n = [], ck.seed
    types = SIZED + ZST
    for (L, kind), scheds in sorted(S.items()):
        step = max(1, len(scheds) // (30 if q else 400))
        for s in scheds[::step]:
            for mode in range(8, 14):
                for o in (0, 1):
                    n += 1
                    nr, nc = shapes[L][n % len(shapes[L])]
                    C.append(case(types[(n // 2) % 12], mode, o, nr, nc, 0, s))
    # skips to, beyond and far beyond the end
    for L in range(13):
        for s in leaps(ck.rng, L, 0, 6 if q else 60, flat=True):
            for mode in range(8, 14):
                n += 1
                nr, nc = shapes[L][n % len(shapes[L])]
                C.append(case(types[n % 12], mode, (n // 6) % 2, nr, nc, 0, s))
    # every small shape, every type, front to back and back to front
    for nr in range(5):
        for nc in range(5):
            for mode in range(8, 14):
                for o in (0, 1):
                    for s in ([["C", 0, 0]], [["R", 0, 0]], [["n", 0, 0], ["b", 0, 0], ["R", 0, 0]],
                              [["b", 0, 0]] * (nr * nc + 1)):
                        n += 1
                        C.append(case(types[n % 12], mode, o, nr, nc, 0, s))
    for (nr, nc) in [(1, 100), (100, 1), (9, 11), (11, 9), (50, 2), (3, 37)]:
        for mode in range(8, 14):
            for o in (0, 1):
                n += 1
                C.append(case(SIZED[n % 9], mode, o, nr, nc, 0, [["CR"[n % 2], 0, 0]]))
    # zero-sized elements, counts up to usize::MAX
    for (nr, nc) in HUGE:
        for mode in range(8, 14):
            for o in (0, 1):
                n += 1
                C.append(case(ZST[n % 3], mode, o, nr, nc, 0,
                              [["n", 0, 0], ["b", 0, 0], ["n", 0, 0], ["b", 0, 0], ["N", 0, 2], ["B", 0, 3]]))
    cases(ck, "iters", C, "TraceIter", count=count)
    # parallel forms
    types = ["TB", "T4", "T24", "Z1", "N4", "T16", "T1", "ZN"]
    P = []
    for nr in range(5):
        for nc in range(5):
            for o in (0, 1):
                for op in (6, 7, 8, 9, 10, 11):
                    n += 1
                    if q and n % 2:
                        continue
                    P.append("%s %d %d %d %d %d %d %d" % (types[(n // 2) % 8], o, nr, nc, op, (n // 2) % 6,
                                                         (1, 2, 3, 8)[(n // 3) % 4], n))
    for (nr, nc) in [(9, 14), (14, 9), (1, 130), (130, 1), (33, 3)]:
        for o in (0, 1):
            for op in (9, 10, 11):
                n += 1
                P.append("%s %d %d %d %d %d %d %d" % (types[n % 7], o, nr, nc, op, n % 6, (2, 8, 64)[n % 3], n))
    cases(ck, "par", P, "TracePar")
    # consuming iteration with ownership accounted for, partially consumed too
    H = []
    i = 0
    for nr in range(4):
        for nc in range(4):
            for o in (0, 1):
                i += 1
                ops = mk(0, nr, nc, o)
                for f in (0, 1, 3):
                    for k in (0, 1, 2, 9):
                        ops += ["clone 0 1", "into 1 %d %d" % (f, k)]
                ops += ["elems 0"]
                H.append(prog(ALL[i % len(ALL)], ops))
    hist(ck, H)
    if not q:
        cases(ck, "iters", C, "TraceIter", tag="rel", profile="release", count=count)
        miri_cases(ck, "iters", ck.rng.sample([c for c in C if len(c) < 120], 1000), "TraceIter", count=count)
    bulk.run(ck, [25, 26])
    return ck.finish({"schedules": len(C), "parallel": len(P), "programs": len(H)})
