"""C11: the matrix product."""
import bulk
from vlib import Check, cases, hist
from gen import *


def run():
    ck = Check("C11")
    q = ck.quick
    ck.model("MCProduct", workers=8)
    C = []
    B = 3 if q else 5
    n = ck.seed
    D = range(B + 1)
    for lr in D:
        for lc in D:
            for rc in D:
                for lo in (0, 1):
                    for ro in (0, 1):
                        for form in range(6):
                            for kind in ([n % 5, 10 + n % 14] if q else [n % 5, (n + 2) % 5, 10 + n % 14, 10 + (n + 5) % 14]):
                                C.append((kind, lr, lc, lo, lc, rc, ro, form))
                            n += 1
    # every primitive type, every form
    for kind in range(10, 24):
        for form in range(6):
            for (lr, lc, rc) in [(2, 3, 2), (1, 4, 3), (3, 0, 2), (4, 2, 1)]:
                n += 1
                C.append((kind, lr, lc, n % 2, lc, rc, (n // 2) % 2, form))
    # non-conformable
    for lr in D:
        for lc in D:
            for rr in D:
                if lc != rr:
                    for rc in (0, lr, lc):
                        n += 1
                        C.append((n % 5, lr, lc, n % 2, rr, rc, (n // 2) % 2, n % 6))
                        C.append((10 + n % 14, lr, lc, n % 2, rr, rc, (n // 3) % 2, (n + 3) % 6))
    # long inner dimensions and skewed shapes (blocking, unrolling, partial tails)
    for k in [5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100] + ([] if q else [127, 128, 129, 255, 256, 257]):
        for lo in (0, 1):
            for ro in (0, 1):
                for form in ((0, 4, 5) if q else range(6)):
                    C.append((0 if k > 60 else n % 5, 2, k, lo, k, 2 + n % 2, ro, form))
                    n += 1
    for (a, b, c) in [(9, 1, 9), (1, 9, 1), (16, 2, 3), (3, 2, 17), (8, 8, 8), (5, 33, 1), (1, 33, 5), (12, 5, 12)]:
        for lo in (0, 1):
            for ro in (0, 1):
                for form in ((0, 3, 5) if q else range(6)):
                    n += 1
                    C.append((0 if max(a * b, b * c) > 250 else n % 5, a, b, lo, b, c, ro, form))
    cases(ck, "prod", [" ".join(map(str, c)) for c in C], "TraceProduct")
    # products over the instrumented types: ownership of operands and results
    P = []
    for lr in range(4):
        for lc in range(4):
            for rc in range(3):
                for lo in (0, 1):
                    for ro in (0, 1):
                        if q and (lr + lc + rc + lo + ro + n) % 2:
                            n += 1
                            continue
                        n += 1
                        ty = ["TB", "T4", "T24", "Z1", "N4", "T16", "T2", "ZN", "T264", "T3"][n % 10]
                        ops = mk(0, lr, lc, lo) + mk(1, lc, rc, ro)
                        for f in range(5):
                            ops += ["clone 0 2", "clone 1 3", "mul 2 3 %d %d" % (2 + f % 2, f)]
                        ops += ["like 0 1 2"]
                        P.append(prog(ty, ops))
    # a matrix times itself, chains of products
    for i in range(24 if q else 200):
        m = i % 4
        ops = mk(0, m, m, i % 2) + ["mul 0 0 1 4", "sw 0", "mul 0 0 2 4", "mul 0 1 2 4", "mul 1 2 3 %d" % (i % 5)]
        P.append(prog(["TB", "T4", "N24"][i % 3], ops))
    for (r, c) in [(2, 3), (3, 2), (1, 2), (2, 1), (0, 2), (2, 0), (1, 4), (4, 3)]:
        for o in (0, 1):
            n += 1
            P.append(prog(["TB", "T4", "N24", "Z1"][n % 4], mk(0, r, c, o), "mul 0 0 1 4", "elems 0"))
    hist(ck, P)
    bulk.run(ck, [22])
    return ck.finish({"cases": len(C), "programs": len(P)})
