"""C16: parallel helpers against their sequential counterparts."""
import bulk
from vlib import Check, cases, miri_cases
from p_c08 import SIZES, UM, IM, tok

TYPES = ["TB", "T4", "T24", "Z1", "N4", "T16", "T1", "Z8", "N24", "T2", "ZN", "T40", "N1", "T8", "T3", "T264", "N128", "T4K"]


def run():
    ck = Check("C16")
    q = ck.quick
    ck.model("Par", workers=4)
    ck.model_bad("Par", "Par_order")
    ck.model_bad("Par", "Par_overlap")
    C, n = [], ck.seed
    dims = range(4) if q else range(6)
    threads = [1, 2, 3, 8]
    for nr in dims:
        for nc in dims:
            for o in (0, 1):
                for op in range(12):
                    for t in threads:
                        n += 1
                        how = n % 6 if op >= 6 else (0, 4, 5)[n // 2 % 3]
                        C.append((TYPES[n % len(TYPES)], o, nr, nc, op, how, t, n))
    for (nr, nc) in [(1, 130), (130, 1), (9, 14), (14, 9), (33, 4)] + ([(64, 16), (500, 2)] if not q else []):
        for o in (0, 1):
            for op in range(12):
                for t in (2, 5, 8, 16, 64):
                    n += 1
                    if q and n % 2:
                        continue
                    how = n % 6 if op >= 6 else (0, 4, 5)[n // 2 % 3]
                    ty = ["TB", "T4", "T24", "N4", "T16", "Z1"][n % 6]
                    C.append((ty, o, nr, nc, op, how, t, n))
    lines = [" ".join(map(str, c)) for c in C]
    rounds = 1 if q else 8
    for r in range(rounds):
        cases(ck, "par", lines, "TracePar", tag="par%d" % r, profile="dev" if r % 2 == 0 else "release")
    M = []
    for op in range(12):
        for o in (0, 1):
            for (nr, nc) in ([(3, 2)] if q else [(3, 2), (2, 4), (1, 5), (5, 1), (0, 3)]):
                n += 1
                M.append(" ".join(map(str, ("TB" if n % 3 else "Z1", o, nr, nc, op, 0 if op < 6 else n % 4, 2, n))))
    miri_cases(ck, "par", M, "TracePar", features="par")
    # the same errors as the sequential forms, whatever the number of threads
    S = []
    for u, us in enumerate(SIZES):
        tops = {IM, IM + 1, UM} | ({IM // us, IM // us + 1, 2 ** 64 // us} if us else set())
        for cnt in sorted(tops):
            for (a, b) in [(cnt, 1), (1, cnt), (2, cnt // 2)]:
                if a * b <= UM and (a * b * us > IM or n % 4 == 0):
                    for t in (1, 2, 5):
                        for op in (13, 14):
                            n += 1
                            S.append("%d 0 %d %d %s %s %d 0" % (op, u, n % 2, tok(a), tok(b), t))
                n += 1
    cases(ck, "size", sorted(set(S)), "TraceSize", tag="vast")
    bulk.run(ck, [14, 15, 16, 26])
    return ck.finish({"cases": len(lines) * rounds})
