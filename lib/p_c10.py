"""C10: swaps."""
import bulk, mirih, vast
from vlib import Check, cases, hist, miri_cases
from p_index import changing, lines
from gen import *


def run():
    ck = Check("C10")
    q = ck.quick
    P = []
    n = ck.seed
    B = 4 if q else 6
    HUGE = [-1, -2, -5, 256, 65536]
    for r in range(B + 1):
        for c in range(B + 1):
            for o in (0, 1):
                n += 1
                tys = [ALL[n % len(ALL)], ALL[(n * 3 + 5) % len(ALL)], "TB"] if q else ALL
                for ty in tys:
                    ops = mk(0, r, c, o, n % 3)
                    hg = HUGE if not q else [HUGE[n % 5], HUGE[(n // 5) % 5]]
                    for i in list(range(r + 2)) + hg:
                        for j in list(range(r + 2)) + hg:
                            ops.append("swap_rows 0 %d %d" % (i, j))
                    for i in list(range(c + 2)) + hg:
                        for j in list(range(c + 2)) + hg:
                            ops.append("swap_cols 0 %d %d" % (i, j))
                    P.append(prog(ty, ops))
    # element swaps: every pair of positions (in and out of bounds), index kinds mixed
    B2 = 3 if q else 4
    for r in range(B2 + 1):
        for c in range(B2 + 1):
            for o in (0, 1):
                n += 1
                tys = [ALL[n % len(ALL)], ALL[(n * 3 + 7) % len(ALL)]] if q else ALL
                for ty in tys:
                    ops = mk(0, r, c, o, n % 3)
                    k = 0
                    cells = [(i, j) for i in range(r + 1) for j in range(c + 1)]
                    for a in cells:
                        for b in cells:
                            k += 1
                            ops.append("swap 0 %d %d %d %d %d %d" % ((k % 4,) + a + ((k // 4) % 4,) + b))
                            if len(ops) > 150:
                                P.append(prog(ty, ops))
                                ops = mk(0, r, c, o, n % 3)
                    P.append(prog(ty, ops))
    # wrapping indices, alone and mixed with plain ones; two indices naming one element
    for r in range(4):
        for c in range(4):
            for o in (0, 1):
                n += 1
                ops = mk(0, r, c, o)
                for _ in range(40 if q else 120):
                    w = lambda: (ck.rng.randrange(-9, 10), ck.rng.randrange(-9, 10))
                    p = lambda: (ck.rng.randrange(r + 1), ck.rng.randrange(c + 1))
                    x = ck.rng.randrange(3)
                    if x == 0:
                        ops.append("swap 0 4 %d %d 4 %d %d" % (w() + w()))
                    elif x == 1:
                        ops.append("swap 0 4 %d %d %d %d %d" % (w() + (ck.rng.randrange(4),) + p()))
                    else:
                        ops.append("swap 0 %d %d %d 4 %d %d" % ((ck.rng.randrange(4),) + p() + w()))
                if r and c:
                    ops += ["swap 0 0 0 0 4 %d %d" % (-r, 2 * c), "swap 0 4 %d %d 4 %d %d" % (r - 1, -1, -1, c - 1)]
                ty = ALL[n % len(ALL)]
                P.append(prog("T2" if ty == "T1" else ty, ops))
    # large shapes, long strides
    for (r, c) in [(40, 25), (25, 40), (2, 400), (400, 2), (1, 700), (700, 1), (64, 16), (33, 31)]:
        for o in (0, 1):
            n += 1
            P.append(prog(BIGIDS[n % len(BIGIDS)], mk(0, r, c, o), "swap_rows 0 0 %d" % (r - 1),
                          "swap_cols 0 %d 0" % (c - 1), "swap_rows 0 %d %d" % (r // 2, r // 3),
                          "swap_cols 0 %d %d" % (c // 3, c // 2), "swap_cols 0 1 1", "swap_rows 0 %d %d" % (r, 0),
                          "swap_cols 0 %d %d" % (c, c), "swap 0 0 0 %d 0 %d 0" % (c - 1, r - 1)))
    hist(ck, P)
    # index types whose accessors change their answer
    C, M = [], []
    for (ty, form, o, nr, nc, Q) in changing((14, 15, 16), ck.rng, q, ck.seed):
        C += lines(ty, 5, form, o, nr, nc, Q)
        M += lines(ty, 5, form, o, nr, nc, ck.rng.sample(Q, 8))
    cases(ck, "index", C, "TraceIndex", tag="chg")
    miri_cases(ck, "index", ck.rng.sample(M, min(len(M), 24 if q else 400)), "TraceIndex", tag="miri-chg")
    vast.run(ck, range(35, 39))
    mirih.run(ck, lambda r, c: [["swap_rows 0 0 %d" % (r - 1), "swap_cols 0 %d 0" % (c - 1), "swap_rows 0 1 1", "swap_cols 0 %d %d" % (c, 0)],
                                ["swap 0 0 0 0 3 %d %d" % (r - 1, c - 1), "swap 0 4 -1 -1 0 0 %d" % (c - 1), "swap 0 1 0 0 2 0 0"]],
              [(2, 3), (3, 2), (3, 3), (1, 4), (4, 1)], 20)
    bulk.run(ck, [8, 9, 10])
    return ck.finish({"programs": len(P), "exhaustive_shapes_up_to": B})
