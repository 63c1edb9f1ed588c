"""C14: overwrite."""
import bulk, mirih, vast
from vlib import Check, hist
from gen import *


def run():
    ck = Check("C14")
    q = ck.quick
    P = []
    n = ck.seed
    B = 4 if q else 5
    shapes = [(r, c) for r in range(B + 1) for c in range(B + 1)]
    for (r, c) in shapes:
        for o in (0, 1):
            n += 1
            ty = ALL[n % len(ALL)]
            ops = mk(0, r, c, o, n % 3)
            for (r2, c2) in shapes:
                for o2 in (0, 1):
                    if q and (r2 + c2 * 2 + o2 + n) % 2 and (r2 > r) == (c2 > c):
                        continue
                    ops += mk(1, r2, c2, o2) + ["clone 0 2", "overwrite 2 1", "elems 1"]
                    if len(ops) > 60:
                        n += 1
                        P.append(prog(ty, ops))
                        ty = ALL[n % len(ALL)]
                        ops = mk(0, r, c, o, n % 3)
            P.append(prog(ty, ops))
    # chains on one destination, with order changes in between
    for i in range(80 if q else 800):
        ty = ALL[i % len(ALL)]
        if ty in ("T1", "N1"):
            ty = "T2"
        rnd = ck.rng.randrange
        ops = mk(0, rnd(7), rnd(7), i % 2, i % 3)
        for _ in range(8):
            ops += mk(1, rnd(7), rnd(7), rnd(2)) + ["overwrite 0 1"]
            if rnd(2):
                ops.append(ck.rng.choice(["sw 0", "transpose 0", "sww 0", "resize 0 %d %d 0" % (rnd(6), rnd(6))]))
            if rnd(3) == 0:
                ops += ["overwrite 1 0", "eq 0 1"]
        P.append(prog(ty, ops))
    for (r, c, r2, c2) in [(30, 20, 20, 30), (1, 400, 5, 100), (100, 5, 5, 100), (33, 31, 33, 31), (2, 300, 300, 2)]:
        for o in (0, 1):
            for o2 in (0, 1):
                n += 1
                P.append(prog(BIGIDS[n % len(BIGIDS)], mk(0, r, c, o), mk(1, r2, c2, o2), "overwrite 0 1", "overwrite 1 0"))
    hist(ck, P)
    mirih.run(ck, lambda r, c: [mk(1, a, b, p) + ["overwrite 0 1"] for (a, b) in ((2, 3), (3, 2), (4, 1), (1, 4), (0, 2)) for p in (0, 1)],
              [(2, 3), (3, 2), (3, 3), (1, 4), (0, 2)], 24)
    vast.run(ck, [40, 41])
    bulk.run(ck, [7])
    return ck.finish({"programs": len(P), "exhaustive_shapes_up_to": B})
