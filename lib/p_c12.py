"""C12: elementwise operations."""
import bulk
from vlib import Check, hist
from gen import *


def calls():
    res = ["ewg 2 3 %d %d" % (d, f) for f in range(4) for d in ((2,) if f == 3 else (2, 3))]
    for f in range(9):
        for o in ((1, 2) if f >= 3 else (1, 2, 3, 4, 5)):
            res.append("ew 2 3 %d %d %d" % (2 + (f + o) % 2, o, f))
    return res


def run():
    ck = Check("C12")
    q = ck.quick
    P = []
    n = ck.seed
    C = calls()
    B = 3 if q else 4
    shapes = [(r, c) for r in range(B + 1) for c in range(B + 1)]
    if q:
        shapes += [(4, 2), (2, 5), (1, 6)]
    for (r, c) in shapes:
        for o in (0, 1):
            for o2 in (0, 1):
                for rep in range(2 if q else 5):
                    n += 1
                    ty = ALL[n % len(ALL)]
                    if ty in ("T1", "N1"):
                        ty = "T2" if ty == "T1" else "N4"
                    setup = mk(0, r, c, o, n % 3) + mk(1, r, c, o2, (n + 1) % 3)
                    # distinguish the operands' values
                    setup += ["map 1 1 2", "conf 0 1"]
                    ops = list(setup)
                    for k, call in enumerate(C):
                        ops += ["clone 0 2", "clone 1 3", call]
                        if len(ops) > 90:
                            P.append(prog(ty, ops))
                            ops = list(setup)
                    P.append(prog(ty, ops))
    # one matrix as both operands
    for (r, c) in shapes:
        for o in (0, 1):
            n += 1
            ops = mk(0, r, c, o, n % 3) + ["ewg 0 0 1 0", "conf 0 0", "eq 0 0"]
            ops += ["ew 0 0 %d %d %d" % (1 + n % 3, k, f) for k in (1, 2, 3, 4, 5) for f in ((0, 6) if k < 3 else (0,))]
            ops += ["mul 0 0 1 4"]
            P.append(prog(BIGIDS[n % len(BIGIDS)] if n % 4 else ZST[n // 4 % 3], ops))
    # conformability is by logical shape only
    for (r, c) in [(r, c) for r in range(B + 1) for c in range(B + 1)]:
        for (r2, c2) in [(c, r), (r + 1, c), (r, c + 1), (r * c, 1), (1, r * c), (0, c), (r, 0), (2, 3)]:
            if (r2, c2) == (r, c):
                continue
            for o in (0, 1):
                for o2 in (0, 1):
                    n += 1
                    ty = ALL[n % len(ALL)]
                    if ty in ("T1", "N1"):
                        ty = "T2" if ty == "T1" else "N4"
                    ops = mk(0, r, c, o) + mk(1, r2, c2, o2) + ["conf 0 1"]
                    sub = C[n % 4::4] if q else C
                    for call in sub:
                        ops += ["clone 0 2", "clone 1 3", call]
                    P.append(prog(ty, ops))
    # compositions on the same operands, results feeding the next call
    for i in range(60 if q else 600):
        ty = SIZED[i % len(SIZED)]
        if ty in ("T1", "N1"):
            ty = "T2"
        r, c = ck.rng.randrange(1, 5), ck.rng.randrange(1, 5)
        ops = mk(0, r, c, i % 2, 1) + mk(1, r, c, (i // 2) % 2, 2)
        for _ in range(12):
            f = ck.rng.randrange(9)
            o = ck.rng.randrange(1, 3) if f >= 3 else ck.rng.randrange(1, 6)
            d = 0 if f in (1, 3, 4) else 1 if f == 5 else 2
            ops.append("ew 0 1 %d %d %d" % (d, o, f))
            if f in (3, 5, 7):
                ops.append("clone 2 1" if False else "clone %d %d" % ((0, 1) if f != 5 else (1, 0)))
                if f == 5:
                    ops.append("clone 1 0")
            if ck.rng.random() < 0.4:
                ops.append("sw %d" % ck.rng.randrange(2))
        P.append(prog(ty, ops))
    # large
    for (r, c) in [(30, 20), (1, 500), (500, 1), (17, 31)]:
        for o in (0, 1):
            for o2 in (0, 1):
                n += 1
                P.append(prog(BIGIDS[n % len(BIGIDS)], mk(0, r, c, o), mk(1, r, c, o2), "ewg 0 1 2 0", "ew 0 1 2 2 0",
                              "ew 0 1 2 1 2", "ew 0 1 2 2 4"))
    hist(ck, P)
    bulk.run(ck, [20, 33])
    return ck.finish({"programs": len(P), "exhaustive_shapes_up_to": B})
