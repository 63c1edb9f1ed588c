"""C09: reshape / resize; failed in-place operations change nothing."""
import bulk, mirih
from vlib import Check, hist
from gen import *

SENT = [-1, -2, -6]


def run():
    ck = Check("C09")
    q = ck.quick
    P = []
    n = ck.seed
    B = 4 if q else 6
    # resize / reshape: every old shape to every new shape
    for r in range(B + 1):
        for c in range(B + 1):
            for o in (0, 1):
                n += 1
                tys = [ALL[n % len(ALL)], ALL[(n * 3 + 5) % len(ALL)]] if q else ALL
                for ty in tys:
                    big = "T2" if ty == "T1" else "N4" if ty == "N1" else ty
                    ops = mk(0, r, c, o, n % 3)
                    for r2 in range(B + 2):
                        for c2 in range(B + 2):
                            k = (r2 + c2) % 3
                            if r2 * c2 == r * c or (r2 * 7 + c2 + n) % 3 == 0:
                                ops += ["clone 0 1", "reshape 1 %d %d %d" % (r2, c2, k), "elems 1"]
                            ops += ["clone 0 1", "resize 1 %d %d %d" % (r2, c2, k), "elems 1"]
                            if len(ops) > 120:
                                P.append(prog(big, ops))
                                ops = mk(0, r, c, o, n % 3)
                    P.append(prog(big, ops))
    # sequences of resizes and reshapes on one matrix (spare capacity, shrinking, growing)
    for i in range(120 if q else 1200):
        ty = ALL[i % len(ALL)]
        r, c = ck.rng.randrange(5), ck.rng.randrange(5)
        ops = (["with_capacity 0 %d" % ck.rng.randrange(40)] if i % 3 == 0 else mk(0, r, c, i % 2, i % 4))
        for _ in range(14):
            x = ck.rng.random()
            a, b = ck.rng.randrange(6), ck.rng.randrange(6)
            k = ck.rng.randrange(3)
            if x < 0.45:
                ops.append("resize 0 %d %d %d" % (a, b, k))
            elif x < 0.6:
                ops.append("reshape 0 %d %d %d" % (a, b, k))
            elif x < 0.7:
                ops.append(ck.rng.choice(["sw 0", "sww 0", "transpose 0", "shrink 0", "shrink_to 0 3", "clear 0"]))
            else:
                s = ck.rng.choice(SENT)
                t = ck.rng.choice([2, 3, -1])
                if ck.rng.random() < 0.5:
                    s, t = t, s
                ops.append("%s 0 %d %d %d" % (ck.rng.choice(["resize", "reshape"]), s, t, k))
        P.append(prog(ty, ops))
    # overflow / capacity / mismatch errors leave the matrix unchanged
    for (r, c) in [(0, 0), (2, 3), (3, 1), (0, 2), (1, 1)]:
        for o in (0, 1):
            for ty in (["T4", "TB", "Z1", "N1"] if q else ALL):
                ops = mk(0, r, c, o)
                for s in SENT + [-4, -5]:
                    for t in (1, 2, 3, 4, -1, -2, 0):
                        for (x, y) in ((s, t), (t, s)):
                            ops.append("reshape 0 %d %d 0" % (x, y))
                            over = t < 0 or t >= 4 or (t >= 2 and s in SENT) or (t == 3 and s == -4)
                            # the element count of these fits; the byte count must not
                            if s in SENT and (over or (t == 1 and ty not in ZST)):
                                ops.append("resize 0 %d %d 2" % (x, y))
                P.append(prog(ty, ops))
    # failed swaps / assigning operations
    for (r, c) in [(0, 0), (1, 1), (2, 3), (3, 2), (1, 4), (0, 3), (3, 0)]:
        for o in (0, 1):
            for (r2, c2) in [(c, r), (r + 1, c), (r, c + 1), (0, 0), (1, max(r * c, 1)), (r * c, 1), (r, c)]:
                for o2 in (0, 1):
                    n += 1
                    ty = ALL[n % len(ALL)]
                    if ty in ("T1", "N1"):
                        ty = "T2"
                    ops = mk(0, r, c, o) + mk(1, r2, c2, o2)
                    ops += ["ewg 0 1 3 3", "elems 0"]
                    for op in (1, 2, 3, 4, 5):
                        ops += ["ew 0 1 3 %d 2" % op, "elems 0"]
                    for op in (1, 2):
                        ops += ["ew 0 1 3 %d 8" % op, "elems 0", "clone 1 2", "ew 0 2 3 %d 7" % op, "elems 0",
                                "ew 0 1 3 %d 6" % op, "ew 0 1 3 %d 0" % op]
                    ops += ["mul 0 1 3 4", "elems 0", "elems 1"]
                    P.append(prog(ty, ops))
            for i in (-1, 0, r - 1, r, r + 1, -2):
                for j in (-1, 0, c - 1, c, c + 1, -2):
                    n += 1
                    ty = ALL[n % len(ALL)]
                    I = lambda x: x if x >= 0 or x in (-1, -2) else 0
                    P.append(prog(ty, mk(0, r, c, o), "swap_rows 0 %d %d" % (I(i), I(j)), "swap_cols 0 %d %d" % (I(i), I(j)),
                                  "swap 0 0 0 0 1 %d %d" % (I(i), I(j)), "swap 0 2 %d %d 3 0 0" % (I(i), I(j)),
                                  "swap 0 4 %d %d 0 %d %d" % (i, j, I(i), I(j)), "elems 0"))
    # large ones
    for (r, c, r2, c2) in [(40, 30, 31, 43), (17, 60, 60, 17), (33, 32, 11, 96), (5, 200, 7, 100), (1, 1000, 25, 40)]:
        for o in (0, 1):
            n += 1
            P.append(prog(BIGIDS[n % len(BIGIDS)], mk(0, r, c, o), "reshape 0 %d %d 0" % (r2, c2),
                          "resize 0 %d %d 0" % (r2, c2), "reshape 0 %d %d 0" % (c2, r2), "sw 0", "resize 0 %d %d 0" % (c, r)))
    hist(ck, P)
    mirih.run(ck, lambda r, c: [["resize 0 %d %d 0" % a, "resize 0 %d %d 1" % b]
                                for a in ((3, 3), (1, 2), (0, 0), (2, 4)) for b in ((2, 2), (3, 4))] + [["reshape 0 %d 1 0" % (r * c), "clear 0"]],
              [(2, 3), (3, 2), (1, 4), (0, 2)], 24)
    bulk.run(ck, [5, 6])
    return ck.finish({"programs": len(P), "exhaustive_shapes_up_to": B})
