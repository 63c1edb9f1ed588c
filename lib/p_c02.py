"""C02: panics in caller supplied code."""
import mirih
from vlib import Check, hist
from gen import *

FOLLOW = ["sw 0", "resize 0 2 3 0", "itermut 0 0 0", "elems 3", "transpose 3", "resize 3 1 2 0",
          "clone 1 2", "eq 0 1"]


def unary(r, c):
    n = r * c
    ops = ["transpose 0", "clear 0", "apply 0", "par_apply 0", "drop 0", "contains 0 %d" % n,
           "contains 0 -7", "shrink 0", "elems 0", "fmt 0 0", "fmt 0 1", "eqself 0",
           "reshape 0 %d 1 2" % n, "reshape 0 1 %d 0" % (n + 1), "get 0 0 0", "index 0 0 0",
           "get 0 %d 0" % r, "set 0 0 0 5", "set 0 %d 0 5" % r,
           "swap 0 3 0 0 3 %d %d" % (max(r - 1, 0), max(c - 1, 0)), "swap 0 0 0 0 3 %d 0" % r,
           "swap_rows 0 0 1", "into 0 1 1", "into 0 0 0", "into 0 %d %d" % (n, n), "par_into 0 0", "par_into 0 1",
           "iter 0 0", "iter 0 1", "itermut 0 0 0", "itermut 0 0 1", "itermut 0 0 2", "itermut 0 1 0", "itermut 0 1 1", "itermut 0 1 2",
           # accessors of caller-defined index types
           "get 0 %d %d 3" % (max(r - 1, 0), max(c - 1, 0)), "index 0 0 0 3", "index 0 %d 0 3" % r, "index 0 0 %d 3" % c,
           "set 0 0 0 5 3", "set 0 %d 0 5 3" % r, "setx 0 %d %d 5 3" % (max(r - 1, 0), max(c - 1, 0)), "setx 0 0 %d 5 3" % c,
           "setx 0 0 0 5", "swap 0 3 0 0 0 %d %d" % (max(r - 1, 0), max(c - 1, 0)), "swap 0 0 0 0 3 0 %d" % max(c - 1, 0),
           "swap 0 3 0 0 3 0 0", "swap 0 3 %d 0 3 0 0" % r, "swap 0 3 0 0 4 -1 -1", "swap 0 4 5 -7 3 0 0",
           "swap_cols 0 0 1", "swap_cols 0 0 %d" % max(c - 1, 0), "sw 0", "so 0 1", "sww 0"]
    for (x, y) in [(0, 0), (r, c), (c, r), (r + 1, c), (r, c + 2), (1, max(n - 1, 0)), (1, 1), (0, 3),
                   (2, 3), (-1, 2)]:
        ops.append("resize 0 %d %d 2" % (x, y))
    for k in range(4):
        ops.append("map 0 3 %d" % k)
    ops += ["map 0 0 0", "mapref 0 3 0", "mapref 0 3 1", "mapref 0 3 2", "mapref 0 0 0",
            "par_map 0 3 0", "par_map 0 3 1", "par_mapref 0 3 0", "clone 0 3", "clone 0 1",
            "sc 0 3 0 4", "sc 0 3 1 4", "sc 0 0 2 4", "neg 0 3 0", "neg 0 3 1"]
    return ops


def binary(conf):
    """lhs 0, rhs 1"""
    ops = ["eq 0 1", "overwrite 0 1", "clone_from 0 1"]
    for f in range(4):
        ops.append("ewg 0 1 3 %d" % f)
    for f in range(9):
        for o in ((1, 2) if f >= 3 else (1, 2, 3, 4, 5)):
            ops.append("ew 0 1 3 %d %d" % (o, f))
    return ops


def create():
    ops = []
    for (r, c) in [(0, 0), (2, 2), (0, 2), (3, 1)]:
        ops += ["with_default 0 %d %d 2" % (r, c), "with_value 0 %d %d 2 7" % (r, c),
                "with_init 0 %d %d 2" % (r, c)]
    for k in range(12):
        ops += ["rows 0 %d 2 2" % k, "rows 0 %d 3 3" % k, "rows 0 %d" % k, "rows 0 %d 0 0" % k]
    for k in (0, 1, 2, 3, 4, 8, 9, 10, 11):
        ops += ["rows 0 %d 2 1" % k, "rows 0 %d 1 2 2" % k, "rows 0 %d 2 2 0" % k]
    for f in range(31):
        ops.append("mac 0 %d" % f)
    for k in range(4):
        ops += ["from_row 0 %d 3" % k, "from_col 0 %d 3" % k]
    return ops


def run():
    ck = Check("C02")
    q = ck.quick
    ck.model("Faults", workers=8)
    ck.model_bad("Faults", "FaultsBad")
    shapes = [(2, 3), (3, 1), (0, 2)] if q else [(2, 3), (3, 2), (1, 4), (4, 1), (0, 2), (2, 0), (3, 3),
                                                 (1, 1), (0, 0)]
    tys = ["TB", "T4", "N4", "Z1", "T24", "T1", "T16", "T40", "ZN", "N24", "ZQ", "T8", "T264", "T3"]
    reps = 2 if q else 3
    P = []
    n = ck.seed
    for rep in range(reps):
        for (r, c) in shapes:
            for o in (0, 1):
                for op in unary(r, c):
                    n += 1
                    ty = tys[n % len(tys)]
                    P.append(prog(ty, mk(0, r, c, o), mk(1, 2, 2, 1), "!" + op, FOLLOW))
                for o2 in (0, 1):
                    for op in binary(True):
                        n += 1
                        ty = tys[n % len(tys)]
                        P.append(prog(ty, mk(0, r, c, o), mk(1, r, c, o2), "!" + op, FOLLOW))
                    for (r2, c2) in [(c, 2), (c, 0), (c, r)] if not q else [(c, 2)]:
                        for op in ["mul 0 1 3 %d" % f for f in range(5)] + ["like 0 1 3"]:
                            n += 1
                            ty = tys[n % len(tys)]
                            P.append(prog(ty, mk(0, r, c, o), mk(1, r2, c2, o2), "!" + op, FOLLOW))
                # non-conformable operands: the error path drops them
                for op in ["ewg 0 1 3 1", "ew 0 1 3 1 1", "ew 0 1 3 1 3", "ew 0 1 3 2 5", "ew 0 1 3 2 7",
                           "mul 0 1 3 0", "mul 0 1 3 1", "like 0 1 3", "overwrite 0 1", "eq 0 1"]:
                    n += 1
                    ty = tys[n % len(tys)]
                    P.append(prog(ty, mk(0, r, c, o), mk(1, r + 1, c + 1, 1), "!" + op, FOLLOW))
        for op in [x for x in create() for _ in range(3)]:
            n += 1
            # (coprime with the period of the list: each form meets elements that track their drops)
            ty = tys[n % len(tys)] if n % 3 else ["TB", "T4", "T24", "T1", "T16"][n // 3 % 5]
            # a constructor replacing a live matrix, and into an empty slot
            P.append(prog(ty, mk(0, 2, 1, 1), mk(1, 2, 2, 1), "!" + op, FOLLOW))
        # operations on freshly resized / over-allocated / shrunk matrices
        for op in ["resize 0 4 3 0", "resize 0 1 2 0", "clear 0", "overwrite 0 1", "clone_from 0 1",
                   "resize 0 0 0 0"]:
            for pre in (["with_capacity 0 40", "resize 0 3 3 0"], ["with_default 0 5 5 0", "resize 0 2 2 0"],
                        ["with_default 0 3 2 0", "sw 0", "shrink 0"]):
                n += 1
                ty = tys[n % len(tys)]
                P.append(prog(ty, pre, mk(1, 2, 3, 0), "!" + op, FOLLOW))
    # larger shapes (blocks, unrolled loops, chunks): some faults of every magnitude
    big = [(5, 7), (4, 8), (1, 33), (17, 2), (12, 12)] + ([(8, 8)] if q else [(8, 8), (64, 3), (3, 65), (1, 130), (20, 20)])
    for (r, c) in big:
        N = r * c
        ops = ["resize 0 %d %d 0" % x for x in ((r + 4, c), (r, c + 3), (r // 2, c), (2, 1), (2 * r, 2 * c))] + \
              ["clear 0", "apply 0", "par_apply 0", "drop 0", "contains 0 %d" % N, "map 0 3 0", "map 0 3 1", "map 0 0 0", "mapref 0 3 0",
               "mapref 0 3 1", "par_map 0 3 0", "par_map 0 3 1", "par_mapref 0 3 0", "clone 0 3", "sc 0 3 0 4", "sc 0 3 1 4", "sc 0 0 2 4",
               "neg 0 3 0", "neg 0 3 1", "fmt 0 0", "fmt 0 1", "eq 0 1", "overwrite 0 1", "clone_from 0 1", "ewg 0 1 3 0", "ewg 0 1 3 1",
               "ewg 0 1 3 2", "ewg 0 1 3 3", "ew 0 1 3 1 1", "ew 0 1 3 1 2", "ew 0 1 3 3 0", "ew 0 1 3 2 5", "ew 0 1 3 1 8",
               "into 0 %d 2" % (N // 2), "into 0 0 0", "par_into 0 0", "par_into 0 1", "itermut 0 0 0", "itermut 0 1 2",
               "with_default 0 %d %d 0" % (r, c), "with_value 0 %d %d 0 7" % (r, c), "with_init 0 %d %d 0" % (r, c)] + \
              ["rows 0 %d%s" % (k, (" %d" % c) * r) for k in (0, 1, 3, 4)]
        for op in ops:
            for rep in range(1 if q else 3):
                n += 1
                # (the machine with few identities cannot hold large ones)
                ty = ["TB", "T4", "N24", "T24", "T16", "Z1"][n % 6]
                P.append(prog(ty, mk(0, r, c, n % 2), mk(1, r, c, (n // 2) % 2), "!~" + op, FOLLOW))
        if N <= 64:
            for f in range(5):
                n += 1
                P.append(prog(["TB", "T4", "N24"][n % 3], mk(0, r, c, n % 2), mk(1, c, r, (n // 2) % 2), "!~mul 0 1 3 %d" % f, FOLLOW))
    paths, st = hist(ck, P)
    M = ["resize 0 3 3 0", "resize 0 1 2 0", "clear 0", "apply 0", "drop 0", "map 0 3 1", "map 0 3 0", "mapref 0 3 0", "clone 0 1",
         "clone_from 1 0", "overwrite 0 1", "neg 0 3 0", "sc 0 3 1 4", "ewg 0 1 3 1", "ewg 0 1 3 2", "mul 0 1 3 0", "like 0 1 3",
         "into 0 1 1", "itermut 0 0 2", "itermut 0 1 1", "with_init 0 2 2 2", "with_value 0 2 2 2 7", "with_default 0 2 2 2",
         "rows 0 3 2 2", "rows 0 1 2 2", "mac 0 1", "swap 0 3 0 0 3 1 0", "eq 0 1", "set 0 0 0 5 3", "transpose 0", "fmt 0 1"]
    mirih.run(ck, lambda r, c: ["!" + op for op in M], [(2, 1), (2, 2)], 16, 200, pre=lambda r, c, o: mk(1, 2, 2, 1), follow=("resize 0 2 1 0",))
    fired = sum(open(p).read().count('"ff":1') for p in paths) if not ck.violations else 0
    return ck.finish({"programs": len(P), "faults_injected": fired})
