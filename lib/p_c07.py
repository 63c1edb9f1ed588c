"""C07: storage order is transparent."""
import json, os
import bulk
from vlib import Check, hist, gen_programs, log
from gen import *

# calls whose meaning or observation legitimately depends on the order
SENSITIVE = {"sww", "sow", "reshape", "resize", "into", "elems", "ewg", "like", "fmt1"}


def agnostic(ops):
    res = []
    for o in ops:
        t = o.split()
        if t[0] in SENSITIVE or (t[0] == "fmt" and t[2] == "1"):
            continue
        res.append(o)
    return res


def flips(rng, ops):
    """run B: the same calls with operands re-stored in the other order"""
    res = []
    for o in ops:
        for s in range(4):
            if rng.random() < 0.3:
                res.append("sw %d" % s if rng.random() < 0.7 else "so %d %d" % (s, rng.randrange(2)))
                res[-1] = ">" + res[-1]
        res.append(o)
    return res


def eq_family(q):
    """== on every shape pair, order pair and single-position difference"""
    P = []
    B = 3 if q else 4
    shapes = [(r, c) for r in range(B + 1) for c in range(B + 1)]
    n = 0
    for (r, c) in shapes:
        for o in (0, 1):
            for o2 in (0, 1):
                n += 1
                ty = ["T4", "N24", "TB", "T2", "T16"][n % 5]
                ops = mk(0, r, c, o, n % 3) + mk(1, r, c, o2, (n + 1) % 3) + ["eq 0 1", "eq 1 0", "eqself 0"]
                for i in range(r):
                    for j in range(c):
                        ops += ["set 1 %d %d 500" % (i, j), "eq 0 1", "set 1 %d %d %d" % (i, j, i * c + j + 1)]
                        ops += ["eq 0 1"] if n % 2 else ["contains 0 %d" % (i * c + j + 1)]
                # a NaN-like element: unequal even to itself, in either order
                if r * c:
                    i, j = (n * 7) % r, (n * 5) % c
                    ops += ["set 0 %d %d 990" % (i, j), "set 1 %d %d 990" % (i, j), "eq 0 1", "eqself 0",
                            "contains 0 990"]
                P.append(prog(ty, ops))
    # elements that are unequal even to themselves: only a matrix without
    # elements equals anything
    for (r, c) in shapes:
        for o in (0, 1):
            for o2 in (0, 1):
                n += 1
                P.append(prog("ZQ", mk(0, r, c, o, n % 2), mk(1, r, c, o2, (n + 1) % 2), "eq 0 1", "eq 1 0",
                              "eqself 0", "contains 0 0", "clone 0 2", "eq 0 2", "eqself 2"))
    # different shapes, equal element sequences
    for (r, c) in shapes:
        for (r2, c2) in shapes:
            if (r, c) != (r2, c2) and (r * c == r2 * c2 or r == r2 or c == c2):
                for o in (0, 1):
                    for o2 in (0, 1):
                        n += 1
                        P.append(prog(["T4", "Z1", "N4", "ZN", "ZQ"][n % 5], mk(0, r, c, o), mk(1, r2, c2, o2),
                                      "eq 0 1", "conf 0 1", "eq 1 0"))
    return P


def pairs_family(q, rng):
    """every order-agnostic binary operation, all four order combinations"""
    P = []
    shapes = [(2, 3), (3, 2), (1, 3), (3, 1), (0, 2), (2, 2)] + ([] if q else [(3, 3), (4, 2), (2, 0), (1, 1)])
    for (r, c) in shapes:
        base = []
        for f in range(9):
            for o in ((1, 2) if f >= 3 else (1, 2, 3, 4, 5)):
                base.append("ew 2 3 2 %d %d" % (o, f))
        base += ["overwrite 2 3", "eq 2 3", "conf 2 3"]
        for (r2, c2) in [(r, c), (c, 2), (r + 1, c), (c, r)]:
            ops = list(base) + ["mul 2 3 2 %d" % f for f in range(5)]
            seq = mk(0, r, c, 0, 1) + mk(1, r2, c2, 0, 1)
            for o in ops:
                seq += ["clone 0 2", "clone 1 3", o, "fmt 2 0"]
            P.append(seq)
        seq = mk(0, r, c, 0, 1)
        for o in ["transpose 2", "apply 2", "map 2 2 0", "map 2 2 3", "mapref 2 3 0", "par_apply 2", "par_map 2 2 0",
                  "par_mapref 2 3 0", "sc 2 2 0 3", "sc 2 2 1 3", "sc 2 2 2 3", "neg 2 2 0", "neg 2 2 1", "iter 2 0", "iter 2 1",
                  "nth 2 0 %d" % (r - 1 if r else 0), "nth 2 1 1", "nth 2 2 0", "nth 2 3 %d" % c, "get 2 0 1",
                  "get 2 1 0", "index 2 1 1", "set 2 1 0 9", "set 2 0 1 9", "itermut 2 0 0", "itermut 2 1 1", "itermut 2 0 2",
                  "swap 2 0 0 0 1 1 1", "swap 2 4 -1 -1 4 5 -3", "swap_rows 2 0 1", "swap_cols 2 0 1",
                  "swap_rows 2 0 %d" % r, "swap_cols 2 %d 0" % c, "contains 2 3", "clear 2"]:
            seq += ["clone 0 2", o, "fmt 2 0"]
        P.append(seq)
    return P


def run():
    ck = Check("C07")
    q = ck.quick
    num = 420 if q else 3000
    base = [agnostic(p) for p in gen_programs(num, depth=22, seed=ck.seed + 1000)]
    base = [p + ["fmt %d 0" % s for s in range(4)] + ["eq 0 1", "eq 2 3"] for p in base]
    base += pairs_family(q, ck.rng)
    if not q:
        for _ in range(3):
            base += pairs_family(q, ck.rng)
    P, align = [], []
    for i, a in enumerate(base):
        ty = ALL[i % len(ALL)]
        if ty in ("T1", "N1") and len(a) > 60:
            ty = "T2"
        if ty in ZST:
            a = [o for o in a if zsafe(o)]
        b = flips(ck.rng, a)
        P.append(prog(ty, a))
        P.append(prog(ty, [o.lstrip(">") for o in b]))
        align.append([o.startswith(">") for o in b])
    npairs = len(align)
    P += eq_family(q)
    paths, st = hist(ck, P)
    if not ck.violations:
        # join the two runs of every pair
        runs = {}
        for p in paths:
            for line in open(p):
                d = json.loads(line)
                runs[d["id"] // 1000] = d
        out = [os.path.join(ck.dir, "pair.%d.ndjson" % i) for i in range(8)]
        fs = [open(p, "w") for p in out]
        for i in range(npairs):
            A, B = runs[2 * i], runs[2 * i + 1]
            steps, ia = [], 0
            cut = len(A["steps"]) and A["steps"][-1]["op"] == "end" and B["steps"][-1]["op"] == "end"
            if not cut:                    # ran out of identities: compare the common prefix
                pass
            for j, x in enumerate(align[i] + [False]):
                if j >= len(B["steps"]) or (not x and ia >= len(A["steps"])):
                    break
                if x:
                    steps.append({"x": 1, "b": B["steps"][j]})
                else:
                    steps.append({"a": A["steps"][ia], "b": B["steps"][j]})
                    ia += 1
            fs[i % 8].write(json.dumps({"id": i, "z": A["z"], "steps": steps}, separators=(",", ":")) + "\n")
        for f in fs:
            f.close()
        cnt = lambda raw: len(json.loads(raw)["steps"])
        ck.traces("TracePair", out, source=lambda i: P[2 * i] + "  ||  " + P[2 * i + 1], count=cnt)
    bulk.run(ck, [19, 20, 7, 22])
    return ck.finish({"programs": len(P), "paired_runs": npairs})
