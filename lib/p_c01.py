"""C01: coherence over histories."""
import bulk
from vlib import Check, hist, gen_programs, spec_calls
from gen import *


def cover(ck, dims, tys, what=("UNARY", "CREATE", "PAIR")):
    """every call of the exhaustive model in every small world"""
    calls = spec_calls("Calls")
    worlds = [(r, c, o) for r in dims for c in dims for o in (0, 1)]
    P = []
    n = 0
    for w in worlds:
        ty = tys[n % len(tys)]
        n += 1
        ops = mk(0, *w, how=n % 3)
        for call in calls["UNARY"] + calls["CREATE"]:
            if ty in ZST and not zsafe(call):
                continue
            ops += ["clone 0 1", call]
            if len(ops) > 60:
                P.append(prog(ty, ops))
                ty = tys[n % len(tys)]
                n += 1
                ops = mk(0, *w, how=n % 3)
        P.append(prog(ty, ops))
    for w in worlds:
        for v in worlds:
            ty = tys[n % len(tys)]
            n += 1
            ops = mk(0, *w, how=n % 3) + mk(1, *v, how=(n + 1) % 3)
            k = 0
            for call in calls["PAIR"]:
                t = call.split()
                # a destination other than the operands is slot 2 or 3 as well
                ops += ["clone 0 2", "clone 1 3", call]
                k += 1
                if k % 16 == 0:
                    P.append(prog(ty, ops))
                    ty = tys[n % len(tys)]
                    n += 1
                    ops = mk(0, *w, how=n % 3) + mk(1, *v, how=(n + 1) % 3)
            P.append(prog(ty, ops))
    return P


def run():
    ck = Check("C01")
    q = ck.quick
    ck.model("MCHist", workers=8)
    num = 1100 if q else 8000
    P = []
    for i, ops in enumerate(gen_programs(num, depth=14, seed=ck.seed)):
        ty = ALL[i % len(ALL)]
        if ty in ZST:
            ops = [o for o in ops if zsafe(o)]
        P.append(prog(ty, ops))
    if not q:
        for i, ops in enumerate(gen_programs(1500, depth=40, maxdim=7, maxsize=60, seed=ck.seed + 77)):
            ty = BIGIDS[i % len(BIGIDS)]
            P.append(prog(ty, ops))
    ngen = len(P)
    cov = cover(ck, range(3), ["T4", "TB", "T2", "T24", "N4", "Z1", "T16", "T8", "T40", "T3", "T264"])
    if q:
        # a seed-dependent quarter of the transition cover on every change
        cov = [p for i, p in enumerate(cov) if (i + ck.seed) % 6 == 0]
    P += cov
    # spare capacity: what remains of a larger matrix is cut down, grown, moved on
    n = 0
    for (r, c) in [(2, 3), (3, 3), (1, 5), (4, 4), (2, 4)]:
        for (r2, c2) in [(1, 1), (2, 2), (1, 4), (2, 3), (0, 2), (1, 3), (3, 2)]:
            for k in range(8 if q else 24):
                n += 1
                ty = ALL[n % len(ALL)]
                x, y = ck.rng.randrange(5), ck.rng.randrange(5)
                m = r2 * c2
                follow = ck.rng.choice([["resize 0 %d %d 0" % (x, y)], ["map 0 1 %d" % (k % 5)], ["clone 0 1", "clone_from 1 0"],
                                        ["into 0 0 0"], ["clear 0", "shrink_to 0 %d" % x], ["resize 0 %d %d 0" % (r, c), "shrink_to 0 1"]])
                P.append(prog(ty, mk(0, r, c, k % 2, n % 4), "resize 0 %d %d 0" % (r2, c2),
                              "shrink_to 0 %d" % max(0, m + ck.rng.choice([-m, -1, 0, 1, 2, 3, 4, 5])),
                              "elems 0", follow))
    hist(ck, P)
    bulk.run(ck, [0, 5, 6, 7, 8, 10, 12, 17, 18, 20, 22])
    return ck.finish({"programs": len(P), "generated_histories": ngen, "cover_programs": len(cov)})
