"""C13: wrapping indices against the mathematical remainder."""
import bulk
from vlib import Check, cases, miri_cases
from p_iter import SIZED, ZST, HUGE
from p_index import *

IMAX, IMIN = 2 ** 63 - 1, -2 ** 63
EXT = [IMIN, IMIN + 1, IMIN + 2, -1, 0, 1, IMAX - 1, IMAX, 2 ** 62, -2 ** 62, 2 ** 31, -2 ** 31, 2 ** 32]


def run():
    ck = Check("C13")
    if not ck.quick:
        ck.prove("ProofArith")
    q = ck.quick
    rng = ck.rng
    ck.model("Wrapping", "Wrapping" if q else "Wrapping_deep", workers=8)
    for bad in ("signed", "abs", "noreduce"):
        ck.model_bad("Wrapping", "Wrapping_" + bad)
    C, M, n, nq = [], [], ck.seed, 0

    def add(ty, form, o, nr, nc, Q):
        nonlocal nq
        nq += len(Q)
        C.extend(lines(ty, 4, form, o, nr, nc, Q))
        if nr * nc <= 200 or ty in ZST:
            M.extend(lines(ty, 4, form, o, nr, nc, rng.sample(Q, min(len(Q), 6))))

    def ext(k):
        # extremes, their neighbours, and multiples of the extent next to them
        s = set(EXT) | {k, -k, k - 1, 1 - k, k + 1, -k - 1, 2 * k, -2 * k, 2 * k - 1, 1 - 2 * k}
        if k:
            s |= {IMAX // k * k, -(IMAX // k) * k, IMAX // k * k - 1, -(IMAX // k) * k - 1}
        return sorted(v for v in s if IMIN <= v <= IMAX)

    dims = range(1, 6 if q else 9)
    shapes = [(r, c) for r in dims for c in dims]
    shapes += [(1, 97), (97, 1), (1, 128), (128, 1), (7, 11), (11, 7), (3, 17), (16, 6)]
    for (nr, nc) in shapes:
        for o in (0, 1):
            wr = range(-3 * nr - 1, 3 * nr + 2)
            wc = range(-3 * nc - 1, 3 * nc + 2)
            full = [(r, c) for r in wr for c in wc]
            er = [(r, c) for r in ext(nr) for c in ext(nc)]
            for form in range(14):
                n += 1
                ty = SIZED[n % 9] if n % 5 else ZST[n % 3]
                if q and (nr > 5 or nc > 5):
                    if n % 3:
                        continue
                    Q = rng.sample(full, min(150, len(full))) + rng.sample(er, 60)
                elif q:
                    Q = [x for i, x in enumerate(full) if (i + n) % 4 == 0] + \
                        [x for i, x in enumerate(er) if (i + n) % 4 == 0]
                else:
                    Q = full + er
                add(ty, form, o, nr, nc, Q)
    # values of every magnitude, larger shapes
    def some():
        v = rng.getrandbits(rng.randrange(1, 64))
        return -v if rng.random() < 0.5 else v
    for (nr, nc) in WIDE + [(2, 3), (3, 5), (7, 6), (1, 1), (10, 3)]:
        for o in (0, 1):
            for form in range(14):
                n += 1
                Q = [(some(), some()) for _ in range(25 if q else 250)]
                Q += [(a * nr + b, c) for a in (-3, -1, 2) for b in (-1, 0, 1) for c in (0, -1, nc, -nc - 1)]
                add(WIDETY[n % 7], form, o, nr, nc, Q)
    # no elements: an error or a panic, whatever the index
    W_ = {-1: "usize::MAX"}
    for k in (0, 1, 2, 3, 2 ** 40, -1, -2):
        for (nr, nc) in {(k, 0), (0, k)}:
            for o in (0, 1):
                for form in range(14):
                    n += 1
                    Q = [(r, c) for r in (IMIN, -1, 0, 1, IMAX) for c in (IMIN, -1, 0, 2, IMAX)]
                    add((SIZED + ZST)[n % 12], form, o, nr, nc, Q)
    # huge extents (zero-sized elements): found, whatever the index
    for (a, b) in HUGE:
        for o in (0, 1):
            for form in range(14):
                n += 1
                Q = [(r, c) for r in (IMIN, -3, 0, IMAX) for c in (IMIN, -1, 5, IMAX)]
                add(ZST[n % 3], form, o, a, b, Q)
    cases(ck, "index", C, "TraceIndex")
    cases(ck, "index", C if not q else C[::3], "TraceIndex", tag="rel", profile="release")
    miri_cases(ck, "index", rng.sample(M, min(len(M), 160 if q else 4000)), "TraceIndex")
    bulk.run(ck, [34])
    return ck.finish({"queries": nq})
