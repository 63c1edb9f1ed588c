"""C04: checked element access, every index type and every index value."""
from vlib import Check, cases, miri_cases
from p_iter import SIZED, ZST, HUGE
from p_index import *

CHECKED = (0, 1, 2, 3, 4, 5, 6, 7, 8, 11)


def word(x):
    return {-1: W - 1, -2: 2 ** 63, -4: 2 ** 63 - 1, -5: 2 ** 32, -6: W - 2}.get(x, x)


def run():
    ck = Check("C04")
    if not ck.quick:
        ck.prove("ProofArith")
    q = ck.quick
    rng = ck.rng
    ck.model("Index", workers=4)
    for bad in ("toctou", "flat"):
        ck.model_bad("Index", "Index_" + bad)
    C, M, n, nq = [], [], ck.seed, 0
    lim = 4 if q else 6
    shapes = [(r, c) for r in range(lim + 1) for c in range(lim + 1)]
    shapes += [(1, 9), (9, 1), (2, 30), (30, 2), (11, 7), (16, 8), (8, 16), (1, 120), (120, 1)]
    empty = [(0, W - 1), (W - 1, 0), (0, 2 ** 63), (2 ** 63, 0), (0, 7), (7, 0)]

    def add(ty, kind, form, o, nr, nc, Q):
        nonlocal nq
        nq += len(Q)
        C.extend(lines(ty, kind, form, o, nr, nc, Q))
        # some for the interpreter
        S = rng.sample(Q, min(len(Q), 6))
        if nr * nc <= 200 or ty in ZST:
            M.extend(lines(ty, kind, form, o, nr, nc, S))

    SENT = {W - 1: -1, 2 ** 63: -2}
    for (nr, nc) in shapes + empty:
        for o in (0, 1):
            Q = queries(nr, nc, o, rng, 20 if q else 200)
            In = [(r, c) for r, c in Q if r < nr and c < nc]
            snr, snc = SENT.get(nr, nr), SENT.get(nc, nc)
            for kind in range(4):
                for form in CHECKED:
                    n += 1
                    if q and (nr > 4 or nc > 4) and n % 3:
                        continue
                    ty = (SIZED + ZST)[n % 12]
                    # the whole square of small values for all; the rest in turn
                    add(ty, kind, form, o, snr, snc, Q if not q or n % 2 == 0 else
                        [x for i, x in enumerate(Q) if max(x) <= lim + 1 or (i + n) % 3 == 0])
                for form in (9, 10, 12, 13):
                    n += 1
                    if In:
                        add((SIZED + ZST)[n % 12], kind, form, o, snr, snc, In)
    # larger shapes: strides that are not small
    for (nr, nc) in WIDE:
        for o in (0, 1):
            Q = queries(nr, nc, o, rng, 30)
            Q += [(rng.randrange(nr), rng.randrange(nc)) for _ in range(12)]
            Q += [(rng.randrange(nr + 3), rng.getrandbits(rng.randrange(1, 65))) for _ in range(6)]
            Q += [(rng.getrandbits(rng.randrange(1, 65)), rng.randrange(nc + 3)) for _ in range(6)]
            In = [(r, c) for r, c in Q if r < nr and c < nc]
            for form in CHECKED + (9, 10, 12, 13):
                n += 1
                add(WIDETY[n % 7], n % 4, form, o, nr, nc, rng.sample(Q, min(len(Q), 60 if q else 600))
                    if form in CHECKED else In)
    # zero-sized elements: any shape whatever
    for (a, b) in HUGE:
        nr, nc = word(a), word(b)
        for o in (0, 1):
            far = [0, 1, nr - 1, nr, nr + 1, W - 1, 2 ** 63]
            fac = [0, 1, nc - 1, nc, nc + 1, W - 1, 2 ** 63]
            Q = sorted({(r % W, c % W) for r in far for c in fac})
            for form in CHECKED:
                n += 1
                add(ZST[n % 3], n % 4, form, o, a, b, Q)
    # index types whose accessors change their answer
    for (ty, form, o, nr, nc, Q) in changing(CHECKED, rng, q, n):
        add(ty, 5, form, o, nr, nc, Q)
    cases(ck, "index", C, "TraceIndex")
    cases(ck, "index", C if not q else C[::3], "TraceIndex", tag="rel", profile="release")
    M = rng.sample(M, min(len(M), 160 if q else 4000))
    miri_cases(ck, "index", M, "TraceIndex")
    return ck.finish({"queries": nq})
