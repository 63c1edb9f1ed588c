"""C08: requested sizes against unbounded arithmetic."""
from vlib import Check, cases

UM, IM = 2 ** 64 - 1, 2 ** 63 - 1
SIZES = [0, 1, 2, 4, 8, 16, 24, 4096, 3]
SENT = {UM: -1, 2 ** 63: -2, IM: -4, 2 ** 32: -5, UM - 1: -6}
# factor pairs of the limits
PAIRS = [(3, 6148914691236517205), (5, 3689348814741910323), (17, 1085102592571150095), (255, 72340172838076673),
         (65535, 281479271743489), (65537, 281470681808895), (641, 28778071877862015),
         (6700417, 2753074036095), (4294967295, 4294967297), (2, 2 ** 63), (2 ** 32, 2 ** 32), (2 ** 31, 2 ** 33),
         (2 ** 32, 2 ** 31), (2 ** 33, 2 ** 31), (2 ** 16, 2 ** 48), (2 ** 48, 2 ** 15), (7, IM // 7),
         (7 * 7, IM // 49), (73, IM // 73), (127, IM // 127), (337, IM // 337), (92737, IM // 92737),
         (649657, IM // 649657), (3037000499, 3037000499), (3037000500, 3037000500), (2 ** 32 - 1, 2 ** 32 - 1),
         (2 ** 32 + 1, 2 ** 32 + 1), (4294967296, 4294967297)]


def tok(v):
    return str(SENT.get(v, v))


def mapping_cases(C, rng, quick, ops=range(11, 19), cap=None):
    """results of mapping a huge matrix of zero-sized elements"""
    for u, us in enumerate(SIZES):
        tops = {IM, IM + 1, UM, 0, 1, 6}
        if us:
            tops |= {IM // us - 1, IM // us, IM // us + 1, 2 ** 64 // us, min(UM, 2 ** 64 // us + 1),
                     min(UM, 2 ** 63 // us + 1)}
        for n in sorted(tops):
            if n > UM:
                continue
            shapes = [(n, 1), (1, n)]
            for a in (2, 3, 2 ** 16, 2 ** 31):
                if n % a == 0 and n:
                    shapes += [(a, n // a), (n // a, a)]
            for op in ops:
                legal = n * us <= IM
                ss = shapes
                if quick:
                    ss = rng.sample(shapes, min(len(shapes), 2))
                if legal and (us == 0 or n * us < 2 ** 26) and n > 2 ** 14:
                    # an endless loop: a few will do
                    if rng.random() > (0.05 if quick else 0.4):
                        continue
                    ss = ss[:1]
                for (a, b) in ss:
                    for ord in ([rng.randrange(4)] if quick else range(4)):
                        # (parallel: the number of threads)
                        C.append((op, 0, u, ord, a, b, rng.randrange(4) if op in (13, 14) else 0, 0))
    # sized sources, small counts
    for op in ops:
        if op >= 20:
            continue
        for t in (1, 6):
            for u in range(9):
                for (a, b) in [(0, 0), (0, 3), (4, 0), (2, 3), (3, 1)]:
                    C.append((op, t, u, rng.randrange(4), a, b, 0, 0))


def run():
    ck = Check("C08")
    if not ck.quick:
        ck.prove("ProofArith")
    q = ck.quick
    rng = ck.rng
    ck.model("SizeCheck", "SizeCheck" if q else "SizeCheck_deep", workers=4)
    for bad in ("wrapsize", "wrapbytes", "strict", "nobytes"):
        ck.model_bad("SizeCheck", "SizeCheck_" + bad)
    C = []

    def values(us):
        v = {0, 1, 2, 3, 2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32,
             2 ** 32 + 1, 2 ** 33, 2 ** 62, IM - 1, IM, IM + 1, IM + 2, UM - 1, UM}
        if us:
            v |= {IM // us - 1, IM // us, IM // us + 1, 2 ** 64 // us, 2 ** 64 // us + 1, 2 ** 63 // us, 2 ** 63 // us + 1}
        return sorted(x for x in v if x <= UM)

    def pairs(us):
        vs = values(us)
        P = [(a, b) for a in vs for b in vs]
        P += PAIRS + [(b, a) for a, b in PAIRS]
        for n in (IM // us if us else IM, (IM // us if us else IM) + 1, 2 ** 63, UM):
            for a in (1, 2, 3, 4, 5, 7, 9, 2 ** 16, 2 ** 20, 2 ** 31):
                for d in (n // a, n // a + 1):
                    P += [(a, d), (d, a)]
        return sorted({(a, b) for a, b in P if a <= UM and b <= UM})

    def endless(op, us, a, b):
        n = a * b
        return n <= UM and n * us <= min(IM, 2 ** 26) and n > 2 ** 12

    for u, us in enumerate(SIZES):
        P = pairs(us)
        near = [p for p in P if p[0] * p[1] > 2 ** 60]
        for op in (0, 1, 2, 3, 6, 7):
            S = P if not q else rng.sample(P, 60) + rng.sample(near, 60)
            for (a, b) in S:
                if endless(op, us, a, b):
                    if a * b > 2 ** 14 and rng.random() < (0.02 if q else 0.1):
                        pass
                    else:
                        continue
                if op == 3:
                    ords = (0, 1)
                    for o in ords:
                        pn, pm = rng.choice([(0, 0), (2, 3), (0, 4), (1, 5), (3, 3)])
                        C.append((op, 0, u, o, a, b, pn, pm))
                elif op in (6, 7):
                    ks = [0] + [k for k in (1, 2) if a * k <= UM and b * k <= UM]
                    C.append((op, 0, u, rng.randrange(4), a, b, rng.choice(ks), 0))
                else:
                    C.append((op, 0, u, 0, a, b, 0, 0))
        # shrinking a huge matrix of zero-sized elements
    for (a, b) in [(UM, 1), (1, UM), (3, 6148914691236517205), (2 ** 32, 2 ** 31), (IM, 2)]:
        for (nr, nc) in [(0, 0), (2, 3), (5, 0), (0, UM), (UM, 0), (UM, 2), (b, a), (a, b), (2 ** 33, 2 ** 32), (3, 1)]:
            for o in (0, 1):
                C.append((3, 0, 0, o, nr, nc, a, b))
                C.append((4, 0, 0, o, nr, nc, a, b))
    # reshape: the same count, near misses, the same count modulo 2^64
    for (pn, pm) in [(2, 3), (3, 4), (1, 1), (0, 0), (0, 5), (6, 0), (1, 7), (16, 2)]:
        n = pn * pm
        R = {(a, b) for a in range(0, n + 2) for b in range(0, n + 2) if a * b in (n, n + 1, n - 1)}
        R |= {(UM, 0), (0, UM), (UM, UM), (UM, 1), (1, UM), (2 ** 63, 2), (2, 2 ** 63), (2 ** 32, 2 ** 32), (2 ** 63, 0)}
        for g in (2, 4, 8, 16, 2 ** 16, 2 ** 32):
            if n % g == 0 or g <= 16 and n % g == 0:
                R |= {(2 ** 64 // g + n // g, g), (g, 2 ** 64 // g + n // g)}
        for odd in (3, 5, 7, 11, 13, 2 ** 33 + 1, UM):
            w = n * pow(odd, -1, 2 ** 64) % 2 ** 64
            R |= {(odd, w), (w, odd)}
        for (a, b) in sorted(R):
            for o in (0, 1):
                for u in ([rng.randrange(9)] if q else (0, 1, 4, 6, 7)):
                    C.append((4, 0, u, o, a, b, pn, pm))
    for (a, b) in pairs(0):
        C.append((5, 0, 0, 0, a, b, 0, 0))
    # rows of any length
    for op in (8, 9, 10):
        for nr in range(4):
            for nc in ((0, 1, 2, 5) if nr else (0,)):
                for u in (0, 1, 4, 6):
                    C.append((op, 0, u, 0, nr, nc, 0, 0))
            if nr == 0:
                continue
            for nc in (2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 6148914691236517205, 6148914691236517206, UM - 1, UM,
                       3689348814741910323, 3689348814741910324, 12297829382473034411):
                if nr * nc <= UM and op == 9 and q and nr != 1:
                    continue
                C.append((op, 0, 0, 0, nr, nc, 0, 0))
        if op != 10:
            C += [(op, 0, 0, 0, 5, nc, 0, 0) for nc in (3689348814741910323, 3689348814741910324, UM)]
    mapping_cases(C, rng, q)
    mapping_cases(C, rng, q, ops=range(20, 30))
    # (ops 20..29 look at zero-sized operands only)
    lines = ["%d %d %d %d %s %s %s %s" % (c[0], c[1], c[2], c[3], tok(c[4]), tok(c[5]), tok(c[6]), tok(c[7])) for c in C]
    lines = sorted(set(lines))
    rng.shuffle(lines)
    cases(ck, "size", lines, "TraceSize")
    cases(ck, "size", lines if not q else lines[::2], "TraceSize", tag="rel", profile="release")
    return ck.finish({"cases": len(lines)})
