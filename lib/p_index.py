"""Queries for element access (C04, C10, C13)."""
import itertools
from p_iter import SIZED, ZST
W = 2 ** 64
BIG = [2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, W - 1, W - 2]
# values that a narrower integer would take for a small one
NARROW = [2 ** 8, 2 ** 8 + 1, 2 ** 16, 2 ** 16 + 1, 2 ** 24, 2 ** 31 + 1, 2 ** 32 + 1, 2 ** 32 + 2, 2 ** 48, 2 ** 53, 2 ** 53 + 1,
          2 ** 63 + 1, 2 ** 62, 2 ** 62 + 1, 2 ** 40 + 1]
# larger shapes, for elements whose identity fits
WIDE = [(257, 3), (3, 257), (70, 70), (1, 5000), (5000, 1), (300, 20), (20, 300), (129, 255), (65, 1), (1, 257)]
WIDETY = (0, 2, 3, 5, 6, 7, 8)
MUTF = (1, 3, 5, 7, 10, 13)


def wraps(stride, n):
    """values v with v * stride small modulo 2^64"""
    res = set()
    if stride > 1:
        res |= {W // stride, W // stride + 1}
        for k in range(1, min(n, 5) + 1):
            g = stride & -stride
            if k % g == 0:
                odd = stride // g
                mod = W // g
                res.add(pow(odd, -1, mod) * (k // g) % mod)
                res.add((pow(odd, -1, mod) * (k // g) + mod) % W)
        g = stride & -stride
        if g > 1:
            res |= {W // g, (W // g) * (g - 1)}
    return {v for v in res if v < W}


def values(lim, stride, n):
    near = set(range(0, min(lim, 5) + 2)) | {max(lim - 1, 0), lim, lim + 1}
    near = {v for v in near if v < W}
    far = set(BIG) | set(NARROW) | wraps(stride, n) | {W - lim if lim else 0, (W - stride) % W}
    return sorted(near), sorted(v for v in far - near if v < W)


def queries(nr, nc, o, rng, extra):
    """(row, col) pairs around the bounds and at extreme values"""
    # the stride by which each coordinate is multiplied in some layout
    nearr, farr = values(nr, max(nc, 1), max(nr * nc, 1))
    nearc, farc = values(nc, max(nr, 1), max(nr * nc, 1))
    Q = [(r, c) for r in nearr for c in nearc]
    Q += [(r, c) for r in farr for c in nearc[:3]] + [(r, c) for r in nearr[:3] for c in farc]
    # combinations whose flattened position wraps around to a valid one
    for maj, mi in (((nearr[1:4] + farr), nc), ((nearc[1:4] + farc), nr)):
        for v in maj:
            for k in range(2):
                w = (k - v * mi) % W
                Q.append((v, w) if maj is not None and mi == nc else (w, v))
    pairs = [(r, c) for r in farr for c in farc]
    Q += rng.sample(pairs, min(extra, len(pairs)))
    return sorted(set(Q))


def lines(ty, kind, form, o, nr, nc, Q, per=400):
    for i in range(0, len(Q), per):
        yield "%d %d %d %d %d %d %s" % (ty, kind, form, o, nr, nc, " ".join(
            "%s,%s" % ("/".join(map(str, r)) if isinstance(r, (list, tuple)) else r,
                       "/".join(map(str, c)) if isinstance(c, (list, tuple)) else c)
            for r, c in Q[i:i + per]))


def changing(forms, rng, q, n):
    """(ty, form, order, nr, nc, queries) for accessors that change their answer"""
    for (nr, nc) in [(2, 3), (3, 2), (1, 4), (4, 1), (3, 3), (2, 2), (0, 3), (3, 0)]:
        vr = [0, nr - 1 if nr else 1, nr, W - 1]
        vc = [0, nc - 1 if nc else 1, nc, W - 1]
        seqr = [list(s) for k in (1, 2, 3) for s in itertools.product(vr, repeat=k)]
        seqc = [list(s) for k in (1, 2, 3) for s in itertools.product(vc, repeat=k)]
        pairs = [(r, c) for r in seqr for c in seqc]
        short = [(r, c) for r, c in pairs if len(r) <= 2 and len(c) <= 2]
        for o in (0, 1):
            for form in forms:
                n += 1
                yield (SIZED + ZST)[n % 12], form, o, nr, nc, short + rng.sample(pairs, 60) if q else pairs
