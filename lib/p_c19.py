"""C19: constructors, conversions, macros."""
import bulk
from vlib import Check, hist
from gen import *

LISTED = [(0, 0), (1, 0), (1, 1), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 4), (4, 3), (5, 2), (9, 0)]


def run():
    ck = Check("C19")
    q = ck.quick
    P = []
    n = ck.seed
    tys = ALL

    def add(*parts, rot=1):
        nonlocal n
        for _ in range(rot):
            n += 1
            ty = tys[n % len(tys)]
            P.append(prog(ty, *parts))

    rot = 3 if q else len(ALL)
    B = 5 if q else 8
    # rows of equal length through every conversion
    for r in range(B + 1):
        for c in range(B + 1):
            for k in (0, 1, 3, 4, 8, 9, 10, 11):
                add("rows 0 %d%s" % (k, (" %d" % c) * r), "elems 0", "fmt 0 0", rot=rot)
            if r <= 6:
                add("rows 0 2%s" % ((" %d" % c) * r), rot=rot)
            if c <= 5 and (r or c == 0):
                add("rows 0 6%s" % ((" %d" % c) * r), "rows 1 7%s" % ((" %d" % c) * r), rot=rot)
    for (r, c) in LISTED:
        if r:
            add("rows 0 5%s" % ((" %d" % c) * r), "elems 0", rot=len(ALL))
    add("rows 0 5", rot=len(ALL))
    # every length vector up to 4 rows of length 0..3: ragged ones must fail
    import itertools
    for m in range(1, 5 if not q else 5):
        for lens in itertools.product(range(4), repeat=m):
            if q and m == 4 and (sum(lens) + n) % 3:
                n += 1
                continue
            s = " ".join(map(str, lens))
            ops = ["rows 0 %d %s" % (k, s) for k in (0, 1, 2, 3, 4, 8, 9, 10, 11)]
            add(ops)
    # a single deviating row at each position of a long list
    for m in (5, 6, 9):
        for pos in range(m):
            for d in (-1, 1, 2, -3):
                lens = [3] * m
                lens[pos] += d
                ks = (0, 1, 3, 4, 8, 9, 10, 11) + ((2,) if m <= 6 else ())
                add(["rows 0 %d %s" % (k, " ".join(map(str, lens))) for k in ks])
    # equal totals that hide raggedness
    for lens in [(1, 3), (3, 1), (2, 1, 3), (2, 3, 1), (1, 2, 3), (0, 2), (2, 0), (0, 4, 2), (2, 2, 4, 0), (3, 3, 2, 4), (4, 2, 3, 3),
                 (0, 0, 3), (0, 1), (1, 0), (1, 0, 0, 0), (2, 2, 2, 1), (2, 2, 2, 3)]:
        add(["rows 0 %d %s" % (k, " ".join(map(str, lens))) for k in (0, 1, 2, 3, 4, 8, 9, 10, 11)], rot=rot)
    # macros
    for f in range(31):
        add("mac 0 %d" % f, "elems 0", rot=len(ALL))
    # vectors
    for k in range(4):
        for m in ([3] if k == 3 else [0, 1, 2, 3, 7]):
            add("from_row 0 %d %d" % (k, m), "from_col 1 %d %d" % (k, m), "elems 0", "elems 1", rot=rot)
    # fill constructors and the initialiser
    for r in range(B + 1):
        for c in range(B + 1):
            for k in range(3):
                add("with_init 0 %d %d %d" % (r, c, k), "with_value 1 %d %d %d 7" % (r, c, k), "with_default 2 %d %d %d" % (r, c, k),
                    rot=1 if q else 5)
    for (r, c) in [(1, 17), (17, 1), (11, 13), (8, 8)]:
        add("with_init 0 %d %d 0" % (r, c), "with_value 1 %d %d 0 3" % (r, c), rot=3)
    add("new 0", "default 1", "with_capacity 2 5", "eq 0 1", "eq 1 2", rot=len(ALL))
    # wide and long inputs
    for (r, c) in [(60, 3), (3, 60), (1, 300), (200, 1), (25, 25)]:
        for k in (0, 1, 3, 4, 8, 9, 10, 11):
            n += 1
            P.append(prog(BIGIDS[n % len(BIGIDS)], "rows 0 %d%s" % (k, (" %d" % c) * r)))
            lens = [c] * r
            lens[-1] -= 1 if r > 1 else 0
            P.append(prog(BIGIDS[n % len(BIGIDS)], "rows 0 %d %s" % (k, " ".join(map(str, lens)))))
    # panics of user code inside constructors never build a wrong matrix (see C02)
    hist(ck, P)
    bulk.run(ck, [27, 28, 29])
    return ck.finish({"programs": len(P)})
