"""Large matrices: one operation each, validated by TraceBulk against Bulk."""
from vlib import cases

TYS = [0, 1, 2, 3, 4]
# sides around which implementations change strategy
EDGES = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]


def shapes(ck):
    """(r, c): squares, sides at powers of two, long and thin ones, random ones."""
    rng, q = ck.rng, ck.quick
    s = [(n, n) for n in range(8, 50)]
    s += [(n, n) for n in ((64, 65, 100, 129) if q else (63, 64, 65, 72, 96, 100, 127, 128, 129, 150, 200, 255, 256, 257))]
    for e in EDGES:
        k = [2, 3, 8, 16, 20, 48]
        for x in (rng.sample(k, 2) if q else k):
            s += [(e, x), (x, e)]
    for n in (1023, 1024, 1025, 4097):
        s += [(1, n), (n, 1)]
        if n < 2000 or not q:
            s += [(rng.choice([2, 3, 7, 16]), n), (n, rng.choice([2, 3, 7, 16]))]
    s += [(1, 70000), (70000, 1)]
    if not q:
        s += [(2, 40000), (40000, 2), (300, 301), (512, 256), (8, 16385), (16385, 8)]
    for _ in range(20 if q else 150):
        s.append((rng.randint(5, 90), rng.randint(5, 90)))
    for _ in range(6 if q else 40):
        s.append((rng.randint(90, 400), rng.randint(4, 40)))
        s.append((rng.randint(4, 40), rng.randint(90, 400)))
    return s


# (as listed in the driver)
TYPED = [(6, 1), (7, 5), (8, 2), (8, 8), (9, 4), (10, 3), (12, 1), (13, 9), (16, 5), (17, 16), (32, 6), (33, 2), (64, 4),
         (100, 3), (129, 2), (256, 3), (257, 1), (500, 2), (1, 16), (1, 33), (2, 17), (3, 64), (2, 65), (4, 100), (3, 129),
         (2, 256), (1, 257), (2, 1025), (40, 40)]
SMALL = [(r, c) for r in range(6) for c in range(6)]


def around(rng, n):
    """an index below n, often at an end"""
    return rng.choice([0, n - 1, n // 2, rng.randrange(n), rng.randrange(n), max(n - 2, 0), min(255, n - 1), min(256, n - 1)])


def variants(rng, op, o, r, c):
    """argument tuples (o2, r2, c2, x, y) of one operation on an r x c matrix"""
    n = r * c
    o2 = rng.randrange(2)
    same = (o2, r, c)
    if op in (0, 1, 2, 11, 12, 13, 17):
        return [(0, 0, 0, 0, 0)]
    if op in (3, 4):
        return [(0, 0, 0, 0, 0), (1, 0, 0, 0, 0)]
    if op in (5, 6):
        out = [(0, c, r, 0, 0), (0, 1, n, 0, 0), (0, n, 1, 0, 0)]
        ds = [d for d in range(2, 65) if n and n % d == 0]
        if ds:
            d = rng.choice(ds)
            out += [(0, d, n // d, 0, 0), (0, n // d, d, 0, 0)]
        if op == 5:
            out += [(0, r, c + 1, 0, 0), (0, max(r - 1, 0), c, 0, 0)]
        else:
            out += [(0, r + 1, c, 0, 0), (0, r, c + 1, 0, 0), (0, r // 2, c, 0, 0), (0, r, max(c - 1, 0), 0, 0),
                    (0, r + rng.randint(1, 9), c + rng.randint(1, 9), 0, 0), (0, r // 3, c * 2, 0, 0), (0, 0, c, 0, 0)]
        return rng.sample(out, min(3, len(out)))
    if op in (7, 18):
        out = [(o2, r, c, 0, 0), (1 - o, r, c, 0, 0), (o, r, c, 0, 0),
               (o2, max(r // 2, 1), c, 0, 0), (o2, r, max(c // 2, 1), 0, 0),
               (o2, r + 3, c, 0, 0), (o2, r, c + 3, 0, 0), (o2, c, r, 0, 0),
               (o2, max(r - 2, 0), c + 2, 0, 0), (o2, r + 2, max(c - 2, 0), 0, 0)]
        return rng.sample(out, 3)
    if op in (8, 9):
        k = r if op == 8 else c
        if k == 0:
            return [(0, 0, 0, 0, 0)]
        out = [(0, 0, 0, around(rng, k), around(rng, k)) for _ in range(3)]
        out.append((0, 0, 0, around(rng, k), k) if rng.randrange(2) else (0, 0, 0, k, around(rng, k)))
        return out
    if op == 10:
        if n == 0:
            return []
        return [(0, 0, 0, around(rng, n), around(rng, n)) for _ in range(2)] + \
               [(0, 0, 0, rng.choice([n, n - 1]), rng.choice([0, n]))]
    if op in (14, 15, 16):
        # (0: outside any pool)
        return [(0, 0, 0, t, 0) for t in rng.sample([0, 0, 1, 2, 3, 4, 7, 8, 16], 2)]
    if op == 19:
        x = around(rng, n) if n else -1
        return [(0, 0, 0, -1, 0), (1, 0, 0, -1, 0), (o2, 0, 0, x, 0), (1 - o2, 0, 0, around(rng, n) if n else -1, 0),
                (o2, 0, 0, n - 1, 0)]
    if op == 20:
        out = [same + (0, y) for y in range(3)] + [(1 - o, r, c, 0, y) for y in range(3)]
        out += [(o2, c, r, 0, rng.randrange(3)), (o2, r, c + 1, 0, rng.randrange(3)), (o2, r + 1, c, 0, rng.randrange(3))]
        return rng.sample(out, 3)
    if op == 21:
        return [(0, 0, 0, rng.choice([0, 1, -1, 7, 1000]), y) for y in range(3)]
    if op == 22:
        return None
    if op == 23:
        return [(0, 0, 0, x, y) for y in range(4) for x in (0, 1) if rng.randrange(2)]
    if op == 24:
        out = []
        for y in range(4):
            k = r if y % 2 == 0 else c
            out.append((0, 0, 0, around(rng, k) if k else 0, y))
            if rng.randrange(3) == 0:
                out.append((0, 0, 0, k, y))
        return out
    if op == 25:
        return [(0, 0, 0, x, y) for y in range(6) for x in (0, 1) if rng.randrange(3) == 0]
    if op == 26:
        return [(0, 0, 0, rng.choice([1, 2, 3, 4, 8, 16]), y) for y in range(6) if rng.randrange(2)]
    if op == 27:
        ks = [0, 1, 2] + ([3] if r == 5 else [])
        out = [(0, 0, 0, -1, k) for k in ks]
        if r and c:
            out += [(0, 0, 0, around(rng, r), 10 * rng.choice([1, 2]) + rng.choice(ks)) for _ in range(4)]
        return rng.sample(out, min(4, len(out)))
    if op == 28:
        return [(0, 0, 0, 0, 0)]
    if op == 29:
        return [(0, 0, 0, 7, 0), (0, 0, 0, 0, 1)]
    if op == 32:
        return [(0, 0, 0, x, 0) for x in {1, n, n + 1, 0, n // 2, max(n - 1, 0)} if rng.randrange(2)]
    if op == 33:
        return [(o2, 0, 0, rng.choice([0, 1, -1, 3]), y) for y in rng.sample(range(17), 4)]
    if op == 34:
        if n == 0:
            return []
        return [(0, 0, 0, rng.choice([0, 1, -1, -r, r, -257 * r - 1, 100003]), rng.choice([0, 1, -1, -c, c, -256 * c + 3, 70001]))
                for _ in range(2)]
    raise ValueError(op)


def products(ck):
    """shape pairs (r, k, c) of products, with many thresholds of the inner extent"""
    rng, q = ck.rng, ck.quick
    out = [(n, n, n) for n in range(1, 25)]
    for k in (15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025):
        out += [(rng.randint(1, 6), k, rng.randint(1, 6)), (1, k, 1)]
        out += [(k, rng.randint(1, 5), rng.randint(1, 5)), (rng.randint(1, 5), rng.randint(1, 5), k)]
    for _ in range(30 if q else 300):
        out.append((rng.randint(1, 24), rng.randint(0, 24), rng.randint(1, 24)))
    out += [(64, 3, 64), (33, 20, 34)] if q else [(64, 64, 64), (100, 30, 90), (65, 129, 65), (300, 5, 300)]
    return out


def lines(ck, ops, budget):
    """case lines for these operations, about `budget` elements in total per operation"""
    rng, C = ck.rng, []
    for op in ops:
        got, must = [], []
        if op == 22:
            for (r, k, c) in products(ck):
                o, o2 = rng.randrange(2), rng.randrange(2)
                y = rng.choice([0, 0, 1, 2, 3, 4, 5])
                got.append((0, o, r, k, o2, k, c, 22, 0, y))
                if rng.randrange(4) == 0:
                    got.append((0, o, r, k, o2, k + rng.choice([1, 2]), c, 22, 0, rng.choice([0, 5])))
            C += got
            continue
        sh = shapes(ck)
        for (r, c) in SMALL + sh:
            for o in ((0, 1) if (r, c) in sh else (rng.randrange(2),)):
                vs = variants(rng, op, o, r, c)
                for v in vs:
                    ty = rng.choice(TYS if r * c < 20000 else TYS[:4]) if op != 33 else 0
                    o2, r2, c2, x, y = v
                    if r * c > 60000 and op in (34, 19):
                        continue
                    got.append((ty, o, r, c, o2, r2, c2, op, x, y))
        if op == 27:
            # typed rows, single rows and columns
            for (r, c) in TYPED:
                # (whole arrays have to fit on the stack)
                got += [(rng.choice([0, 1, 2, 3] if r * c < 300 else [0, 1, 2]), 0, r, c, 0, 0, 0, 27, -1, k) for k in (4, 5, 6, 9)]
            for n in (1, 2, 9, 33, 64, 257, 1025, 5000):
                got += [(rng.choice(TYS), 0, 1, n, 0, 0, 0, 27, -1, 7), (rng.choice(TYS), 0, n, 1, 0, 0, 0, 27, -1, 8)]
        if op in (5, 6, 7, 18, 20):
            # several long lines, each way
            for k in range(8 if ck.quick else 40):
                n = rng.choice([1026, 1500, 2049, 4099, 5000, 8193, rng.randint(1030, 9000), rng.randint(1030, 3000)])
                d = rng.choice([2, 2, 3, 4])
                r, c = (d, n) if k % 2 else (n, d)
                o, o2 = rng.randrange(2), rng.randrange(2)
                ty = rng.choice(TYS[:4])
                if op == 20:
                    must += [(ty, o, r, c, p, r, c, 20, 0, y) for p in (0, 1) for y in range(3)]
                else:
                    must += [(ty, o, r, c) + tuple(v[:3]) + (op,) + tuple(v[3:]) for v in variants(rng, op, o, r, c)]
                    if op in (7, 18):
                        must += [(ty, o, r, c, 1 - o, r, c, op, 0, 0), (ty, o, r - 1, c, 1 - o, r, c - 1, op, 0, 0)]
        # the many mid-sized cases first, then as many large ones as the budget allows
        total, keep = 0, []
        rng.shuffle(got)
        for g in got:
            w = g[2] * g[3] + g[5] * g[6] + 20
            if total + w > budget and w > 400:
                continue
            total += w
            keep.append(g)
        C += keep + must
    # heavy scenarios first
    C.sort(key=lambda g: -(g[2] * g[3]))
    return [" ".join(map(str, g)) for g in C]


def run(ck, ops, budget=None, par=False):
    """validate `ops` on large matrices"""
    b = budget or (400_000 if ck.quick else 4_000_000)
    ck.model("MCBulk", workers=4)
    C = lines(ck, ops, b)
    cases(ck, "bulk", C, "TraceBulk", features="par", mem="2500m")
    if not ck.quick:
        cases(ck, "bulk", lines(ck, ops, b // 3), "TraceBulk", tag="bulk-release", profile="release", mem="2500m")
    ck.cov["bulk_cases"] = ck.cov.get("bulk_cases", 0) + len(C)
