"""Schedules on the row, column and element iterators (C03, C06, C15)."""
from concurrent.futures import ThreadPoolExecutor
from vlib import schedules

ZST = (9, 10, 11)
SIZED = (0, 1, 2, 3, 4, 5, 6, 7, 8)
# two factors of usize::MAX and of 2^63, ...
HUGE = [(-1, 1), (1, -1), (3, 6148914691236517205), (6148914691236517205, 3), (-5, 4294967295),
        (4294967295, -5), (65537, 281470681808895), (-2, 1), (1, -2), (-4, 1), (1, -4), (-4, 2),
        (2, -4), (-6, 1), (255, 72340172838076673), (72340172838076673, 255)]


def text(sch):
    return " ".join("%s%d" % (o, w) + (":%d" % a if a else "") for o, w, a in sch)


def case(ty, mode, o, nr, nc, n, sch):
    return "%d %d %d %d %d %d %s" % (ty, mode, o, nr, nc, n, text(sch))


def count(raw):
    """states a trace line contributes besides the first"""
    return raw.count('"op":') + 2


def pool(jobs):
    """{key: schedules}, generated in parallel"""
    with ThreadPoolExecutor(8) as ex:
        fs = {k: ex.submit(schedules, **kw) for k, kw in jobs.items()}
        return {k: f.result() for k, f in fs.items()}


def straight(L, M, start="n"):
    """every vector and element in order, one after the other"""
    o = []
    for v in range(L):
        o.append([start, 0, 0])
        o += [["n" if (v + j) % 2 == 0 else "b", v + 1, 0] for j in range(M)]
    return o


FAR = [2 ** 64 - 1, 2 ** 64 - 2, 2 ** 63, 2 ** 63 - 1, 2 ** 62, 2 ** 61, 2 ** 60, 2 ** 59, 2 ** 32, 2 ** 31, 1000]


def leaps(rng, L, M, num, flat=False):
    """schedules that skip: to the last item, just beyond it, far beyond it"""
    res = []

    def skip(left):
        x = rng.random()
        if x < 0.4:
            return rng.choice(FAR)
        return max(0, left + rng.choice([-2, -1, -1, 0, 0, 1, 2, -3]))
    for _ in range(num):
        s, left, inner = [], L, []
        for _ in range(rng.randrange(3, 9)):
            if not flat and inner and rng.random() < 0.6:
                w = rng.randrange(len(inner))
                n = M if inner[w] is None else inner[w]
            else:
                w, n = -1, left
            op = rng.choice("nbNBNB")
            a = skip(n) if op in "NB" else 0
            got = a < n
            n = n - a - 1 if got else 0 if op in "NB" else n
            # an item can be reached by a search as well
            s.append([{"N": "F", "B": "G"}[op] if op in "NB" and a < 999 and rng.random() < 0.3 else op, w + 1, a])
            if w < 0:
                left = n
                if got and not flat:
                    inner.append(None)
            else:
                inner[w] = n
        if rng.random() < 0.5:
            s.append([rng.choice("CRcz"), 0, 0])
        res.append(s)
    return res
