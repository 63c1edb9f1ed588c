"""C18: scalar operators."""
import bulk
from vlib import Check, cases, hist, miri_cases
from gen import *

INTS = [(8, 0), (16, 0), (32, 0), (64, 0), (128, 0), (64, 0), (8, 1), (16, 1), (32, 1), (64, 1), (128, 1), (64, 1)]
ADD, SUB, MUL, DIV, REM, NEG = range(6)
SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (3, 1)]
ODD = [(0, 0), (0, 3), (2, 0)]


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def int_ok(op, a, b, lo, hi):
    """the primitive operator does not panic"""
    if op in (DIV, REM):
        return b != 0 and tdiv(a, b) <= hi
    v = [a + b, a - b, a * b, 0, 0, -a][op]
    return lo <= v <= hi


def float_bits(f, rng):
    """bit patterns of floats: anywhere, close to each other, at the limits"""
    w, p = (32, 24) if f == 12 else (64, 53)
    top = ((1 << w - p) - 1) << p - 1           # infinity
    def some():
        x = rng.random()
        m = rng.choice([0, 1, 2, (1 << p - 1) - 1, 1 << p - 2, rng.getrandbits(p - 1), rng.getrandbits(p - 1), rng.getrandbits(8)])
        if x < 0.25:
            v = rng.getrandbits(w - 1)
        elif x < 0.35:
            v = m                               # subnormal
        elif x < 0.5:
            v = rng.choice([1, 2, 3, (1 << w - p) - 2, (1 << w - p) - 3, 1 << w - p - 1, p, p + 1]) << p - 1 | m
        else:
            bias = (1 << w - p - 1) - 1
            v = (bias + rng.choice([-p, -2, -1, 0, 0, 0, 1, 2, 3, p - 1, p, 9])) << p - 1 | m
        if v > top:
            v = top
        return "x%d" % (v | rng.getrandbits(1) << w - 1)
    return [some() for _ in range(40)]


def run():
    ck = Check("C18")
    q = ck.quick
    rng = ck.rng
    ck.model("ScalarMC", "ScalarMC" if q else "ScalarMC_deep")
    ck.model("FloatMC")
    for v in ("recip", "trunc", "nozero"):
        ck.model_bad("FloatMC", "FloatMC_" + v)
    for v in ("swap", "euclid", "floor", "twice"):
        ck.model_bad("ScalarMC", "ScalarMC_" + v)

    def int_values(bits, sg):
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        small = list(range(max(lo, -9), 13)) + [17, 31, 100] + ([-31, -100] if sg else [])
        big = [lo, lo + 1, lo + 2, hi, hi - 1, hi // 2, hi // 2 + 1, hi // 3, 1 << bits // 2, (1 << bits // 2) - 1]
        if bits > 8:
            big += [1000, 4095, 4096, 4097, 12345] + ([-1000, -4096, -12345] if sg else [])
        big += [rng.randint(lo, hi) for _ in range(12)]
        return lo, hi, small, sorted(set(big))

    def float_values(f):
        m = 24 if f == 12 else 53
        top = "%d:%d" % ((1 << m) - 1, 104 if f == 12 else 971)
        half = "1:%d" % (127 if f == 12 else 1023)
        small = ["%d:%d" % (s * a, e) for s in (1, -1) for a in (1, 2, 3, 5, 7, 12, 100, 1000) for e in (0, -1, -4)]
        spec = ["nan", "inf", "-inf", "-0", "0:0", top, "-" + top, half, "-" + half, "1:60", "-1:40", "1:-3"]
        return m, small, spec

    def op_ok(ty, op, l, r, env):
        return ty >= 12 or int_ok(op, l, r, *env)

    C = []

    def case(ty, op, form, shape, s, es):
        C.append("%d %d %d %d %d %d %s %s" %
                 (ty, op, form, rng.randrange(4), shape[0], shape[1], s, " ".join(map(str, es))))

    rounds = 1 if q else 8
    for ty in range(14):
        if ty < 12:
            lo, hi, small, big = int_values(*INTS[ty])
            env = (lo, hi)
            pools = [small, big, small + big]
        else:
            m, small, spec = float_values(ty)
            env = m
        for op in range(6):
            forms = range(18)
            if op == NEG:
                if ty < 6:
                    continue
                forms = (0, 4, 8, 12)
            if ty >= 12:
                pools = [small, spec, small + spec]
            for form in forms:
                left = op != NEG and form < 16 and form & 2

                def draw(pool, spool, n):
                    """elements and scalar for which the primitive does not stop"""
                    for _ in range(200):
                        s = rng.choice(spool)
                        es = []
                        for _ in range(n * 40):
                            if len(es) == n:
                                break
                            x = rng.choice(pool)
                            if op_ok(ty, op, *((s, x) if left else (x, s)), env):
                                es.append(x)
                        if len(es) == n:
                            return s, es
                    return None
                plan = []
                for _ in range(rounds):
                    # distinct small operands: the operands' order shows
                    plan += [(pools[0], pools[0])] * 2 + [(pools[1], pools[2]), (pools[2], pools[1])]
                    if ty >= 12:
                        bits = float_bits(ty, rng)
                        plan += [(pools[1], pools[0]), (pools[1], pools[1])]
                        plan += [(bits, bits)] * 4 + [(bits, small), (small, bits)]
                for pool, spool in plan:
                    sh = rng.choice(SHAPES)
                    d = draw(pool, spool, sh[0] * sh[1])
                    if d:
                        case(ty, op, form, sh, *d)
                # scalars an implementation might treat specially, with elements of every kind
                if op != NEG:
                    keys = ([0, 1, 2, 4, 10, 16, 64, hi, hi - 1] + ([-1, -2, -8, lo, lo + 1] if lo < 0 else [])) if ty < 12 else \
                        ["0:0", "-0", "1:0", "-1:0", "3:0", "10:0", "49:0", "3:-1", "-3:-1", "1:-1", "-1:-1", "1:-2", "2:0", "5:-2", "7:-2", "nan", "inf", "-inf"]
                    if q:
                        keys = keys[:3] + rng.sample(keys[3:], 4)
                    for s in keys:
                        if ty < 12:
                            es = [0, 1, lo, hi] + ([-1] if lo < 0 else []) + rng.sample(pools[2], 3)
                            es = [y for y in es if op_ok(ty, op, *((s, y) if left else (y, s)), env)]
                        else:
                            es = ["-0", "0:0", "nan", "inf", "-inf", "x1", "1:0"] + rng.sample(pools[2], 2) + float_bits(ty, rng)[:2]
                        if es:
                            rng.shuffle(es)
                            case(ty, op, form, rng.choice([(1, len(es)), (len(es), 1)]), s, es)
                # no elements: no operation, whatever the scalar
                sh = rng.choice(ODD)
                case(ty, op, form, sh, 0 if ty < 12 else "0:0", [])
                if ty < 12:
                    # one element at which the primitive stops
                    for _ in range(rounds):
                        sh = rng.choice(SHAPES)
                        n = sh[0] * sh[1]
                        for _ in range(50):
                            s, x = rng.choice(pools[2]), rng.choice(pools[1] + [0])
                            if not op_ok(ty, op, *((s, x) if left else (x, s)), env):
                                es = [rng.choice(pools[0]) for _ in range(n)]
                                es[rng.randrange(n)] = x
                                case(ty, op, form, sh, s, es)
                                break
    # larger ones
    for i in range(60 if q else 600):
        ty = rng.randrange(12)
        lo, hi, small, big = int_values(*INTS[ty])
        op = rng.randrange(5)
        form = rng.randrange(18)
        left = form < 16 and form & 2
        sh = (rng.randrange(1, 24), rng.randrange(1, 24))
        s = rng.choice([x for x in small if x])
        pool = [x for x in small if int_ok(op, *((s, x) if left else (x, s)), lo, hi)]
        if pool:
            case(ty, op, form, sh, s, [rng.choice(pool) for _ in range(sh[0] * sh[1])])
    cases(ck, "scalar", C, "TraceScalar")
    R = [c for c in C if rng.random() < (0.15 if q else 1)]
    cases(ck, "scalar", R, "TraceScalar", tag="release", profile="release")
    # the generic family: any element type, any closure
    P = []
    n = ck.seed
    B = 4 if q else 6
    for r in range(B + 1):
        for c in range(B + 1):
            for o in (0, 1):
                for form in (0, 1, 2):
                    n += 1
                    P.append(prog(ALL[n % len(ALL)], mk(0, r, c, o, n % 3), "sc 0 1 %d %d" % (form, n % 7), "elems %d" % (1 if form < 2 else 0)))
                for form in (0, 1):
                    n += 1
                    P.append(prog(ALL[n % len(ALL)], mk(0, r, c, o, n % 3), "neg 0 1 %d" % form, "elems 1"))
    for (r, c) in [(30, 20), (1, 300), (300, 1), (17, 19)]:
        for o in (0, 1):
            for form in (0, 1, 2):
                n += 1
                P.append(prog(BIGIDS[n % len(BIGIDS)], mk(0, r, c, o), "sc 0 1 %d 3" % form))
            P.append(prog(BIGIDS[n % len(BIGIDS)], mk(0, r, c, o), "neg 0 1 1", "neg 0 2 0"))
    # a closure or operator that panics
    for (r, c) in [(2, 2), (1, 3), (3, 2)]:
        for o in (0, 1):
            for op in ("sc 0 1 0 2", "sc 0 1 1 2", "sc 0 1 2 2", "neg 0 1 0", "neg 0 1 1"):
                n += 1
                P.append(prog(ALL[n % len(ALL)], mk(0, r, c, o, n % 3), "!" + op))
    hist(ck, P)
    bulk.run(ck, [33, 21])
    return ck.finish({"cases": len(C), "programs": len(P)})
