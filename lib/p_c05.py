"""C05: transpose / order operations."""
import itertools
import bulk, mirih, vast
from vlib import Check, hist
from gen import *


def run():
    ck = Check("C05")
    if not ck.quick:
        ck.prove("ProofArith")
        ck.prove("ProofTranspose")
    q = ck.quick
    P = []
    ck.model("Transposition", "Transposition" if q else "Transposition_deep")
    for bad in ("nobits", "old", "half"):
        ck.model_bad("Transposition", "Transposition_" + bad)
    ops1 = ["transpose 0", "sw 0", "sww 0", "so 0 0", "so 0 1", "sow 0 0", "sow 0 1"]
    bound = 9 if q else 14
    n = 0
    for r in range(bound + 1):
        for c in range(bound + 1):
            for o in (0, 1):
                n += 1
                tys = [ALL[n % len(ALL)], ALL[(n * 5 + 3) % len(ALL)]] if q else ALL
                for ty in tys:
                    if ty in ("T1", "N1") and r * c > 150:
                        ty = "T2"
                    # every single operation, its repetition, and a random composition
                    seq = []
                    for op in ops1[:3]:
                        seq += [op, op]
                    for op in ops1[3:]:
                        seq += [op]
                    P.append(prog(ty, mk(0, r, c, o, n % 3), seq))
                    rnd = [ck.rng.choice(ops1) for _ in range(8)]
                    P.append(prog(ty, mk(0, r, c, o, (n + 1) % 3), rnd))
    # all compositions of length 3 on a few shape classes
    for (r, c) in [(2, 3), (3, 3), (1, 4), (4, 1), (4, 6), (0, 3), (3, 0)]:
        for o in (0, 1):
            for k, seq in enumerate(itertools.product(ops1, repeat=2 if q else 3)):
                P.append(prog(ALL[k % len(ALL)], mk(0, r, c, o), list(seq)))
    # large shapes: long and many cycles, prime / power-of-two / common-factor extents
    big = [(1, 257), (257, 1), (16, 16), (31, 33), (17, 64), (2, 300), (300, 2), (12, 18),
           (7, 143), (32, 32), (5, 103), (128, 3)]
    if not q:
        big += [(64, 64), (1, 1025), (61, 67), (100, 41), (3, 1400), (37, 111), (90, 45)]
    for i, (r, c) in enumerate(big):
        for o in (0, 1):
            ty = BIGIDS[(i * 2 + o) % len(BIGIDS)]
            P.append(prog(ty, mk(0, r, c, o), "transpose 0", "transpose 0", "sw 0", "sww 0",
                          "so 0 %d" % o, "transpose 0"))
    hist(ck, P)
    vast.run(ck, range(30, 35))
    mirih.run(ck, lambda r, c: [[a, b] for a in ops1 for b in ops1[:3]],
              [(2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (3, 5), (0, 2)], 24)
    bulk.run(ck, [0, 1, 2, 3, 4])
    return ck.finish({"programs": len(P), "exhaustive_shapes_up_to": bound})
