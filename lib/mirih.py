"""Small histories for the interpreter (Miri): undefined behaviour that leaves no trace in a native run."""
from vlib import hist_miri
from gen import *

TYS = ["TB", "T4", "N24", "Z1", "T1", "T16", "N4", "TB"]


def run(ck, ops, shapes, quick, thorough=400, pre=lambda r, c, o: [], follow=()):
    """ops: function (r, c) -> list of operation strings (or lists of them); a spread over shapes, orders, types"""
    L = []
    for k, (r, c) in enumerate(shapes):
        for o in (0, 1):
            for op in ops(r, c):
                L.append((r, c, o, [op] if isinstance(op, str) else list(op)))
    n = quick if ck.quick else thorough
    if len(L) > n:
        L = ck.rng.sample(L, n)
    P = []
    for k, (r, c, o, op) in enumerate(L):
        P.append(prog(TYS[k % len(TYS)], mk(0, r, c, o, k % 3), pre(r, c, o), op, list(follow)))
    hist_miri(ck, P)
