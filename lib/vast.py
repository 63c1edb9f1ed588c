"""Rearranging operations on far more zero-sized elements than memory has bytes."""
from vlib import cases
from p_c08 import UM, IM, tok

SHAPES = [(UM, 1), (1, UM), (3, 6148914691236517205), (2 ** 32, 2 ** 31), (IM, 2), (2, IM), (2 ** 31, 2 ** 32 + 1),
          (65535, 281479271743489), (4294967295, 4294967297), (IM, 1), (1, IM + 1), (0, UM), (UM, 0), (2 ** 40, 3), (5, 2 ** 61)]


def run(ck, ops):
    L = []
    for (a, b) in SHAPES:
        for o in (0, 1):
            for op in ops:
                if op in (33, 34):
                    args = [(0, 0), (1, 0)]
                elif op == 36:
                    args = [(0, 0), (a, 0), (0, a), (UM, UM)]
                    args += [(a - 1, 0), (a - 1, a - 1), (0, a // 2)] if a else []
                elif op == 37:
                    args = [(0, 0), (b, 0), (0, b), (UM, UM)]
                    args += [(b - 1, 0), (b - 1, b - 1), (0, b // 2)] if b else []
                elif op == 38:
                    args = [(0, 0), (a, 0), (0, b), (a, b), (UM, 0), (0, UM), (UM, UM)]
                    args += [(a - 1, b - 1), (a - 1, 0), (0, b - 1)] if a and b else []
                elif op >= 40:
                    args = [(1, 1), (2, 3), (3, 2), (0, UM), (UM, 0), (7, 0), (64, 5), (5, 64)]
                else:
                    args = [(0, 0)]
                L += ["%d 0 0 %d %s %s %s %s" % (op, q, tok(x), tok(y), tok(a), tok(b)) for (x, y) in args
                      for q in ((o, o + 2) if op >= 40 else (o,))]
    L = sorted(set(L))
    cases(ck, "size", L, "TraceSize", tag="vast")
