"""Program families for the history interpreter."""

ALL = ["T1", "T2", "T4", "T8", "T16", "T24", "T40", "TB", "N1", "N4", "N24", "T3", "T264", "N128", "T4K", "Z1", "Z8", "ZN", "ZQ"]
SIZED = ["T1", "T2", "T4", "T8", "T16", "T24", "T40", "TB", "N1", "N4", "N24", "T3", "T264", "N128", "T4K"]
BIGIDS = ["T2", "T4", "T8", "T16", "T24", "T40", "TB", "N4", "N24", "T3", "T264", "N128", "T4K"]


def mk(slot, r, c, o, how=0):
    """ops building an r x c matrix stored in order o in `slot`"""
    n = r * c
    if how == 0:                       # conversions + relabelling
        if o == 0:
            return ["from_row %d 0 %d" % (slot, n), "reshape %d %d %d 0" % (slot, r, c)]
        return ["from_row %d 0 %d" % (slot, n), "reshape %d %d %d 0" % (slot, c, r),
                "sww %d" % slot]
    if how == 1:                       # initialiser, then a real switch
        return ["with_init %d %d %d 0" % (slot, r, c)] + (["sw %d" % slot] if o else [])
    if how == 2:                       # rows, then set_order
        return ["rows %d 0 %s" % (slot, " ".join([str(c)] * r)), "so %d %d" % (slot, o)] \
            if r else mk(slot, r, c, o, 0)
    # resize of an empty matrix, values set one by one
    ops = ["new %d" % slot, "sow %d %d" % (slot, o), "resize %d %d %d 1" % (slot, r, c)]
    v = 0
    for i in range(r):
        for j in range(c):
            v += 1
            ops.append("set %d %d %d %d" % (slot, i, j, v))
    return ops


def prog(ty, *parts):
    ops = []
    for p in parts:
        if isinstance(p, str):
            ops.append(p)
        else:
            ops += p
    return ty + " " + ";".join(ops)


ZST = ["Z1", "Z8", "ZN", "ZQ"]


def zsafe(op):
    """operations a zero-sized element type can execute in reasonable time:
    with_default / with_value of a huge (but representable) count loop"""
    t = op.lstrip("!").split()
    if t[0] in ("with_default", "with_value", "with_init", "resize"):
        r, c = int(t[2]), int(t[3])
        if (r < 0 or c < 0) and r != 0 and c != 0:
            big = min(r, c)
            other = max(r, c)
            over = other < 0 or (big in (-1, -2, -6) and other >= 2) or (big == -4 and other >= 3)
            return over
    return True
