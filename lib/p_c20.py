"""C20: Display and Debug."""
import json, os, re, threading
from vlib import Check, build, cases, drive, run_env, log, ToolError, NPROC

BUILDS = [("par", "target"), ("", "target-f0"), ("par,pretty", "target-f2")]


def enc(t):
    return ".".join(str(ord(c)) for c in t) if t else "-"


def dot(t):
    return enc(t)


def shapes(q):
    B = 4 if q else 6
    s = [(r, c) for r in range(B + 1) for c in range(B + 1)]
    return s


POOLS = {
    "plain": ["a", "bc", "def", "ghij", "k", "lm"],
    "ident": None,                       # distinct texts
    "empty": ["", "a", "", "bcd", "ef"],
    "allempty": [""],
    "multi-byte": ["é", "日本", "a\u0301", "🦀🦀", "ß", "xyz", "\u200b", "ñandú", "٣"],
    "space": ["a b", " a", "b ", "  ", "c  d", "e"],
    "bracket": ["[", "]", "[]", "],", "[x]", "x"],
    "digits": ["0", "10", "7", "123", "-4", "99999"],
    "brace": ["{}", "{:?}", "%s", "\\n", "\"q\"", "{"],
    "tab": ["\t", "a\tb", "\x0b", "c", "\x1b[31mred\x1b[0m"],
    "long": ["x" * 60, "y", "z" * 33, "é" * 40],
}
MULTI = {
    "two": ["a\nb", "c\nd", "ee\nf"],
    "mixed": ["a", "b\nc", "d\ne\nf", "gggg"],
    "withempty": ["", "a\nb", "", "c"],
    "blank": ["\n", "a", "b\n", "\nc", "d\n\ne"],
    "crlf": ["a\r\nb", "c", "d\r\n", "e\rf"],
    "wide": ["日本\né", "🦀\n\n🦀", "x"],
    "bracket": ["[a\nb]", "[", "]\n["],
    "tall": ["\n".join("abcdefgh"), "i", "j\nk"],
}


def run():
    ck = Check("C20")
    q = ck.quick
    rng = ck.rng
    ck.model("RenderMC", "RenderMC")
    if not q:
        ck.model("RenderMC", "RenderMC_deep")
    for v in ("rowmajor", "transposed", "first", "height", "last"):
        ck.model_bad("RenderMC", "RenderMC_" + v)
    C = []

    def case(ty, r, c, es):
        C.append("%d %d %d %d %s" % (ty, rng.randrange(2), r, c, " ".join(es)))

    def fill(pool, n):
        if pool == "ident":
            return ["".join(chr(97 + (k // 26 ** j) % 26) for j in range(1 + (k * 7) % 4)) for k in range(n)]
        return [rng.choice(POOLS[pool] if pool in POOLS else MULTI[pool]) for _ in range(n)]

    for (r, c) in shapes(q):
        n = r * c
        for p in POOLS:
            for ty in ([rng.choice((0, 8))] if q else (0, 8)):
                d, g = fill(p, n), fill(p, n)
                case(ty, r, c, [enc(a) + "/" + enc(b) for a, b in zip(d, g)])
        for p in MULTI:
            d = [rng.choice(MULTI[p]) for _ in range(n)]
            g = [rng.choice(MULTI[p]) for _ in range(n)]
            if rng.random() < 0.3:
                d = fill("ident", n)          # only one of the two in several lines
            case(rng.choice((0, 8)), r, c, [enc(a) + "/" + enc(b) for a, b in zip(d, g)])
        case(1, r, c, [str(rng.choice([0, 1, -1, 7, -12, 100, 2 ** 31 - 1, -2 ** 31])) for _ in range(n)])
        case(1, r, c, [str(k) for k in range(n)])
        case(2, r, c, [enc(rng.choice(POOLS["plain"] + POOLS["multi-byte"] + POOLS["empty"] + POOLS["brace"])) for _ in range(n)])
        case(3, r, c, [rng.choice(["0", "1.5", "-2.25", "NaN", "inf", "1e30", "-0", "1e-7"]) for _ in range(n)])
        case(4, r, c, [enc(rng.choice("axé日 🦀")) for _ in range(n)])
        case(5, r, c, ["x"] * n)
        case(6, r, c, [rng.choice(["none", enc("a"), enc("b c"), enc("")]) for _ in range(n)])
        if n <= 9:
            case(7, r, c, ["%d.%d.%d.%d" % (rng.randrange(3), rng.randrange(3), rng.randrange(2), rng.randrange(90))
                           for _ in range(n)])
    # numbers of one, two, three digits
    for (r, c) in [(1, 9), (1, 10), (1, 11), (9, 1), (10, 1), (11, 1), (3, 3), (2, 5), (5, 2), (3, 4), (9, 11),
                   (11, 9), (10, 10), (1, 99), (1, 100), (100, 1), (101, 1), (33, 3), (2, 50), (50, 2), (12, 9),
                   (7, 17)] + ([(1, 1001), (40, 25)] if q else [(40, 25), (25, 40), (1, 1000), (1000, 1), (1, 1001), (2, 500), (33, 31)]):
        n = r * c
        for ty, es in [(1, [str(k) for k in range(n)]),
                       (0, [enc(a) + "/" + enc(b) for a, b in zip(fill("ident", n), fill("ident", n))]),
                       (8, [enc(a) + "/" + enc(b) for a, b in zip(fill("empty", n), fill("empty", n))]),
                       (0, [enc(a) + "/" + enc(b) for a, b in zip(fill("mixed", n), fill("mixed", n))]),
                       (5, ["x"] * n)]:
            if q and (ty in (8, 5) and n > 30 or ty != 1 and n > 999):
                continue
            case(ty, r, c, es)
    # long lines, and the one widest element anywhere
    for (r, c) in [(1, 1100), (2, 1030), (1030, 2), (30, 11), (9, 33), (20, 20), (64, 5)]:
        n = r * c
        for kind in range(2):
            es = [str(rng.choice([0, 1, 7, -3, 42])) for _ in range(n)]
            for pos in ((n - 2,) if kind else (rng.randrange(n // 2, n), rng.randrange(n // 2, n))):
                es[pos] = rng.choice(["-1234567", "987654", "10000"])
            if n > 900:
                case(1, r, c, es)
                break
            case(1, r, c, es)
            d = fill("ident", n)
            d[rng.randrange(n // 2, n)] = "w" * 20
            case(rng.choice((0, 8)), r, c, [enc(a) + "/" + enc(b) for a, b in zip(d, d[::-1])])
            # the only element in several lines is a late one
            d = fill("plain", n)
            d[rng.randrange(n // 2, n)] = "a\nb\nc"
            case(0, r, c, [enc(a) + "/" + enc(b) for a, b in zip(d, d)])
    for i in range(300 if q else 4000):
        r, c = rng.randrange(1, 9), rng.randrange(1, 9)
        p = rng.choice(list(POOLS) + list(MULTI))
        case(rng.choice((0, 8)), r, c, [enc(a) + "/" + enc(b) for a, b in zip(fill(p, r * c), fill(p, r * c))])

    pf = os.path.join(ck.dir, "fmt.cases")
    with open(pf, "w") as f:
        f.write("\n".join(C) + "\n")
    exes, errs = {}, []

    def mk(feat, name):
        try:
            exes[feat] = os.path.join(build(["fmt"], features=feat, name=name), "fmt")
        except ToolError as e:
            errs.append(e)
    ts = [threading.Thread(target=mk, args=b) for b in BUILDS]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]

    def read(paths):
        res = {}
        for p in paths:
            for raw in open(p):
                x = json.loads(raw)
                res[x["id"]] = x
        return res
    outs = []
    for feat, name in BUILDS:
        outs.append(read(drive(exes[feat], [pf], ck.dir, "raw" + name)))
    # the colour feature where the output cannot take colours, said in other ways
    quiet = run_env()
    quiet.update({"TERM": "xterm-256color", "NO_COLOR": "1"})
    outs.append(read(drive(exes["par,pretty"], [pf], ck.dir, "rawquiet", env=quiet)))
    # colours are a matter of standard output: standard error may well be a terminal
    import pty
    master, slave = pty.openpty()

    def drain():
        try:
            while os.read(master, 4096):
                pass
        except OSError:
            pass
    threading.Thread(target=drain, daemon=True).start()
    tty = run_env()
    for k in ("NO_COLOR", "FORCE_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "CI"):
        tty.pop(k, None)
    tty.update({"TERM": "xterm-256color", "COLORTERM": "truecolor"})
    outs.append(read(drive(exes["par,pretty"], [pf], ck.dir, "rawtty", env=tty, stderr=slave)))
    os.close(slave)
    src = lambda i: "fmt " + C[i] if i is not None and i < len(C) else None

    def write(tag, lines):
        paths = [os.path.join(ck.dir, "%s.%d.ndjson" % (tag, k)) for k in range(NPROC)]
        fs = [open(p, "w") for p in paths]
        # longest first, dealt out evenly
        for k, x in enumerate(sorted(lines, key=lambda x: -len(x))):
            fs[k % NPROC].write(x + "\n")
        for f in fs:
            f.close()
        return paths
    merged = []
    for i in range(len(C)):
        if i not in outs[0]:
            if any("disp0" not in x for x in outs[0].values()):
                continue               # the driver gave up after several crashes
            raise ToolError("fmt: case %d did not run" % i)
        x = outs[0][i]
        x["alt"] = []
        for o in outs[1:]:
            a = o.get(i, {"missing": 1})
            x["alt"].append({k: a[k] for k in ("disp0", "disp1", "dbg0", "dbg1", "flags0", "flags1", "missing") if k in a})
        merged.append(json.dumps(x, separators=(",", ":")))
    ck.traces("TraceRender", write("fmt", merged), source=src, count=lambda raw: 1)
    # more elements than memory could hold a line for
    H = ["9 %d %d %d" % (dbg, row, 1 - row) for dbg in (0, 1) for row in (0, 1)]
    hf = os.path.join(ck.dir, "huge.cases")
    with open(hf, "w") as f:
        f.write("\n".join(H) + "\n")
    name = lambda i: "huge-%s-%s" % (("display", "debug")[i // 2], ("column", "row")[i % 2]) if i is not None else None
    ck.traces("TraceRender", drive(exes["par"], [hf], ck.dir, "huge", shards=4), source=name, count=lambda raw: 1)
    # elements wider than the formatting macros can pad to
    W = []
    top = [254, 255, 256, 257, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 200000]
    for k in range(60 if q else 400):
        r, c = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (3, 2), (2, 3), (4, 2), (3, 3)])
        ws = [rng.choice([1, 2, 3, 40, 60000]) for _ in range(r * c)]
        ws[rng.randrange(r * c)] = top[k % len(top)]
        W.append("10 %d %d %s" % (r, c, " ".join(map(str, ws))))
    for feat, bn in BUILDS:
        cases(ck, "fmt", W, "TraceRender", tag="wide" + bn, features=feat, name=bn)
    # colours forced on: below the colours, the same rules
    loud = run_env()
    loud.update({"FORCE_COLOR": "1", "TERM": "xterm-256color"})
    o = read(drive(exes["par,pretty"], [pf], ck.dir, "rawloud", env=loud))
    csi = re.compile(r"\x1b\[[0-9;]*m")

    def strip(lines):
        return [[ord(ch) for ch in csi.sub("", "".join(map(chr, ln)))] if ln and ln[0] >= 0 else ln for ln in lines]
    res = []
    coloured = 0
    for i, x in sorted(o.items()):
        if "disp0" in x:
            if any(27 in t for t in x["g"]) or rng.random() < (0.6 if q else 0):
                continue
            coloured += any(27 in ln for ln in x["dbg0"])
            for k in ("dbg0", "dbg1"):
                x[k] = strip(x[k])
            x["alt"] = []
        res.append(json.dumps(x, separators=(",", ":")))
    ck.traces("TraceRender", write("loud", res), source=src, count=lambda raw: 1)
    log("coloured: %d" % coloured)
    return ck.finish({"cases": len(C), "builds": [f or "none" for f, _ in BUILDS], "coloured_outputs": coloured})
