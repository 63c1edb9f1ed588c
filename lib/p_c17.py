"""C17: mutable row/column iterators and threads."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import (Check, cases, miri_cases, build, cargo_env, log, repo_hash, ToolError, JAVA, CP, SPECS, OUT, HARNESS,
                  REPO)

# element types by class: (text, prelude, Send, Sync)
TYPES = [
    ("u32", "", 1, 1), ("String", "", 1, 1), ("Vec<Box<u8>>", "", 1, 1),
    ("std::sync::atomic::AtomicUsize", "", 1, 1), ("std::sync::Mutex<std::cell::Cell<u8>>", "", 1, 1), ("()", "", 1, 1),
    ("std::cell::Cell<u32>", "", 1, 0), ("std::cell::RefCell<String>", "", 1, 0),
    ("std::sync::mpsc::Sender<std::cell::Cell<u8>>", "", 1, 1),
    ("std::sync::mpsc::Receiver<u8>", "", 1, 0), ("Box<dyn Fn() + Send>", "", 1, 0), ("std::cell::OnceCell<u8>", "", 1, 0),
    ("std::sync::MutexGuard<'static, u32>", "", 0, 1), ("std::sync::RwLockReadGuard<'static, u32>", "", 0, 1),
    ("Box<dyn Fn() + Sync>", "", 0, 1), ("NoSend", "struct NoSend(*const u8); unsafe impl Sync for NoSend {}", 0, 1),
    ("&'static std::cell::Cell<u8>", "", 0, 0), ("std::rc::Rc<u32>", "", 0, 0), ("*mut u8", "", 0, 0),
    ("*const u8", "", 0, 0), ("Box<dyn Fn()>", "", 0, 0), ("std::rc::Weak<u8>", "", 0, 0),
    ("std::ptr::NonNull<u8>", "", 0, 0), ("Neither", "struct Neither(std::marker::PhantomData<*mut ()>);", 0, 0),
    ("Zst", "struct Zst; struct P(*mut u8);", 1, 1),
    ("[std::rc::Rc<u8>; 0]", "", 0, 0), ("Option<std::cell::Cell<&'static str>>", "", 1, 0),
]
GENERIC = [("<T>", "T", 0, 0), ("<T: Send>", "T", 1, 0), ("<T: Sync>", "T", 0, 1), ("<T: Send + Sync>", "T", 1, 1),
           ("<T: Send + Clone>", "T", 1, 0), ("<T: Sync + Copy>", "T", 0, 1), ("<'x, T: Sync>", "&'x T", 1, 1),
           ("<'x, T: Send>", "&'x T", 0, 0), ("<'x, T: Send>", "&'x mut T", 1, 0), ("<'x, T: Sync>", "&'x mut T", 0, 1),
           ("<T: Copy + 'static>", "T", 0, 0), ("<T>", "Vec<T>", 0, 0), ("<T: Send>", "Vec<T>", 1, 0),
           ("<T: Sync>", "Option<T>", 0, 1)]
GET = {"outer": "let mut it = m.{f}();", "inner": "let mut it = m.{f}().next().unwrap();",
       "last": "let mut it = m.{f}().rev().next().unwrap();", "nth": "let mut it = m.{f}().nth(1).unwrap();",
       "rev": "let mut it = m.{f}().rev();", "all": "let mut it = m.{f}().collect::<Vec<_>>();",
       "enum": "let mut it = m.{f}().enumerate();"}
USE = {
    # move
    "send": ("move", "fn need<X: Send>(_: X) {} need(it);"),
    "boxed": ("move", "let _b: Box<dyn std::any::Any> = Box::new(0); fn need<X: Send>(x: X) -> Box<X> { Box::new(x) } need(Box::new(it));"),
    "scope": ("move", "std::thread::scope(|s| { s.spawn(move || { let _x = &mut it; }); });"),
    "channel": ("move", "let (a, b) = std::sync::mpsc::channel(); std::thread::scope(|s| { s.spawn(move || { let _x = b.recv(); }); a.send(it).ok(); });"),
    "mutex": ("move", "let q = std::sync::Mutex::new(it); std::thread::scope(|s| { s.spawn(|| { let _x = q.lock().unwrap(); }); });"),
    "exclusive": ("move", "let r = &mut it; std::thread::scope(|s| { s.spawn(move || { let _x = r; }); });"),
    # share
    "sync": ("share", "fn need<X: Sync>(_: &X) {} need(&it);"),
    "shared": ("share", "let r = &it; std::thread::scope(|s| { s.spawn(move || { let _x = r; }); });"),
    "both": ("share", "std::thread::scope(|s| { s.spawn(|| { let _x = &it; }); s.spawn(|| { let _x = &it; }); });"),
    "refsend": ("share", "fn need<X: Send>(_: X) {} need(&it);"),
}
# programs to be refused whatever the element type; the second one is the
# same program with the fault taken out and must be accepted
LIFE = [
    ("clone", "fn p(m: &mut Matrix<u32>) { fn need<X: Clone>(_: &X) {} let it = m.FN(); need(&it); }",
     "fn p(m: &mut Matrix<u32>) { fn need<X>(_: &X) {} let it = m.FN(); need(&it); }"),
    ("clone-inner", "fn p(m: &mut Matrix<u32>) { fn need<X: Clone>(_: &X) {} let it = m.FN().next().unwrap(); need(&it); }",
     "fn p(m: &mut Matrix<u32>) { fn need<X>(_: &X) {} let it = m.FN().next().unwrap(); need(&it); }"),
    ("copy", "fn p(m: &mut Matrix<u32>) { fn need<X: Copy>(_: &X) {} let it = m.FN(); need(&it); }",
     "fn p(m: &mut Matrix<u32>) { fn need<X>(_: &X) {} let it = m.FN(); need(&it); }"),
    ("two", "fn p(m: &mut Matrix<u32>) { let mut a = m.FN(); let mut b = m.FN(); a.next(); b.next(); }",
     "fn p(m: &mut Matrix<u32>) { { let mut a = m.FN(); a.next(); } let mut b = m.FN(); b.next(); }"),
    ("two-axes", "fn p(m: &mut Matrix<u32>) { let mut a = m.iter_rows_mut(); let mut b = m.iter_cols_mut(); a.next(); b.next(); }",
     "fn p(m: &mut Matrix<u32>) { { let mut a = m.iter_rows_mut(); a.next(); } let mut b = m.iter_cols_mut(); b.next(); }"),
    ("inner-and-matrix", "fn p(m: &mut Matrix<u32>) { let mut a = m.FN().next().unwrap(); m.clear(); a.next(); }",
     "fn p(m: &mut Matrix<u32>) { { let mut a = m.FN().next().unwrap(); a.next(); } m.clear(); }"),
    ("read-while", "fn p(m: &mut Matrix<u32>) { let mut a = m.FN(); let n = m.size(); a.next(); drop(n); }",
     "fn p(m: &mut Matrix<u32>) { { let mut a = m.FN(); a.next(); } let n = m.size(); drop(n); }"),
    ("outlive", "fn p() { let mut a; { let mut m = Matrix::<u32>::new(); a = m.FN(); } a.next(); }",
     "fn p() { let mut m = Matrix::<u32>::new(); let mut a; { a = m.FN(); } a.next(); }"),
    ("outlive-inner", "fn p() { let a; { let mut m = matrix![[1u32]]; a = m.FN().next(); } drop(a); }",
     "fn p() { let mut m = matrix![[1u32]]; let a; { a = m.FN().next(); } drop(a); }"),
    ("outlive-element", "fn p() -> u32 { let x; { let mut m = matrix![[1u32]]; x = m.FN().next().unwrap().next().unwrap(); } *x }",
     "fn p() -> u32 { let mut m = matrix![[1u32]]; let x; { x = m.FN().next().unwrap().next().unwrap(); } *x }"),
    ("static", "fn p(m: &mut Matrix<u32>) { let it = m.FN(); std::thread::spawn(move || { let _x = it; }); }",
     "fn p(m: &'static mut Matrix<u32>) { let it = m.FN(); std::thread::spawn(move || { let _x = it; }); }"),
    ("static-inner", "fn p(m: &mut Matrix<u32>) { let it = m.FN().next().unwrap(); std::thread::spawn(move || { let _x = it; }); }",
     "fn p(m: &'static mut Matrix<u32>) { let it = m.FN().next().unwrap(); std::thread::spawn(move || { let _x = it; }); }"),
    ("moved", "fn p(mut m: Matrix<u32>) { let mut a = m.FN(); drop(m); a.next(); }",
     "fn p(mut m: Matrix<u32>) { { let mut a = m.FN(); a.next(); } drop(m); }"),
    ("shared-matrix", "fn p(m: &Matrix<u32>) { m.FN().next(); }", "fn p(m: &mut Matrix<u32>) { m.FN().next(); }"),
    ("two-threads", "fn p(m: &mut Matrix<u32>) { std::thread::scope(|s| { s.spawn(|| { m.FN().next(); }); s.spawn(|| { m.FN().next(); }); }); }",
     "fn p(m: &mut Matrix<u32>) { std::thread::scope(|s| { s.spawn(|| { m.FN().next(); }); }); std::thread::scope(|s| { s.spawn(|| { m.FN().next(); }); }); }"),
    ("share-next", "fn p(m: &mut Matrix<u32>) { let it = m.FN(); std::thread::scope(|s| { s.spawn(|| { (&it).next(); }); }); }",
     "fn p(m: &mut Matrix<u32>) { let mut it = m.FN(); std::thread::scope(|s| { s.spawn(|| { (&mut it).next(); }); }); }"),
    ("shorter-elements", "fn p<'s>(m: &mut Matrix<&'s str>, x: String) { let t: &'s str = { let y = x; *m.FN().next().unwrap().next().unwrap() = y.as_str(); \"\" }; drop(t); }",
     "fn p<'s>(m: &mut Matrix<&'s str>, x: &'s String) { let t: &'s str = { let y = x; *m.FN().next().unwrap().next().unwrap() = y.as_str(); \"\" }; drop(t); }"),
]


def probes(ck):
    """programs for the type checker: (id, text, what, send, sync, real)"""
    res = []
    q = ck.quick
    n = 0
    for fn in ("iter_rows_mut", "iter_cols_mut"):
        for g, uses in GET.items():
            for u, (what, code) in USE.items():
                get = uses.replace("{f}", fn)
                sources = [("", t, pre, s, y) for t, pre, s, y in TYPES] + [(ge, t, "", s, y) for ge, t, s, y in GENERIC]
                n += 1
                main = g in ("outer", "inner") and u in ("send", "sync")
                for k, (ge, t, pre, s, y) in enumerate(sources):
                    if q and not main and (k + n) % 9:
                        continue
                    text = ("%s fn p%s(m: &mut Matrix<%s>) { %s %s }" % (pre, ge, t, get, code))
                    res.append((text, what, s, y))
    return res


def compile_all(ck, libs, texts):
    """verdicts of the type checker: (accepted, codes, first error)"""
    d = os.path.join(ck.dir, "probes")
    os.makedirs(d, exist_ok=True)
    head = "#![allow(unused, dropping_references, dropping_copy_types)]\nuse matreex::{Matrix, matrix};\n"
    env = cargo_env(d, hooks=False)
    env.pop("RUSTFLAGS")

    def rustc(name, body, extern):
        p = os.path.join(d, name + ".rs")
        with open(p, "w") as f:
            f.write(body)
        r = subprocess.run(["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", name, "--emit=metadata",
                            "--error-format=json", "-o", os.path.join(d, name + ".rmeta")] + extern + [p],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, stdin=subprocess.DEVNULL)
        errs = []
        for line in r.stderr.splitlines():
            try:
                x = json.loads(line)
            except ValueError:
                continue
            if x.get("level") == "error":
                spans = [s["line_start"] for s in x["spans"] if s["is_primary"] and s["file_name"] == p]
                errs.append(((x.get("code") or {}).get("code"), spans, x["message"]))
        return r.returncode == 0, errs

    def one(k):
        text, extern = texts[k]
        ok, errs = rustc("p%d" % k, head + text + "\n", libs[extern])
        return ok, sorted({e[0] for e in errs if e[0]}), [e[2] for e in errs][:2]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(texts))))


def schedules17(L, M, NT, num=0, seed=1):
    os.makedirs(OUT, exist_ok=True)
    base = os.path.join(OUT, "gt-%d-%d-%d-%d" % (os.getpid(), L, M, seed))
    cfg, meta = base + ".cfg", base + ".meta"
    with open(cfg, "w") as f:
        f.write("INIT Init\nNEXT Next\nCONSTANTS L = %d\n M = %d\n NT = %d\nCHECK_DEADLOCK FALSE\n" % (L, M, NT))
    cmd = JAVA + ["-Xmx3g", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1", "-metadir", meta, "-config", cfg]
    if num:
        cmd += ["-simulate", "num=%d" % num, "-depth", str(L + 2 * L * M + 4), "-seed", str(seed), "-aril", "0", "-fp", "3"]
    r = subprocess.run(cmd + ["GenThreads.tla"], cwd=SPECS, stdout=subprocess.PIPE, text=True, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL, timeout=600)
    shutil.rmtree(meta, ignore_errors=True)
    os.unlink(cfg)
    res = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'"SCHED (.*)"', r.stdout)]
    if not res:
        raise ToolError("no schedules:\n" + r.stdout[-2000:])
    return [" ".join("%s%d" % (o, w) for o, w in s) for s in res]


def run():
    ck = Check("C17")
    q = ck.quick
    rng = ck.rng
    ck.model("Threads", "Threads" if q else "Threads_deep", workers=6)
    for v in ("overlap", "dup", "nosend", "nosync"):
        ck.model_bad("Threads", "Threads_" + v)

    # ---- what the type checker says
    env = cargo_env(os.path.join(ck.dir, "lib"), hooks=False)
    libs = {}
    for feat, flags in (("none", []), ("default", None)):
        if flags is None:
            continue
        out = os.path.join(ck.dir, "lib-" + feat)
        os.makedirs(out)
        r = subprocess.run(["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "matreex", "--emit=metadata",
                            "--cap-lints", "allow", "--out-dir", out] + flags + [os.path.join(REPO, "src/lib.rs")], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL)
        if r.returncode:
            raise ToolError("cannot compile the crate:\n" + r.stdout[-3000:])
        libs[feat] = ["--extern", "matreex=" + os.path.join(out, "libmatreex.rmeta")]
    # with the default features, as cargo builds it
    build(["threads"], features="par")
    dd = os.path.join(HARNESS, "target/debug/deps")
    cand = sorted((os.path.join(dd, f) for f in os.listdir(dd) if re.match(r"libmatreex-.*\.rmeta$", f)), key=os.path.getmtime)
    libs["default"] = ["--extern", "matreex=" + cand[-1], "-L", "dependency=" + dd]

    P = probes(ck)
    texts = [(t, "none" if i % 4 else "default") for i, (t, *_) in enumerate(P)]
    life = []
    for name, bad, good in LIFE:
        for fn in ("iter_rows_mut", "iter_cols_mut"):
            life.append((name, fn))
            texts.append((bad.replace("FN", fn), "none"))
            texts.append((good.replace("FN", fn), "none"))
    V = compile_all(ck, libs, texts)
    lines, refused = [], 0
    move_ok = share_ok = True
    shared_code = {"E0277"}
    for i, (t, what, s, y) in enumerate(P):
        ok, codes, msg = V[i]
        if not ok and not (set(codes) <= shared_code and codes):
            raise ToolError("probe refused for another reason: %s\n%s %s" % (t, codes, msg))
        may = s if what == "move" else y
        if may and not ok:
            refused += 1
            if what == "move":
                move_ok = False
            else:
                share_ok = False
            if refused <= 3:
                log("note: refused although permitted: " + t)
        lines.append((t, {"what": what, "send": s, "sync": y, "verdict": "accept" if ok else "reject"}))
    vac = 0
    for k, (name, fn) in enumerate(life):
        bad, good = V[len(P) + 2 * k], V[len(P) + 2 * k + 1]
        if not good[0]:
            if set(good[1]) <= shared_code and good[1]:
                vac += 1            # e.g. never Send
            else:
                raise ToolError("probe %s/%s refused without its fault: %s" % (name, fn, good))
        lines.append((texts[len(P) + 2 * k][0], {"what": "always", "send": 1, "sync": 1,
                                                 "verdict": "accept" if bad[0] else "reject"}))
    tf = os.path.join(ck.dir, "probes.0.ndjson")
    with open(tf, "w") as f:
        for i, (t, x) in enumerate(lines):
            f.write(json.dumps(dict(x, id=i)) + "\n")
    ck.traces("TraceThreads", [tf], source=lambda i: "probe " + lines[i][0], count=lambda raw: 1)
    log("probes: %d, refused although permitted: %d, vacuous: %d" % (len(lines), refused, vac))

    # ---- real threads
    C = []
    if move_ok:
        feats = "par,share" if share_ok else "par"
        modes = [0, 1, 2, 3, 4] + ([5] if share_ok else [])
        dims = range(4) if q else range(6)
        n = ck.seed
        # every assignment of vectors to threads for few vectors
        for nr in dims:
            for nc in dims:
                for axis in (0, 1):
                    for o in (0, 1):
                        L = nc if axis else nr
                        nts = [2, 3] if L <= 3 else [2]
                        for nt in nts:
                            asg = [[(x // nt ** i) % nt for i in range(L)] for x in range(nt ** L)] or [[0]]
                            for a in asg:
                                n += 1
                                if q and nt == 3 and n % 3:
                                    continue
                                C.append("%d %d %d %d %d %d %d %d %s" % (n % 12, axis, o, nr, nc, modes[n % len(modes)], nt,
                                                                        n % 4, " ".join(map(str, a))))
        for i in range(120 if q else 1500):
            nr, nc = rng.choice([(8, 8), (16, 3), (3, 16), (1, 40), (40, 1), (12, 12), (5, 9), (2, 64), (64, 2)])
            nt = rng.choice([2, 3, 4, 8, 16])
            C.append("%d %d %d %d %d %d %d %d %s" %
                     (rng.randrange(12), rng.randrange(2), rng.randrange(2), nr, nc, rng.choice(modes), nt, rng.randrange(4),
                      " ".join(str(rng.randrange(nt)) for _ in range(24))))
        # interleavings printed by TLC, replayed step by step
        S = []
        for (L, M, NT) in [(1, 2, 2), (2, 1, 2), (3, 1, 2), (2, 2, 1)] + ([] if q else [(2, 1, 3)]):
            S += [(L, M, NT, x) for x in schedules17(L, M, NT)]
        for k, (L, M, NT) in enumerate([(2, 2, 2), (2, 3, 2), (3, 2, 2), (3, 3, 3), (4, 2, 4), (5, 3, 3)]):
            S += [(L, M, NT, x) for x in schedules17(L, M, NT, num=40 if q else 600, seed=ck.seed * 97 + k)]
        exh = len(S)
        for (L, M, NT, s) in S:
            if q and len(S) > 1200 and L * M * NT > 4 and rng.random() < 0.5:
                continue
            axis = rng.randrange(2)
            nr, nc = (L, M) if axis == 0 else (M, L)
            C.append("%d %d %d %d %d 9 %d 0 %s" % (rng.randrange(9), axis, rng.randrange(2), nr, nc, NT, s))
        cases(ck, "threads", C, "TraceThreads", features=feats, shards=4)
        if not q:
            cases(ck, "threads", C, "TraceThreads", features=feats, shards=4, tag="release", profile="release")
        # the data-race detector on the same programs
        M = []
        for axis in (0, 1):
            for o in (0, 1):
                for (nr, nc) in [(3, 2), (2, 3)] if q else [(3, 2), (2, 3), (4, 4), (1, 4), (4, 1)]:
                    for mode in modes + [1]:
                        n += 1
                        if q and n % 2:
                            continue
                        M.append("%d %d %d %d %d %d %d %d 0 1 0" % ([0, 4, 6, 9, 8][n % 5], axis, o, nr, nc, mode, 2, n % 4))
        for (L, MM, NT, s) in rng.sample(S, 12 if q else 80):
            axis = rng.randrange(2)
            nr, nc = (L, MM) if axis == 0 else (MM, L)
            M.append("%d %d %d %d %d 9 %d 0 %s" % (rng.choice([0, 6, 9]), axis, rng.randrange(2), nr, nc, NT, s))
        for sd in ([1] if q else range(1, 9)):
            miri_cases(ck, "threads", M, "TraceThreads", tag="miri%d" % sd, features="share" if share_ok else "",
                       flags="-Zmiri-seed=%d -Zmiri-preemption-rate=0.2" % sd)
        return ck.finish({"probes": len(lines), "cases": len(C), "schedules": exh, "permitted_but_refused": refused})
    return ck.finish({"probes": len(lines), "permitted_but_refused": refused,
                      "note": "iterators cannot be moved to threads on this tree: no runs"})
