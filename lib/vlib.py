"""Shared machinery of the checks: build, drive, validate with TLC, report."""
import atexit, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, dirs, fs in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def cargo_env(target, hooks=True, extra_flags=""):
    env = {k: v for k, v in os.environ.items()
           if k not in ("RUSTFLAGS", "FORCE_COLOR", "CLICOLOR_FORCE", "NO_COLOR", "CI")}
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTFLAGS"] = (("--cfg verif_hooks " if hooks else "") + extra_flags +
                        " -Awarnings").strip()
    return env


def build(bins, profile="dev", features="par", name="target", hooks=True):
    """Build harness binaries against /repo's current tree; returns the bin dir."""
    target = os.path.join(HARNESS, name)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = cargo_env(target, hooks)
        stamp = os.path.join(target, ".srchash")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        base = ["cargo"]
        if old != h:
            subprocess.run(base + ["clean", "--offline", "-p", "matreex"], cwd=HARNESS, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            subprocess.run(base + ["clean", "--offline", "--release", "-p", "matreex"], cwd=HARNESS,
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = base + ["build", "--offline", "--no-default-features"]
        if features:
            cmd += ["--features", features]
        if profile == "release":
            cmd += ["--release"]
        for b in bins:
            cmd += ["--bin", b]
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("harness build failed:\n" + r.stdout[-6000:])
        with open(stamp, "w") as f:
            f.write(h)
    return os.path.join(target, "release" if profile == "release" else "debug")


# ------------------------------------------------------------------ scratch
def scratch(prop):
    d = os.path.join(OUT, prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_env():
    """environment of the code under test: nothing that changes colour support"""
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.environ.get("HOME", "/root"),
           "RUST_BACKTRACE": "0", "TERM": "dumb"}
    return env


# ------------------------------------------------------------------ drivers
def last_id(path):
    """id of the last line of a trace file"""
    with open(path, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        back = min(n, 1 << 22)
        f.seek(n - back)
        lines = f.read().rstrip(b"\n").split(b"\n")
    m = re.match(rb'\{"id":(\d+)', lines[-1])
    return int(m.group(1)) if m else None


def drive(exe, args, outdir, tag, shards=NPROC, max_restart=4, timeout=600, env=None, stderr=subprocess.PIPE):
    """Run `exe args OUT SHARD NSHARDS SKIP` in parallel shards.

    A driver that crashes writes its own crash event and leaves with code 77;
    it is then restarted behind the crashed scenario.  Returns trace paths."""
    paths = [os.path.join(outdir, "%s.%d.ndjson" % (tag, i)) for i in range(shards)]
    procs = {}
    crashes = 0

    def start(i, skip):
        procs[i] = (subprocess.Popen([exe] + args + [paths[i], str(i), str(shards), str(skip)],
                                     stdout=subprocess.PIPE, stderr=stderr, text=True,
                                     stdin=subprocess.DEVNULL, env=env or run_env()), skip)
    for i in range(shards):
        open(paths[i], "w").close()
        start(i, 0)
    left = {i: max_restart for i in range(shards)}
    t0 = time.time()
    while procs:
        for i in list(procs):
            p, skip = procs[i]
            try:
                out, err = p.communicate(timeout=max(1, timeout - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                raise ToolError("driver %s shard %d timed out" % (exe, i))
            del procs[i]
            if p.returncode == 0:
                continue
            if p.returncode == 77:
                crashes += 1
                n = last_id(paths[i])
                left[i] -= 1
                if n is None or left[i] <= 0:
                    continue
                start(i, n + 1)
                continue
            raise ToolError("driver %s shard %d: exit %d\n%s" % (exe, i, p.returncode, (err or "")[-2000:]))
    if crashes:
        log("driver %s: %d crash/hang events" % (tag, crashes))
    for t in paths:
        sanitize(t)
    return paths


def sanitize(path, deep=False):
    """A line that is no trace event at all (the code under test wrote over the driver's memory) is an
    observation too: a crash event takes its place.  Returns whether there was one."""
    with open(path, "rb") as f:
        data = f.read()
    if not deep:
        try:
            data.decode()
            return False
        except UnicodeDecodeError:
            pass
    bad, n, lines = False, 0, []
    for raw in data.split(b"\n"):
        if not raw.strip():
            continue
        m = re.match(rb'\{"id":(\d+)', raw)
        n = int(m.group(1)) if m else n
        try:
            if isinstance(json.loads(raw.decode()), dict) and m:
                lines.append(raw)
                continue
        except ValueError:
            pass
        bad = True
        lines.append(json.dumps({"id": n, "steps": [{"op": "driver", "w": 0, "res": "crash",
                                                     "why": "not a trace line: " + ascii(raw[:200])}]},
                                separators=(",", ":")).encode())
    if bad:
        log("driver %s: damaged trace lines" % os.path.basename(path))
        with open(path, "wb") as f:
            f.write(b"\n".join(lines) + b"\n")
    return bad


MIRI_BAD = re.compile(r"error: (Undefined Behavior|abnormal termination|deadlock|the evaluated program "
                      r"deadlocked|memory leaked|.*data race)[^\n]*")


def miri(binname, cases_file, outdir, tag, ncases, features="", shards=NPROC, flags="", timeout=800):
    """Run a driver under Miri, the interpreter that detects undefined
    behaviour (out-of-bounds pointer arithmetic, uninitialised reads, data races): a
    stricter execution of the same replay.  (The experimental aliasing models are
    off: no property speaks about them.)  UB completes the trace line of the
    running case with a crash event.  Returns trace paths, or None if this
    interpreter cannot run the code at all."""
    target = os.path.join(HARNESS, "target-miri")
    os.makedirs(target, exist_ok=True)
    env = cargo_env(target, hooks=False)
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["RUSTFLAGS"] = "-Awarnings"
    env["MIRIFLAGS"] = ("-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks "
                        "-Zmiri-permissive-provenance " + flags).strip()
    base = ["cargo", "miri", "run", "-q", "--offline", "--no-default-features", "--bin", binname]
    if features:
        base += ["--features", features]
    empty = os.path.join(outdir, "empty.cases")
    open(empty, "w").close()
    with open(os.path.join(target, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".srchash")
        h = repo_hash()
        if (open(stamp).read() if os.path.exists(stamp) else "") != h:
            # everything of the crate under test is rebuilt
            shutil.rmtree(os.path.join(target, "miri"), ignore_errors=True)
        r = subprocess.run(base + ["--", empty, os.path.join(outdir, "empty.out"), "0", "1", "0"],
                           cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, stdin=subprocess.DEVNULL, timeout=timeout)
        if r.returncode != 0:
            raise ToolError("Miri build failed:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(h)
    paths = [os.path.join(outdir, "%s.%d.ndjson" % (tag, i)) for i in range(shards)]
    todo = [(i, 0, 3) for i in range(shards)]
    running = {}
    t0 = time.time()
    while todo or running:
        while todo:
            i, skip, left = todo.pop()
            if skip == 0:
                open(paths[i], "w").close()
            err = open(paths[i] + ".err", "w+")
            p = subprocess.Popen(base + ["--", cases_file, paths[i], str(i), str(shards), str(skip)],
                                 cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=err,
                                 stdin=subprocess.DEVNULL)
            running[i] = (p, err, left)
        for i in list(running):
            p, err, left = running[i]
            if p.poll() is None:
                continue
            del running[i]
            err.seek(0)
            text = err.read()
            err.close()
            if p.returncode == 0:
                continue
            m = MIRI_BAD.search(text)
            started = re.findall(r"^CASE (\d+)$", text, re.M)
            if m and started:
                n = int(started[-1])
                with open(paths[i], "a") as f:
                    f.write(json.dumps({"id": n, "steps": [{"op": "miri", "w": 0, "res": "crash",
                                                            "why": text[text.find(m.group(0)):][:1500]}]})
                            + "\n")
                log("miri %s: case %d: %s" % (tag, n, m.group(0)[:300]))
                if left > 1:
                    todo.append((i, n + 1, left - 1))
                continue
            if "unsupported operation" in text:
                log("miri cannot run this code: " + text[-600:])
                for q in running.values():
                    q[0].kill()
                return None
            raise ToolError("miri %s shard %d: exit %d\n%s" % (tag, i, p.returncode, text[-3000:]))
        if time.time() - t0 > timeout:
            for q in running.values():
                q[0].kill()
            raise ToolError("miri %s timed out" % tag)
        time.sleep(0.05)
    return paths


# ------------------------------------------------------------------ TLC
TMP = os.path.join(OUT, "tmp-%d" % os.getpid())
os.makedirs(TMP, exist_ok=True)
atexit.register(shutil.rmtree, TMP, True)
JAVA = ["java", "-XX:+UseSerialGC", "-Xss128m", "-XX:-UsePerfData", "-Djava.io.tmpdir=" + TMP]


def tlc_cmd(spec, cfg, meta, workers=1, mem="2500m", extra=()):
    return JAVA + ["-Xmx" + mem, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers",
                   str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [spec]


class Rejected:
    def __init__(self, trace, sid, k, why, text):
        self.trace, self.sid, self.k, self.why, self.text = trace, sid, k, why, text


def validate(spec, traces, outdir, mem="2500m", timeout=800, count=None, par=NPROC):
    """Validate trace files with TLC (one process each).  Returns
    (list of Rejected, stats).  `count(line_obj)` = number of states a line
    must contribute, to guard against vacuous acceptance."""
    queue = []
    stats = {"states": 0, "transitions": 0, "lines": 0, "events": 0}
    for t in traces:
        if os.path.getsize(t) == 0:
            continue
        queue.append(t)
    running = {}
    rejected = []
    t0 = time.time()

    def launch(t):
        meta = t + ".meta"
        env = dict(os.environ, TRACE=t)
        env.pop("JAVA_TOOL_OPTIONS", None)
        out = open(t + ".tlc", "w")
        p = subprocess.Popen(tlc_cmd(spec + ".tla", spec + ".cfg", meta, mem=mem), cwd=SPECS,
                             env=env, stdout=out, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL)
        running[t] = (p, out, meta)

    def finish(t, p, out, meta):
        out.close()
        shutil.rmtree(meta, ignore_errors=True)
        text = open(t + ".tlc").read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        lines = events = 0
        want = 0
        for raw in open(t):
            lines += 1
            if count is None:
                n = raw.count('"op":')
            else:
                n = count(raw)
            events += n
            want += n + 1
        stats["lines"] += lines
        stats["events"] += events
        if m:
            stats["transitions"] += int(m.group(1))
            stats["states"] += int(m.group(2))
        if p.returncode == 0 and "No error has been found" in text:
            if not m or int(m.group(2)) != want:
                raise ToolError("%s: TLC explored %s states, %d expected" %
                                (t, m.group(2) if m else "no", want))
            return
        st = re.findall(r"^State (\d+):.*?(?=^State |\Z)", text, re.S | re.M)
        sids = re.findall(r"/\\ sid = (\d+)", text)
        ks = re.findall(r"/\\ k = (\d+)", text)
        if not sids:
            # an error in the very first state is printed without a number
            if sanitize(t, deep=True):
                stats["lines"] -= lines
                stats["events"] -= events
                pend.append(t)
                return
            raise ToolError("TLC failed on %s:\n%s" % (t, text[-4000:]))
        why = ("deadlock (event not allowed)" if "Deadlock reached" in text else
               "invariant violated" if "Invariant" in text else "event cannot be evaluated")
        rejected.append(Rejected(t, int(sids[-1]), int(ks[-1]) if ks else 0, why, text))

    pend = list(queue)
    while pend or running:
        while pend and len(running) < par:
            launch(pend.pop(0))
        for t in list(running):
            p, out, meta = running[t]
            if p.poll() is not None:
                del running[t]
                finish(t, p, out, meta)
        if time.time() - t0 > timeout:
            for t in running:
                running[t][0].kill()
            raise ToolError("TLC timed out on " + ", ".join(running))
        time.sleep(0.05)
    return rejected, stats


def model_check(module, cfg=None, workers=4, mem="6g", timeout=600, extra=(), expect=None):
    """Exhaustive TLC run of a design module; returns (ok, stats, text)."""
    cfg = cfg or module
    meta = os.path.join(OUT, "mc-%s-%d" % (cfg, os.getpid()))
    shutil.rmtree(meta, ignore_errors=True)
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(tlc_cmd(module + ".tla", cfg + ".cfg", meta, workers=workers, mem=mem,
                                   extra=extra),
                           cwd=SPECS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    stats = {"module": module, "config": cfg,
             "states": int(m.group(2)) if m else 0, "transitions": int(m.group(1)) if m else 0}
    ok = r.returncode == 0 and "No error has been found" in r.stdout
    return ok, stats, r.stdout


def gen_programs(num, depth=14, maxdim=4, maxsize=24, nslots=4, seed=1):
    """random walks of the machine (TLC simulation of Gen.tla) as programs"""
    os.makedirs(OUT, exist_ok=True)
    base = os.path.join(OUT, "gen-%d-%d" % (os.getpid(), seed))
    cfg = base + ".cfg"
    with open(cfg, "w") as f:
        f.write("INIT GInit\nNEXT GNext\nCONSTANTS MaxDim = %d\n NSlots = %d\n Depth = %d\n"
                " MaxSize = %d\nCHECK_DEADLOCK FALSE\n" % (maxdim, nslots, depth, maxsize))
    meta = base + ".meta"
    cmd = JAVA + ["-Xmx3g", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1",
                  "-metadir", meta, "-config", cfg, "-simulate", "num=%d" % num, "-depth",
                  str(depth * 6), "-seed", str(seed), "-aril", "0", "-fp", "3", "Gen.tla"]
    r = subprocess.run(cmd, cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       stdin=subprocess.DEVNULL, timeout=600)
    shutil.rmtree(meta, ignore_errors=True)
    os.unlink(cfg)
    res = []
    for m in re.finditer(r'"PROG (.*)"', r.stdout):
        res.append([op + "".join(" %d" % x for x in a)
                    for op, a in json.loads(m.group(1).replace('\\"', '"'))])
    if len(res) < num // 2:
        raise ToolError("program generation failed:\n" + r.stdout[-3000:])
    return res


def spec_calls(name, cfg=None):
    """the calls printed by a Calls-like module: {kind: [op text]}"""
    cfg = cfg or name
    meta = os.path.join(OUT, "calls-%d" % os.getpid())
    r = subprocess.run(tlc_cmd(name + ".tla", cfg + ".cfg", meta), cwd=SPECS, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    shutil.rmtree(meta, ignore_errors=True)
    res = {}
    for m in re.finditer(r'"([A-Z]+) (\[.*\])"', r.stdout):
        res[m.group(1)] = sorted(op + "".join(" %d" % x for x in a)
                                 for op, a in json.loads(m.group(2).replace('\\"', '"')))
    if not res:
        raise ToolError("no calls from %s:\n%s" % (name, r.stdout[-3000:]))
    return res


def schedules(L, M=0, rich=False, depth=0, num=0, seed=1, flat=False):
    """schedules of iterator calls printed by GenIter: all of them (num=0) or
    `num` sampled ones; each a list of [op, iterator, arg]"""
    if L == 0:
        return [[["n", 0, 0], ["b", 0, 0], ["n", 0, 0], ["N", 0, 1], ["c", 0, 0]]]
    os.makedirs(OUT, exist_ok=True)
    base = os.path.join(OUT, "sched-%d-%d-%d-%d" % (os.getpid(), L, M, seed))
    cfg, meta = base + ".cfg", base + ".meta"
    with open(cfg, "w") as f:
        f.write("INIT Init\nNEXT Next\nCONSTANTS L = %d\n M = %d\n Rich = %s\n Depth = %d\n"
                " Flat = %s\nCHECK_DEADLOCK FALSE\n" %
                (L, M, "TRUE" if rich else "FALSE", depth or 1000, "TRUE" if flat else "FALSE"))
    cmd = JAVA + ["-Xmx3g", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1",
                  "-metadir", meta, "-config", cfg]
    if num:
        cmd += ["-simulate", "num=%d" % num, "-depth", str((depth or 60) + 4), "-seed", str(seed),
                "-aril", "0", "-fp", "3"]
    r = subprocess.run(cmd + ["GenIter.tla"], cwd=SPECS, stdout=subprocess.PIPE, text=True,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=600)
    shutil.rmtree(meta, ignore_errors=True)
    os.unlink(cfg)
    res = [json.loads(m.group(1).replace('\\"', '"'))
           for m in re.finditer(r'"SCHED (.*)"', r.stdout)]
    if not res and L + M > 0:
        raise ToolError("schedule generation failed:\n" + r.stdout[-3000:])
    return res


# ------------------------------------------------------------------ findings
def known_findings():
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res


# ------------------------------------------------------------------ the check
CURRENT = None


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 7919 + hash_str(prop))
        self.dir = scratch(prop)
        self.t0 = time.time()
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "samples": []}
        self.models = []
        self.assumptions = []
        self.nrep = 0
        global CURRENT
        CURRENT = self

    @property
    def quick(self):
        return self.tier == "quick"

    # ---- design models
    def model(self, module, cfg=None, **kw):
        t = time.time()
        ok, st, text = model_check(module, cfg, **kw)
        st["wall_s"] = round(time.time() - t, 1)
        log("model %s/%s: %s %s" % (module, cfg or module, "ok" if ok else "FAILED", st))
        if not ok:
            raise ToolError("design model %s failed (the specification itself):\n%s" %
                            (module, text[-4000:]))
        self.models.append(st)
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        return st

    def model_bad(self, module, cfg, **kw):
        """a deliberately wrong variant of the design must be refuted"""
        ok, st, text = model_check(module, cfg, **kw)
        if ok or "is violated" not in text and "Assertion" not in text and "Assert" not in text \
                and "Deadlock reached" not in text:
            raise ToolError("the wrong variant %s is not refuted:\n%s" % (cfg, text[-3000:]))
        st["refuted"] = True
        self.models.append(st)

    def prove(self, module):
        """TLAPS proofs of what the models check for small instances.  They concern the specification
        alone; a back end that runs out of time is reported, not an alarm."""
        t = time.time()
        try:
            r = subprocess.run(["tlapm", "--strict", "--threads", str(NPROC), "--stretch", "6", "--cache-dir",
                                os.path.join(self.dir, "tlapm"), module + ".tla"], cwd=SPECS, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=400, stdin=subprocess.DEVNULL)
            m = re.search(r"All (\d+) obligations? proved", r.stdout)
        except (subprocess.TimeoutExpired, OSError):
            m = None
        log("proof %s: %s, %.1fs" % (module, m.group(0) if m else "NOT completed", time.time() - t))
        if m:
            self.cov.setdefault("proofs", []).append("%s: %s (TLAPS)" % (module, m.group(0)))
        else:
            self.cov.setdefault("not_run", []).append("TLAPS proof " + module)

    # ---- traces
    def traces(self, spec, paths, source=None, count=None, par=NPROC, mem="2500m", rerun=None):
        """validate; `source(id)` gives the program text of a scenario"""
        t = time.time()
        rej, st = validate(spec, paths, self.dir, count=count, par=par, mem=mem)
        log("validate %s: %d traces, %d events, %d rejected, %.1fs" %
            (spec, st["lines"], st["events"], len(rej), time.time() - t))
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.cov["traces_validated_against_impl"] += st["lines"]
        self.cov["events_validated"] += st["events"]
        self.sample(paths)
        for r in rej:
            self.reject(spec, r, source, rerun)
        return st

    def sample(self, paths, n=2):
        got = 0
        for p in paths:
            if got >= n:
                break
            with open(p) as f:
                line = f.readline()
            if line and len(line) < 3000:
                self.cov["samples"].append(json.loads(line))
                got += 1

    def reject(self, spec, r, source=None, rerun=None):
        with open(r.trace) as f:
            for i, raw in enumerate(f, 1):
                if i == r.sid:
                    break
        try:
            line = json.loads(raw)
        except ValueError:
            line = {"raw": raw[:2000]}
        ev = None
        steps = line.get("steps")
        if isinstance(steps, list) and 1 <= r.k <= len(steps):
            ev = steps[r.k - 1]
        src = source(line.get("id")) if source else None
        case = "%s:%s" % (os.path.basename(r.trace).split(".")[0], line.get("id"))
        self.violation({"spec": spec, "why": r.why, "scenario": line.get("id"), "case": src or case,
                        "step": r.k, "event": ev, "program": src,
                        "rerun": rerun(line.get("id")) if rerun else None,
                        "trace_line": line, "tlc": r.text[-3000:]})

    def violation(self, info):
        info["property"] = self.prop
        for p, case, what in known_findings():
            if p == self.prop and str(info.get("case")) == case:
                print("KNOWN-FINDING: property=%s %s" % (p, what), flush=True)
                return
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        self.nrep += 1
        path = os.path.join(d, "%s-%d.json" % (self.prop, self.nrep))
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(path)
        msg = json.dumps(info.get("event") or info.get("what"))
        log("rejected: %s step %s: %s" % (str(info.get("case"))[:400], info.get("step"), (msg or "")[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def finish(self, extra=None):
        self.cov["design_models"] = self.models
        if extra:
            self.cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s: %s in %.1fs" % (self.prop, "VIOLATED" if self.violations else "held",
                                 time.time() - self.t0))
        if not self.violations:
            shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0


def hash_str(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def hist(check, programs, tag="hist", spec="TraceHist", profile="dev", shards=NPROC):
    """Run programs through the history interpreter and validate the traces."""
    bindir = build(["hist"], profile=profile,
                   name="target")
    pf = os.path.join(check.dir, tag + ".prog")
    with open(pf, "w") as f:
        f.write("\n".join(programs) + "\n")
    paths = drive(os.path.join(bindir, "hist"), [pf], check.dir, tag, shards=shards)
    src = lambda i: programs[i // 1000] if i is not None else None
    again = lambda i: {"bin": "hist", "profile": profile, "features": "par", "name": "target",
                       "line": src(i), "part": i % 1000 if i is not None else None}
    st = check.traces(spec, paths, source=src, rerun=again)
    return paths, st


def hist_miri(check, programs, tag="mirih", shards=NPROC):
    """Histories under Miri: undefined behaviour whose effect no later step shows."""
    pf = os.path.join(check.dir, tag + ".prog")
    with open(pf, "w") as f:
        f.write("\n".join(programs) + "\n")
    t = time.time()
    paths = miri("hist", pf, check.dir, tag, len(programs), shards=shards)
    log("miri hist: %d programs, %.1fs" % (len(programs), time.time() - t))
    if paths is None:
        check.cov.setdefault("not_run", []).append("Miri replay of histories")
        return
    src = lambda i: programs[i // 1000] + " (under Miri)" if i is not None else None
    again = lambda i: {"bin": "hist", "miri": True, "features": "", "flags": "", "line": programs[i // 1000],
                       "part": i % 1000} if i is not None else None
    check.traces("TraceHist", paths, source=src, rerun=again)
    check.cov["miri_histories"] = check.cov.get("miri_histories", 0) + len(programs)
    if not check.violations:
        seen = {int(re.match(r'\{"id":(\d+)', l).group(1)) // 1000 for p in paths for l in open(p)}
        if len(seen) != len(programs):
            raise ToolError("%s: %d of %d programs ran under Miri" % (tag, len(seen), len(programs)))


def cases(check, binname, lines, spec, tag=None, profile="dev", features="par", shards=NPROC,
          count=lambda raw: 1, name="target", mem="2500m"):
    """Drive a one-event-per-line binary over case lines and validate."""
    tag = tag or binname
    bindir = build([binname], profile=profile, features=features, name=name)
    pf = os.path.join(check.dir, tag + ".cases")
    with open(pf, "w") as f:
        f.write("\n".join(lines) + "\n")
    paths = drive(os.path.join(bindir, binname), [pf], check.dir, tag, shards=shards)
    src = lambda i: "%s %s" % (binname, lines[i]) if i is not None and i < len(lines) else None
    again = lambda i: {"bin": binname, "profile": profile, "features": features, "name": name,
                       "line": lines[i]} if i is not None and i < len(lines) else None
    st = check.traces(spec, paths, source=src, count=count, mem=mem, rerun=again)
    n = sum(1 for p in paths for _ in open(p)) if not check.violations else len(lines)
    if not check.violations and n != len(lines):
        raise ToolError("%s: %d of %d cases ran" % (tag, n, len(lines)))
    return paths, st


def miri_cases(check, binname, lines, spec, tag=None, features="", shards=NPROC, count=lambda raw: 1,
               flags="", mem="2500m"):
    """the same replay under Miri"""
    tag = tag or "miri-" + binname
    pf = os.path.join(check.dir, tag + ".cases")
    with open(pf, "w") as f:
        f.write("\n".join(lines) + "\n")
    t = time.time()
    paths = miri(binname, pf, check.dir, tag, len(lines), features=features, shards=shards, flags=flags)
    log("miri %s: %d cases, %.1fs" % (tag, len(lines), time.time() - t))
    if paths is None:
        check.cov.setdefault("not_run", []).append("Miri replay of " + tag)
        return
    src = lambda i: "%s %s (under Miri)" % (binname, lines[i]) if i is not None and i < len(lines) else None
    again = lambda i: {"bin": binname, "miri": True, "features": features, "flags": flags,
                       "line": lines[i]} if i is not None and i < len(lines) else None
    check.traces(spec, paths, source=src, count=count, mem=mem, rerun=again)
    check.cov["miri_cases"] = check.cov.get("miri_cases", 0) + len(lines)
    n = sum(1 for p in paths for _ in open(p))
    if not check.violations and n != len(lines):
        raise ToolError("%s: %d of %d cases ran under Miri" % (tag, n, len(lines)))
