"""check.py replay FILE: judge a recorded violation again.

The recorded trace line is given to TLC once more, and, where the violation came from a driver, the
one case is run again on the crate as it is now and its new trace is judged as well."""
import json, os
import vlib


def verdict(spec, paths, d, count):
    rej, st = vlib.validate(spec, paths, d, count=count)
    return ["step %d: %s" % (r.k, r.why) for r in rej]


def main(path):
    info = json.load(open(path))
    print("property %s, specification %s, case %s" % (info["property"], info.get("spec"), info.get("case")))
    d = vlib.scratch("replay-run")
    if info.get("event") is not None:
        print("recorded event: " + json.dumps(info["event"])[:3000])
    if info.get("what"):
        print("recorded: %s" % info["what"])
    line = info.get("trace_line")
    again = info.get("rerun")
    count = (lambda raw: raw.count('"op":')) if isinstance((line or {}).get("steps"), list) else (lambda raw: 1)
    if line and "raw" not in line:
        p = os.path.join(d, "recorded.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(line) + "\n")
        print("the recorded trace: %s" % (verdict(info["spec"], [p], d, count) or "accepted"))
    if not again:
        print("this violation has no single driver case; run the check again")
        return 0
    f = os.path.join(d, "one.cases")
    with open(f, "w") as h:
        h.write(again["line"] + "\n")
    if again.get("miri"):
        paths = vlib.miri(again["bin"], f, d, "again", 1, features=again["features"], shards=1, flags=again["flags"])
    else:
        bindir = vlib.build([again["bin"]], profile=again["profile"], features=again["features"], name=again["name"])
        paths = vlib.drive(os.path.join(bindir, again["bin"]), [f], d, "again", shards=1)
    bad = verdict(info["spec"], paths, d, count)
    print("the same case on the present tree: %s" % (bad or "accepted"))
    return 1 if bad else 0
