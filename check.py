#!/usr/bin/env python3
"""check.py <property id> [--thorough]   run the check of one property
   check.py replay <file>         re-run a recorded violation
   check.py setup                 build everything once"""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    what = sys.argv[1]
    if "--thorough" in sys.argv[2:]:
        os.environ["VERIF_TIER"] = "thorough"
    try:
        if what == "setup":
            import setup_all
            return setup_all.main()
        if what == "replay":
            import replay
            return replay.main(sys.argv[2])
        mod = importlib.import_module("p_" + what.lower())
        return mod.run()
    except vlib.ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return cut_short()
    except Exception:
        traceback.print_exc()
        return cut_short()


def cut_short():
    """a check that could not finish: what it found before that stands"""
    ck = vlib.CURRENT
    if ck is not None and ck.violations:
        return ck.finish({})
    return 2


sys.exit(main())
