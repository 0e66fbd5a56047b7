#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decide a property on /repo's working tree
   check.py --replay FILE                run a recorded violation again"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import plans


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        ck = lib.Check(r["property"], "quick")
        try:
            d = os.path.join(ck.work, "r")
            print(ck.drive(ck.build(), r["driver"] + ["-v"], d)[1])
            for i, v, line in ck.judge_dir(d)[1]:
                print(i, v, lib.brief(line))
        finally:
            ck.cleanup()
        return 0
    prop, tier = sys.argv[1], (sys.argv[2:] or [os.environ.get("VERIF_TIER", "quick")])[0]
    ck = lib.Check(prop, tier)
    try:
        plans.PLANS[prop](ck)
        return ck.finish()
    except lib.CheckError as e:
        if ck.violations:      # what the code did stands, whatever happened to the check afterwards
            return ck.finish()
        print("check %s failed: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ck.cleanup()


sys.exit(main())
