#!/usr/bin/env python3
"""check.py <property id>: decide one property for /repo's working tree."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    t0 = time.time()
    mods = ["c_text", "c_cli", "c_prog", "c_misc"]
    for m in mods:
        try:
            mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if prop in mod.CHECKS:
            try:
                return mod.CHECKS[prop]()
            except vlib.Broken as e:
                run = vlib.Run(prop, "model_checking")
                run.t0 -= time.time() - t0
                run.cov.update({"states": 0, "transitions": 0, "traces_validated_against_impl": 1})
                run.sample(e.what)
                run.violation(e.key, e.what, e.data)
                return run.finish()
    print("no check for", prop)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except vlib.ToolError as e:
        print("ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
