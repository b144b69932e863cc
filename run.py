#!/usr/bin/env python3
"""python3 run.py <property-id>: decide one property on /repo's current tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("vf.checks." + prop)
    ctx = core.Ctx(prop)
    try:
        rc = mod.run(ctx)
    except core.Inconclusive as ex:
        print("INCONCLUSIVE property=%s: %s" % (prop, ex))
        rc = 1 if ctx.violations else 2
        if ctx.violations:
            print("VIOLATION property=%s replay=%s" % (prop, ctx.violations[0]["replay"]))
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("VF_KEEP"):
            ctx.close()
        else:
            print("scratch kept: " + ctx.scratch)
    sys.exit(rc)


main()
