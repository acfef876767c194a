#!/usr/bin/env python3
"""bin/check.py Cxx: decide one property of the working tree in /repo.

Exit 0: it held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check could not give an answer."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common

MODULES = ("checks_walk", "checks_filter", "checks_table", "checks_config", "checks_inline", "checks_tools", "checks_memory", "checks_errors", "checks_meanwhile")


def find(prop):
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m: raise
            continue
        if prop in getattr(mod, "CHECKS", {}):
            return mod.CHECKS[prop]
    raise SystemExit("no check for %s" % prop)


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    fn = find(prop)
    ctx = common.Ctx(prop)
    try:
        fn(ctx)
        ctx.flush()
    except common.CheckError as e:
        if not ctx.violations:
            print("NO ANSWER property=%s: %s" % (prop, e))
            return 2
        common.log("stopped early: %s" % e)
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
