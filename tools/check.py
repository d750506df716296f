#!/usr/bin/env python3
"""Usage: check.py C01   (VERIF_TIER, VERIF_SEED in the environment)"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402
import registry  # noqa: E402


def main():
    prop = sys.argv[1]
    modname, fn, level = registry.CHECKS[prop]
    ctx = vlib.Ctx(prop, level)
    try:
        getattr(importlib.import_module(modname), fn)(ctx)
    except vlib.Enough:
        pass
    except vlib.CheckError as e:
        if ctx.violations:      # decided, whatever else could not be
            return ctx.finish()
        print("ERROR: the check of %s could not decide: %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
