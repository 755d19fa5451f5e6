#!/usr/bin/env python3
"""python3 run.py <property> [--tier quick|thorough] [--seed N]"""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, known


def main(argv):
    prop, tier, seed = argv[0], None, None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed":
            seed = argv[i + 1]; i += 2
        else:
            raise SystemExit("usage: run.py <property> [--tier quick|thorough] [--seed N]")
    fn = None
    for name in sorted(os.listdir(os.path.join(core.VERIF, "checks"))):
        if name.endswith(".py") and not name.startswith("_"):
            m = importlib.import_module("checks." + name[:-3])
            fn = fn or getattr(m, "CHECKS", {}).get(prop)
    if fn is None:
        raise SystemExit("unknown property " + prop)
    c = core.Check(prop, tier, seed)
    try:
        fn(c)
        for line in known.lines(prop):
            print(line)
        return c.finish()
    except core.CheckError as e:
        if c.violations:
            # a confirmed violation was already printed; later parts could not run
            c.log("later part of the check failed:", e)
            c.finish()
            return 1
        c.log("CHECK ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        if c.violations:
            c.finish()
            return 1
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
