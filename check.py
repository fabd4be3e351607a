#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import sys, os, json, importlib, shutil, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lib import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from checks import REGISTRY
    modname, fn, kw = REGISTRY[prop]
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        print(json.dumps(r, indent=1))
        if "case" in r["replay"]:
            print(json.dumps(core.observe(core.build(), [r["replay"]["case"]], procs=1), indent=1))
        return 0
    try:
        c = core.Check(prop, tier)
        getattr(importlib.import_module("checks." + modname), fn)(c, **kw)
        return c.finish()
    except core.ToolError as e:
        print("TOOL ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        for n in os.listdir(core.SCRATCH) if os.path.isdir(core.SCRATCH) else []:
            if n.endswith("-%d" % os.getpid()):
                shutil.rmtree(os.path.join(core.SCRATCH, n), ignore_errors=True)


sys.exit(main())
