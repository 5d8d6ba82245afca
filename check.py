#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]      decide one property of /repo's current tree
   check.py --replay FILE                         rerun a reported counterexample on the real code"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        from engine.runner import Replayer
        o = Replayer(d["property"], d["tier"]).run([(d["harness"], d["vals"])])[0]
        print(json.dumps(o, indent=1))
        return 1 if o["outcome"] in ("violation", "exception", "hang") else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import importlib
    m = importlib.import_module("checks." + prop)
    from engine import runner
    deadline = float(os.environ.get("VERIF_DEADLINE", 0)) or (getattr(m, "DEADLINE", 150) if tier == "quick" else
                                                            getattr(m, "DEADLINE_THOROUGH", 700))
    meta = dict(level="model_checking", bounds=getattr(m, "BOUNDS", ""), outside=getattr(m, "OUTSIDE", ""))
    return runner.main(prop, tier, seed, deadline, meta)


if __name__ == "__main__":
    sys.exit(main())
