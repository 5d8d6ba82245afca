#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from meta/props.py and meta/claims.py."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from meta.props import PROPS
from meta.claims import NA, NOTES
out = []
for p in PROPS:
    out.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
               quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
               anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                            observe_at=p["observe"], state=p["state"], hook_needed=None))))
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(out) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i not in NA:
        m = importlib.import_module("checks." + i)
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i,
                           thorough_cmd="python3-vt check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the real Python source, SMT (z3) per path",
                           level="model_checking",
                           level_note="Every path of the encoded functions within the bounds is decided by the solver (bounded, not a proof). Bounds: %s Outside: %s %s" % (m.BOUNDS, m.OUTSIDE, NOTES)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3' && mkdir -p evidence replays", checks=checks, not_applicable=na,
               notes="No hooks: the sources of /repo are parsed, rewritten in memory and executed symbolically on every run."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
