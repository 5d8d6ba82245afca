#!/usr/bin/env python3
"""Development aid: make and confirm planted bugs. `seed.py DEFS.py [ID..]` reads SEEDS = [dict(id, prop, edits=[(file, old, new)..],
demo=source, needs, breaks)] and writes seeded/<id>/; `seed.py --check ID..` re-confirms. Not used by any check."""
import json, os, shutil, subprocess, sys, runpy
V = "/verif"
ENV = dict(PATH=os.environ["PATH"], HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH="/opt/vp/lib")
PRE = "import io, os, sys, tempfile\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport pyembroidery as pe\nfrom pyembroidery import *\n"
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=ENV, t=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def confirm(i, check=True):
    d = os.path.join(V, "seeded", i)
    w = "/tmp/seedwork/" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    shutil.copytree("/repo", w, symlinks=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w)
    try:
        rc0, o0 = sh(["bash", d + "/demo.sh"], w)
        rc, o = sh(["git", "apply", d + "/patch.diff"], w)
        if rc:
            return "%s: patch does not apply %s" % (i, o)
        # lines removed must be base lines
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=w, capture_output=True, text=True).stdout.strip()
        rc1, o1 = sh(["bash", d + "/demo.sh"], w)
        work = "/tmp/seedwork/cwd_" + i
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        rct, ot = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "--rootdir=" + w, "-p", "no:cacheprovider", w + "/test"], work)
        shutil.rmtree(work, ignore_errors=True)
        res = "demo %s/%s tests %s" % (rc0, rc1, "ok" if rct == 0 else "FAIL " + ot[-600:])
        if rc0 != 0:
            res += "\n clean demo: " + o0[-500:]
        caught = "-"
        prop = json.load(open(d + "/meta.json"))["property"]
        if check and os.path.exists(os.path.join(V, "checks", prop + ".py")):
            e = dict(os.environ, VERIF_REPO=w, VERIF_TIER="quick", VERIF_SEED="1")
            import time
            t = time.time()
            rc, o = sh(["python3-vt", "check.py", prop], V, e)
            v = [l for l in o.splitlines() if "VIOLATION property=" + prop in l]
            caught = "%s %s (%.0fs)" % ("CAUGHT" if rc == 1 and v else "missed rc=%d" % rc, o.splitlines()[0][:160] if o else "", time.time() - t)
        return "%s [%s]: %s %s" % (i, prop, res, caught)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def make(s):
    w = "/tmp/seedwork/mk_" + s["id"]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    shutil.copytree("/repo", w, symlinks=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w)
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=w, capture_output=True, text=True).stdout.strip()
    for f, a, b in s["edits"]:
        f = os.path.join("pyembroidery", f)
        t = open(os.path.join(w, f), newline="").read()
        if "\r\n" in t:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        ln = t[:t.index(a)].count("\n") + 1
        for k in range(a.count("\n") + (0 if a.endswith("\n") else 1)):
            l = subprocess.run(["git", "blame", "-l", "-L%d,%d" % (ln + k, ln + k), "--", f], cwd=w, capture_output=True, text=True).stdout
            if not l.lstrip("^").startswith(base[:38]):
                print("  note: %s line %d is not a base line" % (f, ln + k))
        open(os.path.join(w, f), "w", newline="").write(t.replace(a, b))
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "diff"], cwd=w, capture_output=True).stdout)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(PRE + s["demo"])
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        for i in a[1:] or sorted(os.listdir(V + "/seeded")):
            print(confirm(i), flush=True)
    else:
        for s in runpy.run_path(a[0])["SEEDS"]:
            if len(a) > 1 and s["id"] not in a[1:]:
                continue
            make(s)
            print(confirm(s["id"]), flush=True)
