"""Runs the harnesses of one property: symbolic exploration in a process pool, replay, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import re
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable

_W = {}


def known_ids(prop):
    """known_findings.txt: 'open: property=<id> <finding id> <text>' and 'fixed: property=<id> <commit> <text>' lines"""
    out = set()
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split()
            if len(w) > 2 and w[0] == "open:" and w[1] == "property=" + prop:
                out.add(w[2])
    return out


def get_harnesses(prop, tier):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    m = importlib.import_module("checks." + prop)
    hs = m.harnesses(tier)
    only = os.environ.get("VERIF_ONLY")  # development aid: a regular expression on harness names
    return [h for h in hs if re.match(only, h.name)] if only else hs


def _winit(prop, tier, seed):
    sys.setrecursionlimit(20000)
    if "pe" not in _W:
        from . import instrument
        _W["pe"] = instrument.load(REPO)
    _W["hs"] = get_harnesses(prop, tier)
    _W["known"] = known_ids(prop)
    _W["ex"] = {}
    _W["rng"] = random.Random(seed + os.getpid() * 0)


def _task(args):
    """explore part of one harness instance; returns results and the remaining work"""
    hi, work, limit, nsamp, maxviol = args
    from . import sym
    from .ctx import SymCtx, evalv
    h = _W["hs"][hi]
    pe, known = _W["pe"], _W["known"]
    exc = []

    def fn(ex):
        c = SymCtx(ex, pe, known)
        ex.path_checked = False
        ex.path_exc = None
        try:
            h.fn(c, **h.params)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/engine/" not in f.filename][-1:]
            ex.path_exc = e
            try:
                vals = dict(ex.model.vals)
            except Exception:
                vals = {}
            site = "%s:%s" % (os.path.basename(where[0].filename), where[0].name) if where else "?"
            ex.violations.append(("uncaught %s at %s: %s" % (type(e).__name__, site, str(e)[:120]), vals, None))
            ex.stats.checks += 1
            raise sym.StopPath()

    sym.reset_tables()
    ex = sym.Explorer(fn, real=h.real, max_decisions=h.max_decisions)
    samples = []
    seen = [0]
    hangs = []

    def path_end(e):
        if not e.path_checked:
            return
        seen[0] += 1
        n = seen[0]
        if h.real:
            if n <= nsamp and not e.path_exc:
                m = e.query(sym.TRUE)
                if isinstance(m, sym.Model):
                    samples.append((dict(m.vals), None))
            return
        take = n <= nsamp or (n % 37 == 0 and len(samples) < 3 * nsamp)
        if take and not h.real and not e.path_exc:
            try:
                vals = dict(e.model.vals)
                m = sym.Model(vals)
                ok = all(m.cond(c) for c in e.pc)
                if ok:
                    samples.append((dict(m.vals), evalv(e.obs, m)))
                else:
                    samples.append(("BADMODEL", None))
            except Exception as x:
                samples.append(("BADMODEL " + repr(x), None))

    ex.on_path_end = path_end
    t = time.time()
    stop = (lambda e: len(e.violations) >= maxviol)
    rest = ex.explore(work, time_limit=limit, stop=stop)
    viol = ex.violations
    stopped = len(viol) >= maxviol
    rest = [([tuple(d) for d in p], v) for p, v in rest]
    return dict(hi=hi, stats=ex.stats, viol=viol, samples=samples, covers=ex.covers, functions=ex.functions, rest=rest,
                cutmodels=ex.cutmodels, stopped=stopped, wall=time.time() - t)


def _task_safe(args):
    try:
        return _task(args)
    except BaseException as e:
        return dict(hi=args[0], error="".join(traceback.format_exception(e))[-2000:])


class Replayer:
    """real code, separate process"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier

    def run(self, items, timeout=20):
        """items: [(harness name, vals)] -> [dict(outcome=..., ...)]"""
        res = []
        i = 0
        while i < len(items):
            inp = "\n".join(json.dumps({"h": h, "vals": v}) for h, v in items[i:]) + "\n"
            env = dict(os.environ)
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            p = subprocess.run([PY, "-m", "engine.replay", self.prop, self.tier, str(timeout)], input=inp, text=True,
                               cwd=VERIF, env=env, capture_output=True)
            got = [json.loads(l[8:]) for l in p.stdout.splitlines() if l.startswith("@REPLAY ")]
            res.extend(got)
            i += len(got)
            if i < len(items) and (not got or got[-1].get("outcome") != "hang"):
                res.append(dict(outcome="crash", msg=(p.stderr or "")[-500:]))
                i += 1
        return res


def run(prop, tier, seed, deadline, slice_s=4.0, nsamp=3, maxviol=4, verbose=False):
    t0 = time.time()
    hs = get_harnesses(prop, tier)
    nproc = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 4)
    from .sym import Stats
    tot = Stats()
    per = {}
    cutm = []
    viols, samples, covers, funcs, errors = [], [], {}, set(), []
    pending = []
    from collections import deque
    queue = deque()
    order = sorted(range(len(hs)), key=lambda i: -hs[i].weight)
    for i in order:
        queue.append((i, None))
    leftover = {}
    dead = set()
    ctxm = mp.get_context("fork")
    sys.setrecursionlimit(20000)
    from . import instrument
    _W["pe"] = instrument.load(REPO)   # in the parent: the workers inherit it
    pool = ctxm.Pool(nproc, _winit, (prop, tier, seed))
    active = []
    vcount = {}
    try:
        while queue or active:
            now = time.time()
            while queue and len(active) < nproc * 2 and now - t0 < deadline:
                i, w = queue.popleft()
                if i in dead:
                    continue
                active.append((i, pool.apply_async(_task_safe, ((i, w, slice_s, nsamp, maxviol),))))
            if now - t0 >= deadline and queue:
                for i, w in queue:
                    leftover[i] = leftover.get(i, 0) + (len(w) if w else 1)
                queue.clear()
            if not active:
                break
            done = [a for a in active if a[1].ready()]
            if not done:
                active[0][1].wait(0.02)
                if time.time() - t0 > deadline + 90:
                    for i, _ in active:
                        leftover[i] = leftover.get(i, 0) + 1
                    break
                continue
            active = [a for a in active if not a[1].ready()]
            for i, r in done:
                r = r.get()
                if "error" in r:
                    errors.append((hs[i].name, r["error"]))
                    dead.add(i)
                    continue
                tot.merge(r["stats"])
                pp = per.setdefault(i, dict(paths=0, checks=0, cut=0, wall=0.0, queries=0))
                pp["paths"] += r["stats"].paths
                pp["checks"] += r["stats"].checks
                pp["cut"] += r["stats"].cut
                pp["queries"] += r["stats"].queries
                pp["wall"] += r["wall"]
                for msg, vals, fid in r["viol"]:
                    viols.append((i, msg, vals, fid))
                    if fid is None:
                        vcount[i] = vcount.get(i, 0) + 1
                for v in r["cutmodels"]:
                    if len(cutm) < 200:
                        cutm.append((i, v))
                for s in r["samples"]:
                    samples.append((i,) + s)
                for k, n in r["covers"].items():
                    covers[(i, k)] = covers.get((i, k), 0) + n
                funcs |= r["functions"]
                rest = r["rest"]
                if rest:
                    if vcount.get(i, 0) >= maxviol:
                        dead.add(i)
                        leftover[i] = leftover.get(i, 0) + len(rest)
                    else:
                        # split the remaining work
                        k = max(1, min(len(rest), nproc))
                        chunks = [rest[j::k] for j in range(k)]
                        for c in chunks:
                            queue.append((i, c))
    finally:
        pool.terminate()
        pool.join()
    return dict(hs=hs, stats=tot, per=per, cutm=cutm, viols=viols, samples=samples, covers=covers, funcs=funcs, errors=errors,
                leftover=leftover, wall=time.time() - t0)


def main(prop, tier, seed, deadline, level_meta):
    t0 = time.time()
    r = run(prop, tier, seed, deadline)
    hs = r["hs"]
    rp = Replayer(prop, tier)
    known = known_ids(prop)
    # --- violations: replay on the real package
    confirmed, spurious, knownhits = [], [], {}
    seen = set()
    cand = []
    per_msg = {}
    for i, msg, vals, fid in r["viols"]:
        k = (i, msg, fid)
        per_msg[k] = per_msg.get(k, 0) + 1
        if per_msg[k] <= 3:
            cand.append((i, msg, vals, fid))
    cand = cand[:120]
    res = rp.run([(hs[i].name, v) for i, _, v, _ in cand]) if cand else []
    for (i, msg, vals, fid), o in zip(cand, res):
        if o["outcome"] in ("violation", "exception", "hang"):
            if fid is not None and o.get("known") == fid:
                knownhits.setdefault(fid, (hs[i].name, vals, o))
            elif o.get("known") in known and o.get("known"):
                knownhits.setdefault(o["known"], (hs[i].name, vals, o))
            else:
                confirmed.append((i, msg, vals, o))
        else:
            spurious.append((i, msg, vals, o))
    # --- validation of the encoding on sampled paths
    rng = random.Random(seed)
    samp = [s for s in r["samples"] if isinstance(s[1], dict)]
    bad_models = len(r["samples"]) - len(samp)
    rng.shuffle(samp)
    # keep breadth over harnesses
    byh = {}
    for s in samp:
        byh.setdefault(s[0], []).append(s)
    pick = []
    cap = 400 if tier == "quick" else 3000
    lists = list(byh.values())
    j = 0
    while len(pick) < cap and lists:
        lists = [l for l in lists if len(l) > j]
        for l in lists:
            pick.append(l[j])
        j += 1
    pick = pick[:cap]
    vres = rp.run([(hs[i].name, v) for i, v, _ in pick]) if pick else []
    validated, mismatched = 0, []
    from .ctx import same
    for (i, vals, obs), o in zip(pick, vres):
        if o["outcome"] == "ok" and (obs is None or same(o["obs"], json.loads(json.dumps(obs)))):
            validated += 1
        elif obs is None and o["outcome"] == "assume":
            pass  # the rounded model no longer meets an assumption
        elif o["outcome"] in ("violation", "exception", "hang") and not o.get("known"):
            confirmed.append((i, "sampled path model fails on the real code: " + o.get("msg", ""), vals, o))
        elif o.get("known"):
            validated += 1
        else:
            mismatched.append((hs[i].name, vals, obs, o))
    # undecided paths: at least their own model must pass on the real code
    for (i, vals), o in zip(r["cutm"], rp.run([(hs[i].name, v) for i, v in r["cutm"]]) if r["cutm"] else []):
        if o["outcome"] in ("violation", "exception", "hang") and not o.get("known"):
            confirmed.append((i, "model of an undecided path fails on the real code", vals, o))
    missing = []
    for i, h in enumerate(hs):
        for c in h.covers:
            if (i, c) not in r["covers"] and i not in r["leftover"]:
                missing.append("%s:%s" % (h.name, c))
        if not h.covers and not r["per"].get(i, {}).get("checks") and i not in r["leftover"]:
            missing.append(h.name + ":no check reached")
    st = r["stats"]
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    inconclusive = dict(st.cut_reasons)
    if r["leftover"]:
        inconclusive["time budget: unexplored prefixes"] = sum(r["leftover"].values())
    if r["errors"]:
        inconclusive["engine error in a harness instance"] = len(r["errors"])
    if spurious:
        inconclusive["counterexample not reproduced on the real code"] = len(spurious)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level_meta["level"], wall_s=round(wall, 2),
        coverage=dict(
            states=st.paths, transitions=st.forks, traces_validated_against_impl=validated,
            samples=[dict(harness=hs[i].name, inputs=v, observed=_short(o)) for i, v, o in pick[:3]] or
                    [dict(harness=h.name) for h in hs[:1]],
            functions_encoded=sorted(r["funcs"]), harness_instances=len(hs),
            bounds=level_meta.get("bounds", ""), outside=level_meta.get("outside", ""),
            queries=st.queries, queries_sat=st.q_sat, queries_unsat=st.q_unsat, queries_unknown=st.q_unknown,
            solver_s=round(st.solver_s, 2), assertions=st.checks, assertions_solver=st.checks_solver,
            assertions_by_simplification=st.checks_static, infeasible_paths=st.dead, paths_cut=st.cut,
            merged_branches=st.merges, deepest_path_decisions=st.max_decisions,
            exhaustive=not inconclusive, inconclusive=inconclusive, encoding_mismatches=len(mismatched),
            reachability_witnesses=len(r["covers"]), missing_witnesses=missing,
            slowest=[dict(h=hs[i].name, **{k: (round(v, 2) if isinstance(v, float) else v) for k, v in p.items()})
                     for i, p in sorted(r["per"].items(), key=lambda q: -q[1]["wall"])[:5]],
            known_findings=sorted(knownhits),
        ))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d instances, %d paths, %d forks, %d queries (%.1fs solver), %d assertions, %d validated, "
          "%d mismatched, inconclusive=%s, %.1fs" % (prop, tier, len(hs), st.paths, st.forks, st.queries, st.solver_s,
                                                     st.checks, validated, len(mismatched), inconclusive or 0, wall))
    for fid in sorted(known):
        if fid in knownhits:
            h, v, o = knownhits[fid]
            print("KNOWN-FINDING: property=%s %s: %s [%s %s]" % (prop, fid, o.get("msg", "")[:200], h, json.dumps(v)[:200]))
    if confirmed:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        done = set()
        n = 0
        for i, msg, vals, o in confirmed:
            key = (hs[i].name, msg)
            if key in done or n >= 6:
                continue
            done.add(key)
            n += 1
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, harness=hs[i].name, vals=vals, msg=msg, real=o), f, indent=1)
            print("  %s: %s | real code: %s %s" % (hs[i].name, msg, o["outcome"], o.get("msg", "")[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for i, msg, vals, o in spurious[:5]:
        print("INCONCLUSIVE (not reproduced): %s: %s inputs=%s real=%s" % (hs[i].name, msg, json.dumps(vals)[:300], o.get("outcome")))
    for m in mismatched[:5]:
        print("ENCODING MISMATCH:", m[0], json.dumps(m[1])[:300], "\n  model", json.dumps(m[2])[:600], "\n  real ",
              json.dumps(m[3])[:600])
    for n, e in r["errors"][:3]:
        print("ENGINE ERROR in %s:\n%s" % (n, e))
    if missing:
        print("MISSING WITNESSES:", missing[:10])
    if st.checks == 0:
        print("NO ANSWER: no assertion was reached")
        return 2
    if missing and not r["leftover"] and st.cut == 0 and not spurious and not r["errors"]:
        print("NO ANSWER: harness vacuous")
        return 2
    return 0


def _short(o):
    s = json.dumps(o, default=str)
    return o if len(s) < 600 else s[:600]
