#!/opt/venv/bin/python
"""Entry point of every check.

  run.py --property C01 [--tier quick|thorough] [--case NAME] [--jobs N]
  run.py --replay evidence/replay/....json        re-run one reported counterexample
"""
import argparse
import fnmatch
import json
import multiprocessing as mp
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")


def sym_worker(prop, name, tier, seed, path):
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    from engine import harness, ctx as C

    cs = harness.load_checks(prop)
    c = [x for x in cs if x.name == name][0]
    out = dict(name=name, failures=[], inconclusive=[], stats={}, samples=[], witness=None, functions=[])
    funcs = set()
    wit = []

    mon = sys.monitoring
    mon.use_tool_id(3, "verif")

    def on_start(co, off):
        fn = co.co_filename
        if fn.startswith(REPO):
            funcs.add(fn[len(REPO) + 1:] + ":" + co.co_qualname)
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)

    try:
        goals = [0]
        absent = []

        def fn(cx):
            h = harness.SymH(cx, tier)
            try:
                c(h)
            except harness.NotPresent as e:
                absent.append(str(e))
                return
            goals[0] += h._goals
            if len(wit) < 1:
                try:
                    w = cx.find_witness([], tries=40)
                    if w is not None:
                        wit.append(w)
                except Exception:
                    pass

        r = C.explore(fn, opts=c.opts, seed=seed)
        out["failures"] = [(l, k, w, (t or "")[-3000:]) for l, k, w, t in r.failures]
        out["inconclusive"] = r.inconclusive
        out["stats"] = r.stats
        out["samples"] = r.samples
        out["wall"] = r.wall
        out["witness"] = wit[0] if wit else None
        out["goals"] = goals[0]
        if absent:
            out["inconclusive"].append("internal function not present: " + absent[0])
            out["witness"] = None
        elif goals[0] == 0 and not r.failures and not r.inconclusive:
            out["inconclusive"].append("vacuous: no goal reached")
    except BaseException as e:
        out["crash"] = "%r\n%s" % (e, traceback.format_exc()[-3000:])
    out["functions"] = sorted(funcs)
    with open(path, "wb") as f:
        pickle.dump(out, f)
    sys.stdout.flush()
    os._exit(0)


def run_symbolic(prop, cases, tier, seed, jobs, budget, verbose):
    tmp = tempfile.mkdtemp(prefix="vsym_")
    res = {}
    todo = list(cases)
    todo.sort(key=lambda c: -c.opts.get("weight", 1))
    running = {}
    mpc = mp.get_context("fork")
    t_end = time.time() + budget
    k = 0
    try:
        while todo or running:
            while todo and len(running) < jobs:
                c = todo.pop(0)
                p = os.path.join(tmp, "%d.pkl" % k)
                k += 1
                pr = mpc.Process(target=sym_worker, args=(prop, c.name, tier, seed, p))
                pr.start()
                running[c.name] = (pr, p, time.time(), c)
            done = []
            for n, (pr, p, t0, c) in running.items():
                lim = c.opts.get("timeout", 240 if tier == "quick" else 1500)
                if not pr.is_alive():
                    pr.join()
                    try:
                        res[n] = pickle.load(open(p, "rb"))
                    except Exception:
                        res[n] = dict(name=n, crash="worker died (exit %s)" % pr.exitcode, failures=[], inconclusive=[], stats={}, samples=[], functions=[])
                    done.append(n)
                elif time.time() - t0 > lim or time.time() > t_end:
                    pr.kill()
                    pr.join()
                    res[n] = dict(name=n, timeout=True, failures=[], inconclusive=["time limit (%ds)" % int(time.time() - t0)], stats={}, samples=[], functions=[])
                    done.append(n)
                if n in done and verbose:
                    r = res[n]
                    print("  case %-44s %6.1fs paths=%s goals=%s %s" % (
                        n, time.time() - t0, r["stats"].get("paths"), r.get("goals"),
                        ("FAIL " + str([(f[0], f[1]) for f in r["failures"][:3]]) if r["failures"] else "") + (" INC " + str(r["inconclusive"][:2]) if r["inconclusive"] else "") + (" CRASH " + r["crash"][-900:] if "crash" in r else "")), flush=True)
            for n in done:
                del running[n]
            if not done:
                time.sleep(0.01)
    finally:
        for pr, *_ in running.values():
            pr.kill()
        subprocess.run(["rm", "-rf", tmp])
    return res


def run_replay(jobs, mode, timeout, tmpdir):
    """mode: py | jit | bounds"""
    if not jobs:
        return []
    jf = os.path.join(tmpdir, "jobs_%s_%d.json" % (mode, len(os.listdir(tmpdir))))
    of = jf + ".out"
    json.dump(jobs, open(jf, "w"))
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["NUMBA_CACHE_DIR"] = os.path.join(tmpdir, "nbcache_" + mode)
    env["VERIF_REPO"] = REPO
    env["PYTHONPATH"] = REPO + os.pathsep + ROOT
    env.pop("NUMBA_DISABLE_JIT", None)
    if mode == "py":
        env["NUMBA_DISABLE_JIT"] = "1"
    if mode == "bounds":
        env["NUMBA_BOUNDSCHECK"] = "1"
    env.setdefault("OMP_NUM_THREADS", "2")
    env.setdefault("OPENBLAS_NUM_THREADS", "2")
    try:
        p = subprocess.run([PY, "-m", "engine.replay", jf, of], cwd=ROOT, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        log = p.stdout.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        log = "timeout"
    out = []
    if os.path.exists(of):
        try:
            out = json.load(open(of))
        except Exception:
            out = []
    while len(out) < len(jobs):
        out.append(dict(status="died", fails=[["process", log]], goals=0))
    return out


def run_replay_parallel(jobs, mode, timeout, tmpdir, nproc):
    if not jobs:
        return []
    from concurrent.futures import ThreadPoolExecutor

    n = min(nproc, len(jobs))
    chunks = [list(range(i, len(jobs), n)) for i in range(n)]

    def go(ix):
        d = tempfile.mkdtemp(prefix="r_", dir=tmpdir)
        return run_replay([jobs[i] for i in ix], mode, timeout, d)

    res = [None] * len(jobs)
    with ThreadPoolExecutor(n) as ex:
        for ix, rs in zip(chunks, ex.map(go, chunks)):
            for i, r in zip(ix, rs):
                res[i] = r
    return res


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def selftest():
    """prerequisites: z3, the repository's interpreter, the decision procedure on one tiny identity"""
    from engine import ctx

    x, y = ctx.z3.Reals("x y")
    s = ctx.z3.Solver()
    s.add((x + y) * (x + y) != x * x + 2 * x * y + y * y)
    assert s.check() == ctx.z3.unsat
    import numba
    import numpy

    print("selftest ok: z3 %s numpy %s numba %s" % (ctx.z3.get_version_string(), numpy.__version__, numba.__version__))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-conf", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        j = json.load(open(a.replay))
        with tempfile.TemporaryDirectory(prefix="vrep_") as d:
            r = run_replay([j], j.get("mode", "jit"), 800, d)[0]
        print(json.dumps(r, indent=1))
        return 1 if r["status"] in ("fail", "exception") else 0
    t0 = time.time()
    prop, tier = a.property, a.tier
    from engine import loader, harness, ctx  # noqa

    loader.precompile()
    cases = harness.load_checks(prop)
    sel = [c for c in cases if c.tier == "quick" or tier == "thorough"]
    if a.case:
        sel = [c for c in cases if fnmatch.fnmatch(c.name, a.case)]
    budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 5400))
    res = run_symbolic(prop, sel, tier, seed, a.jobs, budget, a.verbose)
    known = [k for k in load_known() if k["property"] == prop]

    tmpd = tempfile.mkdtemp(prefix="vrep_")
    violations, knownhits, errors, inconcl = [], [], [], []
    validated = 0
    try:
        # candidates -> replay on the real code
        jobs, meta = [], []
        for c in sel:
            r = res[c.name]
            if "crash" in r:
                inconcl.append("%s: engine crash: %s" % (c.name, r["crash"].strip().splitlines()[-1][:200] if r["crash"].strip() else ""))
                jobs.append(dict(property=prop, case=c.name, values={}, tier=tier))
                meta.append((c, "probe", "engine-crash", r["crash"]))
            for m in r["inconclusive"]:
                inconcl.append("%s: %s" % (c.name, m))
            if r.get("timeout"):
                jobs.append(dict(property=prop, case=c.name, values={}, tier=tier))
                meta.append((c, "probe", "timeout", ""))
            seen = {}
            for label, kind, w, tb in r["failures"]:
                if seen.get((label, kind), 0) >= 3:
                    continue
                seen[(label, kind)] = seen.get((label, kind), 0) + 1
                if w is None:
                    if kind == "cex":
                        inconcl.append("%s/%s: solver reports sat but no replayable witness was found" % (c.name, label))
                    else:
                        inconcl.append("%s/%s: %s (no witness) %s" % (c.name, label, kind, tb[-300:]))
                    continue
                jobs.append(dict(property=prop, case=c.name, values=w, tier=tier))
                meta.append((c, kind, label, tb))
        if jobs:
            rr = [None] * len(jobs)
            # schedules are replayed on the interpreted source, where their interleaving can be forced
            for md in ("jit", "py"):
                ix = [i for i in range(len(jobs)) if meta[i][0].opts.get("replay", "jit") == md]
                for i, r in zip(ix, run_replay_parallel([jobs[i] for i in ix], md, 500, tmpd, 4)):
                    rr[i] = r
            # out-of-bounds candidates: retry with numba bounds checking
            retry = [i for i, r in enumerate(rr) if r["status"] == "pass" and (meta[i][0].boundscheck or "IndexError" in (meta[i][2] or ""))]
            modes = [m[0].opts.get("replay", "jit") for m in meta]
            if retry:
                r2 = run_replay_parallel([jobs[i] for i in retry], "bounds", 500, tmpd, 4)
                for i, r in zip(retry, r2):
                    if r["status"] != "pass":
                        rr[i] = r
                        modes[i] = "bounds"
            labels_done = {}
            for i, (j, r, (c, kind, label, tb)) in enumerate(zip(jobs, rr, meta)):
                bad = r["status"] in ("fail", "exception", "died")
                if r["status"] == "died" and kind == "probe":
                    bad = False
                    inconcl.append("%s/%s: replay died" % (c.name, label))
                if bad:
                    txt = r["fails"][0][0] + ": " + r["fails"][0][1].strip().splitlines()[-1][:300] if r["fails"] else r["status"]
                    hit = None
                    for k in known:
                        if fnmatch.fnmatch(c.name, k["case"]) and any(fnmatch.fnmatch(f[0], k.get("label", "*")) for f in r["fails"]):
                            # every failing label must be covered
                            if all(fnmatch.fnmatch(f[0], k.get("label", "*")) for f in r["fails"]):
                                hit = k
                                break
                    if hit:
                        if hit not in knownhits:
                            knownhits.append(hit)
                        continue
                    labels_done.setdefault((c.name, label), []).append("bad")
                    rd = os.path.join(ROOT, "evidence", "replay")
                    os.makedirs(rd, exist_ok=True)
                    rp = os.path.join(rd, "%s_%s_%d.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in c.name), i))
                    json.dump(dict(j, mode=modes[i], failing=r["fails"], label=label, kind=kind), open(rp, "w"), indent=1)
                    violations.append((c.name, label, txt, rp))
                else:
                    labels_done.setdefault((c.name, label), []).append(r["status"])
                    if kind == "cex":
                        pass
                    elif kind == "exc":
                        inconcl.append("%s/%s: exception only in the model: %s" % (c.name, label, tb.strip().splitlines()[-1][:200] if tb.strip() else ""))
            for i, (j, r, (c, kind, label, tb)) in enumerate(zip(jobs, rr, meta)):
                if kind == "cex" and r["status"] in ("pass", "assume", "skip", "harness-error") and "bad" not in labels_done.get((c.name, label), []):
                    if not any(fnmatch.fnmatch(c.name, k["case"]) for k in knownhits):
                        # an artefact of the model, not a defect: nothing is claimed about this obligation
                        inconcl.append("%s/%s: counterexample of the model did not reproduce on the real code (%s): %s" % (c.name, label, r["status"], r["fails"][:1]))
        # conformance: the same case, one concrete input per case, on the real code
        if not a.no_conf:
            cj, cm = [], []
            for c in sel:
                r = res[c.name]
                if r.get("witness") is not None and not r["failures"]:
                    cj.append(dict(property=prop, case=c.name, values=r["witness"], tier=tier))
                    cm.append(c)
            mode = "py" if tier == "quick" else "jit"
            cr = run_replay_parallel(cj, mode, 300 if tier == "quick" else 1500, tmpd, a.jobs)
            again = [i for i, r in enumerate(cr) if r["status"] in ("fail", "exception")]
            if a.verbose:
                for i in again:
                    print("  conformance retry", cm[i].name, [f[0] + ": " + f[1].strip().splitlines()[-1][:100] for f in cr[i]["fails"][:1]])
                print("  conformance walls", sorted([(r.get("wall", 0), c.name) for r, c in zip(cr, cm)])[-4:])
            again = [i for i in again if cm[i].opts.get("replay", "jit") == "jit"]
            if again and mode == "py":
                r2 = run_replay_parallel([cj[i] for i in again], "jit", 500, tmpd, a.jobs)
                for i, r in zip(again, r2):
                    cr[i] = r
            for j, r, c in zip(cj, cr, cm):
                if r["status"] == "pass":
                    validated += 1
                elif r["status"] in ("fail", "exception"):
                    hit = None
                    for k in known:
                        if fnmatch.fnmatch(c.name, k["case"]) and r["fails"] and all(fnmatch.fnmatch(f[0], k.get("label", "*")) for f in r["fails"]):
                            hit = k
                    if hit:
                        if hit not in knownhits:
                            knownhits.append(hit)
                        continue
                    rd = os.path.join(ROOT, "evidence", "replay")
                    os.makedirs(rd, exist_ok=True)
                    rp = os.path.join(rd, "%s_%s_conf.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in c.name)))
                    json.dump(dict(j, mode=c.opts.get("replay", "jit"), failing=r["fails"], label="conformance", kind="conformance"), open(rp, "w"), indent=1)
                    violations.append((c.name, "conformance", str(r["fails"][0][0]) + ": " + r["fails"][0][1].strip().splitlines()[-1][:300], rp))
                elif r["status"] not in ("skip",):
                    inconcl.append("%s: conformance run %s" % (c.name, r["status"]))
    finally:
        subprocess.run(["rm", "-rf", tmpd])

    tot = {}
    for r in res.values():
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in res.values() for f in r["functions"]})
    samples = []
    for c in sel:
        r = res[c.name]
        if r["samples"]:
            samples.append(dict(case=c.name, bounds=c.bounds, **r["samples"][0], witness={k: r["witness"][k] for k in list(r["witness"])[:6]} if r.get("witness") else None))
        if len(samples) >= 5:
            break
    doc = (sys.modules.get("checks." + prop.lower()).__doc__ or "").strip()
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=int(tot.get("paths", 0)), transitions=int(tot.get("branches", 0) + tot.get("goals", 0)),
            traces_validated_against_impl=validated, samples=samples,
            cases=len(sel), paths=int(tot.get("paths", 0)), branch_decisions=int(tot.get("branches", 0)),
            forks=int(tot.get("forks", 0)), obligations=int(tot.get("goals", 0)), discharged=int(tot.get("proved", 0)),
            solver_queries=int(tot.get("queries", 0)), solver_seconds=round(tot.get("solver_s", 0.0), 3),
            solver_unknown=int(tot.get("unknown", 0)), normal_form_only=int(tot.get("syntactic", 0)),
            functions_encoded=funcs, bounds=[dict(case=c.name, bound=c.bounds) for c in sel],
            inconclusive=inconcl[:60], explanation=doc,
            solver="z3 " + ctx.z3.get_version_string(),
        ),
        assumptions=[l.strip("- ").strip() for l in doc.splitlines() if l.strip().startswith("-")] or ["see DESIGN.md"],
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    if not a.case:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for m in inconcl[:20]:
        print("INCONCLUSIVE %s" % m[:400])
    for n, l, t, rp in violations[:20]:
        print("  violated: case=%s goal=%s: %s" % (n, l, t))
    print("%s %s: cases=%d paths=%d obligations=%d proved=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (
        prop, tier, len(sel), tot.get("paths", 0), tot.get("goals", 0), tot.get("proved", 0), tot.get("queries", 0), tot.get("solver_s", 0), validated, time.time() - t0))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(violations[0][3], ROOT)))
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR " + e)
        return 3
    if not sel or len([c for c in sel if res[c.name].get("goals")]) == 0:
        print("ERROR nothing was decided")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
