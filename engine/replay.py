"""Concrete replay of a case against the real package.

usage: python -m engine.replay JOBFILE OUTFILE
JOBFILE: json list of {property, case, values};  OUTFILE: json list of results."""
import json
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_one(job):
    from engine import harness

    cs = harness.load_checks(job["property"])
    c = [x for x in cs if x.name == job["case"]][0]
    h = harness.RepH(job["values"], job.get("tier", "quick"))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c(h)
    except harness.AssumeFailed:
        return dict(status="assume", fails=[], goals=h.ngoals)
    except (harness.SkipReplay, harness.NotPresent):
        return dict(status="skip", fails=[], goals=h.ngoals)
    except Exception as e:
        tb = traceback.format_exc()
        return dict(status="exception", fails=[["exception:%s" % type(e).__name__, tb[-1500:]]] , goals=h.ngoals,
                    etype=type(e).__name__, more=[list(f) for f in h.fails])
    finally:
        h.close()
    return dict(status="fail" if h.fails else "pass", fails=[[l, str(m)[:600]] for l, m in h.fails], goals=h.ngoals)


def main():
    sys.path.insert(0, ROOT)
    sys.path.insert(1, os.environ.get("VERIF_REPO", "/repo"))
    if os.environ.get("NUMBA_DISABLE_JIT") == "1":
        # this numba intrinsic has no interpreted version
        import numba.cpython.unsafe.tuple as nt

        nt.tuple_setitem = lambda t, i, v: t[:i] + (v,) + t[i + 1:]
        from engine import access

        access.install_recorder()
    jobs = json.load(open(sys.argv[1]))
    out = []
    for j in jobs:
        t0 = time.time()
        try:
            r = run_one(j)
        except BaseException as e:  # harness problems
            r = dict(status="harness-error", fails=[[repr(e), traceback.format_exc()[-1500:]]], goals=0)
        r["wall"] = round(time.time() - t0, 2)
        out.append(r)
        with open(sys.argv[2], "w") as f:
            json.dump(out, f)


if __name__ == "__main__":
    main()
