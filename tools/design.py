"""rewrites the part of DESIGN.md between the markers from properties.jsonl, the checks' headers and cases, and the last evidence:
   /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import sys
from collections import OrderedDict

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from engine import harness  # noqa


def head(prop):
    """sections of the check's header"""
    doc = importlib.import_module("checks." + prop.lower()).__doc__ or ""
    sec, cur = OrderedDict(), None
    for l in doc.strip().split("\n")[1:]:
        for k in ("Symbolic inputs", "Oracles", "Oracle", "Decided step by step of the chain rule", "Decided for every outcome of the draws", "Decided step by step, as for the hafnian sampler (C27),", "Decided", "Assumptions", "Contracts", "Finding", "Findings"):
            if l.startswith(k + ":") or (k.endswith(",") and l.startswith(k)):
                cur = k
                sec[cur] = l[len(k) + (not k.endswith(",")):].strip()
                break
        else:
            if cur and l.strip():
                sec[cur] += " " + l.strip()
    return sec


def main():
    out = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        out.append("### %s %s\n" % (pid, p["title"]))
        if not os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
            out.append("Not claimed.\n")
            continue
        cs = harness.load_checks(pid)
        s = head(pid)
        out.append("* **Anchored in** %s." % ", ".join(x.replace("thewalrus/", "") for x in p["anchors"]["files"]))
        out.append("* **Symbolic** %s" % s.get("Symbolic inputs", "the inputs of each case"))
        if s.get("Oracles") or s.get("Oracle"):
            out.append("* **Oracle** %s" % (s.get("Oracles") or s.get("Oracle")))
        for k in s:
            if k.startswith("Decided"):
                out.append("* **%s** %s" % (k.rstrip(","), s[k]))
        if s.get("Contracts"):
            out.append("* **Contracts** %s" % s["Contracts"])
        if s.get("Assumptions"):
            a = [x.strip() for x in (" " + s["Assumptions"]).split(" - ") if x.strip()]
            out.append("* **Assumed** " + "; ".join(a) + ".")
        for k in ("Finding", "Findings"):
            if s.get(k):
                out.append("* **Finding** " + s[k])
        q = [c for c in cs if c.tier == "quick"]
        b = list(OrderedDict.fromkeys(c.bounds for c in q if c.bounds))
        if pid in ("C34", "C40"):
            b = ["the bounds of the %d borrowed cases" % len(q)]
        elif pid == "C36":
            b = [x for x in b if x]
        shown, size = [], 0
        for x in b:
            if size + len(x) > 1100:
                shown.append("... (%d more, listed in the evidence)" % (len(b) - len(shown)))
                break
            shown.append(x)
            size += len(x)
        out.append("* **Bounds** quick, %d cases: %s.%s" % (len(q), "; ".join(shown), " Thorough adds %d cases." % (len(cs) - len(q)) if len(cs) > len(q) else ""))
        try:
            e = json.load(open(os.path.join(ROOT, "evidence", pid + ".json")))
            if e.get("tier") == "quick":
                out.append("* **Cost** about %d s quick on 8 cores." % max(1, round(e["wall_s"])))
        except Exception:
            pass
        out.append("* **Beyond the tests** %s." % p["why_tests_cant"].rstrip("."))
        out.append("")
    f = os.path.join(ROOT, "DESIGN.md")
    t = open(f).read()
    a, b = "<!-- properties: generated by tools/design.py -->", "<!-- end of properties -->"
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n\n" + "\n".join(out) + "\n" + t[j:]
    a, b = "<!-- planted: generated by tools/design.py -->", "<!-- end of planted -->"
    i, j = t.index(a) + len(a), t.index(b)
    caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
    rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "not run")))
    open(f, "w").write(t[:i] + "\n\n" + "\n".join(rows) + "\n\n" + t[j:])


main()
