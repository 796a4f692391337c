#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: explores the specification, generates behaviours from it, runs them on the code in /repo, and
replays what the code did through the specification. Exit 0: held. Exit 1: violated (with a VIOLATION line).
Exit 2: the check itself failed."""
import argparse
import collections
import glob
import json
import os
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import engine
import parts
from plan import PLAN


def known_findings():
    res = []
    with open(os.path.join(HERE, "findings.jsonl")) as f:
        for line in f:
            if line.strip():
                r = json.loads(line)
                if r["kind"] == "known":
                    res.append(r)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the tools work")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="report every property's rules")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    deadline = start + (840 if a.tier == "thorough" else 120)
    eng = engine.Engine()
    try:
        if a.setup:
            print("tools: ok", eng.tools())
            return 0
        if a.replay:
            return replay(eng, a)
        plan = PLAN[a.property]
        res = [p.run(eng, a.tier, seed, deadline, a.property) for p in plan["parts"]]
        return report(a, seed, start, plan, res)
    except engine.Broken as e:
        print("CHECK FAILED property=%s %s" % (a.property, e))
        return 2
    finally:
        eng.close()


def report(a, seed, start, plan, results):
    pid = a.property
    known = [k for k in known_findings() if k["property"] == pid]
    bad, machinery = [], []
    for r in results:
        for v in r["bad"]:
            if v["property"] == "HARNESS":
                machinery.append(v)
            elif v["property"] in (pid, "*") or a.all:
                bad.append(v)
    listed, fresh = collections.OrderedDict(), []
    for v in bad:
        k = next((k for k in known if k["rule"] == v["rule"] and k["where"] == v.get("where")), None)
        if k:
            listed[k["what"]] = 1
        else:
            fresh.append(v)
    out = os.path.join(HERE, "evidence")
    os.makedirs(out, exist_ok=True)
    for f in glob.glob(os.path.join(out, pid + "-violation-*.json")):
        os.unlink(f)
    for what in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    rules = collections.OrderedDict()
    for v in fresh:
        rules.setdefault((v["property"], v["rule"]), []).append(v)
    for n, ((p, rule), vs) in enumerate(list(rules.items())[:8]):
        path = os.path.join(out, "%s-violation-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "rule": rule, "source": vs[0]["source"], "where": vs[0].get("where"), "event": vs[0].get("event"),
                       "case": vs[0].get("case"), "recorded": vs[0].get("recorded")}, f, indent=1, default=str)
        print("  broken rule: %s (%d times, first in %s)" % (rule, len(vs), vs[0].get("where")))
        print("VIOLATION property=%s replay=%s" % (pid if p == "*" else p, path))
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": [], "models": [], "parts": []}
    hits = collections.Counter()
    for r in results:
        cov["states"] += r.get("states", 0)
        cov["transitions"] += r.get("transitions", 0)
        cov["traces_validated_against_impl"] += r.get("traces", 0)
        cov["evaluations"] += r.get("evaluations", 0)
        cov["samples"] += r.get("samples", [])[:2]
        cov["models"] += r.get("models", [])
        cov["parts"].append(r["name"])
        hits.update(r.get("hits", {}))
    cov["situations"] = dict(hits.most_common())
    cov["distinct_nontrivial"] = len(hits)
    cov["rule"] = plan.get("rule", "evaluations are recorded operations of the real code that the specification judged; "
                           "distinct_nontrivial counts the different situations (operation, outcome, circumstances) among them")
    cov["exhaustive"] = False
    with open(os.path.join(out, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": a.tier, "seed": seed, "level": plan["level"], "coverage": cov,
                   "assumptions": plan.get("assumptions", parts.ASSUMPTIONS), "wall_s": round(time.time() - start, 1), "violations": len(fresh)},
                  f, indent=1, default=str)
    if fresh:
        return 1
    if machinery:
        print("CHECK FAILED property=%s the harness disagrees with the specification: %s" % (pid, [(v["rule"], v.get("where")) for v in machinery[:3]]))
        return 2
    print("OK property=%s traces=%d operations=%d states=%d situations=%d %.1fs" % (
        pid, cov["traces_validated_against_impl"], cov["evaluations"], cov["states"], len(hits), time.time() - start))
    return 0


def replay(eng, a):
    with open(a.replay) as f:
        r = json.load(f)
    part = parts.BY_SOURCE[r["source"]]
    vs = [v for v in part.again(eng, r["case"]) if v["property"] in (a.property, "*")]
    for v in vs:
        print("  broken rule: %s at %s" % (v["rule"], v.get("event")))
    if vs:
        print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
    return 1 if vs else 0


if __name__ == "__main__":
    sys.exit(main())
