#!/usr/bin/env python3
"""entry point: run.py <property> [clause ...] [-v]"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.harness import run_contract      # noqa: E402
from sa.names import run_names            # noqa: E402

REPO = os.environ.get("SA_REPO", "/repo")


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" | ")
                out.append((key.strip(), text.strip()))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    prop = args[0]
    t0 = time.time()
    if prop == "C35":
        ctx = run_names(prop, REPO)
    else:
        ctx = run_contract(prop, REPO, os.path.join(HERE, "specs"), args[1:] or None, verbose)
    bad = [r for r in ctx.results if r["verdict"] == "violation"]
    und = [r for r in ctx.results if r["verdict"] == "undecided"]
    kn = known(prop)
    listed, fresh = [], []
    for r in bad:
        key = r["clause"] + "/" + r["label"]
        hit = [t for k, t in kn if k == key]
        (listed if hit else fresh).append((r, hit))
    for r, hit in listed:
        pass
    seen = set()
    for r, hit in listed:
        if hit[0] not in seen:
            seen.add(hit[0])
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
    ok = sum(1 for r in ctx.results if r["verdict"] == "ok")
    ev = {
        "property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Value-numbering contracts: each clause interprets the current source of the anchored functions "
                           "abstractly (nothing is executed) and compares the resulting normal forms with the "
                           "contract's. obligations = comparisons made, discharged = those whose normal forms agree, undecided = "
                           "those that reached a construct the analysis does not model.",
            "clauses": ctx.clauses, "obligations": len(ctx.results), "discharged": ok, "undecided": len(und),
            "functions_analysed": sorted("%s:%s" % (p, q) for p, q, _ in ctx.funcs),
            "statements_analysed": len(ctx.stmts), "call_sites_evaluated": ctx.calls, "values_compared": ctx.values,
            "rules": sorted({r["clause"] + "/" + r["label"] for r in ctx.results}),
            "undecided_items": [{k: r.get(k) for k in ("clause", "label", "reason")} for r in und],
        },
        "wall_s": round(time.time() - t0, 3), "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in und:
        print("note: undecided %s/%s: %s" % (r["clause"], r["label"], r["reason"]))
    print("%s: %d clauses, %d obligations, %d discharged, %d undecided, %d known, %d violations (%.1fs)" % (
        prop, ctx.clauses, len(ctx.results), ok, len(und), len(listed), len(fresh), time.time() - t0))
    if fresh:
        rp = os.path.join(HERE, "evidence", prop + ".violation.txt")
        with open(rp, "w") as f:
            for r, _ in fresh:
                f.write("rule %s/%s\n  at       %s\n  reason   %s\n  found    %s\n  required %s\n  events   %s\n\n" % (
                    r["clause"], r["label"], r.get("at"), r["reason"], r.get("actual"), r.get("expected"), r.get("events")))
        for r, _ in fresh[:0 if verbose else 12]:
            print("  rule %s/%s at %s: %s" % (r["clause"], r["label"], r.get("at"), r["reason"]))
            print("     found    %.300s" % r.get("actual"))
            print("     required %.300s" % r.get("expected"))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
