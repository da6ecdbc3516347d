#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the one catalogue below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN = "value numbering"
NOTE = ("Decides the property from the current source by interprocedural abstract interpretation over algebraic normal forms: nothing of "
        "/repo is executed, no paths are handed to a solver. Trusted: the models of numpy/scipy calls in sa/models.py, the arithmetic in "
        "sa/alg.py (real, not floating point), and the contract. A construct outside the models is reported as undecided and never as "
        "a violation.")

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=VN, note="", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=list(observe)))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=None, note="", observe=[]))
    NA.append((id, reason))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["technique"] is None:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py " + p["id"],
                       "technique": "static analysis: " + p["technique"], "level": "other",
                       "level_note": NOTE + (" " + p["note"] if p["note"] else "")})
    man = {"version": 1, "setup_cmd": "python3 -c 'import sa.harness'", "checks": checks,
           "not_applicable": [{"property": i, "reason": r} for i, r in NA],
           "notes": "Stdlib-only static analyser in sa/, contracts in specs/, known findings in known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
