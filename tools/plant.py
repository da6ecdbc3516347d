"""plant(id, property, edits, demo, needs, breaks): writes seeded/<id>/ and confirms it: builds, tests pass, demo 0 / nonzero, check result"""
import json
import os
import shutil
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), here]
os.environ.setdefault("OMP_NUM_THREADS", "1")
import numpy as np
'''
SH = '''#!/bin/bash
exec timeout 280 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True)


def stable():
    r = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    o = json.load(open("/tmp/plant_out.json"))
    passed = set(o.get("passed", []))
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]


def plant(id, prop, edits, demo, needs, breaks, stub=False):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = "/repo/CADMium/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        open(d + "/demo.py", "w").write(HEAD + demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        if stub:
            shutil.copy(os.path.join(V, "tools", "pylibxc_stub.py"), d + "/pylibxc.py")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        st = stable()
        dm = sh("cd /repo && bash %s/demo.sh" % d)
        c = sh("cd %s && python3 run.py %s" % (V, prop))
        allc = ""
    finally:
        sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")
    d0 = sh("cd /repo && bash %s/demo.sh" % d)
    ok = b.returncode == 0 and not st and dm.returncode != 0 and d0.returncode == 0
    print("%-28s %s build=%d failing=%d demo=%d/%d check=%d %s" % (
        id, "OK " if ok else "BAD", b.returncode, len(st), d0.returncode, dm.returncode, c.returncode,
        "caught" if c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout else "MISSED"))
    if not ok:
        print(d0.stdout[-600:], d0.stderr[-600:], dm.stdout[-300:], dm.stderr[-300:])
    elif c.returncode != 1:
        print(c.stdout[-500:])
    assert not sh("git -C /repo status --porcelain").stdout.strip()
