"""Plants a bug:  plant.py SPEC.py   (run while nothing else uses /repo)

A spec sets ID, PROP, EDITS = [(file below databind/src/databind, old, new)], NEEDS, WHAT and DEMO (a Python program that
exits with an error when the bug is present).  The change is applied to /repo, built, tested, shown by the demo, put to the
check of the property, and undone; the result is kept in /verif/seeded/ID.
"""

import json
import os
import subprocess
import sys

REPO, HERE = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + "/databind/src/databind/"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable():
    sh("bash /opt/vp/build.sh")
    sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open("/tmp/plant_out.json"))
    want = set(base["stable"])
    got = set(out["passed"])
    return sorted(want - got)


def main(path, checks):
    s = {}
    exec(open(path).read(), s)
    assert not sh(f"git -C {REPO} status --porcelain").stdout, "repo is not clean"
    d = f"{HERE}/seeded/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/sh\ncd /repo && PYTHONPATH=/repo/databind/src exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'.replace(
        'cd /repo && ', 'here="$(cd "$(dirname "$0")" && pwd)"\ncd /repo && ').replace('"$(dirname "$0")/demo.py"', '"$here/demo.py"'))
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["WHAT"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(f"sh {d}/demo.sh")
    ok = True
    if r.returncode:
        print("DEMO FAILS ON CLEAN TREE", r.stdout, r.stderr[-600:])
        ok = False
    try:
        for f, old, new in s["EDITS"]:
            text = open(SRC + f).read()
            assert text.count(old) == 1, f"{f}: {text.count(old)} matches of {old!r}"
            open(SRC + f, "w").write(text.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        blame = [x for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
        orig = sh(f"cd {REPO} && git show de249b9:databind/src/databind/{s['EDITS'][0][0]}").stdout
        if not any(x[1:] in orig and x[1:].strip() for x in blame):
            print("WARNING: no original line changed")
        missing = stable()
        if missing:
            print("TESTS BREAK:", missing)
            ok = False
        r = sh(f"sh {d}/demo.sh")
        if not r.returncode:
            print("DEMO DOES NOT FAIL")
            ok = False
        else:
            print("demo:", (r.stderr.strip().splitlines() or ["?"])[-1][:150])
        for c in checks or [s["PROP"]]:
            r = sh(f"cd {HERE} && ./check {c} --tier quick")
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(s["ID"], c, "CAUGHT" if r.returncode == 1 and v else f"MISSED (exit {r.returncode})", "" if v else r.stderr[-300:], len(v))
    finally:
        sh(f"git -C {REPO} checkout -- .")
        sh("bash /opt/vp/build.sh")
    print("kept" if ok else "NOT VALID", s["ID"])


main(sys.argv[1], sys.argv[2:])
