#!/usr/bin/env python3
"""Builds and confirms /verif/seeded/<id>/ from tools/seeds/*.py (dicts ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO).

usage: mkseeds.py [id...]   (applies each change to /repo, runs build, tests, demo, checks, and undoes it)"""
import importlib.util, json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("tests") or [])

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def load():
    out = []
    d = os.path.join(HERE, "seeds")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            out += m.SEEDS
    return out

DEMO = '''#!/bin/bash
# exit 0 when the property holds on the code in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy
export NO_PROXY=localhost,127.0.0.1 no_proxy=localhost,127.0.0.1
exec timeout 200 /opt/venv/bin/python "$here/demo.py"
'''

def main():
    want = set(sys.argv[1:])
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    added = sh("git -C /repo log --reverse --format=%H | head -1").stdout.strip()
    bad = 0
    for s in load():
        if want and s["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
        try:
            for path, old, new in s["edits"]:
                p = os.path.join(REPO, path)
                t = open(p).read()
                assert t.count(old) >= 1, "%s: pattern not found %r" % (s["id"], old)
                open(p, "w").write(t.replace(old, new, 1))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            o = tempfile.mktemp(suffix=".json")
            sh("bash /opt/vp/test.sh %s" % o)
            res = json.load(open(o)); os.remove(o)
            passed = res.get("passed") or []
            r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
            c = sh("python3 -m hc.run %s" % s["property"], cwd=VERIF)
        finally:
            sh("git -C /repo checkout -- .")
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        for path in {e[0] for e in s["edits"]}:
            orig = set(sh("git -C /repo show %s:%s" % (base, path)).stdout.splitlines())
            for l in open(os.path.join(d, "patch.diff")).read().splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig and len(s["edits"]) == 1:
                    print("   not an original line:", s["id"], l)
        caught = ("VIOLATION property=" + s["property"]) in c.stdout
        fine = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and len(passed) >= 111
        bad += not fine
        print("%s %-28s build=%d passed=%d demo(unchanged)=%d demo(patched)=%d caught=%s" % (
            "ok  " if fine else "BAD ", s["id"], b.returncode, len(passed), r0.returncode, r1.returncode, caught))
        if not fine:
            print("   ", r0.stdout[-600:], "\n   ", r1.stdout[-300:], sorted(set(res.get("failed") or []))[:3])
    return bad

sys.exit(main())
