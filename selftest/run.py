"""Self-test of the machinery: small edits of a scratch copy of /repo.

usage: python3 selftest/run.py [mut|ref] [name-filter]
Every entry of MUT must be reported for (at least) the property it names; every entry of REF
(behaviour kept) must leave all checks quiet.  Nothing is executed from the edited tree.
"""
import ast
import atexit
import importlib.util
import warnings

warnings.simplefilter("ignore")
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = None  # /repo as committed, whatever is being tried out in its working tree


def load(name):
    out = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith(name) and f.endswith(".py"):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            out += m.CASES
    return out


def apply(root, edits):
    for path, old, new in edits:
        p = os.path.join(root, path)
        s = open(p).read()
        if s.count(old) < 1:
            return "pattern not found in %s: %r" % (path, old[:80])
        s = s.replace(old, new, 1)
        try:
            ast.parse(s)
        except SyntaxError as ex:
            return "syntax: %s" % ex
        open(p, "w").write(s)
    return None


def one(case):
    prop, name, edits = case
    d = tempfile.mkdtemp(prefix="hcst")
    try:
        shutil.copytree(os.path.join(BASE, "hadar"), os.path.join(d, "hadar"))
        err = apply(d, edits)
        if err:
            return case, None, err
        env = dict(os.environ, HC_REPO=d, HC_OUT=os.path.join(d, "out"))
        ids = [] if prop is None or os.environ.get("ALL") else prop.split(",")
        r = subprocess.run([sys.executable, "-m", "hc.run"] + ids, cwd=os.path.dirname(HERE), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return case, r.returncode, r.stdout
    finally:
        shutil.rmtree(d)


def main():
    kind = sys.argv[1] if len(sys.argv) > 1 else "mut"
    filt = sys.argv[2] if len(sys.argv) > 2 else ""
    cases = [c for c in load(kind) if filt in (str(c[0]) + " " + c[1])]
    bad = 0
    global BASE
    BASE = tempfile.mkdtemp(prefix="hcbase")
    atexit.register(shutil.rmtree, BASE)
    subprocess.run("git -C /repo archive HEAD hadar | tar -x -C %s" % BASE, shell=True, check=True)
    with ThreadPoolExecutor(8) as ex:
        for (prop, name, _), rc, out in ex.map(one, cases):
            if rc is None:
                print("BROKEN CASE", prop, name, out)
                bad += 1
                continue
            viol = [l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")]
            und = [l for l in out.splitlines() if l.startswith("UNDECIDED")]
            if kind == "mut":
                ok = any(p in viol for p in prop.split(","))
            else:
                ok = not viol and rc == 0
            err = "Traceback" in out or rc not in (0, 1)
            if not ok or err or "-v" in sys.argv:
                print("%s %s %s viol=%s undecided=%d rc=%s" % ("ok  " if ok and not err else "FAIL", prop, name, viol, len(und), rc))
                if not ok or err:
                    bad += 1
                    lines = [l for l in out.splitlines() if not l.startswith("OK ")]
                    if bad <= 6:
                        print("    " + "\n    ".join(l[:420] for l in lines[-2:]))
            elif kind == "ref" and und:
                print("und  %s: %s" % (name, und[0][:300]))
    print("%d cases, %d bad" % (len(cases), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
