"""Self-test: a mutant followed by a mechanical rewrite of the same files must still be reported.

usage: python3 selftest/compose.py [name-filter]     K=<rewrites per mutant> EVERY=<n> SEED=<n> JOBS=<n>
"""
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import ast
import auto_ref
import run


def rewrite(T, src):
    a = ast.parse(src)
    before = ast.unparse(a)
    after = ast.unparse(ast.fix_missing_locations(T().visit(a)))
    return None if after == before else after + "\n"


def one(job):
    (prop, name, edits), Ts = job
    out = []
    d0 = tempfile.mkdtemp(prefix="hcst")
    try:
        shutil.copytree(os.path.join(run.BASE, "hadar"), os.path.join(d0, "hadar"))
        if run.apply(d0, edits):
            return name, prop, []
        n = 0
        for T in Ts:
            new = {}
            for rel in {e[0] for e in edits}:
                try:
                    s = rewrite(T, open(os.path.join(d0, rel)).read())
                except Exception:
                    s = None
                if s is not None:
                    new[rel] = s
            if not new:
                continue
            n += 1
            d = tempfile.mkdtemp(prefix="hcst")
            try:
                shutil.copytree(os.path.join(d0, "hadar"), os.path.join(d, "hadar"))
                for rel, s in new.items():
                    open(os.path.join(d, rel), "w").write(s)
                p = subprocess.run([sys.executable, "-m", "hc.run"] + prop.split(","), cwd=os.path.dirname(HERE), capture_output=True, text=True,
                                   env=dict(os.environ, HC_REPO=d, HC_OUT=os.path.join(d, "out")))
                if "VIOLATION property=" not in p.stdout:
                    out.append((T.__name__, [l for l in p.stdout.splitlines() if l.startswith("UNDECIDED")][:1] or p.stdout.strip().splitlines()[-1:]))
            finally:
                shutil.rmtree(d)
            if n >= int(os.environ.get("K", "2")):
                break
        return name, prop, out
    finally:
        shutil.rmtree(d0)


def main():
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    filt = sys.argv[1] if len(sys.argv) > 1 else ""
    cases = [c for c in run.load("mut") if filt in (str(c[0]) + " " + c[1])]
    cases = cases[int(os.environ.get("SEED", "1")) % int(os.environ.get("EVERY", "1"))::int(os.environ.get("EVERY", "1"))]
    run.BASE = tempfile.mkdtemp(prefix="hcbase")
    try:
        subprocess.run("git -C /repo archive HEAD hadar | tar -x -C %s" % run.BASE, shell=True, check=True)
        jobs = []
        for c in cases:
            Ts = list(auto_ref.ALL)
            rnd.shuffle(Ts)
            jobs.append((c, Ts))
        bad = 0
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
            for name, prop, out in ex.map(one, jobs):
                for t, l in out:
                    bad += 1
                    print("missed %s %s after %s: %s" % (prop, name, t, (l or ["?"])[0][:260]))
                sys.stdout.flush()
        print("%d mutants, %d missed" % (len(jobs), bad))
    finally:
        shutil.rmtree(run.BASE)


if __name__ == "__main__":
    main()
