import ctypes
import importlib
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

sys.setrecursionlimit(30000)

MODULES = ["lp", "work", "study", "jsonrt", "remote", "stages", "tables", "plots", "own"]


def table():
    out = {}
    for m in MODULES:
        mod = importlib.import_module("hc." + m)
        out.update(mod.CHECKS)
    return out


LIMIT = float(os.environ.get("HC_LIMIT", "240"))  # seconds for one property; beyond it the rest is undecided


class Deadline(BaseException):
    pass


def guarded(f, *args):
    """f(*args), interrupted after LIMIT seconds"""
    me = threading.get_ident()
    done = threading.Event()

    def watch():
        if not done.wait(LIMIT):
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(Deadline))

    w = threading.Thread(target=watch, daemon=True)
    threading.stack_size(0)
    w.start()
    try:
        f(*args)
    finally:
        done.set()


def both(check, rep):
    """the check; once more with what earlier calls leave behind when some state outlives its call"""
    from . import kept, lp
    from .core import Report

    kept.STALE.clear()
    kept.reset()
    try:
        check(rep)
    finally:
        found = kept.stale()
    kept.reset()
    if not found:
        return
    lp._LP.clear()
    try:
        kept.STALE.update({k: v[0] for k, v in found.items()})
        for k, (mode, text, site) in sorted(found.items()):
            rep.notes.append("state kept in %s: %s (%s)" % (".".join(k), text, site))
        again = Report(rep.prop, rep.tier)
        again.kept = found
        try:
            check(again)
        except Exception as ex:
            again.maybe("analysis", rep.prop, "second pass stopped: %s: %s" % (type(ex).__name__, ex), None)
        have = {(o[0], o[1], o[2]) for o in rep.obligations}
        for o in again.obligations:
            if o[2] != "holds" and (o[0], o[1], o[2]) not in have:
                rep.obligations.append(o)
        for e in again.engines:
            rep.use(e)
    finally:
        kept.STALE.clear()
        lp._LP.clear()


def beyond(rep):
    """once more with the sizes the code mentions lowered into the label universes"""
    from .core import program
    from .program import SCALE

    sizes = program().sizes
    if SCALE or not sizes or rep.of("violated"):
        return
    text = ", ".join("%s in %s (%s:%d)" % (v, f, p, l) for p, f, l, v in sizes[:6])
    site = "%s:%d" % (sizes[0][0], sizes[0][2])
    for k in (2, 1):
        out = tempfile.mkdtemp(prefix="hcscale")
        try:
            r = subprocess.run([sys.executable, "-W", "ignore", "-m", "hc.run", rep.prop, "--tier", rep.tier], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                               env=dict(os.environ, HC_SCALE=str(k), HC_OUT=out, HC_LIMIT=str(min(LIMIT, 200))), capture_output=True, text=True, timeout=280)
            lines = r.stdout.splitlines()
            bad = [l.strip() for l in lines if l.strip().startswith("violated ")]
            if r.returncode == 1 and bad and any(l.startswith("VIOLATION ") for l in lines):
                rep.bad("sizes beyond those enumerated", text, "with the bound lowered to %d: %s" % (k, bad[0][:500]), site)
                return
            if r.returncode == 0 and " undecided=0 " in lines[-1]:
                rep.ok("sizes beyond those enumerated", text, "bound lowered to %d" % k, site)
            else:
                rep.maybe("sizes beyond those enumerated", text, "with the bound lowered to %d: %s" % (k, (lines or ["no answer"])[-1][:200]), site)
        except subprocess.TimeoutExpired:
            rep.maybe("sizes beyond those enumerated", text, "no answer in time", site)
        finally:
            shutil.rmtree(out, ignore_errors=True)


def main(argv):
    from .core import Report, finish, Missing

    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        else:
            ids.append(a)
    t = table()
    rc = 0
    for i in ids or sorted(t):
        t0 = time.time()
        rep = Report(i, tier)
        try:
            guarded(both, t[i], rep)
            beyond(rep)
        except Deadline:
            rep.maybe("analysis", i, "the analysis was stopped after %d s" % LIMIT, None)
        except Missing as ex:
            rep.maybe("entry point", str(ex), "public entry point %s not found" % ex, None)
        except Exception as ex:
            if os.environ.get("HC_DEBUG"):
                raise
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            rep.maybe("analysis", i, "the analysis stopped: %s: %s (%s:%d)" % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno), None)
        rc = max(rc, finish(rep, t0))
    return rc


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    res = []
    th = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    th.start()
    th.join()
    sys.exit(res[0] if res else 3)
