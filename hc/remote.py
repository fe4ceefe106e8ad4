"""C15: protocol of the remote optimizer, analysed against every short history of a server."""
import itertools

from .core import *
from .engine import _Raised

ENTRY = "hadar.optimizer.optimizer.RemoteOptimizer"
SOLVE = '''
from hadar.optimizer.optimizer import RemoteOptimizer

def solve(url, token, study):
    return RemoteOptimizer(url=url, token=token).solve(study)

def reply(job, status, progress):
    return {"job": job, "status": status, "progress": progress}

def done(job, status, progress, result):
    return {"job": job, "status": status, "progress": progress, "result": result}

def content(x):
    return {"networks": x, "converters": {}, "benchmark": {}}

def failed(job, status, progress, message):
    return {"job": job, "status": status, "progress": progress, "message": message}

def failed_late(job, status, progress, message, result):
    return {"job": job, "status": status, "progress": progress, "message": message, "result": result}
'''


class Server(object):
    """answers request k with entry k of the history; the last entry is repeated"""

    def __init__(self, history, docs, limit=12):
        self.history, self.docs, self.limit = history, docs, limit
        self.asked, self.used = [], []
        self.of = {}

    def answer(self, e, r, meth, kw):
        k = min(len(self.asked), len(self.history) - 1)
        if len(self.asked) >= self.limit:
            raise AnalysisError("keeps asking")
        self.of[r] = self.history[k]
        self.asked.append((meth, kw, e.site()))

    def attribute(self, e, r, name):
        code, doc = self.of[r]
        if name == "status_code":
            return const(code)
        if name == "ok":
            return const(code < 400)
        if name in ("text", "content"):
            self.used.append((r, code))
            return mk("call", "text", (self.docs[doc],), ())
        return mk("xattr", r, name)

    def method(self, e, r, name):
        code, doc = self.of[r]
        if name == "json":
            self.used.append((r, code))
            return self.docs[doc] if doc in self.docs else mk("xattr", r, "nojson")
        if name == "raise_for_status":
            if code >= 400:
                e.effect("raise", exc=mk("exc", "requests.HTTPError", ()), caught=e.try_depth > 0)
                raise _Raised()
            return NONE
        if name == "close":
            return NONE
        return mk("mcall", r, name, (), ())


CODES = (400, 401, 402, 403, 404, 405, 408, 409, 410, 418, 422, 429, 451, 499, 500, 501, 502, 503, 504, 511, 599)


def histories(thorough):
    """(name, [(code, document)], expected)"""
    waits = [()] + [w for n in (1, 2, 3) for w in itertools.product(("QUEUED", "COMPUTING"), repeat=n)]
    for w in waits:
        for last in ("TERMINATED", "ERROR"):
            yield [(200, d) for d in w + (last,)], last
    for c in CODES:
        yield [(c, "ERRORPAGE")], "http"
        yield [(200, "QUEUED"), (c, "ERRORPAGE")], "http"
        yield [(200, "QUEUED"), (200, "COMPUTING"), (c, "ERRORPAGE")], "http"
        # a proxy may answer with an error status and a well-formed body
        yield [(c, "TERMINATED")], "http"
        yield [(200, "COMPUTING"), (c, "TERMINATED")], "http"
        yield [(200, "QUEUED"), (200, "QUEUED"), (c, "COMPUTING"), (200, "TERMINATED")], "http"
    for w in waits[1:7]:
        yield [(200, d + "+") for d in w] + [(200, "TERMINATED")], "TERMINATED"
    # a failed job may come with what was computed so far
    for w in waits[:5]:
        yield [(200, d) for d in w + ("ERROR+",)], "ERROR"
    for c in (201, 202):
        yield [(c, "QUEUED"), (200, "COMPUTING"), (200, "TERMINATED")], "TERMINATED"


def session(rep, hist):
    e = rep.engine(summaries={"Study.to_json": lambda e, a, k: mk("jsonof", a[0]),
                              "Result.from_json": lambda e, a, k: mk("resultof", (list(a) + [k[x] for x in ("dict",) if x in k])[0])})
    rep.engines.remove(e)
    url, tok = e.sym("url", "str"), e.sym("token", "str")
    study = e.sym("study", ("inst", "Study"))
    job, prog, mes = e.sym("job", "str"), e.sym("progress", "int"), e.sym("message", "str")
    stale = srun(e, "content", SOLVE, [e.sym("unfinished", "any")])
    res = srun(e, "content", SOLVE, [e.sym("finished", "any")])
    docs = {"QUEUED": srun(e, "reply", SOLVE, [job, const("QUEUED"), prog]),
            "COMPUTING": srun(e, "reply", SOLVE, [job, const("COMPUTING"), prog]),
            "TERMINATED": srun(e, "done", SOLVE, [job, const("TERMINATED"), prog, res]),
            "QUEUED+": srun(e, "done", SOLVE, [job, const("QUEUED"), prog, stale]),
            "COMPUTING+": srun(e, "done", SOLVE, [job, const("COMPUTING"), prog, stale]),
            "ERROR+": srun(e, "failed_late", SOLVE, [job, const("ERROR"), prog, mes, stale]),
            "ERROR": srun(e, "failed", SOLVE, [job, const("ERROR"), prog, mes])}
    e.server = sv = Server(hist, docs)
    e.unroll_while = 40
    return e, sv, url, tok, study, res, job, prog, mes


def c15(rep):
    if ENTRY not in program().classes:
        raise Missing(ENTRY)
    seen = {}
    count = 0

    def report(rule, ok, subject, detail, site):
        k = (rule, subject)
        if k in seen and (seen[k] is False or ok is not False):
            return
        seen[k] = ok
        rep.obligations = [o for o in rep.obligations if (o[0], o[1]) != k]
        (rep.ok if ok else rep.bad if ok is False else rep.maybe)(rule, subject, detail, site)

    for hist, want in histories(rep.tier != "quick"):
        e, sv, url, tok, study, res, job, prog, mes = session(rep, hist)
        name = " > ".join("%d %s" % h if h[0] != 200 else h[1] for h in hist)
        kind = {"http": "answer with an error status", "TERMINATED": "finished job", "ERROR": "failed job"}[want]
        site = "solve of %s" % ENTRY
        count += 1
        m = e.seq
        value, err = None, None
        try:
            value = srun(e, "solve", SOLVE, [url, tok, study])
        except Dead:
            rs = raises(e, m)
            err = rs[-1] if rs else None
            if err is None:
                report("analysed", None, kind, "%s: end of the call not determined" % name, site)
                continue
        except AnalysisError as ex:
            if str(ex) == "keeps asking":
                report("polling ends", False, kind, "%s: the server is still asked after its last answer" % name, sv.asked[-1][2])
            else:
                report("analysed", None, kind, "%s: %s" % (name, ex), site)
            continue
        rep.use(e) if count == 1 else None
        where = err.site if err is not None else site
        # error answers
        bad = [h for h in hist[:len(sv.asked)] if h[0] >= 400]
        if want == "http":
            if value is not None:
                report("error status raises", False if not unmodelled(value) else None, "status %d" % bad[0][0] if bad else kind,
                       "%s: returns %s instead of raising" % (name, show(value)[:80]), site)
            else:
                report("error status raises", True, kind, name, where)
            use = [c for _, c in sv.used if c >= 400]
            report("error content unused", not use, kind, "%s: the content of the answer with status %s is used" % (name, use[:1]), site)
            if len(sv.asked) > len(hist):
                report("error status raises", False, kind, "%s: the server is asked again after an error status" % name, sv.asked[-1][2])
        elif want == "ERROR":
            if value is not None:
                report("failed job raises", False if not unmodelled(value) else None, kind, "%s: returns %s" % (name, show(value)[:80]), site)
            else:
                x = err.exc
                texts = [x] + ([w.val for w in e.obj(x).writes] if x.op == "ref" else [])
                has = any(contains(t, lambda y: y is mes) for t in texts)
                report("failed job raises", True, kind, name, where)
                report("error carries the message", has, kind, "%s: the error raised does not carry the server's message" % name, where)
        else:
            if value is None:
                report("finished job returned", False, kind, "%s: raises %s" % (name, exc_name(err)), where)
            else:
                good = value is mk("resultof", res)
                report("finished job returned", True if good else False if not unmodelled(value) else None, kind,
                       "%s: returns %s, expected the result of the last answer" % (name, show(value)[:100]), site)
        if want in ("TERMINATED", "ERROR"):
            report("polling ends", True if len(sv.asked) <= len(hist) + 1 else False, kind,
                   "%s: %d requests" % (name, len(sv.asked)), sv.asked[-1][2] if sv.asked else site)
        # requests
        for k, (meth, kw, s) in enumerate(sv.asked):
            what = "study sent" if k == 0 else "job asked"
            u = kw.get("url")
            parts = list(u.args) if u is not None and u.op == "strcat" else [u] if u is not None else []
            text = "".join(cval(p) if is_str(p) else "\0" for p in parts)
            path = "/api/v1/study" if k == 0 else "/api/v1/result/"
            okurl = u is not None and contains(u, lambda y: y is url) and path in text and (k == 0 or contains(u, lambda y: y is job))
            sure = u is None or u.op in ("strcat", "sym", "const")
            report("%s at the configured server" % what, True if okurl else False if sure else None, what,
                   "%s %s, expected %s of the configured server%s" % (meth, show(u) if u is not None else "nowhere", path, "" if k == 0 else " for the job the server named"), s)
            report("%s with the right method" % what, meth == ("post" if k == 0 else "get"), what, "%s request" % meth, s)
            allv = [v for v in kw.values()]
            deep = []
            for v in allv:
                deep.append(v)
                if v.op == "ref":
                    deep += [w.val for w in e.obj(v).writes if w.val is not None]
            hastok = any(contains(v, lambda y: y is tok) for v in deep)
            report("%s with the configured token" % what, hastok, what, "no part of the request carries the token", s)
            p = kw.get("params")
            if p is not None and p.op == "ref" and e.obj(p).kind == "dict":
                t = e.read(p, const("token"))
                report("%s with the configured token" % what, t is tok or (t is None and hastok), what, "token sent is %s" % (show(t)[:80] if t is not None else "missing"), s)
            if k == 0:
                hasst = any(contains(v, lambda y: y is mk("jsonof", study)) for v in deep)
                j = kw.get("json", kw.get("data"))
                whole = mk("jsonof", study)
                j0 = j
                while j is not None and j is not whole and (j.op == "copy" or j.op == "call" and j.args[0] in ("json.dumps", "builtins.dict", "copy.deepcopy")):
                    j = j.args[0] if j.op == "copy" else j.args[1][0]
                part = j is not None and contains(j, lambda y: y.op == "item" and y.args[0] is whole)
                report("study sent whole", True if j is whole else None if j0 is not None and not part and (unmodelled(j) or hasst) else False, what,
                       "the document sent is %s" % (show(j)[:120] if j is not None else "missing"), s)
    rep.notes.append("%d server histories: every sequence of up to 3 queued/computing answers before the end, %d error status codes at the "
                     "first, second and third answer" % (count, len(CODES)))


CHECKS = {"C15": c15}
