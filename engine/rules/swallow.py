"""An exception that stands for an unexpected failure never ends as a normal
result: every handler that would catch one throws again, hands the error on or
records it."""
from rulebase import *
from db import is_test
from failures import norm, cleanup_fn, convention, callers

# exceptions that are an answer, not a failure of a system or database call
ANSWERS = ("NotFound", "SpliceNotAvailable", "SendfileNotAvailable", "TimedOut", "PythonException",
           "invalid_argument", "out_of_range", "length_error", "domain_error", "bad_cast", "AssertionFailed",
           "TestFailed", "TestSkipped", "JSONParseException", "grib_support_not_implemented")
# calls that hand an error to the caller's error channel
CHANNELS = ("PyErr_", "archive_set_error", "set_std_exception", "set_all_error")
ENDS = {"exit", "_exit", "abort", "terminate", "quick_exit"}
GROW = {"push_back", "emplace_back", "insert", "emplace", "append", "operator<<", "operator+="}

# (function, reason): handlers that may go on
TOLERATED = {
    "dataset::CheckPool::remove": "the data that could not be removed and their dataset are named in a warning",
    "dataset::Session::expand_remote_query": "a server that can't expand the query is sent the expanded query; what is "
                                             "compared is only what the servers that can do so answer",
    "metadata::reader::infer_basedir": "a stream has no directory: the documented fallback is the current one",
    "foreach_checker": "a dataset that can't be opened is skipped with a warning that names it",
    "segment::data::dir::BaseChecker::repack::Rename::rollback": "cleanup of the unfinished copy, with a warning; the "
                                                                 "original data is put back in any case",
    "segment::data::dir::BaseChecker::repack::Rename::rollback_nothrow": "as above",
    "utils::subprocess::Popen::main": "child process: the exit code reports it",
}


def var(ref):
    return ref.get("v") if ref.get("d") != "enum" else None


class Handler:
    def __init__(self, fn, tr, h, owner):
        self.fn, self.tr, self.h, self.owner = fn, tr, h, owner
        self.type = (h.get("t") or "...").replace("const ", "").replace("&", "").strip()


def handlers(db):
    """every exception handler outside the tests, once per source position"""
    seen = set()
    for fn in sorted(db.functions.values(), key=lambda f: (f["rel"], f["line"], f["id"])):
        if is_test(fn["rel"]) or "/utils/tests" in fn["rel"] or not fn.get("body"):
            continue
        for x in walk(fn["body"]):
            if x.get("k") == "try":
                for h in x["h"]:
                    k = (fn["rel"], h["l"], h.get("t"))
                    if k in seen:
                        continue
                    seen.add(k)
                    yield Handler(fn, x, h, fn)


def general(db, t):
    if t == "...":
        return True
    last = t.rsplit("::", 1)[-1]
    return last not in ANSWERS


def declared_in(body):
    out = set()
    for x in walk(body):
        if x.get("k") == "decl":
            for v in x["v"]:
                out.add(v.get("id"))
        elif x.get("k") in ("forr",):
            v = x.get("var") or {}
            out.add(v.get("id"))
    return out


class Judge:
    """Structural pass over one handler: can it be left normally without
    having thrown or recorded the error?"""

    def __init__(self, db, body, exc, depth=3):
        self.db = db
        self.local = declared_in(body)
        self.exc = exc
        self.depth = depth

    # -- expressions
    def mentions_exc(self, n):
        for x in walk(n):
            if x.get("k") == "ref" and self.exc is not None and var(x) == self.exc:
                return True
            if x.get("k") == "call" and (x.get("f") or "").endswith("current_exception"):
                return True
            if x.get("k") == "ref" and var(x) in self.tainted:
                return True
        return False

    tainted = frozenset()
    lambdas = {}

    def outer(self, n):
        """lvalue that outlives the handler"""
        while isinstance(n, dict):
            k = n.get("k")
            if k == "mem":
                n = n["b"]
                if isinstance(n, dict) and n.get("k") == "this":
                    return True
                continue
            if k == "this":
                return True
            if k == "ref":
                return var(n) not in self.local and var(n) != self.exc
            if k == "call":
                n = n.get("o") or (n.get("a") or [None])[0]
                continue
            if k in ("cast", "icast", "full", "temp", "un", "tobool"):
                n = n.get("e")
                continue
            if k == "sub":
                n = n["b"]
                continue
            return False
        return False

    def records(self, e):
        """(records, ends) of evaluating expression e"""
        rec = ends = False
        for x in self.evaluated(e):
            k = x.get("k")
            if k == "throw":
                ends = True
            elif k == "bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                if self.outer(x["a"]) and (self.flag(x["b"]) or self.mentions_exc(x["b"])):
                    rec = True
            elif k in ("call", "ctor"):
                f = x.get("f") or ""
                last = f.rsplit("::", 1)[-1]
                if last in ENDS:
                    ends = True
                elif any(c in f for c in CHANNELS):
                    rec = True
                elif last == "rethrow_exception":
                    ends = True
                elif last == "operator=" and self.outer(x.get("o") or (x.get("a") or [None])[0]) \
                        and self.mentions_exc(x.get("a")):
                    rec = True
                elif f.startswith("std::function") and last == "operator()" and self.mentions_exc(x.get("a")):
                    rec = True
                elif last == "operator<<" and self.mentions_exc(x.get("a")) and not self.stderr(x):
                    o = x.get("o") or (x.get("a") or [None])[0]
                    if self.outer(o):
                        rec = True
                    else:
                        self.tainted = frozenset(self.tainted | {var(z) for z in walk(o) if z.get("k") == "ref" and var(z) in self.local})
                elif last in GROW and self.outer(x.get("o") or (x.get("a") or [None])[0]):
                    o = x.get("o") or (x.get("a") or [None])[0]
                    if last in ("operator<<", "operator+=", "append"):
                        rec = rec or (self.mentions_exc(x.get("a")) and not self.stderr(o))
                    else:
                        rec = True
                elif self.depth > 0 and (x.get("id") in self.db.functions or x.get("id") in self.lambdas):
                    r, en = self.callee(x)
                    rec |= r
                    ends |= en
        return rec, ends

    def stderr(self, o):
        return any(x.get("k") == "ref" and x.get("n", "").rsplit("::", 1)[-1] in ("cerr", "cout", "clog") for x in walk(o))

    def flag(self, e):
        while isinstance(e, dict) and e.get("k") in ("cast", "icast", "full"):
            if e.get("k") == "cast":
                break
            e = e["e"]
        return isinstance(e, dict) and (e.get("k") == "bool" or (
            e.get("k") == "ref" and "cv" in e and "::" in e.get("q", "")))

    def evaluated(self, e):
        if isinstance(e, list):
            for x in e:
                yield from self.evaluated(x)
            return
        if not isinstance(e, dict):
            return
        if e.get("k") == "lambda":
            return
        if e.get("k") == "cond" or (e.get("k") == "bin" and e.get("op") in ("&&", "||")):
            # only what is always evaluated
            yield from self.evaluated(e.get("c") if e["k"] == "cond" else e["a"])
            return
        yield e
        for v in e.values():
            if isinstance(v, (dict, list)):
                yield from self.evaluated(v)

    def callee(self, x):
        lam = self.lambdas.get(x["id"])
        fn = {"body": lam["b"], "params": lam["params"]} if lam else self.db.functions[x["id"]]
        if not fn.get("body") or not lam and is_test(fn["rel"]):
            return False, False
        m = self.db.method_of.get(x["id"])
        if not lam and m and m[1].get("virt"):
            return False, False
        sub = Judge(self.db, fn["body"], None, self.depth - 1)
        sub.lambdas = self.lambdas
        # the error, or a text made from it, handed on as an argument
        sub.tainted = frozenset(p["id"] for p, a in zip(fn["params"], x.get("a") or ()) if self.mentions_exc(a))
        byval = set(p["id"] for p in fn["params"] if not (p.get("ref") or p["t"].rstrip().endswith(("&", "*"))))
        sub.local |= byval
        norm_, bad, brk = sub.stmt(fn["body"], False)
        outs = norm_ | {r for r, l in bad}
        return (bool(outs) and outs == {True}), not outs

    # -- statements: (records on normal exit, [(recorded, line)] returns, breaks)
    def seq(self, stmts, rec):
        cur = {rec}
        rets, brk = [], set()
        for s in stmts:
            nxt = set()
            for r in cur:
                n, b, k = self.stmt(s, r)
                nxt |= n
                rets += b
                brk |= k
            cur = nxt
            if not cur:
                break
        return cur, rets, brk

    def stmt(self, n, rec):
        if n is None:
            return {rec}, [], set()
        if isinstance(n, list):
            return self.seq(n, rec)
        k = n["k"]
        if k == "{}":
            return self.seq(n["b"], rec)
        if k == "if":
            r, e = self.records(n.get("c"))
            if e:
                return set(), [], set()
            known = self.knows(n.get("c"))
            a = self.stmt(n["a"], rec or r or known)
            b = self.stmt(n.get("b"), rec or r or known) if n.get("b") else ({rec or r or known}, [], set())
            return a[0] | b[0], a[1] + b[1], a[2] | b[2]
        if k in ("for", "while", "forr"):
            n1, rets, brk = self.stmt(n["b"], rec)
            if k == "forr":
                # what is recorded on each element
                return (n1 or {rec}) | brk, rets, set()
            return {rec} | n1 | brk, rets, set()
        if k == "do":
            n1, rets, brk = self.stmt(n["b"], rec)
            return n1 | brk, rets, set()
        if k == "switch":
            outs, rets, brk = self.stmt(n["b"], rec) if n.get("b") else ({rec}, [], set())
            return {rec} | outs | brk, rets, set()
        if k in ("break", "continue"):
            return set(), [], {rec}
        if k == "ret":
            r, e = self.records(n.get("e")) if n.get("e") else (False, False)
            if e:
                return set(), [], set()
            return set(), [(rec or r or self.failure_value(n.get("e")), n["l"])], set()
        if k == "try":
            a = self.stmt(n["b"], rec)
            outs, rets, brk = set(a[0]), list(a[1]), set(a[2])
            for h in n["h"]:
                b = self.stmt(h["b"], rec)
                outs |= b[0]
                rets += b[1]
                brk |= b[2]
            return outs, rets, brk
        if k == "label" and "b" in n:
            return self.stmt(n["b"], rec)
        if k == "decl":
            for v in n["v"]:
                if v.get("i") is not None and self.mentions_exc(v["i"]):
                    self.tainted = frozenset(self.tainted | {v.get("id")})
        r, e = self.records(n)
        if e:
            return set(), [], set()
        return {rec or r}, [], set()

    def knows(self, c):
        """a test of which failure it was"""
        return any(x.get("k") == "call" and (x.get("f") or "").rsplit("::", 1)[-1] in ("code", "value", "default_error_condition")
                   and self.mentions_exc(x) for x in walk(c))

    def failure_value(self, e):
        for x in walk(e):
            if x.get("k") == "ref" and any(
                    w in x.get("n", "").upper() for w in ("ERROR", "CORRUPT", "FAIL")):
                return True
        return False


def judge(db, h):
    exc = (h.h.get("v") or {})
    exc = exc.get("id") if isinstance(exc, dict) else exc
    j = Judge(db, h.h["b"], exc)
    j.lambdas = {x["id"]: x for x in walk(h.fn["body"]) if x.get("k") == "lambda" and x.get("id")}
    outs, rets, brk = j.stmt(h.h["b"], False)
    bad = [h.h["l"]] if False in outs | brk else []
    return bad + [l for r, l in rets if not r]


def tolerated(db, fn, seen=()):
    """the function, or every caller of a helper made of it, is listed"""
    if norm(fn["q"]) in TOLERATED or cleanup_fn(db, fn) or norm(fn["q"]).rsplit("::", 1)[-1].startswith("~"):
        return True
    cs = [c for c in callers(db).get(fn["id"], ()) if c in db.functions and not is_test(db.functions[c]["rel"])]
    if not cs or fn["id"] in seen:
        return False
    return all(tolerated(db, db.functions[c], seen + (fn["id"],)) for c in cs)


def may_fail(db):
    """what a guarded region must be able to reach for its handler to matter"""
    def system(node):
        f = node.get("f") or ""
        return "::" not in f and convention(f) is not None or f.startswith("std::filesystem::")

    def database(node):
        return (node.get("f") or "").startswith("sqlite3_")
    return callgraph_reach(db, database), callgraph_reach(db, system), database, system


def reaches(db, ids, direct, body):
    for x in walk(body):
        if x.get("k") in ("call", "ctor"):
            if direct(x) or x.get("id") in ids:
                return True
            m = db.method_of.get(x.get("id"))
            if m and m[1].get("virt") and ids & all_overriders(db, x["id"]):
                return True
            if x.get("f") in ("std::make_shared", "std::make_unique"):
                return True
            if x.get("f", "").startswith("std::function") and x["f"].endswith("operator()"):
                return True
        if x.get("k") == "lambda" and x.get("id") in ids:
            return True
    return False


def run(db, rep, which, mins):
    dids, sids, dq, sq = may_fail(db)
    ids, direct = (dids, dq) if which == "database" else (sids | dids, lambda n: sq(n) or dq(n))
    for h in handlers(db):
        rep.count("exception handlers")
        if not general(db, h.type):
            rep.count("handlers of exceptions that are answers")
            continue
        if not reaches(db, ids, direct, h.tr["b"]):
            continue
        rep.count("handlers a %s failure can reach" % which)
        rep.site("handlers a %s failure can reach" % which, "%s (%s)" % (short(h.fn["q"]), where(h.fn, h.h["l"])))
        rep.funcs.add(h.fn["q"])
        bad = judge(db, h)
        if not bad:
            continue
        if tolerated(db, h.fn):
            rep.count("handlers tolerated with a stated reason")
            continue
        rep.bad("error-swallowed", norm(h.fn["q"]), where(h.fn, h.h["l"]),
                "the handler of %s can be left (line %s) without throwing, handing on or recording the error" % (
                    h.type, ", ".join(map(str, bad))), [], h.type)
    rep.need("exception handlers", 300)
    rep.need("handlers a %s failure can reach" % which, mins)


def check(db, rep):
    rep.rule("every exception handler that a failed system, library or database call can reach throws again, hands the "
             "error to the caller's error channel, or records it in something that outlives the handler, on every path "
             "through it; the few that may go on are listed with their reason")
    run(db, rep, "database" if rep.prop == "P06" else "system", 25)
