"""What is said when dispatching ends: the exit status, and where the source is
moved, agree with what happened to the elements."""
import itertools
import re
from rulebase import *
from failures import norm
from terms import C, Eval, S, Unsupported, const
from dispatch import sym

DR = "arki::python::arki_scan::DispatchResults"
COUNTERS = ("successful", "duplicates", "in_error_dataset", "not_imported")


def succeeded(n, ignore):
    ok, dup, err, no = n
    return not no and not err and (bool(ok or dup) if ignore else bool(ok) and not dup)


def said(n):
    return ", ".join("%d %s" % (v, c.replace("_", " ")) for v, c in zip(n, COUNTERS))


def verdicts(db, rep):
    """DispatchResults::success on every combination of what was counted"""
    todo = [f for f in fns(db, DR + "::success") if f.get("body")]
    rep.anchor(bool(todo), "DispatchResults::success")
    for fn in todo:
        rep.funcs.add(fn["q"])
        bools = [i for i, p in enumerate(fn["params"]) if "bool" in p["t"]]
        for n in itertools.product(range(3), repeat=4):
            for ignore in (0, 1):
                this = S("this")
                for c, v in zip(COUNTERS, n):
                    this = ("upd", this, c, C(v))
                try:
                    got = {const(p.ret) if p.ret is not None else None
                           for p in Eval(db).run(fn, [C(ignore) if i in bools else S(p["n"]) for i, p in enumerate(fn["params"])], this=this)}
                except Unsupported:
                    got = {None}
                if None in got or len(got) != 1:
                    rep.count("verdicts not decided")
                    continue
                rep.count("verdicts decided")
                if bool(got.pop()) != succeeded(n, ignore):
                    rep.bad("verdict", norm(fn["q"]), where(fn), "a source with %s is %sa success when duplicates are %sallowed" % (said(n), "not " if succeeded(n, ignore) else "", "" if ignore else "not "))
                    return


class Status(Client):
    """how a status is made from the results of the sources: `kinds` are what
    was counted for the first source and for the ones that follow"""
    fold_inc = True

    def __init__(self, kinds, results):
        self.kinds, self.results = kinds, results

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return True

    def may_throw(self, fl, st, ev):
        return False

    def iter_begin(self, fl, st, what, node):
        s = sym(what) if isinstance(what, tuple) else ""
        if self.results not in s:
            return st
        n = min(1, int(st.auto))
        for c, v in zip(COUNTERS, self.kinds[n]):
            st = st.with_env("%s[*].%s" % (what[1], c), ("c", v))
        return st.with_auto(str(n + 1), "source with %s" % said(self.kinds[n]))


def status_makers(db):
    return [f for f in db.functions.values() if f.get("body") and
            any("DispatchResults>" in p["t"] and "vector" in p["t"] for p in f.get("params", ())) and f.get("rt") in ("int", "long", "unsigned int", "bool")]


def statuses(db, rep):
    """{function id: (index of "all sources were processed", index of "duplicates are allowed")}"""
    out = {}
    for fn in status_makers(db):
        bools = [i for i, p in enumerate(fn["params"]) if p["t"] in ("bool", "int", "const bool")]
        res = [i for i, p in enumerate(fn["params"]) if "DispatchResults>" in p["t"]]
        if len(bools) != 2 or len(res) != 1:
            continue
        rep.funcs.add(fn["q"])
        kinds = list(itertools.product(range(2), repeat=4))
        table = []
        for a, b in [(k, k) for k in kinds] + [((1, 0, 0, 0), k) for k in kinds] + [(k, (1, 0, 0, 0)) for k in kinds]:
            for v in itertools.product((0, 1), repeat=2):
                cl = Status((a, b), "results@")
                fl = Flow(db, cl)
                params = {fn["params"][res[0]]["n"]: ("s", "results@")}
                for i, x in zip(bools, v):
                    params[fn["params"][i]["n"]] = ("c", x)
                o = fl.run(fn, "0", params=params)
                for st, val, line in o.ret:
                    seen = [(), (a,), (a, b)][int(st.auto)]
                    table.append((seen, v, val, line, st))
        best = None
        for perm in ((0, 1), (1, 0)):
            wrong = []
            for seen, v, val, line, st in table:
                if val is None or val[0] != "c":
                    continue
                rep.count("statuses decided")
                want = bool(v[perm[0]]) and all(succeeded(n, v[perm[1]]) for n in seen)
                got = (val[1] == 0) if fn["rt"] != "bool" else bool(val[1])
                if got != want:
                    wrong.append((seen, v, val, line, st, want))
            if best is None or len(wrong) < len(best[1]):
                best = (perm, wrong)
        perm, wrong = best
        out[fn["id"]] = (bools[perm[0]], bools[perm[1]])
        if wrong:
            seen, v, val, line, st, want = wrong[0]
            rep.bad("status", norm(fn["q"]), where(fn, line), "the exit status says that %s when %s, duplicates are %sallowed, and the sources had: %s" %
                    ("something failed" if want else "all went well", "all sources were processed" if v[perm[0]] else "not all sources were processed", "" if v[perm[1]] else "not ",
                     "; ".join(said(n) for n in seen) or "nothing"), st.steps())
    rep.anchor(bool(out), "how the exit status is made from the results")
    return out


class Sources(Client):
    """what calls the function for each source says that it failed"""

    def __init__(self, rep, fn, param):
        self.rep, self.fn, self.param = rep, fn, param

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return fn.get("rel") == self.fn.get("rel") and fn["id"] != self.fn["id"]

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.name.startswith("operator") and ev.obj and sym(ev.obj).startswith(self.param):
            self.rep.count("sources read")
            fl.throw(st.with_auto("failed", "line %s: the source fails" % ev.line), "std::runtime_error", ev.line)
            return [(st if st.auto == "failed" else st.with_auto("done"), ("void",))]
        return None

    def iter_end(self, fl, st, what, node, how, val=None):
        if not isinstance(what, tuple) and val is not None and val[0] == "c" and not val[1]:
            self.rep.bad("status", norm(self.fn["q"]), where(self.fn, node.get("l")), "the remaining sources are not read", st.steps())
        return st


def sources(db, rep):
    out = set()
    for fn in db.functions.values():
        if not fn.get("body") or not fn["q"].startswith("arki::python::") or fn.get("rt") != "bool":
            continue
        ps = [p for p in fn.get("params", ()) if p["t"].replace("const ", "").startswith("std::function<void (arki::dataset::Reader &)")]
        if not ps:
            continue
        out.add(fn["id"])
        rep.funcs.add(fn["q"])
        fl = Flow(db, None)
        cl = Sources(rep, fn, None)
        fl = Flow(db, cl)
        fl.stack = [fn]
        cl.param = sym(fl.vkey(ps[0])) if isinstance(fl.vkey(ps[0]), tuple) else str(fl.vkey(ps[0]))
        for st, v, line in fl.run(fn, "start").ret:
            if v is None or v[0] != "c":
                continue
            if st.auto == "failed" and v[1]:
                rep.bad("status", norm(fn["q"]), where(fn, line), "a source that failed is reported as processed", st.steps())
            if st.auto != "failed" and not v[1]:
                rep.bad("status", norm(fn["q"]), where(fn, line), "sources are reported as failed when none did", st.steps())
    rep.anchor(bool(out), "what reads each source")
    return out


class Runs(Client):
    """what dispatches the sources of a command"""

    def __init__(self, db, rep, fn, makers, readers):
        self.db, self.rep, self.fn, self.makers, self.readers = db, rep, fn, makers, readers

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        if fn["id"] in self.makers or fn["q"].startswith(DR) or fn["q"].endswith(("FileSource::close", "MetadataDispatch::process")):
            return False
        if closer(self.db, fn):
            return False
        return fn["id"] in self.readers or fn.get("rel") == self.fn.get("rel")

    def may_throw(self, fl, st, ev):
        return False

    def bad(self, line, msg, st):
        self.rep.bad("status", norm(self.fn["q"]), where(self.fn, line), msg, st.steps())

    def put(self, st, add=(), drop=(), note=None):
        return st.with_auto(frozenset((set(st.auto) | set(add)) - set(drop)), note)

    def call(self, fl, st, ev):
        a = st.auto
        if ev.f and ev.f.endswith("MetadataDispatch::process"):
            self.rep.count("sources dispatched")
            self.rep.site("dispatching", ev.where())
            fl.throw(self.put(st, ("failed", "this failed"), (), "line %s: dispatching fails" % ev.line), "std::runtime_error", ev.line)
            return [(self.put(st, ("unrecorded", "this done"), ("this failed",)), ("s", "stats@%s" % ev.line))]
        if ev.name in ("emplace_back", "push_back") and ev.args and sym(ev.args[0]).startswith("stats@"):
            return [(self.put(st, (), ("unrecorded",)), ("t",))]
        if ev.f == DR + "::success" and ev.obj and sym(ev.obj).startswith("stats@"):
            if ev.argn and not any(x.get("k") in ("ref", "mem") for x in walk(ev.argn[0])):
                self.bad(ev.line, "whether duplicates are allowed does not depend on what was asked", st)
            return [(st, ("s", "success@%s" % sym(ev.args[0] if ev.args else ("c", 0))))]
        g = self.db.functions.get(ev.id)
        if g and closer(self.db, g):
            v = ev.args[0] if ev.args else None
            self.rep.count("sources closed")
            if v is not None:
                if "this failed" in a and not (v[0] == "c" and not v[1]):
                    self.bad(ev.line, "a source that failed may be closed as successful", st)
                elif "this failed" not in a and v[0] == "c" and v[1]:
                    self.bad(ev.line, "a source is closed as successful whatever its results", st)
                elif "this failed" not in a and v[0] == "c" and not v[1]:
                    self.bad(ev.line, "a source is closed as failed whatever its results", st)
                elif v[0] == "s" and sym(v).startswith("success@"):
                    pass
            return [(self.put(st, (), ("this failed", "this done")), ("void",))]
        if ev.id in self.makers:
            allp, ign = self.makers[ev.id]
            if "unrecorded" in a:
                self.bad(ev.line, "the results of a source are not recorded", st)
            v = ev.args[allp]
            if not any(x.get("k") in ("ref", "mem") for x in walk(ev.argn[ign])):
                self.bad(ev.line, "whether duplicates are allowed does not depend on what was asked", st)
            if v[0] == "c" and v[1] and "failed" in a:
                self.bad(ev.line, "the exit status says that all sources were processed after one failed", st)
            elif v[0] == "c" and v[1] and "each" not in a and "unread" in a:
                self.bad(ev.line, "the exit status says that all sources were processed without reading them", st)
            elif v[0] == "c" and not v[1] and "failed" not in a:
                self.bad(ev.line, "the exit status says that not all sources were processed when none failed", st)
            zero = v[0] == "c" and not v[1]
            return [(self.put(st, ("made",)), ("s", "status failed@" if zero else "status@"))]
        if ev.name in ("_PyLong_FromLong", "PyLong_FromLong") and ev.args:
            v = ev.args[0]
            self.rep.count("statuses given")
            if "failed" in a and not (v[0] == "c" and v[1] or sym(v).startswith("status failed@")):
                self.bad(ev.line, "the exit status may say that all went well after a source failed", st)
            if "failed" not in a and not sym(v).startswith("status"):
                self.bad(ev.line, "the exit status does not depend on the results", st)
            return None
        return None

    def iter_begin(self, fl, st, what, node):
        if not isinstance(what, tuple):
            return self.put(st, ("each",), ("unrecorded", "this failed", "this done"))
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        if not isinstance(what, tuple):
            if "unrecorded" in st.auto:
                self.bad(node.get("l"), "the results of a source are not recorded", st)
            if val is not None and val[0] == "c" and not val[1]:
                self.bad(node.get("l"), "the remaining sources are not read", st)
            if moving(self.db, self.fn) and {"this failed", "this done"} & set(st.auto):
                self.bad(node.get("l"), "a source is not closed", st)
            return self.put(st, (), ("unrecorded", "this failed", "this done"))
        return st


def closer(db, fn):
    """takes whether the source was successful, and moves it"""
    c = fn.get("cls")
    if not c or not any("bool" in p["t"] for p in fn.get("params", ())):
        return False
    n = {f["n"] for f in db.records.get(c, {}).get("fields", ())}
    return {"moveok", "moveko"} <= n


def moving(db, fn):
    return any(x.get("k") == "call" and closer(db, db.functions.get(x.get("id"), {})) for x in fbody(fn))


def runs(db, rep, makers, readers):
    n = 0
    for fn in db.functions.values():
        if not fn.get("body"):
            continue
        if not any(x.get("k") == "call" and (x.get("f") or "").endswith("MetadataDispatch::process") for x in fbody(fn)):
            continue
        if not any(x.get("k") == "call" and x.get("id") in makers for x in fbody(fn)):
            continue
        n += 1
        rep.funcs.add(fn["q"])
        cl = Runs(db, rep, fn, makers, readers)
        Flow(db, cl).run(fn, frozenset())
    rep.count("commands followed", n)


class Closing(Client):
    def __init__(self, db, rep, fn):
        self.db, self.rep, self.fn = db, rep, fn

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return fn.get("cls") == self.fn.get("cls")

    def may_throw(self, fl, st, ev):
        return False

    def fact(self, fl, st, atom, truth, line):
        x, rel, c = atom
        a = st.auto
        if rel == "==" and c == 0 and str(x).startswith(self.param):
            return st.with_auto(frozenset((set(a) - {"ok", "ko"}) | {"ko" if truth else "ok"}))
        m = re.match(r"this\.(moveok|moveko)(?:'[0-9.]+)?\.empty\(\)$", sym(("s", str(x))))
        if rel == "==" and c == 0 and m and not truth:
            return st.with_auto(a | {"no " + m.group(1)})
        return st

    def call(self, fl, st, ev):
        if ev.name == "empty":
            return None
        for v in ev.args:
            for d, ok in (("moveok", "ok"), ("moveko", "ko")):
                if v[0] == "s" and sym(v).endswith("." + d):
                    self.rep.count("sources moved")
                    if ok not in st.auto:
                        self.rep.bad("moved", norm(self.fn["q"]), where(self.fn, ev.line), "a source may be moved to %s when it was %s" % (d, "not successful" if ok == "ok" else "successful"), st.steps())
                    return [(st.with_auto(st.auto | {"moved"}), ("t",))]
        return None


def closing(db, rep):
    todo = [f for f in db.functions.values() if f.get("body") and closer(db, f)]
    rep.anchor(bool(todo), "what moves a source that was dispatched")
    for fn in todo:
        rep.funcs.add(fn["q"])
        cl = Closing(db, rep, fn)
        fl = Flow(db, cl)
        fl.stack = [fn]
        p = [p for p in fn["params"] if "bool" in p["t"]][0]
        k = fl.vkey(p)
        cl.param = sym(k) if isinstance(k, tuple) else str(k)
        for st, v, line in fl.run(fn, frozenset()).ret:
            for d, other in (("moveok", "ko"), ("moveko", "ok")):
                if not {"moved", other, "no " + d} & st.auto:
                    rep.bad("moved", norm(fn["q"]), where(fn, line), "a source may not be moved to %s" % d, st.steps())


def check(db, rep):
    rep.rule("a source is a success only when all its elements were imported, or were duplicates when those are allowed; the exit status says so only when it holds for every source and none failed; sources are moved accordingly")
    verdicts(db, rep)
    makers = statuses(db, rep)
    readers = sources(db, rep)
    runs(db, rep, makers, readers)
    closing(db, rep)
    rep.need("verdicts decided", 50)
    rep.need("statuses decided", 50)
    rep.need("sources read", 1)
    rep.need("sources dispatched", 1)
    rep.need("statuses given", 1)
    rep.need("sources moved", 1)
