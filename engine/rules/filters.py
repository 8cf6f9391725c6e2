"""A postprocess filter runs only if it's allowed, and is always stopped."""
import re
from rulebase import *
from db import is_test
from failures import norm
from rollback import clean

CHILD = "arki::utils::subprocess::Child"
PROCESS = "arki::stream::FilterProcess"
OUTPUT = "arki::StreamOutput"


def base(s):
    return re.sub(r"'\d+", "", s)


# -- stopping a filter

class Stop(Client):
    """automaton: (filter: None unknown / True started / False none, stdin closed?, waited for?)"""

    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.waits = 0

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return None
        return fn["rel"].startswith("arki/stream") and not (fn.get("cls") == PROCESS)

    def may_throw(self, fl, st, ev):
        return bool(ev.virt) or ev.name == "flush_filter_output"

    def call(self, fl, st, ev):
        has, closed, waited = st.auto
        if ev.cls == CHILD:
            if ev.name == "get_stdin":
                return [(st, ("c", -1) if closed else ("s", "stdin@%d" % ev.line))]
            if ev.name == "close_stdin":
                return [(st.with_auto((has, True, waited), "line %d: stdin of the filter closed" % ev.line), ("void",))]
            if ev.name.startswith(("get_", "close_")):
                return [(st, ("s", "%s@%d" % (ev.name, ev.line)))]
        if ev.kind == "call" and (ev.cls == PROCESS and ev.name in ("stop", "terminate") or ev.cls == CHILD and ev.name in ("wait", "terminate", "kill")):
            self.waits += 1
            if ev.name in ("stop", "wait") and not closed:
                self.rep.bad("a filter is waited for that waits for more input", norm(self.root["q"]), ev.where(),
                             "the filter is waited for with its standard input still open", st.steps(), "input")
            return [(st.with_auto((has, closed, True), "line %d: filter waited for" % ev.line), ("void",))]
        return None

    def fact(self, fl, st, atom, truth, line):
        s, rel, c = atom
        has, closed, waited = st.auto
        if s.startswith("stdin@") and (rel == "==" and c == -1 or rel == "<" and c == 0) and truth:
            return st.with_auto((has, True, waited), "line %d: stdin of the filter is closed" % line)
        if re.search(r"filter_process(\.get\(\))?$", base(s)) and rel == "==" and c == 0 and not waited:
            if has is not None and has == truth:
                return None
            return st.with_auto((not truth, closed, waited))
        return st


def stops(db, rep):
    rep.rule("stopping or aborting a filter closes its standard input before it's waited for, and every way out, exceptions included, has waited for it")
    n = 0
    for m in ("stop_filter", "abort_filter"):
        for fn in implementations(db, OUTPUT, m):
            if is_test(fn["rel"]) or not fn.get("body"):
                continue
            c = Stop(rep, fn)
            fl = Flow(db, c, depth=6)
            fl.stack = [fn]
            out = fl.run(fn, (None, False, False))
            n += 1
            rep.count("ways to stop a filter")
            rep.count("places that wait for a filter, by path", c.waits)
            rep.funcs.add(fn["id"])
            rep.site("stop", where(fn))
            for st, line, how in [(s, l, "returns") for s, v, l in out.ret] + [(s, None, "returns") for s in out.norm] + [(s, l, "throws") for s, t, l in out.thr]:
                has, closed, waited = st.auto
                if has is not False and not waited:
                    rep.bad("a filter is left running", norm(fn["q"]), where(fn, line if how == "returns" and line else fn["line"]),
                            "%s %s without waiting for the filter" % (m, how), st.steps(), how)
            for u in fl.unsupported:
                rep.errors.append("unsupported construct in %s: %s" % (fn["q"], u))
    rep.need("ways to stop a filter", 2)
    rep.need("places that wait for a filter, by path", 2)


# -- who starts a filter

class Start(Client):
    """automaton: (state, command validated?) state: idle, running, stopped, checked, aborted"""

    def __init__(self, rep, root, ids):
        self.rep, self.root, self.ids = rep, root, ids
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return False
        return fn["rel"] == self.root["rel"] and not fn.get("virt") and any(x.get("k") == "call" and x.get("id") in self.all for x in fbody(fn))

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return ev.id not in self.ids["abort"] and ev.kind == "call" and st.auto[0] == "running"

    def call(self, fl, st, ev):
        if ev.id in self.ids["start"]:
            self.n += 1
            arg = clean(ev.args[0]) if ev.args else ""
            if "validate_command" not in arg and not any(arg and v == arg for v in st.auto[1]):
                self.rep.bad("a filter is started without a check that it's allowed", norm(self.root["q"]), ev.where(),
                             "the command given to start_filter doesn't come from Postprocess::validate_command", st.steps(), "allowed")
            return [(st.with_auto(("running", ()), "line %d: filter started" % ev.line), ("s", "filter@%d" % ev.line))]
        if ev.id in self.ids["stop"]:
            fl.throw(st.with_auto(("checked", ())), "any", ev.line)
            return [(st.with_auto(("stopped", ()), "line %d: filter stopped" % ev.line), ("s", "filter@%d" % ev.line))]
        if ev.id in self.ids["abort"]:
            return [(st.with_auto(("aborted", ()), "line %d: filter aborted" % ev.line), ("void",))]
        if ev.cls == PROCESS and ev.name == "check_for_errors":
            fl.throw(st.with_auto(("checked", ())), "any", ev.line)
            return [(st.with_auto(("checked" if st.auto[0] == "stopped" else st.auto[0], ())), ("void",))]
        if (ev.node.get("f") or "").endswith("Postprocess::validate_command"):
            sym = "validate_command@%d" % ev.line
            return [(st, ("s", sym))]
        return None


def starts(db, rep):
    rep.rule("whoever starts a filter stops it and looks at its errors, or aborts it and lets the error go on, on every way out; its command was checked")
    ids = {}
    for k, m in (("start", "start_filter"), ("stop", "stop_filter"), ("abort", "abort_filter")):
        s = {x["id"] for x in (db.records.get(OUTPUT) or {}).get("methods", ()) if x["n"] == m}
        for i in list(s):
            s |= set(all_overriders(db, i))
        rep.anchor(bool(s), "%s::%s" % (OUTPUT, m))
        ids[k] = s
    roots = []
    every = ids["start"] | ids["stop"] | ids["abort"]
    for fn in sorted(db.functions.values(), key=lambda f: f["id"]):
        if is_test(fn["rel"]) or fn["rel"].startswith("arki/stream") or not fn.get("body"):
            continue
        if any(x.get("k") == "call" and x.get("id") in ids["start"] for x in fbody(fn)):
            roots.append(fn)
    for fn in roots:
        c = Start(rep, fn, ids)
        c.all = every
        fl = Flow(db, c, depth=4)
        fl.stack = [fn]
        out = fl.run(fn, ("idle", ()))
        rep.count("functions that start a filter")
        rep.funcs.add(fn["id"])
        rep.site("start", where(fn))
        for st, line, how in [(s, l, "returns") for s, v, l in out.ret] + [(s, None, "returns") for s in out.norm] + [(s, l, "throws") for s, t, l in out.thr]:
            state = st.auto[0]
            w = where(fn, line if how == "returns" and line else fn["line"])
            if state == "running":
                rep.bad("a filter is left running", norm(fn["q"]), w, "the function %s without stopping the filter" % how, st.steps(), how)
            elif how == "returns" and state == "stopped":
                rep.bad("errors of a filter aren't looked at", norm(fn["q"]), w, "the function returns without check_for_errors", st.steps(), "errors")
            elif how == "returns" and state == "aborted":
                rep.bad("errors of a filter aren't looked at", norm(fn["q"]), w, "the filter was aborted, but the function returns as if all went well", st.steps(), "aborted")
    rep.need("functions that start a filter", 1)


# -- errors of a filter

class Errors(Client):
    """automaton: the exit status: None not looked at, 'ok', 'bad'"""

    def want_inline(self, fl, st, ev, fn):
        return None if "(lambda" in fn["q"] else fn["rel"].startswith("arki/stream")

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.cls == CHILD and ev.name == "raw_returncode":
            return [(st, ("s", "status"))]
        return None

    def fact(self, fl, st, atom, truth, line):
        s, rel, c = atom
        if s == "status" and rel == "==" and c == 0:
            return st.with_auto("ok" if truth else "bad")
        return st


def errors(db, rep):
    rep.rule("check_for_errors returns only when the exit status of the filter was looked at and is zero")
    for fn in fns(db, PROCESS + "::check_for_errors"):
        fl = Flow(db, Errors(), depth=4)
        fl.stack = [fn]
        out = fl.run(fn, None)
        rep.count("checks of the exit status of a filter")
        rep.funcs.add(fn["id"])
        for st, line in [(s, l) for s, v, l in out.ret] + [(s, None) for s in out.norm]:
            if st.auto != "ok":
                rep.bad("errors of a filter aren't looked at", norm(fn["q"]), where(fn, line or fn["line"]),
                        "check_for_errors returns though the filter may have failed", st.steps(), "status")
    rep.need("checks of the exit status of a filter", 1)


# -- which commands are allowed

class Allowed(Client):
    """automaton: (allow list configured: None/0/1, name in it: None/0/1)"""

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return None
        return fn["rel"].startswith("arki/metadata/postprocess")

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.name == "has" and ev.args and ev.args[0] in (("c", "postprocess"), ("s", '"postprocess"')) or \
                ev.name == "has" and "postprocess" in str(ev.args):
            return [(st, ("s", "configured"))]
        if ev.name in ("find", "count", "contains") and re.search(r"(^|::)(set|unordered_set|vector)\b", ev.cls or ""):
            return [(st, ("s", "in list" if ev.name == "find" else "times in list"))]
        if ev.name == "end" and re.search(r"(^|::)(set|unordered_set|vector)\b", ev.cls or ""):
            return [(st, ("s", "end of list"))]
        return None

    def iter_begin(self, fl, st, what, node, *a):
        return st

    def fact(self, fl, st, atom, truth, line):
        s, rel, c = atom
        conf, ok = st.auto
        if s == "configured" and rel == "==" and c == 0:
            v = 0 if truth else 1
            if conf is not None and conf != v:
                return None
            return st.with_auto((v, ok))
        if rel == "==" and {s, str(c).lstrip("$")} == {"in list", "end of list"}:
            return st.with_auto((conf, 0 if truth else 1))
        if s == "times in list" and (rel == "==" and c == 0 or rel == "<" and c == 1):
            return st.with_auto((conf, 0 if truth else 1))
        return st


def allowed(db, rep):
    rep.rule("a command for a filter is accepted only when the dataset doesn't list the filters it allows, or lists its name")
    for fn in fns(db, "arki::metadata::Postprocess::validate_command"):
        fl = Flow(db, Allowed(), depth=4)
        fl.stack = [fn]
        out = fl.run(fn, (None, None))
        rep.count("checks of commands")
        rep.funcs.add(fn["id"])
        rep.site("check", where(fn))
        for st, v, line in out.ret:
            conf, ok = st.auto
            if conf != 0 and ok != 1:
                rep.bad("a command is accepted without a check", norm(fn["q"]), where(fn, line or fn["line"]),
                        "the command is returned though the dataset lists the filters it allows and this one isn't known to be among them", st.steps(), "list")
    rep.need("checks of commands", 1)


def check(db, rep):
    stops(db, rep)
    starts(db, rep)
    errors(db, rep)
    allowed(db, rep)
