"""Each element that is dispatched goes to one place, and is reported as it
ended up."""
import re
from rulebase import *
from failures import norm

DISP = "arki::Dispatcher"
OK, DUP, ERR = "OK", "DUPLICATE", "ERROR"
ADD = ("emplace_back", "push_back", "insert", "add", "emplace")


def sym(v):
    return re.sub(r"'[0-9.]+", "", v[1]) if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str) else str(v)


def root_of(s):
    """variable or value that a path begins with"""
    m = re.match(r"^(.*?)(\[\*\]|\.operator\[\]|\.at\(|\.second|\.first)", s)
    return m.group(1) if m else s


def results(db):
    return {n: enum_value(db, "arki::metadata::Inbound::Result", n) for n in (OK, DUP, ERR)}


def result_facts(st, res):
    """results that the element may have, from the tests that were made"""
    may = set(res.values())
    for (x, rel, c), t in st.facts.items():
        if rel == "==" and isinstance(x, str) and x.endswith("].result") and not isinstance(c, str):
            may &= {c} if t else may - {c}
    return {n for n, v in res.items() if v in may}


class Roles(Client):
    """first visit: what each batch is for"""

    def __init__(self, params):
        self.roles, self.maps, self.redirects, self.params = {}, set(), set(), params

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return helper(ev, fn)

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.name == "raw_dispatch_dataset" and len(ev.args) >= 2:
            name, batch = ev.args[0], sym(ev.args[1])
            if name[0] == "c" and isinstance(name[1], str):
                self.roles[batch] = name[1]
            else:
                self.maps.add(root_of(batch))
            return [(st, ("void",))]
        if ev.name in ADD and ev.args and ev.obj and ev.args[-1][0] == "s":
            self.redirects.add((sym(ev.obj), sym(ev.args[-1])))
        return None


def helper(ev, fn):
    """private parts of the function are followed"""
    if ev.virt:
        return False
    c = fn["q"].rsplit("::", 1)[0]
    if "(lambda" in fn["q"] or "operator()" in fn["q"]:
        return None
    if c == DISP or not fn.get("cls") and fn["rel"] == ev.fn["rel"]:
        return True
    return False


class Choose(Client):
    """what becomes of each element"""
    all_loops = False

    def __init__(self, db, rep, fn, roles, regular, outbound, batch):
        self.db, self.rep, self.fn = db, rep, fn
        self.roles, self.regular, self.outbound, self.batch = roles, regular, outbound, batch
        self.res = results(db)
        self.looked, self.found = set(), set()
        self.sets = self.validated = 0

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return helper(ev, fn)

    def put(self, st, add=(), rem=(), note=None):
        return st.with_auto(frozenset((st.auto - set(rem)) | set(add)), note)

    def bad(self, kind, line, msg, st):
        self.rep.bad(kind, norm(self.fn["q"]), "%s:%s" % (self.fn["rel"], line), msg, st.steps())

    def call(self, fl, st, ev):
        a = st.auto
        ln = "line %d: " % ev.line
        if ev.kind != "call":
            return None
        if ev.name == "raw_dispatch_dataset" and len(ev.args) >= 2:
            b = sym(ev.args[1])
            role = self.roles.get(b) or root_of(b)
            fl.throw(st, "any", ev.line)
            if b in self.roles:
                self.rep.site("dispatched", ev.where())
            return [(self.put(st, ("sent " + role,), (), ln + "batch for %s dispatched" % (role if b in self.roles else "each dataset")), ("void",))]
        if "each" in a and "choosing" in a:
            if ev.name == "get" and "Reftime" in (ev.t or "") + (ev.node.get("t") or "") or ev.name == "get" and "reftime" in (ev.t or ""):
                v = ("s", "reftime")
                return [(st.with_fact((v[1], "==", 0), False), v),
                        (self.put(st, ("no reftime",), (), ln + "no reference time").with_fact((v[1], "==", 0), True), v)]
            if (ev.cls or "").endswith("metadata::Validator") and ev.name.startswith("operator"):
                fl.throw(st, "any", ev.line)
                self.validated += 1
                st = self.put(st, ("ran",))
                return [(st, ("c", 1)), (self.put(st, ("invalid",), (), ln + "does not validate"), ("c", 0))]
            if ev.cls == "arki::Matcher" and ev.name.startswith("operator"):
                fl.throw(st, "any", ev.line)
                return [(self.put(st, ("hit",), (), ln + "matched"), ("c", 1)), (st, ("c", 0))]
            if ev.name in ("empty", "size") and self.plain(ev.obj) in self.found:
                n = self.count(a)
                return [(st, ("c", int(n == 0) if ev.name == "empty" else n))]
        if ev.name in ADD and ev.args and ev.obj and (ev.cls or "").startswith("std::") or ev.name == "add" and "InboundBatch" in (ev.cls or ""):
            return self.added(fl, st, ev, ln)
        if ev.name == "operator=" or ev.name == "clear":
            if self.role(sym(ev.obj) if ev.obj else "") in self.roles.values() and "sent " + self.role(sym(ev.obj)) not in a and ("redirect" in a or "choosing" in a):
                self.bad("lost", ev.line, "the elements collected so far are dropped", st)
        return None

    def plain(self, v):
        return re.sub(r"[#@'][0-9.:#]+", "", sym(v)) if v else ""

    def count(self, a):
        return 2 if "m2" in a else 1 if "m1" in a else 0

    def role(self, o):
        if o in self.roles:
            return self.roles[o]
        r = root_of(o)
        return "regular" if r in self.regular else "outbound" if r in self.outbound else None

    def added(self, fl, st, ev, ln):
        a = st.auto
        o, role = sym(ev.obj), self.role(sym(ev.obj))
        if role is None:
            if "hit" in a and "each" in a:
                n = self.count(a)
                self.found.add(self.plain(ev.obj))
                st = self.put(st, ("m%d" % min(n + 1, 2), "found " + self.plain(ev.obj)), ("m%d" % n, "hit"), ln + "the dataset is among those found")
                return [(st, ("t",))]
            return None
        if "sent " + role in a and role not in ("regular", "outbound"):
            self.bad("late", ev.line, "an element is added to the batch for %s after it has been dispatched" % role, st)
        if "each" not in a:
            return None
        if "choosing" in a:
            if role == "outbound":
                return [(self.put(st, (), ("hit",)), ("t",))]
            if "placed" in a:
                self.bad("twice", ev.line, "an element is dispatched to more than one place", st)
            if role == "regular":
                direct = "hit" in a
                if direct:
                    st = self.put(st, ("m%d" % min(self.count(a) + 1, 2),), ("hit",))
                    a = st.auto
                for f, msg in (("no reftime", "without a reference time"), ("invalid", "that does not validate")):
                    if f in a:
                        self.bad("accepted", ev.line, "an element %s is dispatched to a dataset" % msg, st)
                names = [x[6:] for x in a if x.startswith("found ")]
                if not direct and names and not any(x in self.plain(ev.obj) for x in names):
                    self.bad("ambiguous", ev.line, "an element is not dispatched to the dataset that matches it", st)
                if "m1" not in a:
                    self.bad("ambiguous", ev.line, "an element is dispatched to a dataset although %s matched it" % ("none" if not self.count(a) else "more than one"), st)
            elif role == "error":
                if "m1" in a and not a & {"no reftime", "invalid"}:
                    self.bad("refused", ev.line, "an element that exactly one dataset matches is dispatched to error", st)
            else:
                self.bad("refused", ev.line, "an element is dispatched to %s before it has been imported" % role, st)
            return [(self.put(st, ("placed",), (), ln + "goes to %s" % ("its dataset" if role == "regular" else role)), ("t",))]
        # elements of a batch that has been dispatched
        may = result_facts(st, self.res)
        if "placed" in a:
            self.bad("twice", ev.line, "an element that was not imported is dispatched to more than one place", st)
        if OK in may:
            self.bad("redirected", ev.line, "an element that was imported is dispatched to %s too" % role, st)
        if role == "duplicates" and may != {DUP}:
            self.bad("redirected", ev.line, "an element that is not a duplicate is dispatched to duplicates", st)
        if role == "regular":
            self.bad("redirected", ev.line, "an element is dispatched again to its dataset", st)
        return [(self.put(st, ("placed",), (), ln + "goes to %s" % role), ("t",))]

    def iter_begin(self, fl, st, what, node):
        w = sym(what) if isinstance(what, tuple) else ""
        if w == self.batch:
            self.sets += 1
            return self.put(st, ("each", "choosing"), [x for x in st.auto if not x.startswith("sent ")], "next element")
        r = self.roles.get(w) or (root_of(w) if root_of(w) != w and root_of(w) in self.regular else None)
        if r and "sent " + r in st.auto and "each" not in st.auto:
            self.looked.add(r)
            return self.put(st.drop_facts(lambda f: str(f[0]).endswith(".result")), ("each", "redirect", "of " + r), ("placed",), "next element of the batch")
        if "each" in st.auto and "choosing" in st.auto:
            return self.put(st, (), ("hit", "ran"))
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        a = st.auto
        w = sym(what) if isinstance(what, tuple) else ""
        line = node.get("l") if node else 0
        if w == self.batch:
            if "placed" not in a:
                self.bad("lost", line, "an element is not dispatched anywhere", st)
            if how in ("break", "return"):
                self.bad("lost", line, "the remaining elements are not dispatched", st)
            return self.put(st, (), [x for x in a if not x.startswith("sent ")])
        r = self.roles.get(w) or (root_of(w) if root_of(w) in self.regular else None)
        if r and "of " + r in a:
            may = result_facts(st, self.res)
            if "placed" not in a and may - {OK}:
                self.bad("lost", line, "an element that was not imported (%s) is not dispatched to error" % ", ".join(sorted(may - {OK})), st)
            if how in ("break", "return"):
                self.bad("lost", line, "what happened to the remaining elements is not looked at", st)
            return self.put(st.drop_facts(lambda f: str(f[0]).endswith(".result")), (), ("each", "redirect", "of " + r, "placed"))
        if "choosing" in a and "each" in a:
            if "ran" not in a and "invalid" not in a and any(
                    x.get("k") == "call" and "metadata::Validator::operator" in (x.get("f") or "") for x in walk(node)):
                self.bad("accepted", line, "a validator is not run", st)
            if "hit" in a:
                self.bad("lost", line, "a dataset that matches is not taken into account", st)
            if how == "break" and not (self.count(a) > 1 or "invalid" in a):
                self.bad("lost", line, "datasets are left out when looking for the one that matches", st)
        return self.put(st, (), ("hit",)) if "hit" in a else st


def dispatchers(db, rep):
    todo = [f for f in fns(db, DISP + "::dispatch") if f.get("body")]
    rep.anchor(bool(todo), "Dispatcher::dispatch")
    for fn in todo:
        fl = Flow(db, None)
        roles = Roles(None)
        f1 = Flow(db, roles)
        f1.run(fn, "x")
        fl.stack = [fn]
        batch = sym(("s", fl.vkey(fn["params"][0])))
        regular, outbound = set(), set()
        for m in roles.maps:
            if any(root_of(e) == m and roles.roles.get(o) for o, e in roles.redirects):
                regular.add(m)
            else:
                outbound.add(m)
        rep.funcs.add(fn["q"])
        rep.count("destinations", len(roles.roles) + len(roles.maps))
        if "error" not in roles.roles.values():
            rep.bad("lost", norm(fn["q"]), where(fn), "nothing is dispatched to error")
            continue
        if not regular:
            rep.bad("lost", norm(fn["q"]), where(fn), "elements that a dataset does not import are not dispatched to error")
            continue
        # first what the datasets that match are collected in, then the rest
        first = Choose(db, type(rep)(db, rep.prop), fn, roles.roles, regular, outbound, batch)
        Flow(db, first).run(fn, frozenset())
        cl = Choose(db, rep, fn, roles.roles, regular, outbound, batch)
        cl.found = first.found
        f2 = Flow(db, cl)
        out = f2.run(fn, frozenset())
        rep.count("elements followed", cl.sets)
        if not cl.validated:
            rep.bad("accepted", norm(fn["q"]), where(fn), "the validators are not run")
        for st, v, line in out.ret:
            if "sent error" not in st.auto:
                rep.bad("lost", norm(fn["q"]), where(fn, line), "the batch for error is not dispatched", st.steps())
        for r in sorted(regular | {x for x in roles.roles.values() if x != "error"}):
            if r not in cl.looked:
                rep.bad("lost", norm(fn["q"]), where(fn), "what happened to the elements dispatched to %s is not looked at" % (
                    "datasets" if r in regular else r))


# -- handing a batch to its dataset ------------------------------------------
class Hand(Client):
    def __init__(self, name, batch):
        self.name, self.batch = name, batch
        self.ok = True

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return False

    def call(self, fl, st, ev):
        if ev.name in ("acquire_batch", "test_acquire"):
            got = repr(ev.args)
            fl.throw(st, "any", ev.line)
            note = "line %d: imported" % ev.line
            return [(st.with_auto("done" if self.batch in got and self.name in got + repr(ev.obj) else "other", note), ("void",))]
        if ev.name == "empty" and ev.obj and ev.obj[1] == self.batch:
            return [(st.with_auto("empty", "nothing to do"), ("c", 1)), (st, ("c", 0))]
        return None


def handing(db, rep):
    for fn in implementations(db, DISP, "raw_dispatch_dataset"):
        if not fn.get("body"):
            continue
        fl = Flow(db, None)
        fl.stack = [fn]
        name, batch = (fl.vkey(p) for p in fn["params"][:2])
        cl = Hand(name, batch)
        f2 = Flow(db, cl)
        out = f2.run(fn, "")
        rep.count("batches handed over")
        rep.funcs.add(fn["q"])
        for st, v, line in out.ret:
            if st.auto == "":
                rep.bad("lost", norm(fn["q"]), where(fn, line), "a batch is not imported", st.steps())
            elif st.auto == "other":
                rep.bad("lost", norm(fn["q"]), where(fn, line), "the batch is not imported in the dataset it is dispatched to", st.steps())


# -- reporting ---------------------------------------------------------------
COUNTERS = ("successful", "duplicates", "in_error_dataset", "not_imported")


class Report(Client):
    """reads a source, dispatches it a batch at a time, counts what happened"""

    def __init__(self, db, rep, fn, inner=()):
        self.db, self.rep, self.fn, self.inner = db, rep, fn, inner
        self.res = results(db)
        self.cls = fn["q"].rsplit("::", 1)[0]
        self.elements = 0

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        c = fn["q"].rsplit("::", 1)[0]
        if "(lambda" in fn["q"] or "operator()" in fn["q"]:
            return None
        if c == self.cls or c.startswith(self.cls + "::") or not fn.get("cls") and fn["rel"] == self.fn["rel"]:
            return True
        return False

    put = Choose.put

    def may_throw(self, fl, st, ev):
        return False

    def bad(self, kind, line, msg, st):
        self.rep.bad(kind, norm(self.fn["q"]), "%s:%s" % (self.fn["rel"], line), msg, st.steps())

    def member(self, v, name):
        return bool(v) and v[0] == "s" and re.sub(r"'[0-9.]+", "", v[1]).endswith("this." + name)

    def call(self, fl, st, ev):
        a = st.auto
        ln = "line %d: " % ev.line
        if ev.kind != "call":
            return None
        if ev.id in self.inner:
            if "P" not in a:
                return [(st, ("void",))]
            fl.throw(self.put(st, ("failed",), (), ln + "dispatching fails"), "std::runtime_error", ev.line)
            return [(self.put(st, ("clean",), ("P", "M"), ln + "dispatched"), ("void",))]
        partial = self.member(ev.obj, "partial_batch")
        if partial and ev.name == "clear":
            if "P" in a and "M" not in a:
                self.bad("lost", ev.line, "elements that were read are dropped without being dispatched", st)
            if "M" in a:
                self.bad("lost", ev.line, "what was dispatched is left out of the results", st)
            return [(self.put(st, ("clean",), ("P", "M")), ("void",))]
        if partial and ev.name == "empty":
            if "P" in a:
                return [(st, ("c", 0))]
            if "clean" in a:
                return [(st, ("c", 1))]
            return None
        if partial and ev.name in ("acquire", "push_back", "emplace_back"):
            return [(self.put(st, ("P", "kept"), (), ln + "element waiting to be dispatched"), ("void",))]
        if partial and ev.name == "move_to":
            return [(self.put(st, ("clean",), ("P", "M"), ln + "moved to the results"), ("t",))]
        if ev.name == "query_data" and "Reader" in (ev.cls or "") and "reading" not in a:
            if "clean" not in a:
                self.bad("leftover", ev.line, "elements left from another source may be dispatched with the ones of this source", st)
            self.rep.site("reading", ev.where())
            fl.throw(self.put(st, ("failed",), (), ln + "reading fails"), "std::runtime_error", ev.line)
            return None
        if ev.name == "dispatch" and (ev.cls or "").split("<")[0].endswith("Dispatcher"):
            if "copy" in self.drops(ev, st):
                self.bad("dropped", ev.line, "the data may be dropped before it is copied with copyok or copyko", st)
            fl.throw(self.put(st, ("failed",), (), ln + "dispatching fails"), "std::runtime_error", ev.line)
            return [(self.put(st, ("M",), (), ln + "dispatched"), ("void",))]
        if "each" in a:
            if ev.name == "empty" and ev.obj and sym(ev.obj).endswith("].destination"):
                if "nowhere" in a or "somewhere" in a:
                    return [(st, ("c", int("nowhere" in a)))]
                return [(self.put(st, ("nowhere",), (), ln + "not imported anywhere"), ("c", 1)), (self.put(st, ("somewhere",)), ("c", 0))]
            if ev.name == "stream_data":
                n = {x.get("n") for g in ev.argn for x in walk(g) if x.get("k") == "mem"} if getattr(ev, "argn", None) else set()
                k = "ok" if "copyok_stream" in n else "ko" if "copyko_stream" in n else None
                if k:
                    fl.throw(st, "any", ev.line)
                    return [(self.put(st, ("copied " + k,), (), ln + "copied to copy%s" % k), ("t",))]
        return None

    def drops(self, ev, st):
        """what may still be needed when the data is dropped"""
        v = ev.args[1] if len(ev.args) > 1 else None
        if v is None or v == ("c", 0) or v == ("c", False):
            return ""
        need = [m for m in ("copyok", "copyko") if not self.null(st, m)]
        if v[0] == "c" and v[1]:
            return "copy" if need else ""
        return "" if "copyok" in repr(v) and "copyko" in repr(v) else "copy"

    def null(self, st, m):
        v = st.env.get("this." + m)
        if v == ("c", 0):
            return True
        for (x, rel, c), t in st.facts.items():
            if rel == "==" and c == 0 and t and re.sub(r"'[0-9.]+", "", str(x)).endswith("this." + m):
                return True
        return False

    def assign(self, fl, st, loc, val, node):
        c = str(loc).rsplit(".", 1)[-1]
        if "each" in st.auto and c in COUNTERS:
            if any(x.startswith("n ") for x in st.auto):
                self.bad("counted", node.get("l"), "an element is counted twice", st)
            return self.put(st, ("n " + c,), (), "line %s: counted as %s" % (node.get("l"), c))
        return st

    def iter_begin(self, fl, st, what, node):
        w = what if isinstance(what, tuple) else None
        if w and "M" in st.auto and ("make_batch" in str(w) or "batch" in str(w)):
            self.elements += 1
            st = st.drop_facts(lambda f: "].result" in str(f[0]) or "].destination" in str(f[0]))
            return self.put(st, ("each",), [x for x in st.auto if x.startswith("n ") or x.startswith("copied")], "next element")
        if w is None and "reading" not in st.auto:
            return self.put(st.drop_facts(lambda f: True), ("reading",), ("kept",), "next element read")
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        a = st.auto
        line = node.get("l") if node else 0
        if isinstance(what, tuple) and "each" in a:
            self.element(fl, st, line, how)
            st = st.drop_facts(lambda f: True)
            return self.put(st, (), [x for x in a if x.startswith("n ") or x.startswith("copied") or x in ("each", "nowhere", "somewhere")])
        if not isinstance(what, tuple) and "reading" in a:
            if "kept" not in a:
                self.bad("lost", line, "an element that was read is not dispatched", st)
            if val is not None and val[0] == "c" and not val[1]:
                self.bad("lost", line, "the remaining elements are not read", st)
            return self.put(st.drop_facts(lambda f: True), (), ("reading", "kept"))
        return st

    def destination(self, st):
        out = {}
        for (x, rel, c), t in st.facts.items():
            if rel == "==" and isinstance(x, str) and x.endswith("].destination") and isinstance(c, str):
                out[c] = t
        return out

    def element(self, fl, st, line, how):
        a = st.auto
        n = [x[2:] for x in a if x.startswith("n ")]
        d = self.destination(st)
        may = result_facts(st, self.res)
        if how in ("break", "return"):
            self.bad("counted", line, "the remaining elements are not counted", st)
        if not n:
            self.bad("counted", line, "an element is not counted", st)
            return
        n = n[0]
        if n == "successful":
            if not ("somewhere" in a or any(v for v in d.values())):
                self.bad("counted", line, "an element that was not imported is counted as successful", st)
            for x in ("error", "duplicates"):
                if d.get(x) is not False and not any(v for k, v in d.items() if k != x):
                    self.bad("counted", line, "an element imported in %s is counted as successful" % x, st)
            if may != {OK}:
                self.bad("counted", line, "an element that failed to be imported is counted as successful", st)
        elif n == "duplicates":
            if d.get("duplicates") is not True:
                self.bad("counted", line, "an element that did not go to duplicates is counted as duplicate", st)
        elif n == "in_error_dataset":
            if d.get("error") is not True:
                self.bad("counted", line, "an element that did not go to error is counted as if it did", st)
        else:
            if "nowhere" not in a and OK in may and not (may and d.get("error")):
                self.bad("counted", line, "an element that was imported is counted as not imported", st)
        good = n == "successful"
        if good and "copied ko" in a or not good and "copied ok" in a:
            self.bad("copied", line, "an element that is %s is copied to copy%s" % (n, "ko" if good else "ok"), st)
        k = "ok" if good else "ko"
        if "copied " + k not in a and not self.null(st, "copy" + k):
            self.bad("copied", line, "an element that is %s is not copied to copy%s" % (n, k), st)


def reporting(db, rep):
    todo = [f for f in fns(db, "arki::python::arki_scan::MetadataDispatch::process") if f.get("body")]
    rep.anchor(bool(todo), "MetadataDispatch::process")
    for fn in todo:
        # what dispatches a batch and counts what happened is followed on its own
        cls = fn["q"].rsplit("::", 1)[0]
        inner = {f["id"]: f for f in db.functions.values() if f.get("body") and f["id"] != fn["id"] and f["q"].rsplit("::", 1)[0] == cls and
                 any(x.get("k") == "call" and (x.get("f") or "").endswith("Dispatcher::dispatch") for x in fbody(f))}
        rep.count("sources followed")
        for f in [fn] + list(inner.values()):
            cl = Report(db, rep, f, inner if f is fn else ())
            fl = Flow(db, cl)
            out = fl.run(f, frozenset() if f is fn else frozenset(("P",)))
            rep.count("elements reported", cl.elements)
            rep.funcs.add(f["q"])
            for st, v, line in out.ret:
                if "failed" in st.auto:
                    rep.bad("hidden", norm(f["q"]), where(f, line), "a failure while reading or dispatching is not reported", st.steps())
                elif "M" in st.auto:
                    rep.bad("lost", norm(f["q"]), where(f, line), "what was dispatched is not passed on to the results", st.steps())
                elif "P" in st.auto:
                    rep.bad("lost", norm(f["q"]), where(f, line), "elements that were read are not dispatched", st.steps())


def check(db, rep):
    rep.rule("every element of a batch goes to exactly one of its dataset or error: to a dataset only when it has a reference time, it validates, and that is the only dataset that matches")
    rep.rule("elements that a dataset does not import go to duplicates or error, and no batch gets elements after it has been dispatched")
    rep.rule("each element is counted once, as successful only when it was imported in a dataset that is not error or duplicates; copyok and copyko get what they say; failures are passed on")
    dispatchers(db, rep)
    handing(db, rep)
    reporting(db, rep)
    rep.need("destinations", 3)
    rep.need("elements followed", 1)
    rep.need("batches handed over", 1)
    rep.need("elements reported", 1)
