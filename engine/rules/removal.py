"""Removing selected data removes that data and nothing else."""
import re
from rulebase import *
from failures import norm
from dispatch import ADD, root_of, sym


class Base(Client):
    def __init__(self, db, rep, fn):
        self.db, self.rep, self.fn, self.seen = db, rep, fn, set()

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return fn.get("rel") == self.fn.get("rel") and fn["id"] != self.fn["id"] and not fn.get("virt") and \
            fn["q"].rsplit("::", 1)[0] in (self.fn["q"].rsplit("::", 1)[0], "", "arki::dataset", "arki::dataset::segmented") and len(list(fbody(fn))) < 400

    def may_throw(self, fl, st, ev):
        return False

    def bad(self, rule, line, msg, st):
        self.rep.bad(rule, norm(self.fn["q"]), where(self.fn, line), msg, st.steps())

    def put(self, st, add=(), drop=(), note=None):
        return st.with_auto(frozenset((set(st.auto) | set(add)) - set(drop)), note)


def truth_of(st, pat):
    """truth of a test on something whose name matches"""
    for (x, rel, c), t in st.facts.items():
        s = re.sub(r"'[0-9.]+|@\d+:\d+", "", str(x))
        if rel == "==" and c == 0 and re.search(pat, s):
            return not t
    return None


class Selection(Base):
    """from the elements that are selected to the segments that have them"""
    rule = "selection"

    def __init__(self, db, rep, fn, peers):
        super().__init__(db, rep, fn)
        self.peers, self.groups = peers, set()

    def call(self, fl, st, ev):
        a = st.auto
        if ev.id in self.peers:
            if ev.args and sym(ev.args[0]) == self.param:
                return [(self.put(st, ("delegated",)), ("void",))]
            return None
        if "each" in a and ev.name in ADD and ev.obj and ev.args and "operator[]" in sym(ev.obj):
            k, o = sym(ev.obj), sym(ev.args[-1])
            self.rep.count("elements followed")
            self.groups.add(root_of(k))
            el = re.escape(self.param + "[*]")
            if not re.search(el + r"\S*\.offset$", re.sub(r"@\d+:\d+", "", o)):
                self.bad(self.rule, ev.line, "what is removed is not the offset of the selected element", st)
            if not re.search(r"\.filename(\.(native|string|c_str)\(\))?\)?$", re.sub(r"'[0-9.]+|@\d+:\d+", "", k)) or self.param + "[*]" not in k:
                self.bad(self.rule, ev.line, "the segment that data is removed from is not the one that has the selected element", st)
            based = False
            for (x, rel, c), t in st.facts.items():
                if rel == "==" and t and isinstance(c, str):
                    both = sym(("s", str(x))) + " " + c
                    based = based or ".basedir" in both and ".path" in both
            if not based:
                self.bad(self.rule, ev.line, "an element of another dataset may be taken for one of this dataset", st)
            return [(self.put(st, ("added",)), ("t",))]
        if ev.name == "remove_data" or ev.name == "mark_removed":
            self.rep.count("removals followed")
            s = sym(ev.args[0]) if ev.args else ""
            if "each" in a:
                self.bad(self.rule, ev.line, "data is removed before all the selected elements are known to be in the dataset", st)
            if "group" not in a or not s.endswith(".second"):
                self.bad(self.rule, ev.line, "what is removed from a segment is not what was selected for it", st)
            elif not ev.obj or root_of(s) + "[*].first" not in sym(ev.obj):
                self.bad(self.rule, ev.line, "data is removed from another segment than the one it was selected for", st)
            return [(self.put(st, ("done", "removing")), ("t",))]
        return None

    def iter_begin(self, fl, st, what, node):
        w = sym(what) if isinstance(what, tuple) else ""
        if w == self.param and "delegated" not in st.auto:
            self.seen.add("elements")
            if "removing" in st.auto:
                self.bad(self.rule, node.get("l"), "data is removed before all the selected elements are known to be in the dataset", st)
            return self.put(st.drop_facts(lambda f: True), ("each",), ("added",), "next selected element")
        if w in self.groups:
            self.seen.add("groups")
            return self.put(st.drop_facts(lambda f: True), ("group",), ("done",), "next segment")
        return st

    def missing(self, st):
        return any(truth_of(st, p) is False for p in (r"is_segment\(.*filename", r"has_data\(\)", r"exists_on_disk\(\)", r"exists\(.*filename"))

    def iter_end(self, fl, st, what, node, how, val=None):
        w = sym(what) if isinstance(what, tuple) else ""
        if w == self.param and "each" in st.auto:
            if "added" not in st.auto and not self.missing(st):
                self.bad(self.rule, node.get("l"), "a selected element is neither removed nor refused", st)
            if how != "end":
                self.bad(self.rule, node.get("l"), "the remaining selected elements are not removed", st)
            return self.put(st.drop_facts(lambda f: True), (), ("each", "added"))
        if w in self.groups and "group" in st.auto:
            if "done" not in st.auto and not self.missing(st):
                self.bad(self.rule, node.get("l"), "the data selected in a segment is not removed", st)
            if how != "end":
                self.bad(self.rule, node.get("l"), "the data selected in the remaining segments is not removed", st)
            return self.put(st.drop_facts(lambda f: True), (), ("group", "done"))
        return st


def param(db, fn, i=0):
    fl = Flow(db, Client())
    fl.stack = [fn]
    k = fl.vkey(fn["params"][i])
    return sym(k) if isinstance(k, tuple) else str(k)


def selections(db, rep):
    todo = [f for f in implementations(db, "arki::dataset::Checker", "remove") if f.get("body") and f.get("params")]
    todo = [f for f in todo if "arki::dataset::segmented::Checker" in [f.get("cls")] + list(superclasses(db, f.get("cls")))]
    rep.anchor(bool(todo), "segmented::Checker::remove")
    peers = {f["id"] for f in todo}
    direct = 0
    for fn in todo:
        rep.funcs.add(fn["q"])
        cl = Selection(db, rep, fn, peers - {fn["id"]})
        cl.param = param(db, fn)
        fl = Flow(db, cl)
        for st, v, line in fl.run(fn, frozenset()).ret:
            if cl.seen != {"elements", "groups"} and "delegated" not in st.auto:
                rep.bad("selection", norm(fn["q"]), where(fn, line), "the selected data is not removed", st.steps())
        direct += cl.seen == {"elements", "groups"}
        rep.count("ways to select")
    rep.anchor(direct > 0, "what groups the selected elements by segment")


class Handing(Base):
    rule = "handing"

    def call(self, fl, st, ev):
        if ev.name == "mark_removed":
            if not ev.args or sym(ev.args[0]) != self.param:
                self.bad(self.rule, ev.line, "what is removed is not what was selected", st)
            return [(self.put(st, ("marked",)), ("s", "marked@"))]
        if ev.name == "post_remove_data":
            if "marked" in st.auto and "marked@" in " ".join(sym(x) for x in ev.args):
                return [(self.put(st, ("told",)), ("void",))]
        return None


def handing(db, rep):
    todo = [f for f in fns(db, "arki::dataset::segmented::CheckerSegment::remove_data") if f.get("body")]
    rep.anchor(bool(todo), "CheckerSegment::remove_data")
    for fn in todo:
        rep.funcs.add(fn["q"])
        cl = Handing(db, rep, fn)
        cl.param = param(db, fn)
        for st, v, line in Flow(db, cl).run(fn, frozenset()).ret:
            rep.count("segments followed")
            if "marked" not in st.auto:
                rep.bad("handing", norm(fn["q"]), where(fn, line), "the selected data is not removed from the segment", st.steps())
            elif "told" not in st.auto:
                rep.bad("handing", norm(fn["q"]), where(fn, line), "the dataset is not told that data was removed from a segment", st.steps())


class Marking(Base):
    """what a segment does to remove data"""
    rule = "marking"

    def want_inline(self, fl, st, ev, fn):
        return fn.get("cls") == self.fn.get("cls") and fn["id"] != self.fn["id"] and ev.name not in ("reorder", "checker", "remove", "remove_data")

    def rest(self, v):
        s = re.sub(r"@\d+:\d+", "", sym(v))
        return s.endswith(".without_data(%s)" % self.param) and "scan(" in s

    def call(self, fl, st, ev):
        a = st.auto
        held = [v for v in ((ev.obj,) if ev.obj else ()) + tuple(ev.args) if v and v[0] == "s" and self.rest(v)]
        if ev.name in ("writeAtomically", "reorder") and held:
            return [(self.put(st, ("stored",), (), "line %s: what is left is stored" % ev.line), ("t",))]
        if ev.name in ("writeAtomically", "reorder", "write") and not held:
            self.bad(self.rule, ev.line, "what is stored is not the data of the segment without what was selected", st)
        if ev.name == "write" and held:
            return [(self.put(st, ("written",), (), "line %s: what is left is written" % ev.line), ("void",))]
        if ev.name == "begin_transaction":
            return [(self.put(st, ("begun",)), ("s", "transaction@"))]
        if ev.name == "commit":
            if "written" in a:
                return [(self.put(st, ("stored",), ("written",)), ("void",))]
            if "begun" in a:
                return [(self.put(st, ("stored",)), ("void",))]
        if ev.name == "remove" and ev.args and sym(ev.args[-1]) == self.param + "[*]":
            if "begun" not in a or "stored" in a:
                self.bad(self.rule, ev.line, "data is removed from the index outside of the transaction", st)
            self.seen.add("index")
            return [(self.put(st, ("marked",)), ("void",))]
        if ev.name == "remove" and "each" in a and ev.cls and "Index" in ev.cls:
            self.bad(self.rule, ev.line, "what is removed from the index is not what was selected", st)
        return None

    def assign(self, fl, st, loc, val, node):
        for f in ("segment_mtime", "data_timespan"):
            if str(loc).endswith("." + f):
                return self.put(st, (f,))
        return st

    def iter_begin(self, fl, st, what, node):
        if isinstance(what, tuple) and sym(what) == self.param:
            return self.put(st, ("each",), ("marked",), "next selected element")
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        if isinstance(what, tuple) and sym(what) == self.param:
            if "marked" not in st.auto or how != "end":
                self.bad(self.rule, node.get("l"), "a selected element is not removed", st)
            return self.put(st, (), ("each", "marked"))
        return st


def marking(db, rep):
    todo = [f for f in implementations(db, "arki::segment::Fixer", "mark_removed") if f.get("body") and norm(f["q"]) != "segment::Fixer::mark_removed"]
    for fn in todo:
        rep.funcs.add(fn["q"])
        rep.count("segment types")
        cl = Marking(db, rep, fn)
        cl.param = param(db, fn)
        for st, v, line in Flow(db, cl).run(fn, frozenset()).ret:
            if "stored" not in st.auto:
                rep.bad("marking", norm(fn["q"]), where(fn, line), "the segment is left without storing what remains", st.steps())
            elif "begun" in st.auto and "index" not in cl.seen:
                rep.bad("marking", norm(fn["q"]), where(fn, line), "the selected elements are not removed from the index", st.steps())
            for f in ("segment_mtime", "data_timespan"):
                if f not in st.auto:
                    rep.bad("marking", norm(fn["q"]), where(fn, line), "what tells the dataset about the segment (%s) is not set" % f, st.steps())


class Keeping(Base):
    """what is left without the selected data"""
    rule = "keeping"

    def want_inline(self, fl, st, ev, fn):
        return False

    def call(self, fl, st, ev):
        if ev.name in ADD + ("acquire",) and ev.args and "each" in st.auto and sym(ev.args[0]).endswith("[*]") and ev.obj:
            if "kept" in st.auto:
                self.bad(self.rule, ev.line, "an element is kept twice", st)
            self.where.add(sym(ev.obj))
            return [(self.put(st, ("kept",)), ("void",))]
        return None

    def selected(self, st):
        for (x, rel, c), t in st.facts.items():
            s = re.sub(r"'[0-9.]+|@\d+:\d+", "", "%s %s" % (x, c))
            if rel == "==" and self.param in s and ".offset" in s:
                if ".find(" in s and ".end()" in s:
                    return not t
                if (".count(" in s or ".contains(" in s) and c == 0:
                    return not t
        return None

    def iter_begin(self, fl, st, what, node):
        if isinstance(what, tuple):
            return self.put(st.drop_facts(lambda f: True), ("each",), ("kept",), "next element")
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        if isinstance(what, tuple) and "each" in st.auto:
            self.rep.count("elements kept or removed")
            s = self.selected(st)
            if "kept" in st.auto and s is not False:
                self.bad(self.rule, node.get("l"), "an element that was selected is kept" if s else "an element is kept whether it was selected or not", st)
            if "kept" not in st.auto and s is not True:
                self.bad(self.rule, node.get("l"), "an element that was not selected is removed" if s is False else "an element is removed whether it was selected or not", st)
            if how != "end":
                self.bad(self.rule, node.get("l"), "the remaining elements are removed", st)
            return self.put(st.drop_facts(lambda f: True), (), ("each", "kept"))
        return st


def keeping(db, rep):
    todo = [f for f in fns(db, "arki::metadata::Collection::without_data") if f.get("body")]
    rep.anchor(bool(todo), "Collection::without_data")
    for fn in todo:
        rep.funcs.add(fn["q"])
        cl = Keeping(db, rep, fn)
        cl.where = set()
        cl.param = param(db, fn)
        for st, v, line in Flow(db, cl).run(fn, frozenset()).ret:
            if cl.where and sym(v) not in cl.where:
                rep.bad("keeping", norm(fn["q"]), where(fn, line), "what is returned is not what was kept", st.steps())
    n = 0
    for fn in db.functions.values():
        if not fn.get("body") or not re.search(r"segment::iseg::.*Index(<.*>)?::remove$", fn["q"]):
            continue
        for x in fbody(fn):
            if x.get("k") == "str" and "DELETE" in str(x.get("v", "")).upper():
                n += 1
                rep.funcs.add(fn["q"])
                if not re.match(r"\s*DELETE\s+FROM\s+md\s+WHERE\s+offset\s*=\s*\?\s*$", x["v"], re.I):
                    rep.bad("keeping", norm(fn["q"]), where(fn, x.get("l")), "the index removes something else than the element at an offset: %s" % x["v"])
    rep.count("deletions from an index", n)


class Pooling(Base):
    """from the elements that are selected to their datasets"""
    rule = "pooling"

    def want_inline(self, fl, st, ev, fn):
        return fn["q"] != "arki::dataset::CheckPool::get" and super().want_inline(fl, st, ev, fn)

    def __init__(self, db, rep, fn):
        super().__init__(db, rep, fn)
        self.groups = set()

    def call(self, fl, st, ev):
        a = st.auto
        if "each" in a and ev.name in ADD and ev.obj and "operator[]" in sym(ev.obj) and ev.args and sym(ev.args[-1]) == self.param + "[*]":
            self.rep.count("elements located")
            self.groups.add(root_of(sym(ev.obj)))
            if not re.search(r"locate_metadata\(.*\.name\(\)", sym(ev.obj)):
                self.bad(self.rule, ev.line, "an element is not given to the dataset that has it", st)
            return [(self.put(st, ("added",)), ("void",))]
        if ev.name == "remove" and (ev.cls or "").endswith("::Checker"):
            self.rep.count("datasets followed")
            if self.simulated(st) is not False:
                self.bad(self.rule, ev.line, "data may be removed when asked to only say what would be done", st)
            s = sym(ev.args[0]) if ev.args else ""
            if "each" in a:
                self.bad(self.rule, ev.line, "data is removed before all the selected elements were located", st)
            elif not s.endswith("[*].second") or root_of(s) + "[*].first" not in sym(ev.obj):
                self.bad(self.rule, ev.line, "what is removed from a dataset is not what was selected in it", st)
            fl.throw(self.put(st, ("done", "removing")), "std::runtime_error", ev.line)
            return [(self.put(st, ("done", "removing")), ("void",))]
        return None

    def simulated(self, st):
        return truth_of(st, "^" + re.escape(self.flag))

    def iter_begin(self, fl, st, what, node):
        w = sym(what) if isinstance(what, tuple) else ""
        if w == self.param:
            self.seen.add("elements")
            if "removing" in st.auto:
                self.bad(self.rule, node.get("l"), "data is removed before all the selected elements were located", st)
            return self.put(st, ("each",), ("added",), "next selected element")
        if w in self.groups:
            return self.put(st, ("group",), ("done",), "next dataset")
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        w = sym(what) if isinstance(what, tuple) else ""
        if w == self.param and "each" in st.auto:
            if "added" not in st.auto or how != "end":
                self.bad(self.rule, node.get("l"), "a selected element is neither removed nor refused", st)
            return self.put(st, (), ("each", "added"))
        if w in self.groups and "group" in st.auto:
            if "done" in st.auto:
                self.seen.add("groups")
            if ("done" not in st.auto and self.simulated(st) is not True) or how != "end":
                self.bad(self.rule, node.get("l"), "the data selected in a dataset is not removed", st)
            return self.put(st, (), ("group", "done"))
        return st


class Locating(Base):
    rule = "locating"

    def want_inline(self, fl, st, ev, fn):
        return False

    def call(self, fl, st, ev):
        if ev.name == "makeRelativeTo" and ev.args and "group" not in st.auto:
            s = sym(ev.args[0])
            return [(self.put(st, ("rel " + s[:-5],) if s.endswith(".path") else ()), ("s", "relative@" + s))]
        if ev.name == "set_source" and ev.args and sym(ev.args[0]).startswith("relative@"):
            return [(self.put(st, ("set",)), ("void",))]
        return None


def pooling(db, rep):
    todo = [f for f in fns(db, "arki::dataset::CheckPool::remove") if f.get("body")]
    rep.anchor(bool(todo), "CheckPool::remove")
    for fn in todo:
        rep.funcs.add(fn["q"])
        cl = Pooling(db, rep, fn)
        cl.param, cl.flag = param(db, fn, 0), param(db, fn, 1)
        Flow(db, cl).run(fn, frozenset())
        if cl.seen != {"elements", "groups"}:
            rep.bad("pooling", norm(fn["q"]), where(fn), "the selected data is not removed")
    for fn in fns(db, "arki::dataset::Pool::locate_metadata"):
        if not fn.get("body"):
            continue
        rep.funcs.add(fn["q"])
        for st, v, line in Flow(db, Locating(db, rep, fn)).run(fn, frozenset()).ret:
            if v is None or v[0] != "s":
                continue
            rep.count("datasets located")
            if truth_of(st, r"is_under\(%s" % re.escape(re.sub(r"@\d+:\d+", "", sym(v)))) is not True:
                rep.bad("locating", norm(fn["q"]), where(fn, line), "an element may be taken as part of a dataset that does not contain its data", st.steps())
            if "set" not in st.auto or "rel " + sym(v) not in st.auto:
                rep.bad("locating", norm(fn["q"]), where(fn, line), "the path of the element is not made relative to its dataset", st.steps())
    n = 0
    for fn in db.functions.values():
        for x in fbody(fn) if fn.get("body") else ():
            if x.get("k") == "call" and x.get("f") == "arki::dataset::CheckPool::remove":
                n += 1
                rep.funcs.add(fn["q"])
                if len(x.get("a", ())) > 1 and not any(y.get("k") == "mem" and y.get("n") == "readonly" for y in walk(x["a"][1])) and \
                        not any(y.get("k") == "ref" and y.get("d") in ("var", "parm") for y in walk(x["a"][1])):
                    rep.bad("pooling", norm(fn["q"]), where(fn, x.get("l")), "data is removed whether or not fixing was asked for")
    rep.count("commands that remove", n)


class Telling(Base):
    rule = "telling"

    def call(self, fl, st, ev):
        if ev.name == "set" and len(ev.args) >= 3:
            s = [sym(x) for x in ev.args]
            if "relpath" in s[0] and s[1].endswith(self.param + ".segment_mtime") and s[2].endswith(self.param + ".data_timespan"):
                return [(self.put(st, ("set",)), ("void",))]
            self.bad(self.rule, ev.line, "the manifest does not get the new time and interval of the segment", st)
        if ev.name == "flush" and "set" in st.auto:
            return [(self.put(st, ("flushed",)), ("void",))]
        return None


def telling(db, rep):
    for fn in implementations(db, "arki::dataset::segmented::CheckerSegment", "post_remove_data"):
        if not fn.get("body") or not any(y.get("k") == "mem" and y.get("n") == "manifest" for c in [fn.get("cls")] for f in db.functions.values() if f.get("cls") == c and f.get("body") for y in fbody(f)):
            continue
        rep.funcs.add(fn["q"])
        rep.count("manifests followed")
        cl = Telling(db, rep, fn)
        cl.param = param(db, fn, len(fn["params"]) - 1)
        for st, v, line in Flow(db, cl).run(fn, frozenset()).ret:
            if "flushed" not in st.auto:
                rep.bad("telling", norm(fn["q"]), where(fn, line), "the manifest is not updated after data was removed from a segment", st.steps())


def check(db, rep):
    rep.rule("every selected element is removed from the segment that has it, or refused before anything is removed; nothing that was not selected is removed")
    rep.rule("asked to only say what would be removed, nothing is removed; the dataset is told what is left of a segment")
    selections(db, rep)
    handing(db, rep)
    marking(db, rep)
    keeping(db, rep)
    pooling(db, rep)
    telling(db, rep)
    rep.need("elements followed", 1)
    rep.need("removals followed", 1)
    rep.need("segments followed", 1)
    rep.need("segment types", 2)
    rep.need("elements kept or removed", 1)
    rep.need("deletions from an index", 1)
    rep.need("elements located", 1)
    rep.need("datasets followed", 1)
    rep.need("commands that remove", 1)
