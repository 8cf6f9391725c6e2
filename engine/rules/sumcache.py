"""Cached summaries: dropped whenever data changes, written only from
unrestricted queries, used only where the query does not restrict them."""
import re
from rulebase import *
from failures import norm

SC = "arki::dataset::index::SummaryCache"
LOCAL = ("arki::dataset::simple::Reader", "arki::dataset::iseg::Reader", "arki::dataset::archive::Reader", "arki::dataset::segmented::Reader",
         "arki::dataset::local::Reader")


def plain(v):
    """a value without the place where it was made"""
    return re.sub(r"@[0-9]+:[0-9]+", "", v)

FIX = "arki::segment::Fixer"
CHANGES = ("reindex", "move_data", "remove", "mark_removed")


def resolve(db, cls, name, cands):
    """the function the method of that name is for an object of class cls"""
    order = [cls] + [c for c in superclasses(db, cls)]
    for c in order:
        for f in cands:
            if f["q"].rsplit("::", 1)[0] == c:
                return f
    return None


def drop_path(v):
    return v[0] == "s" and re.search(r'/ "?summary"?\)$', v[1]) is not None


class Change(Client):
    """automaton: subset of (changed, dropped) for the visit going on"""

    def __init__(self, db, rep, root, cls, judge_loops=False):
        self.db, self.rep, self.root, self.c, self.judge = db, rep, root, cls, judge_loops
        self.fixers = [FIX] + subclasses(db, FIX)
        self.n = 0
        self.batch = None

    def may_throw(self, fl, st, ev):
        return False

    def want_inline(self, fl, st, ev, fn):
        if ev.cls == SC or fn["rel"].startswith(("arki/utils", "arki/core", "arki/metadata", "arki/types", "arki/segment")):
            return False
        return None

    def inline_virtual(self, fl, st, ev, cands):
        if self.c and ev.cls in [self.c] + list(superclasses(self.db, self.c)):
            f = resolve(self.db, self.c, ev.name, cands)
            return [f] if f else False
        return False

    def mark(self, st, what, line):
        return st.with_auto(tuple(sorted(set(st.auto) | {what})), "line %d: %s" % (line, what))

    def call(self, fl, st, ev):
        if ev.kind != "call":
            return None
        if ev.cls in self.fixers and ev.name in CHANGES:
            self.n += 1
            return [(self.mark(st, "data changed", ev.line), ("s", "RES@%d" % ev.line))]
        if ev.cls == "arki::segment::Writer" and ev.name == "acquire":
            self.n += 1
            s2 = self.mark(st, "data changed", ev.line)
            s2 = s2.with_env("BATCH", ev.args[0]) if ev.args else s2
            return [(s2, ("s", "ACQUIRED"))]
        if ev.cls == "arki::dataset::segmented::Checker" and ev.name == "remove" and self.root["q"] != ev.f:
            self.n += 1
            return [(self.mark(st, "data changed", ev.line), ("void",))]
        if ev.cls == SC and ev.name == "invalidate":
            if len(ev.args) == 1 and st.env.get("BATCH") not in (None, ev.args[0]):
                self.rep.bad("other-batch", norm(self.root["q"]), ev.where(), "summaries of other data than what was imported are dropped",
                             st.steps(), "")
            return [(self.mark(st, "summaries dropped", ev.line), ("void",))]
        if ev.name in ("remove", "unlink", "unlink_ifexists", "delete_if_exists") and ev.args and drop_path(ev.args[-1]) and \
                not ev.cls.startswith("arki::dataset"):
            return [(self.mark(st, "summaries dropped", ev.line), ("s", "REMOVED"))]
        return None

    def fact(self, fl, st, atom, truth, line):
        x, o, c = atom
        if "summary_cache_pathname" in x and "exists(" in x and o == "==" and c == 0 and truth:
            return self.mark(st, "summaries dropped", line)
        if "ACQUIRED" in x and "count_ok" in x:
            if o == "==" and c == 0 and truth or o == "<" and c == 1 and truth:
                return self.mark(st, "summaries dropped", line)
        return st

    def iter_begin(self, fl, st, what, node):
        if not self.judge:
            return st
        return State((), st.env, {a: t for a, t in st.facts.items() if "ACQUIRED" not in a[0]}, st.trace)

    def iter_end(self, fl, st, what, node, how, val=None):
        if self.judge:
            self.verdict(st, node.get("l") or 0)
            return st.with_auto(())
        return st

    def verdict(self, st, line):
        if "data changed" in st.auto and "summaries dropped" not in st.auto:
            self.rep.bad("stale", norm(self.root["q"]), where(self.root, line),
                         "data is changed and cached summaries are kept", st.steps(), self.c or "")


def changes(db, rep):
    rep.rule("on every normal path on which a segment is indexed, rescanned, moved out, removed or added to, or data in it is "
             "removed, the cached summaries that cover it are dropped")
    for k in ("simple", "iseg"):
        cls = "arki::dataset::%s::CheckerSegment" % k
        roots = []
        for m in ("index", "rescan", "release", "remove", "remove_data"):
            if k == "iseg" and m == "remove_data":
                continue
            cands = []
            for c in [cls] + list(superclasses(db, cls)):
                cands += fns(db, c + "::" + m)
            f = resolve(db, cls, m, cands)
            if f is None:
                rep.errors.append("anchor vanished: %s::%s" % (cls, m))
                continue
            roots.append(f)
        for fn in roots:
            same = {g["id"] for g in db.functions.values() if g["rel"].startswith("arki/dataset/")}
            cl = Change(db, rep, fn, cls)
            fl = Flow(db, cl, interesting=same, inline_small=0)
            out = fl.run(fn, ())
            for u in fl.unsupported:
                rep.errors.append(u)
            rep.count("operations that change segments")
            if not cl.n:
                rep.errors.append("no change of data found in %s" % fn["q"])
            for s, v, l in out.ret:
                cl.verdict(s, l)
        w = fns(db, "arki::dataset::%s::Writer::acquire_batch" % k)
        for fn in w:
            cl = Change(db, rep, fn, None, judge_loops=True)
            lam = {x["id"] for x in fbody(fn) if x["k"] == "lambda"}
            helpers = {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"]}
            fl = Flow(db, cl, interesting=lam | helpers, inline_small=0)
            fl.run(fn, ())
            rep.count("operations that change segments")
            if not cl.n:
                rep.errors.append("no change of data found in %s" % fn["q"])
    rep.need("operations that change segments", 10)
    # data removed from iseg datasets
    for fn in fns(db, "arki::dataset::iseg::Checker::remove"):
        cl = Removed(db, rep, fn)
        lam = {x["id"] for x in fbody(fn) if x["k"] == "lambda"}
        out = Flow(db, cl, interesting=lam, inline_small=0).run(fn, ("", ""))
        rep.count("removals of data")
        for s, v, l in out.ret:
            empty = any("mds" in x and "empty()" in x and o == "==" and c == 0 and t is False for (x, o, c), t in s.facts.items())
            if s.auto[0] == "changed" and s.auto[1] != "dropped" and not empty:
                rep.bad("stale", norm(fn["q"]), where(fn, l), "data is removed and cached summaries are kept", s.steps(), "remove")
    rep.need("removals of data", 1)
    # archives
    for m in ("index_segment", "release_segment"):
        for fn in fns(db, "arki::dataset::archive::Checker::" + m):
            cl = Archives(rep, fn)
            helpers = {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"] and not g.get("virt")}
            out = Flow(db, cl, interesting=helpers, inline_small=0).run(fn, ())
            rep.count("changes of archives")
            for s, v, l in out.ret:
                if "changed" not in s.auto:
                    rep.bad("silent", norm(fn["q"]), where(fn, l), "ends without moving the segment", s.steps(), m)
                elif "dropped" not in s.auto:
                    rep.bad("stale", norm(fn["q"]), where(fn, l), "an archive changes and the summary of the archives is kept", s.steps(), m)
    rep.need("changes of archives", 2)


class Archives(Client):
    def __init__(self, rep, root):
        self.rep, self.root = rep, root

    def may_throw(self, fl, st, ev):
        return False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def call(self, fl, st, ev):
        if ev.kind == "call" and ev.name in ("index", "release") and "CheckerSegment" in ev.cls:
            return [(st.with_auto(tuple(sorted(set(st.auto) | {"changed"}))), ("s", "MDS"))]
        if ev.name in ("remove", "unlink", "unlink_ifexists") and ev.args and "archives.summary" in fl.vstr(ev.args[-1]):
            return [(st.with_auto(tuple(sorted(set(st.auto) | {"dropped"}))), ("t",))]
        return None


class Removed(Client):
    """automaton: (changed, dropped)"""

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root

    def may_throw(self, fl, st, ev):
        return False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def call(self, fl, st, ev):
        if ev.cls == "arki::dataset::segmented::Checker" and ev.name == "remove":
            return [(st.with_auto(("changed", st.auto[1]), "line %d: data removed" % ev.line), ("void",))]
        if ev.cls == SC and ev.name == "invalidate":
            return [(st.with_auto((st.auto[0], "dropped"), "line %d: summaries dropped" % ev.line), ("void",))]
        if ev.name in ("insert", "emplace") and ev.cls.startswith("std::") and "set" in ev.cls:
            return None
        return None


# ----------------------------------------------------- the cache files
class Cache(Client):
    """automaton: frozenset of the files removed"""

    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.paths = set()

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.cls == SC and ev.name == "summary_pathname":
            return [(st, ("s", "MONTH<%s>" % ",".join(fl.vstr(a) for a in ev.args)))]
        v = None
        if ev.name in ("remove", "unlink", "unlink_ifexists") and ev.args and not ev.cls.startswith("arki::dataset"):
            v = fl.vstr(ev.args[-1])
        elif ev.name in ("writeAtomically",) and ev.args:
            v = fl.vstr(ev.args[0])
        elif ev.name == "File" and ev.kind == "ctor" and ev.args:
            v = fl.vstr(ev.args[0])
        if v is None:
            return None
        if "all.summary" in v:
            v = "ALL"
        elif "d_name" in v:
            v = "EACH"
        self.paths.add(v)
        return [(st.with_auto(st.auto | {v}), ("t",))]

    def iter_end(self, fl, st, what, node, how, val=None):
        return st


def cache_files(db, rep):
    rep.rule("the cached summary of a month and the one of everything are read, written and dropped under the same names, and "
             "whatever drops a month also drops the one of everything")
    for m in ("invalidate", "read", "write"):
        for fn in fns(db, SC + "::" + m):
            cl = Cache(rep, fn)
            helpers = {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"]}
            fl = Flow(db, cl, interesting=helpers, inline_small=0)
            out = fl.run(fn, frozenset())
            rep.count("cache operations")
            np = [p for p in fn["params"] if p["t"] == "int"]
            q = norm(fn["q"])
            for s, v, l in out.ret:
                if m == "invalidate":
                    got = set(s.auto)
                    t0 = fn["params"][0]["t"] if fn["params"] else ""
                    if len(np) == 2:
                        want = {"ALL", "MONTH<%s>" % ",".join("%s#1.%s" % (p["n"], p["id"]) for p in np)}
                        if not want <= got:
                            rep.bad("drop", q, where(fn, l), "dropping a month leaves %s" % ", ".join(sorted(want - got)), s.steps(), "month")
                    elif "Time" in t0:
                        if "ALL" not in got:
                            rep.bad("drop", q, where(fn, l), "dropping a range of months leaves the summary of everything", s.steps(), "range")
                    rep.count("cache files judged")
                else:
                    got = set(s.auto)
                    want = {"MONTH<%s>" % ",".join("%s#1.%s" % (p["n"], p["id"]) for p in np)} if len(np) == 2 else {"ALL"}
                    rep.count("cache files judged")
                    if got - want:
                        rep.bad("name", q, where(fn, l), "another file is used: %s" % ", ".join(sorted(got - want)), s.steps(), m)
            if m == "invalidate" and not np and fn["params"] and "Time" in fn["params"][0]["t"]:
                if not any(p.startswith("MONTH<") for p in cl.paths):
                    rep.bad("drop", q, where(fn), "dropping a range of months drops none", [], "range")
            if m == "invalidate" and not fn["params"] and "EACH" not in cl.paths:
                rep.bad("drop", q, where(fn), "dropping everything drops nothing", [], "all")
    rep.need("cache operations", 9)
    # every element of a batch that was imported
    for fn in fns(db, SC + "::invalidate"):
        if fn["params"] and "InboundBatch" in fn["params"][0]["t"]:
            cl = Months(db, rep, fn)
            Flow(db, cl, interesting=set(), inline_small=0).run(fn, "")
            rep.count("batches of months")
    rep.need("batches of months", 1)
    for fn in fns(db, "arki::dataset::iseg::Checker::remove"):
        cl = Months(db, rep, fn)
        Flow(db, cl, interesting=set(), inline_small=0).run(fn, "")


class Months(Client):
    """automaton: what happened in the visit"""

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root

    def may_throw(self, fl, st, ev):
        return False

    def iter_begin(self, fl, st, what, node):
        return st.with_auto("")

    def fact(self, fl, st, atom, truth, line):
        x, o, c = atom
        if "result" in x and st.auto == "":
            # not imported: compares with Inbound::Result::OK
            if o == "==" and not truth:
                return st.with_auto("skipped")
        if o == "==" and c == 0 and truth and st.auto == "" and ("get(" in x or "reftime" in x or "Position" in x):
            return st.with_auto("skipped")
        return st

    def call(self, fl, st, ev):
        if ev.name in ("insert", "emplace") and ev.cls.startswith("std::"):
            return [(st.with_auto("added"), ("t",))]
        if ev.cls == SC and ev.name == "invalidate" and len(ev.args) == 2:
            return [(st.with_auto("dropped"), ("void",))]
        return None

    def iter_end(self, fl, st, what, node, how, val=None):
        self.rep.count("visits of months followed")
        if st.auto == "" or how == "break":
            self.rep.bad("month-kept", norm(self.root["q"]), where(self.root, node.get("l")), "a month whose data changed may be kept", st.steps(), "")
        return st.with_auto("")


# ---------------------------------------------------------- readers
class Fill(Client):
    """automaton: frozenset of (summary, what fills it)"""

    def __init__(self, db, rep, root, cls):
        self.db, self.rep, self.root, self.c = db, rep, root, cls
        self.q = norm(root["q"])

    def may_throw(self, fl, st, ev):
        return False

    def want_inline(self, fl, st, ev, fn):
        return None

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def bad(self, rule, ev, msg, st, detail=""):
        self.rep.bad(rule, self.q, ev.where(), msg, st.steps(), detail)

    def is_summary(self, ev, i):
        t = ""
        if i < len(ev.argn):
            n = ev.argn[i]
            while n is not None and n["k"] in ("full", "temp", "icast", "cast"):
                n = n["e"]
            t = (n or {}).get("t") or ""
        return t.replace("const ", "").rstrip(" &") in ("arki::Summary",)

    def call(self, fl, st, ev):
        if ev.kind != "call":
            return None
        out = None
        if ev.cls == SC and ev.name in ("read", "write"):
            s = fl.vstr(ev.args[0])
            key = "|".join(plain(fl.vstr(a)) for a in ev.args[1:])
            self.rep.count("uses of the cache followed")
            if ev.name == "read":
                return [(st.with_auto(st.auto | {(s, "cache")}), ("c", 1)), (st, ("c", 0))]
            fills = {b for a, b in st.auto if a == s}
            want = "for_month(%s)" % key.replace("|", ",") if key else None
            bad = [f for f in fills if f != (want or "months")]
            if bad:
                self.bad("restricted", ev, "the cache%s is written with the result of %s" % (" of a month" if key else "", ", ".join(bad)), st)
            return [(st, ("t",))]
        if ev.name == "writeAtomically" and ev.args and drop_path(ev.args[0]):
            s = fl.vstr(ev.obj)
            self.rep.count("uses of the cache followed")
            bad = [b for a, b in st.auto if a == s and b != "Matcher()"]
            if bad:
                self.bad("restricted", ev, "the cache is written with the result of %s" % ", ".join(bad), st)
            return [(st, ("t",))]
        if ev.name == "read_file" and ev.args and drop_path(ev.args[0]):
            self.rep.count("uses of the cache followed")
            free = any("TYPE_REFTIME" in x or "get(" in x for (x, o, c), t in st.facts.items() if o == "==" and c == 0 and t)
            if not free:
                self.bad("unfit", ev, "the cached summary is used for a query that may restrict the reference time", st)
            return [(st.with_auto(st.auto | {(fl.vstr(ev.obj), "cache")}), ("t",))]
        # what fills a summary
        for i, a in enumerate(ev.args):
            if not self.is_summary(ev, i):
                continue
            name = fl.vstr(a)
            m = [plain(fl.vstr(x)) for j, x in enumerate(ev.args) if j != i and "Matcher" in type_of(ev, j)]
            if m:
                s2 = st.with_auto(st.auto | {(name, m[0])})
                if ev.name not in ("summary_for_month", "summary_for_all"):
                    return [(s2, ("t",))]
        if ev.cls == "arki::Summary" and ev.name == "add" and ev.obj is not None:
            return [(st, ("void",))]
        if ev.name == "summary_for_month":
            st = st.with_auto(frozenset(x for x in st.auto))
            tgt = [fl.vstr(a) for i, a in enumerate(ev.args) if self.is_summary(ev, i)]
            if tgt:
                st = st.with_auto(st.auto | {(tgt[0], "months")})
            return [(st, ("void",))]
        return None


def type_of(ev, j):
    n = ev.argn[j] if j < len(ev.argn) else None
    while n is not None and n["k"] in ("full", "temp", "icast", "cast"):
        n = n["e"]
    return (n or {}).get("t") or ""


class Deliver(Client):
    """what reaches the summary asked for"""

    def __init__(self, db, rep, root, m, s):
        self.db, self.rep, self.root, self.m, self.s = db, rep, root, m, s
        self.n = 0

    def may_throw(self, fl, st, ev):
        return False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return False if fn["rel"] != self.root["rel"] else None

    def call(self, fl, st, ev):
        if ev.kind != "call":
            return None
        vs = [fl.vstr(a) for a in ev.args]
        if "OUT" in vs and not ev.f.startswith("std::"):
            self.n += 1
            self.rep.count("deliveries to the summary asked for")
            if "QUERY" not in vs:
                self.rep.bad("unfiltered", norm(self.root["q"]), ev.where(), "%s adds to the result without the query" % short(ev.f), st.steps(), ev.name)
            return [(st, ("t",))]
        if ev.obj is not None and fl.vstr(ev.obj) == "OUT" and ev.cls == "arki::Summary" and ev.name in ("add", "read", "read_file") and \
                self.root["q"].rsplit("::", 1)[0] in LOCAL:
            self.rep.bad("unfiltered", norm(self.root["q"]), ev.where(), "%s adds to the result without the query" % short(ev.f), st.steps(), ev.name)
        if ev.name == "summary_for_month":
            self.rep.count("uses of the cache of a month")
            st_m = [(x, t) for (x, o, c), t in st.facts.items() if "is_start_of_month" in x and o == "==" and c == 0]
            if len([x for x, t in st_m if t is False]) < 2:
                self.rep.bad("part-month", norm(self.root["q"]), ev.where(), "the summary of a whole month is used for what may be part of it", st.steps(), "")
            return [(st, ("void",))]
        if ev.name == "summary_for_all":
            self.rep.count("uses of the cache of everything")
            k = [(x, t) for (x, o, c), t in st.facts.items() if "is_set" in x and o == "==" and c == 0 and t]
            if len(k) < 2:
                self.rep.bad("restricted-all", norm(self.root["q"]), ev.where(), "the summary of everything is used for a query that may restrict the time", st.steps(), "")
            return [(st, ("void",))]
        return None


def readers(db, rep):
    rep.rule("the cache is written only with the result of a query restricted to nothing (or to exactly its month); it is used "
             "only where the query leaves the time open (or covers the whole month), and what it gives goes through the query's filter")
    for k, names in (("simple", ("impl_query_summary",)), ("iseg", ("summary_for_month", "summary_for_all"))):
        for n in names:
            for fn in fns(db, "arki::dataset::%s::Reader::%s" % (k, n)):
                cl = Fill(db, rep, fn, None)
                fl = Flow(db, cl, interesting=set(), inline_small=0)
                fl.run(fn, frozenset())
                rep.count("readers")
                for u in fl.unsupported:
                    rep.errors.append(u)
    rep.need("uses of the cache followed", 4)
    for c in ["arki::dataset::Reader"] + subclasses(db, "arki::dataset::Reader"):
        for fn in fns(db, c + "::impl_query_summary"):
            mp = [p for p in fn["params"] if "Matcher" in p["t"]]
            sp = [p for p in fn["params"] if "Summary" in p["t"]]
            if len(mp) != 1 or len(sp) != 1 or "test" in fn["rel"]:
                continue
            cl = Deliver(db, rep, fn, mp[0], sp[0])
            lam = {x["id"] for x in fbody(fn) if x["k"] == "lambda"}
            fl = Flow(db, cl, interesting=lam, inline_small=0)
            fl.run(fn, (), params={mp[0]["n"]: ("s", "QUERY"), sp[0]["n"]: ("s", "OUT")})
            rep.count("summary queries")
            for u in fl.unsupported:
                rep.errors.append(u)
    rep.need("summary queries", 6)
    rep.need("deliveries to the summary asked for", 8)


def check(db, rep):
    changes(db, rep)
    cache_files(db, rep)
    readers(db, rep)
