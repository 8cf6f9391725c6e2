"""What a query skips without looking at it has nothing that matches: segments
excluded by their name or their recorded time, and rows of an index excluded by
the constraints made from the matcher."""
import re
from collections import namedtuple
from rulebase import *
from failures import norm
from query import plain, bare, strip, qtype

# ---------------------------------------------------------------- directories
D = namedtuple("D", "inside reason done", defaults=(False, "", False))


class Prune(Client):
    """visits directories, passing on what is not excluded"""

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.dests = set()

    def setup(self, fl):
        for p in self.root["params"]:
            if "std::function<void (" in p["t"]:
                self.dests.add(fl.vkey(p))

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.root["rel"] and not fn.get("virt") and method_name(fn) not in ("match",)

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def reason(self, st, why):
        a = st.auto
        return st.with_auto(a._replace(reason=why)) if a.inside and not a.reason else st

    def call(self, fl, st, ev):
        a, w, name = st.auto, ev.where(), ev.name or ""
        if plain(ev.obj) in self.dests and name == "operator()":
            self.rep.count("candidates passed on")
            return [(st.with_auto(a._replace(done=True)), ("void",))]
        if not a.inside:
            return None
        if name == "match" or name == "isdir" or name == "parse" and ev.t == "bool":
            return [(st, ("c", 1)), (self.reason(st, name), ("c", 0))]
        if name == "operator()" and (ev.cls or "") == "arki::Matcher":
            arg = plain(ev.args[0]) if ev.args else ""
            own = "to_period(" in (arg or "") and (plain(ev.obj) or "").endswith("query.matcher")
            if not own:
                self.rep.bad("wrong-period", norm(self.root["q"]), w,
                             "the matcher is asked about something else than the period of the entry", st.steps(), "")
            self.rep.count("periods matched")
            return [(st, ("c", 1)), (self.reason(st, "period") if own else st, ("c", 0))]
        return None

    def fact(self, fl, st, atom, truth, line):
        x, r, c = atom
        s = "%s %s" % (x, c)
        if st.auto.inside and r == "==" and "d_name[0]" in x and c == 46 and truth:
            return self.reason(st, "hidden")
        if st.auto.inside and r == "==" and "to_format(" in s and ".format" in s.replace("to_format(", "") and not truth:
            return self.reason(st, "format")
        return st

    def iter_begin(self, fl, st, what, node):
        if node.get("k") not in ("for", "forr", "while"):
            return st
        st = st.drop_facts(lambda f: "d_name" in f[0] or "to_period" in f[0])
        return st.with_auto(D(True, "", False))

    def iter_end(self, fl, st, what, node, how, val=None):
        if node.get("k") not in ("for", "forr", "while"):
            return st
        a = st.auto
        if how == "end":
            if not a.reason and not a.done:
                self.rep.bad("skipped", norm(self.root["q"]), where(self.root, node["l"]),
                             "an entry that can have matching data is not passed on", st.steps(), "")
        elif not a.reason or how == "break" or how == "return":
            self.rep.bad("ends-early", norm(self.root["q"]), where(self.root, node["l"]),
                         "the visit ends before the last entry", st.steps(), "")
        return st.with_auto(a._replace(inside=False))


def check_directories(db, rep):
    rep.rule("an entry of a dataset directory is left out of the segments of a query only if it is hidden, not a directory, named "
             "differently from segments, in another format, or if the matcher refuses its period")
    n = 0
    for base in ("arki::dataset::step::Files", "arki::dataset::step::Dirs"):
        for fn in implementations(db, base, "list"):
            if not any(x["k"] in ("for", "forr", "while") for x in walk(fn["body"])):
                continue
            n += 1
            cl = Prune(db, rep, fn)
            fl = Flow(db, cl, interesting=None)
            fl.stack = [fn]
            cl.setup(fl)
            fl.run(fn, D())
            for u in fl.unsupported:
                rep.errors.append(u)
            rep.site("directory visits", "%s (%s)" % (short(norm(fn["q"])), where(fn)))
    rep.count("directory visits", n)
    # the steps visit all of them
    for fn in implementations(db, "arki::dataset::Step", "list_segments"):
        names = [x.get("f", "").rsplit("::", 1)[-1] for x in walk(fn["body"]) if x["k"] == "call"]
        for x in ("explore", "list"):
            if x not in names:
                rep.bad("not-visited", norm(fn["q"]), where(fn), "segments are listed without visiting directories (%s)" % x, [], x)
        if names.count("list") < 2:
            rep.bad("not-visited", norm(fn["q"]), where(fn), "segments are listed without visiting the files of each directory", [], "files")


# ---------------------------------------------------------------- constraints
C = namedtuple("C", "none empty rt rtnull rtempty subs absent pushed joined", defaults=(
    False, False, False, False, False, frozenset(), frozenset(), False, False))


class Constraints(Client):
    def __init__(self, db, rep, root, members):
        self.db, self.rep, self.root, self.members = db, rep, root, members

    def want_inline(self, fl, st, ev, fn):
        return False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        a, name = st.auto, ev.name or ""
        cls = ev.cls or ""
        if cls == "arki::Matcher":
            if name == "empty":
                return [(st.with_auto(a._replace(empty=True)), ("c", 1)), (st, ("c", 0))]
            if name == "intersect_interval":
                return [(st.with_auto(a._replace(none=True)), ("c", 0)), (st, ("c", 1))]
            if name == "get" and ev.args and ev.args[0] == ("c", self.reftime):
                self.rep.count("reftime constraints")
                return [(st, ("s", "RT"))]
        if name == "toReftimeSQL" and plain(ev.obj) == "RT":
            return [(st, ("s", "RTSQL"))]
        if name == "make_subquery":
            self.rep.count("subqueries")
            return [(st, ("s", "SUB{%s}" % plain(ev.obj)))]
        if name in ("push_back", "emplace_back") and cls.startswith("std::vector<std::basic_string"):
            v = "".join(self.txt(x) for x in ev.args)
            a = a._replace(pushed=True, joined=False)
            if "RTSQL" in v:
                a = a._replace(rt=True)
            for m in re.findall(r"SUB\{(.*?)\}", v):
                a = a._replace(subs=a.subs | {m})
            st = st.drop_facts(lambda f: (plain(ev.obj) or "?") + ".empty()" == re.sub(r"'\d+", "", f[0]))
            st = st.with_auto(a).with_fact((ev.obj[1] + ".empty()", "==", 0), True)
            return [(st, ("void",))]
        if name in ("operator+=", "append") and ev.obj and ".back()" in str(ev.obj[1]):
            subs = {m for x in ev.args for m in re.findall(r"SUB\{(.*?)\}", self.txt(x))}
            rt = any("RTSQL" in self.txt(x) for x in ev.args)
            if subs or rt:
                return [(st.with_auto(a._replace(subs=a.subs | subs, rt=a.rt or rt)), ev.obj)]
        if name == "join" and ev.args and ev.args[0][0] == "c":
            ok = " AND " in str(ev.args[0][1]).upper()
            return [(st, ("s", "JOINED" if ok else "JOINEDBADLY"))]
        if name in ("operator+=", "append") and any("JOINED" in self.txt(x) and "BADLY" not in self.txt(x) and
                                                     "WHERE" in self.txt(x).upper() for x in ev.args):
            return [(st.with_auto(a._replace(joined=True)), ev.obj)]
        return None

    def txt(self, v):
        return str(v[1]) if isinstance(v, tuple) and len(v) > 1 else ""

    def fact(self, fl, st, atom, truth, line):
        x, r, c = atom
        x = re.sub(r"'\d+", "", x)
        a = st.auto
        if r != "==" or c != 0:
            return st
        if x == "RT" and truth:
            return st.with_auto(a._replace(rtnull=True))
        if x == "RTSQL.empty()" and not truth:
            return st.with_auto(a._replace(rtempty=True))
        m = re.match(r"SUB\{(.*)\}\.empty\(\)$", x)
        if m and not truth:
            return st.with_auto(a._replace(absent=a.absent | {m.group(1)}))
        if x.startswith("this.") and x[5:] in self.members and truth:
            return st.with_auto(a._replace(absent=a.absent | {x}))
        return st


def check_constraints(db, rep):
    rep.rule("the SQL made from a matcher that is not empty has the constraint on reftime and those of all the tables of "
             "attributes, joined with AND; each table has a constraint for each of its attributes that the matcher mentions")
    reftime = enum_value(db, "arki::TypeCode", "TYPE_REFTIME")
    agg = "arki::segment::iseg::index::Aggregate"
    fs = [fn for fn in db.functions.values() if method_name(fn) == "add_joins_and_constraints"]
    rep.anchor(fs, "iseg::Index::add_joins_and_constraints")
    for fn in fs:
        rec = db.records.get(cls_of(fn)) or {"fields": []}
        members = [f["n"] for f in rec["fields"] if bare(f["t"]) == agg]
        if not members:
            # templates
            members = sorted({f["n"] for c, r in db.records.items() if c.startswith("arki::segment::iseg::Index") for f in r["fields"]
                              if bare(f["t"]) == agg})
        rep.anchor(len(members) >= 2, "tables of attributes of the index")
        cl = Constraints(db, rep, fn, members)
        cl.reftime = reftime
        fl = Flow(db, cl, interesting=None)
        fl.stack = [fn]
        out = fl.run(fn, C())
        for u in fl.unsupported:
            rep.errors.append(u)
        for st, val, ln in out.ret:
            a, w = st.auto, where(fn, ln)
            rep.count("paths that make constraints")
            if a.empty:
                continue
            q = norm(fn["q"])
            if a.pushed and not a.joined:
                rep.bad("not-joined", q, w, "constraints are not added to the query", st.steps(), "")
            if not a.pushed and not (a.rtnull or a.rtempty):
                rep.bad("unconstrained", q, w, "no constraint is made on reftime", st.steps(), "reftime")
            elif not a.none and not a.rt and not a.rtnull and not a.rtempty:
                rep.bad("unconstrained", q, w, "no constraint is made on reftime", st.steps(), "reftime")
            for m in members:
                if "this." + m not in a.subs and "this." + m not in a.absent and not a.none:
                    rep.bad("unconstrained", q, w, "no constraint is made on the attributes in %s" % m, st.steps(), m)


class Attrs(Client):
    """loops that make a constraint for each attribute, or collect values"""

    def __init__(self, db, rep, root, kind):
        self.db, self.rep, self.root, self.kind = db, rep, root, kind

    def want_inline(self, fl, st, ev, fn):
        return False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        a, name, cls = st.auto, ev.name or "", ev.cls or ""
        if name == "get" and cls == "arki::Matcher" and self.kind == "attr":
            self.rep.count("attributes looked up")
            return [(st.with_auto("null"), ("c", 0)), (st.with_auto("need").with_fact(("MI", "==", 0), False), ("s", "MI"))]
        if name == "query" and ev.args and plain(ev.args[0]) == "MI":
            return [(st, ("s", "VALS"))]
        if name == "fmtin" and ev.args and plain(ev.args[0]) == "VALS":
            return [(st, ("s", "INVALS"))]
        if name == "step" and self.kind == "values" and "sqlite" in cls:
            if a == "?":
                self.rep.bad("skipped", norm(self.root["q"]), ev.where(), "a value that can match is not looked at", st.steps(), "")
            st = st.drop_facts(lambda f: "etch" in f[0])
            return [(st.with_auto("?"), ("c", 1)), (st.with_auto("out"), ("c", 0))]
        if name in ("match_buffer",) and self.kind == "values":
            self.rep.count("values matched")
            return [(st.with_auto("need"), ("c", 1)), (st.with_auto("null"), ("c", 0))]
        if name in ("push_back", "emplace_back"):
            txt = "".join(str(x[1]) for x in ev.args if len(x) > 1)
            st = st.drop_facts(lambda f: f[0] == ev.obj[1] + ".empty()").with_fact((ev.obj[1] + ".empty()", "==", 0), True)
            if self.kind == "attr" and "INVALS" in txt or self.kind == "values" and a == "need":
                return [(st.with_auto("done"), ("void",))]
            if self.kind == "values":
                self.rep.bad("unmatched", norm(self.root["q"]), ev.where(), "a value that the matcher refuses is selected", st.steps(), "")
        if name == "join" and self.kind == "attr" and ev.args and ev.args[0][0] == "c" and "AND" not in str(ev.args[0][1]).upper():
            self.rep.bad("not-joined", norm(self.root["q"]), ev.where(), "the constraints are not joined with AND", st.steps(), "")
        return None

    def iter_begin(self, fl, st, what, node):
        st = st.drop_facts(lambda f: "[*]" in f[0])
        return st.with_auto("?") if node.get("k") in ("for", "forr", "while") else st

    def iter_end(self, fl, st, what, node, how, val=None):
        if node.get("k") not in ("for", "forr", "while"):
            return st
        w = where(self.root, node["l"])
        if how != "end":
            self.rep.bad("ends-early", norm(self.root["q"]), w, "the loop ends before the last element", st.steps(), "")
        elif st.auto not in ("null", "done"):
            self.rep.bad("unconstrained" if self.kind == "attr" else "skipped", norm(self.root["q"]), w,
                         "no constraint is made on an attribute that the matcher mentions" if self.kind == "attr" else
                         "a value that can match is not selected", st.steps(), "")
        return st.with_auto("out")


def check_attributes(db, rep):
    fs = fns(db, "arki::segment::iseg::index::Aggregate::make_subquery") + fns(db, "arki::segment::iseg::index::Aggregate::add_constraints")
    vs = fns(db, "arki::segment::iseg::index::AttrSubIndex::query")
    rep.anchor(len(fs) >= 1 and vs, "constraints on attributes")
    for kind, ff in (("attr", fs), ("values", vs)):
        for fn in ff:
            cl = Attrs(db, rep, fn, kind)
            fl = Flow(db, cl, interesting=None)
            fl.stack = [fn]
            for st, val, ln in fl.run(fn, "out").ret:
                if st.auto != "out":
                    rep.bad("ends-early", norm(fn["q"]), where(fn, ln), "not all values are looked at", st.steps(), "")
            for u in fl.unsupported:
                rep.errors.append(u)
    rep.rule("every type of metadata that expressions can match is indexed, so that the index can have a constraint on it")
    reg, comp = {}, set()
    for fn in db.functions.values():
        for x in walk(fn["body"]):
            if x["k"] in ("ctor", "call") and (x.get("f", "").startswith("arki::matcher::MatcherType::MatcherType") or
                                              x.get("f") == "arki::matcher::MatcherType::register_matcher"):
                for a in x["a"]:
                    a = strip(a)
                    if isinstance(a, dict) and a.get("cv") is not None and a.get("k") == "ref":
                        reg[a["cv"]] = where(fn, x["l"])
            if x["k"] == "call" and x.get("f", "").endswith("::insert") and "IndexGlobalData" in fn["q"]:
                a = strip(x["a"][0])
                if a.get("cv") is not None:
                    comp.add(a["cv"])
    rep.anchor(len(comp) >= 5, "types of metadata that are indexed")
    rep.anchor(len(reg) >= 5, "types of metadata that can be matched")
    names = {int(x["v"]): x["n"].rsplit("::", 1)[-1] for x in db.enums["arki::TypeCode"]["c"]}
    reftime = enum_value(db, "arki::TypeCode", "TYPE_REFTIME")
    for c, w in sorted(reg.items()):
        rep.count("types of metadata that can be matched")
        if c not in comp and c != reftime:
            rep.bad("not-indexed", "arki::segment::iseg::IndexGlobalData", w,
                    "%s can be matched but is not indexed: constraints on it are ignored" % names.get(c, c), [], str(c))


# ---------------------------------------------------------------- intervals of alternatives
def check_alternatives(db, rep):
    """OR::intersect_interval: each alternative restricts its own copy"""
    rep.rule("the time range of an expression spans all its alternatives: each one restricts a copy of the range that was given")
    for fn in fns(db, "arki::matcher::OR::intersect_interval"):
        ps = {p["n"] for p in fn["params"]}
        loops = [x for x in walk(fn["body"]) if x["k"] in ("for", "forr", "while")]
        rep.anchor(loops, "alternatives of OR::intersect_interval")
        for l in loops:
            inner = set()
            for x in walk(l["b"]):
                if x["k"] == "decl":
                    inner |= {v["n"] for v in x["v"] if not v.get("ref")}
                if x["k"] == "call" and (x.get("f") or "").rsplit("::", 1)[-1] == "intersect_interval":
                    a = strip(x["a"][0])
                    rep.count("alternatives of a range")
                    if a.get("k") == "ref" and a["n"] not in inner:
                        rep.bad("cumulative", norm(fn["q"]), where(fn, x["l"]),
                                "the range restricted by an alternative is restricted again by the next ones", [], "")


def check(db, rep):
    check_directories(db, rep)
    check_constraints(db, rep)
    check_attributes(db, rep)
    check_alternatives(db, rep)
    rep.need("directory visits", 2)
    rep.need("candidates passed on", 2)
    rep.need("periods matched", 2)
    rep.need("paths that make constraints", 3)
    rep.need("subqueries", 2)
    rep.need("attributes looked up", 1)
    rep.need("values matched", 1)
    rep.need("alternatives of a range", 1)
