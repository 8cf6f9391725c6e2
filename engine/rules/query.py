"""A query delivers exactly the data that matches, in the requested order, and
looks everywhere that can have it.

Every function that is given a query (or a matcher) and produces data, a
summary or a list of segments is interpreted with what is known about the
element at hand (not looked at, matches, doesn't match; can or cannot have
matching data), whether it was delivered, and whether what is buffered was
sorted and passed on."""
import re
from collections import namedtuple
from rulebase import *
from failures import norm

A = namedtuple("A", "md done seg segdone buf sorted stream stop none seen pool posted narrow", defaults=(
    None, False, None, False, "", False, "", False, False, frozenset(), False, frozenset(), frozenset()))

FT = "std::function<bool (std::shared_ptr<arki::Metadata>)>"
MDT = re.compile(r"arki::Metadata\b")
COLL = re.compile(r"arki::metadata::Collection$")
STREAM = "arki::metadata::sort::Stream"
SUMMARY = "arki::Summary"
KEEP = ("push_back", "emplace_back", "insert", "emplace")
# no data of their own, or not ours to filter
EXEMPT = {
    "arki::dataset::empty::Reader": "always empty",
    "arki::segment::EmptyReader": "always empty",
    "arki::segment::missing::Reader": "reports the missing segment",
    "arki::dataset::offline::Reader::impl_query_data": "data is not online",
    "arki::python::dataset::PyDatasetReader": "filtered by the Python code",
}


def bare(t):
    return t.replace("const ", "").replace("&", "").replace("*", "").strip()


def qtype(t):
    return bare(t) in ("arki::query::Data", "arki::query::Bytes", "arki::Matcher")


def norm_cls(c):
    return re.sub(r"<.*", "", c or "") if not (c or "").startswith("arki::dataset::DatasetAccess") else c


def plain(v):
    return re.sub(r"'\d+", "", v[1]) if isinstance(v, tuple) and len(v) > 1 and v[0] == "s" else None


def strip(n):
    while isinstance(n, dict) and n["k"] in ("full", "temp", "defarg", "icast", "cast"):
        n = n["e"]
    return n


def elem(p):
    """the same for all the elements of a container"""
    return re.sub(r"\.operator\[\]\([^()]*(\([^()]*\)[^()]*)*\)|\[[^\]]*\]", "[]", p)


class Query(Client):
    def __init__(self, db, rep, root, locals_of):
        self.db, self.rep, self.root = db, rep, root
        self.mine = set()       # values that are the query
        self.consumers = set()
        self.segconsumers = set()   # are given segments
        self.summaries = set()
        self.boundary_ids = locals_of
        for p in root["params"]:
            if not p["n"]:
                continue
            v = Flow.vkey(None, p) if False else None
        self.looked = 0
        self.started = set()    # objects that were given the query

    def setup(self, fl):
        for p in self.root["params"]:
            if not p["n"]:
                continue
            k = fl.vkey(p)
            if qtype(p["t"]):
                self.mine.add(k)
            elif FT in p["t"]:
                self.consumers.add(k)
            elif "std::function<bool (" in p["t"]:
                self.segconsumers.add(k)
            elif bare(p["t"]) == SUMMARY:
                self.summaries.add(k)
        for f in self.fields:
            self.mine.add("this." + f)

    fields = ()

    # ------------------------------------------------------------ values
    def is_query(self, v):
        p = plain(v)
        if p is None:
            return False
        if p in self.mine:
            return True
        m = re.match(r"(?:Data|Bytes|Matcher)\((.*?)(?:,[^,]*)?\)(@\d+:\d+)?$", p)
        if m and m.group(1) in self.mine:
            return True
        if p.endswith(".matcher") and self.is_query(("s", p[:-8])):
            return True
        return False

    def is_stream(self, v):
        p = plain(v)
        return p == "STREAM" or p is not None and re.match(r"new\((std::\w+<)?%s\b" % STREAM, p)

    def is_consumer(self, v):
        p = plain(v)
        return p is not None and p in self.consumers

    def delivers(self, fl, v):
        """does a value deliver to the consumer?"""
        if self.is_consumer(v):
            return True
        return isinstance(v, tuple) and v[0] == "l" and v[1] in fl.lambdas

    def wants_data(self, st):
        for (x, r, c), t in st.facts.items():
            if r == "==" and c == 0 and re.sub(r"'\d+", "", x).endswith(".with_data"):
                return not t
        return None

    def sorter_null(self, st):
        for (x, r, c), t in st.facts.items():
            if r == "==" and c == 0 and re.sub(r"'\d+", "", x).endswith(".sorter"):
                return t
        return None

    # ------------------------------------------------------------ report
    def bad(self, rule, ev_where, msg, st, detail=""):
        self.rep.bad(rule, norm(self.root["q"]), ev_where, msg, st.steps(), detail)

    # ------------------------------------------------------------ inlining
    def want_inline(self, fl, st, ev, fn):
        if fn["id"] in self.boundary_ids and not self.local(fn):
            return False
        n = method_name(fn)
        if n in ("read_all", "wrap", "done", "add", "flush", "filter", "move_to", "sort", "archive"):
            return False
        if any("etadata>)>" in p["t"] for p in fn["params"]) and not any(qtype(p["t"]) for p in fn["params"]):
            return False
        return self.local(fn) or "hasArchive" != n and (cls_of(fn) or "").endswith("::Reader") and n.startswith("impl_query")

    def local(self, fn):
        return fn["rel"] == self.root["rel"] and not (fn.get("virt") and method_name(fn) == method_name(self.root) and cls_of(fn) != cls_of(self.root))

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    # ------------------------------------------------------------ events
    def deliver(self, fl, st, w, what, result="bool"):
        a = st.auto
        self.looked += 1
        if a.md != "T" and not a.pool and not a.stop:
            self.bad("unmatched", w, "%s on a path that does not know that the matcher accepts it" % what, st)
        if a.stop and False:
            pass
        return a._replace(done=True)

    def order(self, st, w, what):
        if not self.has_sorter:
            return
        if self.sorter_null(st) is not True and not st.auto.sorted:
            self.bad("unsorted", w, "%s although an order can have been requested and nothing was sorted" % what, st)

    has_sorter = isdata = False

    def ret_bool(self, st, auto, w):
        return [(st.with_auto(auto), ("c", 1)),
                (st.with_auto(auto._replace(stop=True), w + " the consumer asks to stop"), ("c", 0))]

    def call(self, fl, st, ev):
        a = st.auto
        w = ev.where()
        name = ev.name or ""
        ot = bare(ev.ot or ev.cls or "")
        cls = ev.cls or ""
        # the matcher
        if name == "operator()" and cls == "arki::Matcher":
            if not self.is_query(ev.obj):
                return None
            at = [bare(x.get("t", "")) for x in (strip(n) for n in ev.argn) if isinstance(x, dict)]
            self.rep.count("elements matched")
            if a.md is not None and a.md != "T":
                return [(st.with_auto(a._replace(md="T"), w + " it matches"), ("c", 1)),
                        (st.with_auto(a._replace(md="F"), w + " it doesn't match"), ("c", 0))]
            if a.seg is not None:
                return [(st, ("c", 1)), (st.with_auto(a._replace(seg="F")), ("c", 0))]
            return None
        if name == "intersect_interval" and ev.obj is not None and self.is_query(ev.obj):
            return [(st, ("c", 1)), (st.with_auto(a._replace(none=True), w + " nothing can match"), ("c", 0))]
        if name == "intersects" and cls.endswith("Interval") and a.seg is not None:
            return [(st, ("c", 1)), (st.with_auto(a._replace(seg="F"), w + " it cannot have matching data"), ("c", 0))]
        if name == "is_unbounded" and a.seg is not None and "get_stored_time_interval" in (plain(ev.obj) or ""):
            return [(st, ("c", 0)), (st.with_auto(a._replace(seg="F"), w + " it has no data"), ("c", 1))]
        if name == "is_set" and "interval" in (plain(ev.obj) or "") and not a.none:
            return None
        if name == "hasArchive":
            return [(st, ("c", 1)), (st.with_auto(a._replace(seen=a.seen | {"archive"})), ("c", 0))]
        # constraints in other languages
        if name == "add_joins_and_constraints":
            if not any(self.is_query(x) for x in ev.args):
                self.bad("wrong-query", w, "constraints are made from something else than the query", st)
            fl.throw(st.with_auto(a._replace(none=True)), "arki::segment::iseg::index::NotFound", ev.line)
            return [(st.with_auto(a._replace(posted=a.posted | {"query"})), ("void",))]
        if name == "add_string" and ev.args and ev.args[0][0] == "c":
            k = ev.args[0][1]
            if k == "query":
                p = plain(ev.args[1]) or ""
                ok = any(p == m + ".toStringExpanded()" or p == m + ".matcher.toStringExpanded()" for m in self.mine)
                if ok:
                    a = a._replace(posted=a.posted | {"query"})
            elif k == "qmacro":
                a = a._replace(posted=a.posted | {"query"})
            elif k in ("sort", "style"):
                a = a._replace(posted=a.posted | {k})
            return [(st.with_auto(a), ("void",))]
        if name in ("perform", "compile") and ("Request" in cls or "Query" in cls or "State" in ot):
            if "query" not in a.posted and not ("Query" in cls and a.posted == frozenset() and self.sql_free):
                self.bad("unconstrained", w, "the request is made without the constraints of the query", st)
            if name == "perform" and self.isdata:
                self.rep.count("requests to servers")
                if "sort" not in a.posted and self.sorter_null(st) is not True:
                    self.bad("unsorted", w, "the request is made without the order that can have been requested", st)
                if "style" not in a.posted and self.wants_data(st) is not False:
                    self.bad("no-data", w, "the request is made without asking for the data that can have been requested", st)
            a = a._replace(seen=a.seen | {"own"}, pool=True)
            return [(st.with_auto(a), ("void",))]
        # objects
        if ev.kind == "ctor" or name in ("make_unique", "make_shared"):
            if ot == STREAM or bare(ev.t) == STREAM or name.startswith("make_") and STREAM in ev.t:
                if ev.args and (plain(ev.args[0]) or "").endswith(".sorter") or self.sorter_null(st):
                    a = a._replace(sorted=True)
                return [(st.with_auto(a._replace(stream="clean")), ("s", "STREAM"))]
            if bare(ev.t).startswith("arki::query::") and ev.args and self.is_query(ev.args[0]):
                return [(st, ev.args[0])] if not ev.t.endswith("TrackProgress") else None
            if any(self.is_query(x) for x in ev.args) and "TrackProgress" not in ev.t and self.db.method_of.get(ev.id) and ev.id in self.boundary_ids:
                a = a._replace(pool=True, sorted=True, seen=a.seen | {"own"})
                return [(st.with_auto(a), ("s", "POOL@%d" % ev.line))]
            if FT in (ev.t or "") and ev.args and self.delivers(fl, ev.args[0]):
                return [(st, ev.args[0])]
            return None
        if self.is_stream(ev.obj):
            if name == "add":
                a = self.deliver(fl, st, w, "an element is given to the sorter")._replace(stream="dirty")
                return self.ret_bool(st, a, w)
            if name == "flush":
                return self.ret_bool(st, a._replace(stream="clean"), w)
        if name == "sort" and cls.endswith("Collection"):
            if any((plain(x) or "").endswith(".sorter") for x in ev.args):
                a = a._replace(sorted=True)
            return [(st.with_auto(a), ("void",))]
        if name == "move_to" and cls.endswith("Collection"):
            self.order(st, w, "what was found is delivered")
            return self.ret_bool(st, a._replace(buf="", seen=a.seen | {"own"}), w)
        if name in ("acquire", "push_back") and cls.endswith("metadata::Collection"):
            if a.md is None and "query" in a.posted:
                return [(st, ("void",))]
            a = self.deliver(fl, st, w, "an element is kept for delivery")
            return [(st.with_auto(a._replace(buf="full")), ("void",))]
        # the consumer
        if name == "operator()" and self.is_consumer(ev.obj):
            a = self.deliver(fl, st, w, "an element is given to the consumer")
            self.order(st, w, "an element is given to the consumer")
            return self.ret_bool(st, a, w)
        if name == "operator()" and plain(ev.obj) in self.segconsumers:
            a = a._replace(segdone=True, seen=a.seen | {"own"})
            return self.ret_bool(st, a, w)
        if name == "wrap" and ev.args:
            return [(st, ev.args[0])]
        if name == "done" and len(ev.args) == 1:
            return [(st, ev.args[0])]
        # summaries
        r = self.summary(fl, st, ev, name, cls, w)
        if r is not None:
            return r
        # others that are given the query
        isb = ev.id in self.boundary_ids or name in ("query_data", "query_summary", "query_bytes") or \
            ev.virt and any(self.is_query(x) for x in ev.args)
        fn = self.db.functions.get(ev.id)
        if isb and not (fn and self.want_inline(fl, st, ev, fn) and not ev.virt):
            return self.boundary(fl, st, ev, w)
        lam = [x for x in ev.args if isinstance(x, tuple) and x[0] == "l" and x[1] in fl.lambdas]
        cons = [x for x in ev.args if self.is_consumer(x)]
        if (lam or cons) and not (fn and self.want_inline(fl, st, ev, fn) and not ev.virt) and not cls.startswith("std::") \
                and not (ev.f or "").startswith("std::") or lam and name == "operator()" and cls.startswith("std::function"):
            return self.generator(fl, st, ev, w, lam, cons, "?")
        if a.seg is not None and name in KEEP and cls.startswith("std::"):
            return [(st.with_auto(a._replace(segdone=True)), ("s", "kept@%d" % ev.line))]
        return None

    sql_free = False

    def boundary(self, fl, st, ev, w):
        a = st.auto
        qs = [x for x, n in zip(ev.args, ev.argn) if self.is_query(x)]
        sums = [plain(x) for x in ev.args if plain(x) in self.summaries]
        lam = [x for x in ev.args if isinstance(x, tuple) and x[0] == "l" and x[1] in fl.lambdas]
        self.rep.count("queries passed on")
        self.rep.site("queries passed on", "%s: %s" % (w, short(ev.f or "")))
        narrow = a.narrow
        out = [plain(x) for x, t in zip(ev.args, self.ptypes(ev)) if bare(t) == SUMMARY]
        if qs:
            narrow = narrow | set(out)
            if plain(ev.obj) and not plain(ev.obj).startswith("this"):
                # an object that was given the query
                self.started.add(elem(plain(ev.obj)) + ".")
        if not qs:
            if out and not sums:
                narrow = narrow - set(out)
            elif not out and not lam and any(re.match(r"Matcher\(\)", plain(x) or "") for x in ev.args):
                pass    # everything
            else:
                self.bad("wrong-query", w, "%s is called with something else than the query" % short(ev.f or ev.name), st)
        lbl = "archive" if re.search(r"archive\(\)|m_archive", plain(ev.obj) or "") or \
            plain(ev.obj) == "this" and cls_of(self.root) != norm_cls(ev.cls) and norm_cls(ev.cls) in self.local_readers else "own"
        a = a._replace(seen=a.seen | {lbl}, segdone=True, narrow=frozenset(narrow))
        st = st.with_auto(a)
        fl.throw(st, "any", ev.line)
        lam = [x for x in ev.args if isinstance(x, tuple) and x[0] == "l" and x[1] in fl.lambdas]
        cons = [x for x in ev.args if self.is_consumer(x)]
        if cons:
            self.order(st, w, "what is found is delivered as it comes")
        if lam or cons:
            return self.generator(fl, st, ev, w, lam, cons, "T")
        if COLL.search(bare(ev.t)):
            return [(st.with_auto(a._replace(buf="full")), ("s", "FOUND@%d" % ev.line))]
        if ev.t == "bool":
            return self.ret_bool(st, a, w) if sums == [] and self.consumers else [(st, ("s", "ok@%d" % ev.line))]
        if ev.t == "void":
            return [(st, ("void",))]
        return [(st, ("s", "FOUND@%d" % ev.line))]

    def ptypes(self, ev):
        f = self.db.functions.get(ev.id)
        if f:
            return [p["t"] for p in f["params"]]
        return [(strip(n) or {}).get("t", "") for n in ev.argn]

    def generator(self, fl, st, ev, w, lam, cons, md):
        """something that calls back with elements"""
        a = st.auto
        st = st.with_auto(a._replace(seen=a.seen | {"own"}))
        if cons and not lam:
            if md != "T":
                self.bad("unmatched", w, "the consumer is given to %s, which doesn't know the query" % short(ev.f or ev.name), st)
            return self.ret_bool(st, st.auto._replace(done=True), w) if ev.t == "bool" else [(st, ("void",))]
        self.rep.count("callbacks followed")
        out = []
        for v in lam:
            node, owner = fl.lambdas[v[1]]
            isseg = not any(MDT.search(p.get("t", "")) or p.get("t", "") == "auto" and "etadata" in str(p) for p in node["params"])
            if node["params"] and not isseg or not node["params"]:
                kind = "md" if node["params"] else None
            else:
                kind = "seg"
            base = st
            cur, done, seen = [base], [base], set()
            stopped = []
            while cur:
                nxt = []
                for s in cur:
                    b = s.auto
                    if kind == "md":
                        s = s.with_auto(b._replace(md=md, done=False), w + " an element")
                    elif kind == "seg":
                        s = s.with_auto(b._replace(seg="?", segdone=False), w + " an element")
                    s = s.drop_facts(lambda f: re.search(r"larg\d+@|\[\*\]", f[0]))
                    args = [("s", "larg%d@%d" % (i, ev.line)) for i in range(len(node["params"]))]
                    for s2, val in fl.inline_lambda(node, owner, v, s, args, ev.node):
                        self.iteration(s2, w, kind, val, md)
                        b2 = s2.auto
                        s2 = s2.with_auto(b2._replace(**({"md": b.md, "done": b.done} if kind == "md" else
                                                         {"seg": b.seg, "segdone": b.segdone} if kind == "seg" else {})))
                        if val == ("c", 0):
                            stopped.append(s2)
                            if not b2.stop and (self.consumers or self.segconsumers):
                                self.bad("ends-early", w, "the callback asks to stop although the consumer didn't", s2)
                        elif val == ("c", 1) or val == ("void",):
                            nxt.append(s2)
                        else:
                            nxt.append(s2)
                            if b2.stop:
                                stopped.append(s2)
                cur = []
                for s in nxt:
                    if s.key() not in seen:
                        seen.add(s.key())
                        cur.append(s)
                        done.append(s)
            if ev.t == "bool":
                out += [(s, ("c", 1)) for s in done if not s.auto.stop] + [(s, ("c", 0)) for s in stopped]
            else:
                out += [(s, ("void",) if ev.t == "void" else ("s", "ran@%d" % ev.line)) for s in done + stopped]
        return out

    def iteration(self, st, w, kind, val, md):
        a = st.auto
        if a.stop or a.none or not (self.consumers or self.summaries or self.segconsumers or kind == "seg"):
            return
        if kind == "md" and not a.done and a.md != "F":
            self.bad("skipped", w, "an element that can match is not delivered", st)
        if kind == "seg" and not a.segdone and a.seg != "F":
            self.bad("skipped", w, "something that can have matching data is not looked at", st)

    def summary(self, fl, st, ev, name, cls, w):
        a = st.auto
        ob = plain(ev.obj)
        if cls == SUMMARY and name == "filter":
            if not (ev.args and self.is_query(ev.args[0])):
                self.bad("wrong-query", w, "a summary is filtered with something else than the query", st)
            else:
                a = a._replace(narrow=a.narrow | {plain(x) for x in ev.args[1:]})
            a = a._replace(seen=a.seen | {"own"}, segdone=True)
            return [(st.with_auto(a), ("void",))]
        if cls == SUMMARY and name in ("add", "merge"):
            other = [plain(x) for x in ev.args]
            t = self.ptypes(ev)
            if t and bare(t[0]) == "arki::Metadata":
                if len(ev.args) == 1:
                    self.deliver(fl, st, w, "an element is added to the summary")
                    a = a._replace(done=True)
                elif "query" not in a.posted:
                    self.bad("unmatched", w, "statistics are added to the summary without the constraints of the query", st)
            elif ob in self.summaries and other and other[0] not in a.narrow and \
                    not any(elem(other[0] or "").startswith(x) for x in self.started):
                self.bad("unmatched", w, "a summary of more than what matches is added without filtering", st)
            return [(st.with_auto(a._replace(seen=a.seen | {"own"})), ("void",))]
        if ob in self.summaries and cls == SUMMARY:
            m = self.db.method_of.get(ev.id)
            if m and not m[1].get("const") and "query" not in a.posted:
                self.bad("unmatched", w, "%s changes the result without the query" % name, st)
            return None
        if any(plain(x) in self.summaries for x in ev.args) and ev.id not in self.boundary_ids and name not in ("query_summary",):
            fn = self.db.functions.get(ev.id)
            if fn and self.want_inline(fl, st, ev, fn):
                return None
            if fn and any(bare(p["t"]) == SUMMARY and "const" not in p["t"] for p in fn["params"]) and "query" not in a.posted:
                self.bad("unmatched", w, "%s fills the result without the query" % short(ev.f or name), st)
        return None

    # ------------------------------------------------------------ loops
    def relevant(self, node):
        for x in walk(node["b"]):
            if x["k"] == "call":
                f = x.get("f", "")
                if f == "arki::Matcher::operator()" or f.endswith(("::query_data", "::query_summary")):
                    return True
                if f.endswith("operator()") and x.get("cls", "").startswith("std::function<bool ("):
                    return True
                if f.endswith("Interval::intersects"):
                    return True
        return False

    def kind(self, node):
        t = node.get("var", {}).get("t", "") if isinstance(node.get("var"), dict) else ""
        return "md" if MDT.search(t) else "seg"

    def iter_begin(self, fl, st, what, node):
        if node.get("k") != "forr" or not self.relevant(node):
            return st
        a = st.auto
        st = st.drop_facts(lambda f: "[*]" in f[0])
        if self.kind(node) == "md":
            return st.with_auto(a._replace(md="T" if (plain(what) or "").startswith("FOUND") else "?", done=False))
        return st.with_auto(a._replace(seg="?", segdone=False))

    def iter_end(self, fl, st, what, node, how, val=None):
        if node.get("k") != "forr" or not self.relevant(node):
            return st
        a = st.auto
        w = where(self.root, node["l"])
        k = self.kind(node)
        if how == "end":
            self.iteration(st, w, k, val, None)
        elif not a.stop and not a.none:
            self.bad("ends-early", w, "the loop ends early although the consumer didn't ask to stop", st)
        a = a._replace(seen=a.seen | {"own"})
        return st.with_auto(a._replace(md=None) if k == "md" else a._replace(seg=None))

    # ------------------------------------------------------------ what the query becomes
    def assign(self, fl, st, loc, val, node):
        if self.is_query(val) and "." in loc and not loc.startswith("this."):
            self.started.add(elem(re.sub(r"'\d+", "", loc).rsplit(".", 1)[0]) + ".")
        m = re.match(r"(.*)\.(matcher|sorter)$", re.sub(r"'\d+", "", loc))
        if m and (m.group(1) in self.mine) and not self.is_query(val) and (plain(val) or "") != m.group(0):
            self.bad("wrong-query", where(self.root, node.get("l", self.root["line"])), "%s of the query is replaced" % m.group(2), st)
        return st


def boundaries(db):
    """functions that are given a query and find something with it"""
    out = {}
    for fn in db.functions.values():
        if not (fn["rel"].startswith(("arki/dataset", "arki/segment")) and "test" not in fn["rel"].replace("testlarge", "")):
            continue
        ps = fn["params"]
        if not any(qtype(p["t"]) for p in ps):
            continue
        cls = cls_of(fn) or ""
        if cls.endswith(("SegmentQuery", "PathQuery", "query::Data", "query::Bytes", "::Aggregate")) or cls.startswith("arki::query"):
            continue
        if "hecker" in cls:
            continue
        out[fn["id"]] = fn
    return out


def check_queries(db, rep):
    rep.rule("every element given to the consumer, kept for delivery or added to the summary was accepted by the matcher of the "
             "query (or found with constraints made from it); an element not delivered was refused by it; what is passed on "
             "is the same query; whatever can have matching data is looked at; archives are included; what is delivered "
             "was sorted when an order is requested, and sorters are flushed")
    bs = boundaries(db)
    local = "arki::dataset::local::Reader"
    local_readers = {local} | set(subclasses(db, local))
    roots = []
    for fn in bs.values():
        if any(fn["q"].startswith(e) for e in EXEMPT):
            rep.count("exempt")
            continue
        roots.append(fn)
    # objects that keep the query they are made for
    keep = {}
    for c, r in db.records.items():
        fs = tuple(f["n"] for f in r["fields"] if qtype(f["t"]))
        if fs and r.get("rel", "").startswith(("arki/dataset", "arki/segment", "arki/python")) and \
                not c.endswith(("SegmentQuery", "CheckerConfig")) and "tests" not in c:
            for m in r["methods"]:
                fn = db.functions.get(m["id"])
                if fn and not m.get("ctor") and fn["id"] not in bs and \
                        any(x["k"] == "call" and re.search(r"::(impl_)?(query_(data|summary|bytes)|stream_query_bytes)$", x.get("f", ""))
                            for x in walk(fn["body"])):
                    keep[fn["id"]] = fs
                    roots.append(fn)
    for fn in sorted(roots, key=lambda f: (f["rel"], f["line"], f["id"])):
        cls = cls_of(fn) or ""
        name = method_name(fn)
        if name in ("set_post_query", "add_joins_and_constraints", "wrap_with_query") or bare(fn["rt"]).endswith("query::Data"):
            continue
        cl = Query(db, rep, fn, bs)
        cl.local_readers = local_readers
        fl = Flow(db, cl, interesting=None, cap=6000)
        fl.stack = [fn]
        cl.fields = keep.get(fn["id"], ())
        if cl.fields:
            rep.count("objects that keep a query")
        cl.setup(fl)
        isdata = any(bare(p["t"]).startswith("arki::query") for p in fn["params"])
        cl.isdata = isdata
        # what readers deliver is put in order where queries start
        cl.has_sorter = isdata and not fn.get("virt") and name == "query_data" and cls == "arki::dataset::Reader"
        if cl.has_sorter:
            rep.count("starts of queries")
        out = fl.run(fn, A())
        for u in fl.unsupported:
            rep.errors.append(u)
        rep.count("functions given a query")
        rep.site("functions given a query", "%s (%s)" % (short(norm(fn["q"])), where(fn)))
        stored = [r for r in ()]
        for st, val, ln in out.ret:
            a = st.auto
            w = where(fn, ln)
            if a.stop:
                continue
            if a.stream == "dirty":
                cl.bad("held-back", w, "what is in the sorter is not delivered", st)
            if a.buf and bare(fn["rt"]) == "bool":
                cl.bad("held-back", w, "what was found is not delivered", st)
            if a.none:
                continue
            if fn.get("ctor") or name == "start":
                continue
            need = set()
            if cls in local_readers and name.startswith("impl_query"):
                need.add("archive")
            if cls != local and not (cls not in local_readers and name == "list_segments"):
                need.add("own")
            if cl.nodata(st):
                need.discard("own")
            rv = plain(val) or ""
            if rv.startswith("this."):
                need.discard("own")
            for n in sorted(need - a.seen):
                cl.bad("not-looked", w, "returns without looking %s" % ("in the archives" if n == "archive" else "at the data"), st, n)
        # a query kept for later is the query that was given
        if name == "start":
            for st, val, ln in out.ret:
                for r in db.records.get(cls, {}).get("fields", []):
                    if qtype(r["t"]):
                        v = st.env.get("this." + r["n"])
                        if not (v and cl.is_query(v)):
                            cl.bad("wrong-query", where(fn, ln), "the query that is kept is not the one that was given", st)


def nodata(self, st):
    """the path knows there is no data"""
    for (x, r, c), t in st.facts.items():
        if r == "==" and c == 0 and t and re.search(r"begin\.is_set\(\)$", x):
            return True
        if r == "==" and c == 0 and not t and x.endswith(".empty()"):
            return True
    return False


Query.nodata = nodata


def check(db, rep):
    check_queries(db, rep)
    rep.need("functions given a query", 40)
    rep.need("queries passed on", 90)
    rep.need("elements matched", 20)
    rep.need("starts of queries", 1)
    rep.need("requests to servers", 4)
    rep.need("objects that keep a query", 4)
