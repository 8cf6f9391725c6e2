"""What is imported is reported as stored only when data and index are both
committed, data first."""
import re
from rulebase import *
from failures import norm

SW = "arki::segment::Writer"
DW = "arki::segment::data::Writer"
IDX = re.compile(r"arki::segment::iseg::\w*Index\b")
PEND = "arki::core::Pending"
BATCH = "arki::metadata::InboundBatch"
RESULT = "arki::metadata::Inbound::Result"


def strip_at(v):
    return re.sub(r"@[0-9]+:[0-9]+", "", v)


# segments without an index: what is in them is found by scanning
NO_INDEX = ("arki::segment::scan::Writer",)


class Acquire(Client):
    """automaton: frozenset of
    A  data appended and not committed     D  data committed
    T  index transaction open              I  index changed in it
    X  index (or metadata) committed       OK some element reported as stored
    E  everything reported as failed       a/r/ok/dest: this element"""

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.cls = root["q"].rsplit("::", 1)[0]
        self.n = {"append": 0, "data commit": 0, "index commit": 0}

    def want_inline(self, fl, st, ev, fn):
        c = fn["q"].rsplit("::", 1)[0]
        if c.startswith(self.cls) or not fn.get("cls") and fn["rel"] == self.root["rel"]:
            return True
        if "(lambda" in fn["q"] or "operator()" in fn["q"]:
            return None
        return False

    def put(self, st, add=(), rem=(), note=None):
        return st.with_auto(frozenset((st.auto - set(rem)) | set(add)), note)

    def bad(self, kind, ev, msg, st, detail=""):
        self.rep.bad(kind, norm(self.root["q"]), ev if isinstance(ev, str) else ev.where(), msg, st.steps(), detail)

    def call(self, fl, st, ev):
        if ev.kind != "call":
            return None
        if re.match(r"(const )?std::shared_ptr<(arki::)?segment::data::Writer>", ev.t or ""):
            return [(st, ("s", "DATAWRITER"))]
        a = st.auto
        dw = ev.obj == ("s", "DATAWRITER")
        ln = "line %d: " % ev.line
        if dw and ev.name == "append":
            self.n["append"] += 1
            fl.throw(self.put(st, ("A", "a"), ("D",), ln + "append fails"), "std::runtime_error", ev.line)
            return [(self.put(st, ("A", "a"), ("D",), ln + "data appended"), ("s", "BLOB"))]
        if dw and ev.name == "commit":
            self.n["data commit"] += 1
            fl.throw(st, "std::runtime_error", ev.line)
            return [(self.put(st, ("D",), ("A",), ln + "data committed"), ("void",))]
        if ev.name == "begin_transaction" and IDX.match(ev.cls or ""):
            fl.throw(st, "std::runtime_error", ev.line)
            return [(self.put(st, ("T",), (), ln + "index transaction opened"), ("s", "PENDING"))]
        if IDX.match(ev.cls or "") and ev.name in ("index", "replace", "remove", "reset", "reindex"):
            if "T" not in a:
                self.bad("index-outside-transaction", ev, "the index is changed outside of a transaction: a failure leaves it half done", st)
            if ev.name in ("index", "replace"):
                if "a" in a:
                    self.bad("index-after-append", ev, "an element is given its index entry after its data was appended, with the offset of the next one", st)
                if len(ev.args) < 2 or "next_offset" not in repr(ev.args[1]):
                    self.bad("wrong-offset", ev, "the index entry does not point to where the data is going to be appended", st)
            st = self.put(st, ("I",), ("X",), ln + "index changed")
            fl.throw(st, "std::runtime_error", ev.line)
            if ev.name == "index":
                return [(st, ("c", 0)), (self.put(st, ("dup",), (), ln + "the element is already in the index"), ("s", "OLD"))]
            return [(st, ("void",))]
        if ev.cls == PEND and ev.name == "commit":
            return self.index_commit(fl, st, ev, "index committed", ("T", "I"))
        if ev.name == "writeAtomically" and ev.cls == "arki::metadata::Collection":
            return self.index_commit(fl, st, ev, "metadata written", ())
        if ev.name == "set_all_error" and ev.cls == BATCH:
            return [(self.put(st, ("E",), ("OK",), ln + "everything reported as failed"), ("void",))]
        return None

    def index_commit(self, fl, st, ev, what, rem):
        self.n["index commit"] += 1
        if "A" in st.auto:
            self.bad("index-before-data", ev, "the index is committed before the data it points to", st)
        fl.throw(st, "std::runtime_error", ev.line)
        return [(self.put(st, ("X",), rem, "line %d: %s" % (ev.line, what)), ("void",))]

    def assign(self, fl, st, loc, val, node):
        if loc.endswith(".result") and val[0] == "c":
            l = "line %d: " % (node.get("l") or 0)
            if val[1] == self.OKV:
                return self.put(st, ("OK", "ok", "r"), ("E",), l + "reported as stored")
            return self.put(st, ("r",), ("ok",), l + "reported as not stored")
        if loc.endswith(".destination"):
            return self.put(st, ("dest",), ())
        return st

    def iter_begin(self, fl, st, what, node):
        if len(fl.stack) >= 1:
            return self.put(st, (), ("a", "r", "ok", "dup", "dest"))
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        a = st.auto
        w = where(self.root, node.get("l") or 0)
        if "a" in a or "r" in a or "dup" in a:
            if "r" not in a:
                self.bad("no-outcome", w, "an element is handled and gets no outcome", st)
            elif "ok" in a and "a" not in a:
                self.bad("stored-without-data", w, "an element is reported as stored and its data was not appended", st)
            elif "a" in a and "ok" not in a:
                self.bad("data-of-rejected", w, "the data of an element that is not reported as stored is appended", st)
        return self.put(st, (), ("a", "r", "ok", "dup", "dest"))

    def verdict(self, st, val, line):
        a = st.auto
        w = where(self.root, line)
        if "OK" in a:
            if "D" not in a or "A" in a:
                self.bad("data-not-committed", w, "elements are reported as stored and their data is not committed", st)
            elif ("X" not in a or "I" in a) and self.cls not in NO_INDEX:
                self.bad("index-not-committed", w, "elements are reported as stored and their index is not committed", st)
        elif "A" in a and "E" not in a:
            self.bad("not-reported", w, "data that is not committed is not reported as failed", st)
        if val[0] == "s":
            c = st.env.get(val[1] + ".count_ok")
            if c and c[0] == "c":
                if "OK" in a and c[1] == 0:
                    self.bad("count", w, "elements are reported as stored and counted as none", st)
                if "E" in a and "OK" not in a and c[1] != 0:
                    self.bad("count", w, "everything failed and the count of what was stored is not zero", st)
            elif c and c[0] == "s" and "E" in a and "OK" not in a:
                self.bad("count", w, "everything failed and the count of what was stored may not be zero", st)


def check(db, rep):
    rep.rule("in each import, every element reported as stored had its data appended, the data is committed and then the index or "
             "metadata; on failure everything is reported as failed and nothing is committed")
    ov = implementations(db, SW, "acquire")
    okv = enum_value(db, RESULT, "OK")
    if okv is None:
        rep.errors.append("anchor vanished: Inbound::Result::OK")
        return
    for fn in ov:
        cl = Acquire(db, rep, fn)
        cl.OKV = okv
        cls = fn["q"].rsplit("::", 1)[0]
        same = {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"]}
        fl = Flow(db, cl, interesting=same, inline_small=0)
        out = fl.run(fn, frozenset())
        for u in fl.unsupported:
            rep.errors.append(u)
        for s, v, l in out.ret:
            cl.verdict(s, v, l)
        for k, n in cl.n.items():
            if not n and not (k == "index commit" and cls in NO_INDEX):
                rep.errors.append("no %s found in %s" % (k, fn["q"]))
        rep.count("import functions")
        rep.count("events", sum(cl.n.values()))
    rep.need("import functions", 2)
    manifests(db, rep)
    dirty(db, rep)


# ------------------------------------------------------- list of segments
MW = "arki::dataset::simple::manifest::Writer"
CHANGERS = ("set", "remove", "set_mtime", "rename")


class Manifest(Client):
    """automaton: frozenset of R (list read), L (list changed), S (segment
    imported in this visit), N (nothing was stored)"""

    def __init__(self, db, rep, root, importing):
        self.db, self.rep, self.root, self.importing = db, rep, root, importing
        self.n = 0

    def may_throw(self, fl, st, ev):
        return False

    def want_inline(self, fl, st, ev, fn):
        if ev.cls == MW:
            return False
        return None

    def put(self, st, add=(), rem=(), note=None):
        return st.with_auto(frozenset((st.auto - set(rem)) | set(add)), note)

    def call(self, fl, st, ev):
        if ev.kind != "call":
            return None
        ln = "line %d: " % ev.line
        if ev.cls in (MW, "arki::dataset::simple::manifest::Reader") and ev.name == "reread":
            return [(self.put(st, ("R",), (), ln + "list of segments read"), ("void",))]
        if ev.cls == MW and ev.name in CHANGERS:
            self.n += 1
            if self.importing:
                if "R" not in st.auto:
                    self.rep.bad("list-not-read", norm(self.root["q"]), ev.where(),
                                 "the list of segments is changed without reading what others have written", st.steps(), "")
                if ev.name == "set" and "S" in st.auto:
                    v = [a[1] if a[0] == "s" else "" for a in ev.args]
                    if len(v) >= 3 and (v[1] != "RES.segment_mtime" or v[2] != "RES.data_timespan"):
                        self.rep.bad("list-other-values", norm(self.root["q"]), ev.where(),
                                     "the segment is listed with values that are not those of the import", st.steps(), "")
            return [(self.put(st, ("L", "listed"), (), ln + "list of segments changed"), ("void",))]
        if ev.cls == MW and ev.name == "flush":
            return [(self.put(st, (), ("L",), ln + "list of segments written"), ("void",))]
        if ev.cls == SW and ev.name == "acquire" and self.importing:
            self.n += 1
            return [(self.put(st, ("S",), ("N", "listed"), ln + "segment imported"), ("s", "RES"))]
        return None

    def fact(self, fl, st, atom, truth, line):
        x, o, c = atom
        if x == "RES.count_ok":
            if o == "==" and c == 0 and truth or o == "<" and c == 1 and truth or o == "<" and c == 0 and truth:
                return self.put(st, ("N",))
        if x == 0 and c == "$RES.count_ok" and o == "<" and not truth:
            return self.put(st, ("N",))
        return st

    def iter_begin(self, fl, st, what, node):
        return State(st.auto - {"S", "N", "listed"}, st.env, {a: t for a, t in st.facts.items() if "RES" not in str(a)}, st.trace)

    def iter_end(self, fl, st, what, node, how, val=None):
        self.visit(st, node.get("l") or 0)
        return self.put(st, (), ("S", "N", "listed"))

    def visit(self, st, line):
        if self.importing and "S" in st.auto and "N" not in st.auto and "listed" not in st.auto:
            self.rep.bad("not-listed", norm(self.root["q"]), where(self.root, line),
                         "data is stored in a segment and the segment is not listed", st.steps(), "")

    def verdict(self, st, line):
        self.visit(st, line)
        if "L" in st.auto:
            self.rep.bad("list-not-written", norm(self.root["q"]), where(self.root, line),
                         "the list of segments is changed and not written", st.steps(), "")


def manifests(db, rep):
    rep.rule("an import into a simple dataset reads the list of segments under its lock, lists each segment that received data with "
             "the values of the import, and writes the list; every operation that changes the list writes it")
    muts = {m["id"] for m in db.records.get(MW, {}).get("methods", ()) if m.get("n") in CHANGERS}
    if not rep.anchor(muts, MW):
        return
    roots = []
    for fn in db.functions.values():
        if method_name(fn).startswith("test_"):
            continue
        if fn["rel"].startswith("arki/dataset/") and not fn["rel"].endswith("-test.cc") and cls_of(fn) != MW and \
                not fn["rel"].endswith("tests.cc") and any(n.get("id") in muts for n in fbody(fn) if n["k"] == "call"):
            roots.append(fn)
    imp = implementations(db, "arki::dataset::Writer", "acquire_batch")
    imp = [f for f in imp if f["q"].startswith("arki::dataset::simple::")]
    from failures import callers
    called = callers(db)
    todo = []
    for fn in roots:
        c = [db.functions[x] for x in called.get(fn["id"], ()) if x in db.functions]
        if fn.get("acc") in ("private", "protected") and c or "(lambda" in fn["q"]:
            todo += [x for x in c if x not in todo]
        elif fn not in todo:
            todo.append(fn)
    for f in imp:
        if f not in todo:
            todo.append(f)
    for fn in todo:
        cl = Manifest(db, rep, fn, fn in imp)
        same = {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"]}
        fl = Flow(db, cl, interesting=same, inline_small=0)
        out = fl.run(fn, frozenset())
        for u in fl.unsupported:
            rep.errors.append(u)
        for s, v, l in out.ret:
            cl.verdict(s, l)
        if fn in imp and not cl.n:
            rep.errors.append("no import found in %s" % fn["q"])
        rep.count("changes of the list of segments", cl.n)
        rep.count("operations on the list of segments")
    rep.need("operations on the list of segments", 6)
    rep.need("changes of the list of segments", 8)


class Dirty(Client):
    """automaton: (kept list changed)"""

    def __init__(self):
        self.flags = set()
        self.skips = []

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        o = ev.obj[1] if ev.obj and ev.obj[0] == "s" else ""
        if ev.kind == "call" and "segmentinfo_cache" in o and ev.name in ("push_back", "insert", "erase", "emplace_back", "emplace", "clear"):
            return [(st.with_auto(True, "line %d: list changed" % ev.line), ("s", "RES@%d" % ev.line))]
        return None

    def assign(self, fl, st, loc, val, node):
        if ("segmentinfo_cache" in loc or re.search(r"\.(mtime|relpath|time)$", loc)) and ".tmp" not in loc:
            if "segmentinfo_cache" in loc or loc.startswith(("this.", "segment(")):
                return st.with_auto(True, "line %d: list changed" % (node.get("l") or 0))
        return st


def dirty(db, rep):
    rep.rule("every method that changes the list of segments in memory marks it to be written, and writing is skipped only "
             "when it is not marked")
    fl0 = fns(db, MW + "::flush")
    if not rep.anchor(len(fl0) == 1, MW + "::flush"):
        return

    class F(Client):
        def may_throw(self, fl, st, ev):
            return False

        def call(self, fl, st, ev):
            if "rename" in ev.name:
                return [(st.with_auto("done"), ("c", 0))]
            return None
    out = Flow(db, F(), interesting=set(), inline_small=0).run(fl0[0], "")
    flag = None
    for s, v, l in out.ret:
        if s.auto == "done":
            continue
        c = [a[0] for a, t in s.facts.items() if a[1] == "==" and a[2] == 0 and t and isinstance(a[0], str) and a[0].startswith("this.")]
        if not c:
            rep.bad("not-written", norm(fl0[0]["q"]), where(fl0[0], l), "the list of segments may not be written although it changed", s.steps(), "")
        else:
            flag = c[0]
    if flag is None:
        return
    for fn in db.functions.values():
        if cls_of(fn) != MW or fn.get("ctor") or fn.get("dtor") or fn["q"].endswith(("::flush", "::write")):
            continue
        cl = Dirty()
        fl = Flow(db, cl, interesting={g["id"] for g in db.functions.values() if cls_of(g) == MW}, inline_small=0)
        out = fl.run(fn, False)
        for s, v, l in out.ret:
            if s.auto and s.env.get(flag) != ("c", 1) and s.facts.get((flag, "==", 0)) is not False:
                rep.bad("not-marked", norm(fn["q"]), where(fn, l), "the list of segments is changed and not marked to be written", s.steps(), "")
        rep.count("methods of the list of segments")
        if any(s.auto for s, v, l in out.ret):
            rep.count("methods that change the list")
    rep.need("methods that change the list", 3)
