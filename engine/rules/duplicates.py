"""What happens to data that an indexed dataset already has is what its replace
strategy says, whatever the batch it comes in."""
import re
from rulebase import *
from failures import norm

RS = "arki::ReplaceStrategy"
RESULT = "arki::metadata::Inbound::Result"
IDX = re.compile(r"arki::segment::iseg::\w*Index\b")
USN = "update_sequence_number"


def enums(db, q):
    return {c["n"].rsplit("::", 1)[-1]: int(c["v"]) for c in db.enums.get(q, {}).get("c", ())}


def plain(v):
    return re.sub(r"'[0-9.]+", "", v[1]) if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str) else repr(v)


class Base(Client):
    def inline_virtual(self, fl, st, ev, cands):
        return False

    def put(self, st, add=(), rem=(), note=None):
        return st.with_auto(frozenset((st.auto - set(rem)) | set(add)), note)

    def bad(self, kind, line, msg, st):
        self.rep.bad(kind, norm(self.fn["q"]), "%s:%s" % (self.fn["rel"], line), msg, st.steps())


ELEM = ("new", "old", "replaced", "appended", "ok", "dup", "err", "r", "dest", "newusn", "nonewusn", "oldusn", "nooldusn", "lower", "notlower", "handled", "tried")


class Element(Base):
    """automaton, for the element at hand: new/old (what the index said),
    replaced, appended, the outcome, what is known of the numbers"""

    def __init__(self, db, rep, fn, name, res):
        self.db, self.rep, self.fn, self.name, self.res = db, rep, fn, name, res
        self.cls = fn["q"].rsplit("::", 1)[0]
        self.seen = {"new": 0, "old": 0, "replaced": 0, "elements": 0}

    def want_inline(self, fl, st, ev, fn):
        c = fn["q"].rsplit("::", 1)[0]
        if c.startswith(self.cls) or not fn.get("cls") and fn["rel"] == self.fn["rel"]:
            return True
        if "(lambda" in fn["q"] or "operator()" in fn["q"]:
            return None
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        a = st.auto
        if ev.kind != "call":
            return None
        ln = "line %d: " % ev.line
        if IDX.match(ev.cls or "") and ev.name == "index":
            fl.throw(st, "std::runtime_error", ev.line)
            if "old" in a or "new" in a or "replaced" in a:
                self.bad("twice", ev.line, "an element is added to the index more than once", st)
            self.seen["new"] += 1
            return [(self.put(st, ("new", "handled"), (), ln + "the index does not have the element: added"), ("c", 0)),
                    (self.put(st.with_fact(("OLD", "==", 0), False), ("old", "handled"), (), ln + "the index has the element already"), ("s", "OLD"))]
        if IDX.match(ev.cls or "") and ev.name == "replace":
            fl.throw(st, "std::runtime_error", ev.line)
            self.seen["replaced"] += 1
            if self.name in ("NEVER", "DEFAULT"):
                self.bad("replaced", ev.line, "existing data is replaced although the strategy is never to", st)
            elif self.name == "HIGHER_USN":
                if "old" not in a:
                    self.bad("replaced", ev.line, "data is replaced without knowing what is there", st)
                elif "newusn" not in a or "oldusn" not in a:
                    self.bad("replaced", ev.line, "data is replaced without comparing the two sequence numbers", st)
                elif "notlower" not in a:
                    self.bad("replaced", ev.line, "data is replaced although its sequence number may be higher than the new one", st)
            if "new" in a:
                self.bad("replaced", ev.line, "an element that was just added is replaced", st)
            return [(self.put(st, ("replaced", "handled"), (), ln + "existing data replaced"), ("void",))]
        if ev.name == "append" and "data::Writer" in (ev.cls or ""):
            fl.throw(st, "std::runtime_error", ev.line)
            if "appended" in a:
                self.bad("twice", ev.line, "the data of an element is appended more than once", st)
            if "old" in a and "replaced" not in a:
                self.bad("duplicated", ev.line, "the data of an element that the dataset has is stored again", st)
            return [(self.put(st, ("appended", "handled"), (), ln + "data appended"), ("s", "BLOB"))]
        if ev.name == USN and len(ev.args) >= 2:
            # the data whose number is read: what the index gave or the element
            of = "old" if "OLD" in repr(ev.args[0]) else "new"
            fl.throw(st, "any", ev.line)
            loc = next((l for _, l in fl.loc(ev.argn[1], st)), None)
            sym = of.upper() + "USN"
            ok = self.put(st, (of + "usn",), (), ln + "it has a sequence number" if of == "new" else ln + "what is there has a sequence number")
            if loc:
                ok = ok.with_env(loc, ("s", sym))
            return [(ok, ("c", 1)), (self.put(st, ("no%susn" % of,), (), ln + "no sequence number"), ("c", 0))]
        if ev.name == "set_all_error":
            return [(self.put(st, ("all",), (), ln + "everything reported as failed"), ("void",))]
        if ev.name == "operator*" or ev.name == "operator->" or ev.name == "get":
            if ev.obj == ("s", "OLD"):
                return [(st, ("s", "OLD"))]
        return None

    def fact(self, fl, st, atom, truth, line):
        x, o, c = atom
        if o == "<" and isinstance(c, str):
            # OLD < NEW true: not lower. NEW < OLD: lower (old > new)
            if x == "OLDUSN" and c == "$NEWUSN":
                return self.put(st, ("notlower",)) if truth else st
            if x == "NEWUSN" and c == "$OLDUSN":
                return self.put(st, ("lower",)) if truth else self.put(st, ("notlower",))
        return st

    def assign(self, fl, st, loc, val, node):
        if loc.endswith(".result") and val[0] == "c":
            l = "line %d: " % (node.get("l") or 0)
            n = [k for k, v in self.res.items() if v == val[1]]
            k = {"OK": "ok", "DUPLICATE": "dup", "ERROR": "err"}.get(n[0] if n else "", "err")
            return self.put(st, (k, "r", "handled"), {"ok", "dup", "err"} - {k}, l + "reported as " + (n[0] if n else "?"))
        if loc.endswith(".destination"):
            return self.put(st, ("dest", "handled"))
        return st

    def iter_begin(self, fl, st, what, node):
        st = st.drop_facts(lambda f: "USN" in repr(f) or "OLD" in repr(f))
        return self.put(st, ("in",), ELEM)

    def iter_end(self, fl, st, what, node, how, val=None):
        a = st.auto
        if "handled" in a:
            self.seen["elements"] += 1
            self.judge(st, node.get("l") or self.fn["line"])
            if how in ("break", "return"):
                self.bad("left", node.get("l"), "the remaining elements of the batch are not handled", st)
        return self.put(st, (), set(ELEM) | {"in"})

    def judge(self, st, line):
        a = st.auto
        stored = "appended" in a
        if not ("new" in a or "old" in a or "replaced" in a):
            self.bad("unknown", line, "an element is handled without looking it up in the index", st)
            return
        if "new" in a or "replaced" in a:
            if not stored:
                self.bad("lost", line, "an element is in the index and its data is not stored", st)
            if "ok" not in a:
                self.bad("outcome", line, "an element is stored and reported as %s" % ("duplicate" if "dup" in a else "failed"), st)
            if "dest" not in a:
                self.bad("outcome", line, "an element is stored and does not say where", st)
            return
        if "ok" in a or "r" not in a:
            self.bad("outcome", line, "an element that is not stored is reported as stored", st)
        if self.name == "ALWAYS":
            self.bad("kept", line, "data is not replaced although the strategy is always to", st)
        elif self.name in ("NEVER", "DEFAULT"):
            if "dup" not in a:
                self.bad("outcome", line, "an element that the dataset has is not reported as a duplicate", st)
        elif self.name == "HIGHER_USN":
            if "nonewusn" in a:
                if "dup" not in a:
                    self.bad("outcome", line, "an element that the dataset has is not reported as a duplicate", st)
            elif "newusn" in a and "oldusn" in a:
                if "lower" not in a:
                    self.bad("kept", line, "data is not replaced although its sequence number may not be higher than the new one", st)
                if "dup" not in a:
                    self.bad("outcome", line, "an element that the dataset has is not reported as a duplicate", st)
            elif "nooldusn" not in a:
                self.bad("kept", line, "data is not replaced without reading both sequence numbers", st)


def writers(db, rep):
    strategies, res = enums(db, RS), enums(db, RESULT)
    if not rep.anchor({"NEVER", "ALWAYS", "HIGHER_USN", "DEFAULT"} <= set(strategies) and {"OK", "DUPLICATE", "ERROR"} <= set(res), RS):
        return
    impl = [f for f in implementations(db, "arki::segment::Writer", "acquire") if f["q"].startswith("arki::segment::iseg::")]
    rep.anchor(bool(impl), "segment::iseg::Writer::acquire")
    for fn in impl:
        rep.funcs.add(fn["q"])
        fl0 = Flow(db, None)
        fl0.stack = [fn]
        cfg = fl0.vkey(fn["params"][1])
        for name, v in sorted(strategies.items()):
            cl = Element(db, rep, fn, name, res)
            same = {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"]}
            fl = Flow(db, cl, interesting=same, inline_small=0)
            fl.run(fn, frozenset(), env={cfg + ".replace_strategy": ("c", v)})
            for u in fl.unsupported:
                rep.errors.append(u)
            rep.count("strategies")
            rep.count("elements followed", cl.seen["elements"])
            if not cl.seen["elements"]:
                rep.bad("left", norm(fn["q"]), where(fn), "no element is handled when the strategy is %s" % name)
            if name in ("ALWAYS", "HIGHER_USN") and not cl.seen["replaced"]:
                rep.bad("kept", norm(fn["q"]), where(fn), "nothing is ever replaced when the strategy is %s" % name)
    rep.need("strategies", 4)
    rep.need("elements followed", 6)


# -- the strategy that is used --------------------------------------------
class Use(Base):
    def __init__(self, db, rep, fn, cfg, want, default):
        self.db, self.rep, self.fn, self.cfg, self.want, self.default = db, rep, fn, cfg, want, default
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] and not ev.virt and cls_of(fn) == cls_of(self.fn) or None

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.kind == "call" and ev.name == "acquire" and len(ev.args) >= 2 and "Writer" in (ev.cls or ""):
            self.n += 1
            v = st.env.get(plain(ev.args[1]) + ".replace_strategy") or st.env.get(ev.args[1][1] + ".replace_strategy")
            if self.want is not None:
                ok = v == ("c", self.want)
            else:
                ok = v is not None and v[0] == "s" and v[1].endswith("default_replace_strategy")
            if not ok:
                self.bad("strategy", ev.line, "the segment is not written with the strategy that was asked for" if self.want is not None else
                         "the segment is not written with the strategy of the dataset", st)
            return [(st, ("s", "RES"))]
        return None


def uses(db, rep):
    strategies = enums(db, RS)
    impl = [f for f in implementations(db, "arki::dataset::Writer", "acquire_batch") if f["q"].startswith("arki::dataset::iseg::")]
    rep.anchor(bool(impl), "dataset::iseg::Writer::acquire_batch")
    for fn in impl:
        rep.funcs.add(fn["q"])
        fl0 = Flow(db, None)
        fl0.stack = [fn]
        cfg = fl0.vkey(fn["params"][1])
        for name, v in sorted(strategies.items()):
            cl = Use(db, rep, fn, cfg, None if name == "DEFAULT" else v, name == "DEFAULT")
            fl = Flow(db, cl)
            fl.run(fn, frozenset(), env={cfg + ".replace": ("c", v)})
            for u in fl.unsupported:
                rep.errors.append(u)
            rep.count("strategies passed on")
            if not cl.n:
                rep.errors.append("no import found in %s" % fn["q"])
    rep.need("strategies passed on", 4)


# -- the strategy of a dataset ----------------------------------------------
VALUES = (("", "NEVER"), ("no", "NEVER"), ("never", "NEVER"), ("yes", "ALWAYS"), ("true", "ALWAYS"), ("always", "ALWAYS"),
          ("USN", "HIGHER_USN"), ("usn", "HIGHER_USN"), ("maybe", None))


class Conf(Base):
    """values of the configuration are known: the outcome is a constant"""

    def __init__(self, db, rep, fn, key, value):
        self.db, self.rep, self.fn, self.key, self.value = db, rep, fn, key, value

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] and ("Dataset" in fn["q"] or not fn.get("cls")) or None

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.cls and ev.cls.endswith("cfg::Section") and ev.args and ev.args[0][0] == "c":
            k = ev.args[0][1]
            if k == self.key:
                if ev.name in ("value", "operator[]"):
                    return [(st.with_auto("read"), ("c", self.value))]
                if ev.name == "has":
                    return [(st, ("c", int(self.value != "")))]
            elif ev.name == "has":
                return [(st, ("c", 0))]
        if ev.name in ("lower", "upper") and len(ev.args) == 1 and ev.args[0][0] == "c" and isinstance(ev.args[0][1], str):
            return [(st, ("c", getattr(ev.args[0][1], ev.name)()))]
        if ev.name in ("operator==", "operator!=") and ev.f.startswith("std::"):
            vs = ([ev.obj] if ev.obj else []) + list(ev.args)
            if len(vs) == 2 and all(v[0] == "c" and isinstance(v[1], str) for v in vs):
                return [(st, ("c", int((vs[0][1] == vs[1][1]) == (ev.name == "operator=="))))]
        if ev.name == "empty" and ev.obj and ev.obj[0] == "c" and isinstance(ev.obj[1], str):
            return [(st, ("c", int(ev.obj[1] == "")))]
        return None


def settings(db, rep):
    strategies = enums(db, RS)
    names = {v: k for k, v in strategies.items()}
    ctors = [f for f in db.functions.values() if f.get("body") and cls_of(f) == "arki::dataset::segmented::Dataset" and
             method_name(f) == "Dataset" and any(n["k"] == "str" and n.get("v") == "replace" for n in fbody(f))]
    if not rep.anchor(len(ctors) == 1, "segmented::Dataset::Dataset reads replace"):
        return
    fn = ctors[0]
    rep.funcs.add(fn["q"])
    for value, want in VALUES:
        cl = Conf(db, rep, fn, "replace", value)
        fl = Flow(db, cl)
        out = fl.run(fn, "")
        rep.count("values of replace")
        ends = out.ret + [(s, None, fn["end"]) for s in out.norm]
        if want is None:
            for st, v, line in ends:
                if "[*]" in str(st.env.get("this.default_replace_strategy")):
                    continue
                rep.bad("setting", norm(fn["q"]), where(fn, line), "an unknown value of replace is accepted", st.steps())
            continue
        if not ends:
            rep.bad("setting", norm(fn["q"]), where(fn), "replace = %s is refused" % value)
        for st, v, line in ends:
            got = st.env.get("this.default_replace_strategy")
            if got and got[0] != "c" and "[*]" in str(got[1]):
                # looked up in a table
                rep.count("values of replace looked up in a table")
                continue
            g = names.get(got[1]) if got and got[0] == "c" else repr(got)
            if g != want:
                rep.bad("setting", norm(fn["q"]), where(fn, line), "replace = '%s' gives the strategy %s, not %s" % (value, g, want), st.steps())
    rep.need("values of replace", 8)


# -- the index ---------------------------------------------------------------
class Lookup(Base):
    """queries that are run: each is a statement that was bound and stepped"""

    def __init__(self, db, rep, fn):
        self.db, self.rep, self.fn = db, rep, fn
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] or None

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.name == "step" and "sqlite" in (ev.cls or ""):
            q = plain(ev.obj)
            fl.throw(st, "any", ev.line)
            self.n += 1
            if q.endswith("m_get_current"):
                if "asked" in st.auto:
                    return [(st, ("c", 0))]
                return [(self.put(st, ("asked", "found"), (), "line %d: a row was found" % ev.line), ("c", 1)),
                        (self.put(st, ("asked",), (), "line %d: no row was found" % ev.line), ("c", 0))]
            if "changed " + q in st.auto:
                return [(st, ("c", 0))]
            return [(self.put(st, ("changed " + q,), (), "line %d: %s run" % (ev.line, q.split(".")[-1])), ("c", 0))]
        if ev.name == "create_unlocked":
            return [(st.with_fact(("BLOB", "==", 0), False), ("s", "BLOB"))]
        return None


def lookups(db, rep):
    for fn in db.functions.values():
        c = cls_of(fn)
        if not fn.get("body") or not re.match(r"arki::segment::iseg::WIndex(<|$)", c or "") or method_name(fn) != "index":
            continue
        cl = Lookup(db, rep, fn)
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.funcs.add(fn["q"])
        rep.count("lookups")
        for st, v, line in out.ret:
            a = st.auto
            null = v in (("c", 0),) or v and v[0] == "s" and st.facts.get((v[1], "==", 0)) is True
            ins = any(x.startswith("changed ") and "m_insert" in x for x in a)
            if "found" in a and (ins or v == ("c", 0)):
                rep.bad("lookup", norm(fn["q"]), where(fn, line), "an element that is in the index is %s" % ("added again" if ins else "not reported"), st.steps())
            if "found" not in a and not ins:
                rep.bad("lookup", norm(fn["q"]), where(fn, line), "an element that is not in the index is not added", st.steps())
            if "asked" not in a:
                rep.bad("lookup", norm(fn["q"]), where(fn, line), "an element is added without looking for it", st.steps())


def check(db, rep):
    rep.rule("each element given to an indexed segment ends in one way: added and stored when the index does not have it; otherwise replaced only as the "
             "strategy says, or left alone, not stored again, and reported as a duplicate")
    rep.rule("segments are written with the strategy asked for, or else with that of the dataset, which is what its configuration says")
    rep.rule("the index looks for an element before adding it, and reports the one that it has")
    writers(db, rep)
    uses(db, rep)
    settings(db, rep)
    lookups(db, rep)
