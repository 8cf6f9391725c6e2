"""Data that is too old is never stored by an import: it is discarded or
refused as the ages of the dataset say, by all kinds of imports alike."""
import re
from rulebase import *
from failures import norm
from duplicates import Base, Conf, enums, plain, RESULT

AGE = "arki::dataset::local::Dataset::check_acquire_age"
DELETE, ARCHIVE = "delete_age", "archive_age"


class Decide(Base):
    """one case: which ages are set, and which limits the data is past"""

    def __init__(self, db, rep, fn, ages, past):
        self.db, self.rep, self.fn, self.ages, self.past = db, rep, fn, ages, past

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] and ev.name != "age_threshold"

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.name == "age_threshold" and ev.args:
            a = ev.args[0]
            if a == ("c", 30):
                return [(st, ("s", "DELETE_LIMIT"))]
            if a == ("c", 10):
                return [(st, ("s", "ARCHIVE_LIMIT"))]
            return [(st, ("s", "OTHER_LIMIT"))]
        if ev.kind == "call" and ev.name == "compare" and len(ev.args) == 1 and isinstance(ev.args[0][1], str) and ev.args[0][1] in self.past:
            return [(st, ("c", self.past[ev.args[0][1]]))]
        if len(ev.args) == 2 and (ev.name == "make_pair" or ev.kind == "ctor" and "pair<" in (ev.cls or ev.t or "")):
            sym = "PAIR@%d" % ev.line
            return [(st.with_env(sym + ".first", ev.args[0]).with_env(sym + ".second", ev.args[1]), ("s", sym))]
        return None

    def fact(self, fl, st, atom, truth, line):
        x, o, c = atom
        c = c[1:] if isinstance(c, str) and c.startswith("$") else c
        p = dict(self.past, OTHER_LIMIT=1)
        if c in p and x not in p:
            real = p[c] < 0 if o == "<" else p[c] == 0 if o == "==" else None
        elif x in p and c not in p:
            real = p[x] > 0 if o == "<" else p[x] == 0 if o == "==" else None
        else:
            return st
        return st if real is None or real == truth else None


def decisions(db, rep):
    res = enums(db, RESULT)
    todo = [f for f in fns(db, AGE) if f.get("body")]
    if not rep.anchor(len(todo) == 1, AGE) or not rep.anchor({"OK", "ERROR"} <= set(res), RESULT):
        return
    fn = todo[0]
    rep.funcs.add(fn["q"])
    for d in (-1, 30):
        for a in (-1, 10):
            for pd in (-1, 0, 1):
                for pa in (-1, 0, 1):
                    cl = Decide(db, rep, fn, {DELETE: d, ARCHIVE: a}, {"DELETE_LIMIT": pd, "ARCHIVE_LIMIT": pa})
                    fl = Flow(db, cl)
                    out = fl.run(fn, "", env={"this." + DELETE: ("c", d), "this." + ARCHIVE: ("c", a)})
                    if d != -1 and pd < 0:
                        want = (1, res["OK"])
                    elif a != -1 and pa < 0:
                        want = (1, res["ERROR"])
                    else:
                        want = (0, None)
                    rep.count("cases of age")
                    for st, v, line in out.ret:
                        got = None
                        f, s = st.env.get(str(v[1]) + ".first"), st.env.get(str(v[1]) + ".second")
                        if f and s and f[0] == s[0] == "c":
                            got = (int(f[1]), s[1])
                        if got is None:
                            rep.errors.append("%s: the decision is not understood (%r)" % (fn["q"], v))
                            return
                        if got[0] != want[0] or want[1] is not None and got[1] != want[1]:
                            says = {(1, res["OK"]): "discarded", (1, res["ERROR"]): "refused"}
                            case = []
                            if d != -1:
                                case.append("%s the delete age" % ("older than" if pd < 0 else "not older than"))
                            if a != -1:
                                case.append("%s the archive age" % ("older than" if pa < 0 else "not older than"))
                            rep.bad("decision", norm(fn["q"]), where(fn, line), "data %s is %s" % (
                                " and ".join(case) or "of a dataset that sets no age", says.get(got, "stored") if got[0] else "stored"), st.steps())
    rep.need("cases of age", 36)


# -- imports ask -------------------------------------------------------------
class Import(Base):
    """automaton for the element at hand: asked; too old / fine; what was
    done of it"""

    def __init__(self, db, rep, fn, res, dry):
        self.db, self.rep, self.fn, self.res, self.dry = db, rep, fn, res, dry
        self.n = 0
        self.batches = set()

    def want_inline(self, fl, st, ev, fn):
        if ev.name == "check_acquire_age":
            return False
        if "(lambda" in fn["q"]:
            return None
        return fn["rel"] == self.fn["rel"] and not ev.virt

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        a = st.auto
        ln = "line %d: " % ev.line
        if ev.name == "check_acquire_age":
            self.n += 1
            out = []
            for k, v in (("discard", self.res["OK"]), ("refuse", self.res["ERROR"])):
                s = self.put(st, ("asked", k), ("fine",), ln + "too old: to %s" % k)
                out.append((s.with_env("AGE.first", ("c", 1)).with_env("AGE.second", ("c", v)), ("s", "AGE")))
            s = self.put(st, ("asked", "fine"), (), ln + "not too old")
            out.append((s.with_env("AGE.first", ("c", 0)).with_env("AGE.second", ("c", self.res["OK"])), ("s", "AGE")))
            return out
        if ev.name in ("emplace_back", "push_back", "add") and ev.args and ("InboundBatch" in (ev.cls or "") + (ev.ot or "") or "Inbound" in (ev.cls or "")):
            if "in" in a:
                if "asked" not in a:
                    self.bad("not asked", ev.line, "an element is stored without looking at its age", st)
                elif "fine" not in a:
                    self.bad("stored", ev.line, "an element that is too old is stored", st)
                return [(self.put(st, ("stored",), (), ln + "goes to its segment"), ("s", "SLOT"))]
        return None

    def assign(self, fl, st, loc, val, node):
        if loc.endswith(".result"):
            n = [k for k, v in self.res.items() if val == ("c", v)]
            return self.put(st, ("result " + (n[0] if n else "?"),), [x for x in st.auto if x.startswith("result")], "line %s: reported as %s" % (node.get("l"), n[0] if n else "?"))
        if loc.endswith(".destination"):
            return self.put(st, ("dest",))
        return st

    def iter_begin(self, fl, st, what, node):
        if len(fl.stack) >= 1 and isinstance(what, tuple):
            return self.put(st, ("in",), [x for x in st.auto])
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        a = st.auto
        if "asked" in a:
            line = node.get("l") or self.fn["line"]
            r = [x[7:] for x in a if x.startswith("result ")]
            for k, want, msg in (("discard", "OK", "older than the delete age"), ("refuse", "ERROR", "older than the archive age")):
                if k in a:
                    if r != [want]:
                        self.bad("outcome", line, "an element %s is reported as %s" % (msg, r[0] if r else "what it was before"), st)
                    if how in ("break", "return"):
                        self.bad("left", line, "elements after one that is too old are not handled", st)
            if "discard" in a and "dest" not in a:
                self.bad("outcome", line, "an element that was discarded has no destination", st)
            if "fine" in a and self.dry and r != ["OK"]:
                self.bad("outcome", line, "an element that is not too old is not reported as imported", st)
            if "fine" in a and not self.dry and "stored" not in a:
                self.bad("lost", line, "an element that is not too old does not go to any segment", st)
        return self.put(st, (), [x for x in a])


def imports(db, rep):
    res = enums(db, RESULT)
    asking = {f["id"] for f in fns(db, AGE)}
    impl = [f for f in implementations(db, "arki::dataset::Writer", "acquire_batch") if f.get("body") and not is_py(f)]
    todo = set()
    from failures import callers
    called = callers(db)
    for i in asking:
        for c in called.get(i, ()):
            if c in db.functions and not db.functions[c]["rel"].endswith(("-test.cc", "tests.cc")):
                todo.add(c)
    reach = {}
    for f in impl:
        # the import goes through a function that asks
        seen, work = set(), [f["id"]]
        while work:
            x = work.pop()
            if x in seen or x not in db.functions:
                continue
            seen.add(x)
            if "dataset" in db.functions[x]["q"]:
                work += [n["id"] for n in fbody(db.functions[x]) if n.get("k") == "call" and n.get("id")]
        reach[f["q"]] = bool(seen & asking)
    for f in impl:
        if "arki::dataset::segmented::Writer" in supers(db, cls_of(f)):
            rep.count("imports")
            if not reach[f["q"]]:
                rep.bad("not asked", norm(f["q"]), where(f), "data is imported without looking at its age")
    for i in sorted(todo):
        fn = db.functions[i]
        dry = method_name(fn) == "test_acquire"
        cl = Import(db, rep, fn, res, dry)
        fl = Flow(db, cl)
        fl.run(fn, frozenset())
        for u in fl.unsupported:
            rep.errors.append(u)
        rep.funcs.add(fn["q"])
        rep.count("imports that ask", 1 if cl.n else 0)
        if dry:
            rep.count("simulated imports")
    for f in db.functions.values():
        if method_name(f) == "test_acquire" and f.get("body") and re.match(r"arki::dataset::(iseg|simple|outbound)::Writer", cls_of(f) or "") and f["id"] not in todo:
            rep.bad("not asked", norm(f["q"]), where(f), "a simulated import does not look at the age of data")
    rep.need("imports that ask", 3)
    rep.need("imports", 3)


def supers(db, cls):
    out, work = set(), [cls]
    while work:
        c = work.pop()
        for b in (db.records.get(c) or {"bases": ()})["bases"]:
            b = b if isinstance(b, str) else b.get("n") or b.get("q")
            if b not in out:
                out.add(b)
                work.append(b)
    return out


# -- settings ----------------------------------------------------------------
class Set(Conf):
    def call(self, fl, st, ev):
        if ev.name in ("stoi", "stol", "atoi", "strtol", "stoul") and ev.args:
            if ev.args[0] == ("c", self.value):
                return [(st, ("s", "NUMBER"))]
        r = Conf.call(self, fl, st, ev)
        if r is None and ev.cls and ev.cls.endswith("cfg::Section") and ev.name == "value":
            return [(st, ("c", ""))]
        return r


def settings(db, rep):
    ctors = [f for f in db.functions.values() if f.get("body") and cls_of(f) == "arki::dataset::local::Dataset" and method_name(f) == "Dataset" and
             any(n["k"] == "str" and "age" in str(n.get("v")) for n in fbody(f))]
    if not rep.anchor(len(ctors) == 1, "local::Dataset::Dataset reads ages"):
        return
    fn = ctors[0]
    rep.funcs.add(fn["q"])
    for key, field, other in (("archive age", ARCHIVE, DELETE), ("delete age", DELETE, ARCHIVE)):
        cl = Set(db, rep, fn, key, "77")
        fl = Flow(db, cl)
        out = fl.run(fn, "")
        ends = out.ret + [(s, None, fn["end"]) for s in out.norm]
        rep.count("settings")
        if not ends:
            rep.errors.append("%s: no way out" % fn["q"])
        for st, v, line in ends:
            if st.env.get("this." + field) != ("s", "NUMBER"):
                rep.bad("setting", norm(fn["q"]), where(fn, line), "%s is not the value configured" % key, st.steps())
            if st.env.get("this." + other) == ("s", "NUMBER"):
                rep.bad("setting", norm(fn["q"]), where(fn, line), "%s is taken from the other setting" % other, st.steps())
    fields = {x["n"]: x for x in db.records["arki::dataset::local::Dataset"]["fields"]}
    for f in (ARCHIVE, DELETE):
        i = fields.get(f, {}).get("i")
        c = i.get("cv") if isinstance(i, dict) else None
        if not rep.anchor(f in fields, f):
            continue
        while isinstance(i, dict) and c is None and i.get("e"):
            i = i["e"]
            c = i.get("cv")
        if c != -1:
            rep.bad("setting", "dataset::local::Dataset", "%s" % fields[f].get("file", "arki/dataset/local.h"), "%s is not -1 (not set) by default" % f)
        rep.count("defaults")


# -- the limit -----------------------------------------------------------------
def limit(db, rep):
    """age_threshold(n): the midnight before now, n days earlier"""
    from terms import Eval, S, C, const
    todo = [f for f in fns(db, "arki::dataset::SessionTime::age_threshold") if f.get("body")]
    if not rep.anchor(len(todo) == 1, "SessionTime::age_threshold"):
        return
    fn = todo[0]
    rep.funcs.add(fn["q"])
    for now in (1785542399, 1785542400, 1785585661):
        for age in (0, 1, 30, 400):
            got = []

            def prim(ev, q, f, name, obj, oloc, vals, n):
                if name == "now":
                    return [(C(now), q)]
                if name in ("gmtime_r", "gmtime", "localtime_r", "localtime"):
                    v = vals[0]
                    v = v[2] if v[0] == "addr" else v
                    got.append((name, v))
                    return [(S("TM"), q)]
                return None
            Eval(db, prim).run(fn, [C(age)])
            rep.count("limits computed")
            want = now - now % 86400 - age * 86400
            for name, v in got:
                if name.startswith("local"):
                    rep.bad("limit", norm(fn["q"]), where(fn), "the limit is in local time")
                elif const(v) is not None and const(v) != want:
                    rep.bad("limit", norm(fn["q"]), where(fn), "the limit of %d days is %+d seconds from the midnight that many days ago" % (age, const(v) - want))
                elif const(v) is None:
                    rep.errors.append("%s: limit not understood: %r" % (fn["q"], v))
                    return
            if not got:
                rep.errors.append("%s: limit not found" % fn["q"])
                return


def check(db, rep):
    rep.rule("data before the limit of the delete age is discarded as imported, otherwise data before the limit of the archive age is refused, and other data is stored")
    rep.rule("every import, also a simulated one, asks about every element, and does of it what the answer says")
    rep.rule("the ages are those of the configuration, and their limits are midnights, UTC, that many days ago")
    decisions(db, rep)
    imports(db, rep)
    settings(db, rep)
    limit(db, rep)
