"""The interpreter's lock: Python is only used by threads that hold it, and it
is not held while arkimet works."""
import re
from rulebase import *
from failures import norm

API = re.compile(r"_?Py(_|[A-Z])\w*$")
DEST = re.compile(r"std::function<bool \(std::shared_ptr<arki::Metadata>\)>")
FREE = re.compile(r"(PyGILState_\w+|PyEval_(Save|Restore)Thread|PyMem_Raw\w+|Py_IsInitialized)$")
RELEASE = re.compile(r"(arki::python::)?ReleaseGIL$")
ACQUIRE = re.compile(r"(arki::python::)?AcquireGIL$")


def bare(t):
    t = re.sub(r"^(const |struct |class )+", "", (t or "")).strip()
    return t.rstrip("&* ").strip()


class Unit:
    """events of a function or lambda: (state, kind, target, line)"""

    def __init__(self, key, fn, name):
        self.key, self.fn, self.name = key, fn, name
        self.events = []


class Walker:
    def __init__(self, db, fn, units):
        self.db, self.fn, self.units = db, fn, units
        self.vars = {}          # variable -> keys of the lambdas it holds
        self.gils = {}          # ReleaseGIL variable -> state before it
        self.state = "in"
        self.unit = self.new(fn["id"], fn["q"])

    def new(self, key, name):
        u = Unit(key, self.fn, name)
        self.units[key] = u
        return u

    def event(self, kind, target, line):
        self.unit.events.append((self.state, kind, target, line))

    def run(self):
        for i in self.fn.get("inits") or ():
            if i.get("e"):
                self.visit(i["e"])
        self.visit(self.fn["body"])

    # -- lambdas
    def lambdas(self, n):
        """lambdas that an expression is or holds"""
        out = []
        for x in walk(n):
            if x.get("k") == "lambda":
                out.append(self.lam_key(x))
            elif x.get("k") == "ref" and x.get("v") in self.vars:
                out += self.vars[x["v"]]
        return out

    def lam_key(self, n):
        return n["id"]

    def lam(self, n):
        key = self.lam_key(n)
        if key in self.units:
            return
        saved, self.unit = self.unit, self.new(key, self.fn["q"] + "::(lambda)")
        st, self.state = self.state, "in"
        self.visit(n["b"])
        self.unit, self.state = saved, st

    # -- statements
    def block(self, stmts):
        state, made = self.state, []
        for s in stmts:
            self.visit(s, made)
        for t, line in reversed(made):
            if t == "gil":
                self.state = line
            else:
                self.event("dtor", t, line)
        self.state = state

    def decl(self, n, made):
        for v in n["v"]:
            t = bare(v.get("dt") or v.get("t"))
            ref = v.get("ref") or (v.get("t") or "").rstrip().endswith(("&", "*"))
            if v.get("i"):
                if RELEASE.match(t) or ACQUIRE.match(t):
                    if RELEASE.match(t):
                        self.event("api", "PyEval_SaveThread, which gives the lock up", v.get("l") or n["l"])
                        self.gils[v["id"]] = self.state
                    made.append(("gil", self.state))
                    self.state = "rel" if RELEASE.match(t) else "held"
                    continue
                self.visit(v["i"])
                l = self.lambdas(v["i"])
                if l:
                    self.vars[v["id"]] = l
            if not ref and not v.get("static") and t in self.db.records:
                made.append((t, v.get("l") or n.get("l")))

    def visit(self, n, made=None):
        if isinstance(n, list):
            for x in n:
                self.visit(x, made)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "{}":
            return self.block(n["b"])
        if k == "decl":
            return self.decl(n, made if made is not None else [])
        if k == "lambda":
            return self.lam(n)
        if k in ("if", "for", "while", "forr", "do", "switch", "try"):
            inner = []
            state = self.state
            for key in ("init", "var", "c", "r", "e", "a", "b", "inc", "g", "h"):
                if key in n:
                    x = n[key]
                    if key == "h":
                        for hh in x:
                            self.state = state
                            self.visit(hh.get("b"))
                        continue
                    if key == "g":
                        for g in x if isinstance(x, list) else [x]:
                            self.visit(g.get("b") if isinstance(g, dict) else g, inner)
                        continue
                    if isinstance(x, dict) and x.get("k") not in ("{}", None) or isinstance(x, list):
                        self.visit(x, inner)
                    else:
                        self.visit(x)
            self.state = state
            return
        if k in ("call", "ctor"):
            return self.call(n)
        for key, x in n.items():
            if isinstance(x, (dict, list)) and key not in ("v", "caps", "params"):
                self.visit(x, made)

    def call(self, n):
        if n.get("o"):
            self.visit(n["o"])
        for a in n.get("a") or ():
            self.visit(a)
        for key in ("fe", "e"):
            if isinstance(n.get(key), dict):
                self.visit(n[key])
        f = n.get("f") or ""
        line = n.get("l")
        if f.endswith("operator=") and n.get("o") and n["o"].get("k") == "ref":
            for a in n.get("a") or ():
                self.vars.setdefault(n["o"].get("v"), []).extend(self.lambdas(a))
        if f.endswith("ReleaseGIL::lock") and n.get("o"):
            for x in walk(n["o"]):
                if x.get("k") == "ref" and x.get("v") in self.gils:
                    self.state = self.gils[x["v"]]
            return
        if n["k"] == "call" and "::" not in f and API.match(f) and not FREE.match(f):
            self.event("api", f, line)
        if n["k"] == "call" and f.endswith("operator()") and n.get("o"):
            for l in self.lambdas(n["o"]):
                self.event("call", l, line)
            if f.startswith("std::function<") and DEST.match(f):
                self.event("call", "dest", line)
        fid = n.get("id")
        if fid:
            if n.get("virt") and n["k"] == "call":
                self.event("virt", fid, line)
            else:
                self.event("call", fid, line)
        if f.startswith("arki::") or n["k"] == "ctor" or f.startswith("std::"):
            for a in n.get("a") or ():
                for l in self.lambdas(a):
                    self.event("lambda", l, line)


def takes(u):
    return any(e[0] == "held" for e in u.events)


class Gil:
    def __init__(self, db):
        self.db = db
        self.units = {}
        for fn in db.functions.values():
            if fn.get("body"):
                Walker(db, fn, self.units).run()
        self.over = {}
        self.dtors = {}
        self.why = {}
        self.plain = {}         # class -> its virtual methods, all for threads that hold the lock
        self.solve()
        while self.refine():
            self.over = {}
            self.why = {}
            self.solve()

    def refine(self):
        """classes made to be used with the lock held: none of their methods takes it"""
        new = {}
        for cls, r in self.db.records.items():
            if "/arki/python/" not in (r.get("file") or "") or cls in self.plain:
                continue
            over = [m["id"] for m in r["methods"] if m.get("over") and not m.get("dtor") and m["id"] in self.units]
            if any(self.direct(i) for i in over) and not any(takes(self.units[i]) for i in over):
                new[cls] = set(over)
        self.plain.update(new)
        return new

    def direct(self, key):
        """uses Python by itself, not through what arkimet calls"""
        while key in self.why:
            if not self.units[key].fn["rel"].startswith("arki/python/"):
                return False
            if self.why[key][2] is None:
                return True
            key = self.why[key][2]
        return False

    def hidden(self, fid):
        return any(fid in ids for ids in self.plain.values())

    def dtor(self, cls):
        if cls not in self.dtors:
            out = []
            r = self.db.records.get(cls)
            if r:
                self.dtors[cls] = out
                own = [m["id"] for m in r["methods"] if m.get("dtor") and m["id"] in self.units]
                out += own
                for f in r["fields"]:
                    t = bare(f["t"])
                    if not f["t"].rstrip().endswith(("&", "*")) and t in self.db.records:
                        out += self.dtor(t)
                for b in r["bases"]:
                    b = b if isinstance(b, str) else b.get("n") or b.get("t")
                    if b in self.db.records:
                        out += self.dtor(b)
            self.dtors[cls] = out
        return self.dtors[cls]

    def targets(self, kind, t):
        if kind == "virt":
            if t not in self.over:
                self.over[t] = [f["id"] if isinstance(f, dict) else f for f in all_overriders(self.db, t)] + [t]
                self.over[t] = [x for x in self.over[t] if not self.hidden(x)]
            return self.over[t]
        if kind == "dtor":
            return self.dtor(t)
        return [t]

    def solve(self):
        """why[key]: (line, what) if Python is used without taking the lock"""
        rev = {}
        todo = []
        for key, u in self.units.items():
            for state, kind, t, line in u.events:
                if state != "in":
                    continue
                if kind == "api":
                    if key not in self.why:
                        self.why[key] = (line, t, None)
                        todo.append(key)
                    continue
                for x in self.targets(kind, t):
                    rev.setdefault(x, []).append((key, line))
        while todo:
            x = todo.pop()
            for key, line in rev.get(x, ()):
                if key not in self.why:
                    self.why[key] = (line, self.units[x].name, x)
                    todo.append(key)

    def chain(self, key):
        out = []
        while key in self.why and len(out) < 12:
            line, what, nxt = self.why[key]
            u = self.units[key]
            out.append("%s (%s:%s) uses %s" % (norm(u.name), u.fn["rel"], line, norm(what)))
            key = nxt
        return out


def waits(g, last=None):
    """functions that wait for a thread to end (or reach another target): {key: (line, next)}"""
    last = last or JOIN
    rev, out, todo = {}, {}, []
    for key, u in g.units.items():
        for state, kind, t, line in u.events:
            if kind == "api" or state == "rel":
                continue
            for x in g.targets(kind, t):
                if x == last:
                    if key not in out:
                        out[key] = (line, None)
                        todo.append(key)
                else:
                    rev.setdefault(x, []).append((key, line))
    while todo:
        x = todo.pop()
        for key, line in rev.get(x, ()):
            if key not in out:
                out[key] = (line, x)
                todo.append(key)
    return out


JOIN = "_ZNSt6thread4joinEv"


def unlocked(db, rep, g):
    for key, u in g.units.items():
        for state, kind, t, line in u.events:
            if state != "rel":
                continue
            rep.count("calls without the lock")
            if kind == "api":
                rep.bad("unlocked", u.name, "%s:%s" % (u.fn["rel"], line), "Python is used (%s) where its lock is given up" % t)
                continue
            for x in g.targets(kind, t):
                if x in g.why:
                    rep.bad("unlocked", u.name, "%s:%s" % (u.fn["rel"], line), "Python is used where its lock is given up", g.chain(x))
                    break
    rep.count("places that give up the lock", sum(1 for u in g.units.values() if any(e[0] == "rel" for e in u.events)))
    rep.need("places that give up the lock", 25)
    rep.need("calls without the lock", 150)


def callbacks(db, rep, g):
    """what arkimet calls, it calls from any thread"""
    n = 0
    for cls, r in db.records.items():
        if "/arki/python/" not in (r.get("file") or "") or cls in g.plain:
            continue
        for m in r["methods"]:
            u = g.units.get(m["id"])
            if not m.get("over") or m.get("dtor") or u is None:
                continue
            over = [db.functions.get(o) for o in m["over"]]
            if any(f and f["rel"].startswith("arki/python/") for f in over):
                continue
            if any(e[1] == "api" or e[0] == "held" for e in u.events):
                n += 1
            if g.direct(m["id"]):
                rep.bad("callback", u.name, "%s:%s" % (u.fn["rel"], g.why[m["id"]][0]), "Python is used by what arkimet calls, without taking the lock", g.chain(m["id"]))
    for key, u in g.units.items():
        if u.name.endswith("(lambda)") and u.fn["rel"].startswith("arki/python/") and any(e[0] == "held" for e in u.events):
            n += 1
    rep.count("functions that take the lock", n)
    rep.need("functions that take the lock", 30)


def kept(db, rep, g):
    """functions, lambdas and function objects that arkimet keeps and calls later"""
    n = 0
    objects = {}
    for cls, r in db.records.items():
        if "/arki/python/" in (r.get("file") or ""):
            for m in r["methods"]:
                if m["n"] == "operator()" and m["id"] in g.units and not cls.startswith("std::"):
                    objects[cls] = m["id"]
    for fn in db.functions.values():
        if not fn.get("body") or not fn["rel"].startswith("arki/python/"):
            continue
        for x in fbody(fn):
            ids = []
            f = x.get("f") or ""
            if x.get("k") == "ctor" and f.startswith("std::function<") or x.get("k") == "call" and f.startswith("std::function<") and f.endswith("operator="):
                for a in x.get("a") or ():
                    for y in walk(a):
                        t = bare(y.get("dt") or y.get("t")) if y.get("k") in ("ctor", "temp", "ref", "call") else ""
                        if t in objects:
                            ids.append(objects[t])
            if x.get("k") == "call" and "::register" in f and not f.startswith("arki::python::"):
                for a in x.get("a") or ():
                    for y in walk(a):
                        if y.get("k") in ("lambda", "ref") and y.get("id") in g.units:
                            ids.append(y["id"])
            for i in dict.fromkeys(ids):
                n += 1
                if i in g.why and g.direct(i):
                    u = g.units[i]
                    rep.bad("callback", u.name, "%s:%s" % (u.fn["rel"], g.why[i][0]), "Python is used by what arkimet calls, without taking the lock", g.chain(i))
    rep.count("functions given to arkimet", n)
    rep.need("functions given to arkimet", 2)


def threads(db, rep, g):
    n = 0
    for fn in db.functions.values():
        if not fn.get("body"):
            continue
        for x in list(fbody(fn)) + [y for i in fn.get("inits") or () for y in walk(i.get("e") or {})]:
            if x.get("k") != "ctor" or not re.match(r"std::thread::thread$", x.get("f") or "") or not x.get("a"):
                continue
            for y in walk(x["a"][0]):
                ids = [y.get("fid") or y.get("id")] if y.get("k") in ("ref", "mem", "lambda", "fref") else []
                for i in ids:
                    if i in g.units:
                        n += 1
                        if i in g.why:
                            rep.bad("thread", g.units[i].name, "%s:%s" % (g.units[i].fn["rel"], g.why[i][0]), "a thread uses Python without taking its lock", g.chain(i))
    rep.count("threads", n)


def is_factory(fn, name):
    """made inside of a lambda: for whoever calls it"""
    return any(y.get("k") in ("new", "call") and name in (y.get("t") or "") for x in fbody(fn) if x.get("k") == "lambda" for y in walk(x["b"]))


def handed_over(db, rep, g):
    """objects that use Python without taking the lock stay where it is held"""
    n = 0
    called = {}
    for key, u in g.units.items():
        for state, kind, t, line in u.events:
            if kind != "api":
                for x in g.targets(kind, t):
                    called.setdefault(x, []).append((u, line))
    short_names = {c.rsplit("::", 1)[-1]: c for c in g.plain}
    if not short_names:
        return
    pat = re.compile(r"\b(%s)\b" % "|".join(short_names))
    for fn in db.functions.values():
        if not fn.get("body"):
            continue
        for x in fbody(fn):
            made = None
            if x.get("k") == "new":
                made = pat.search(x.get("t") or "")
            elif x.get("k") == "call" and re.match(r"std::make_(unique|shared)", x.get("f") or ""):
                made = pat.search(x.get("t") or "")
                if made and "make_shared" in x["f"]:
                    n += 1
                    rep.bad("object", fn["q"], "%s:%s" % (fn["rel"], x.get("l")), "%s, which uses Python without taking its lock, is shared" % made.group(1))
                    continue
            elif x.get("k") == "decl":
                for v in x["v"]:
                    m = pat.search(bare(v.get("dt") or v.get("t")))
                    if m and v.get("i"):
                        n += 1
                        u = g.units.get(fn["id"])
                        late = [e for e in u.events if e[0] == "rel" and (e[3] or 0) >= (v.get("l") or x["l"])] if u else []
                        if late and not any(e[0] == "rel" and (e[3] or 0) < (v.get("l") or x["l"]) for e in u.events):
                            rep.bad("object", fn["q"], "%s:%s" % (fn["rel"], late[0][3]), "%s, which uses Python without taking its lock, is there where the lock is given up" % m.group(1))
            if made:
                n += 1
                for u, line in called.get(fn["id"], ()):
                    if any(e[0] == "rel" and (e[3] or 0) >= line for e in u.events) or not u.fn["rel"].startswith("arki/python/") or u.key == fn["id"]:
                        rep.bad("object", fn["q"], "%s:%s" % (fn["rel"], x.get("l")), "%s, which uses Python without taking its lock, is handed over to %s" % (made.group(1), norm(u.name)))
                if is_factory(fn, made.group(1)) or not fn["rel"].startswith("arki/python/"):
                    rep.bad("object", fn["q"], "%s:%s" % (fn["rel"], x.get("l")), "%s, which uses Python without taking its lock, is made for the use of arkimet" % made.group(1))
    rep.count("objects for the thread that has the lock", n)


def deadlocks(db, rep, g):
    """nobody waits with the lock for a thread that may want it"""
    w = waits(g)
    rep.count("functions that wait for threads", len(w))
    n = 0
    for key, u in g.units.items():
        if not u.fn["rel"].startswith("arki/python/"):
            continue
        holds = key in g.why and g.direct(key)
        for state, kind, t, line in u.events:
            if kind == "api" or not (state == "held" or state == "in" and holds):
                continue
            n += 1
            for x in g.targets(kind, t):
                if x in w and not (g.units[x].fn["rel"].startswith("arki/python/") and x in g.why):
                    steps = []
                    k = x
                    while k and len(steps) < 10:
                        steps.append("%s (%s:%s)" % (norm(g.units[k].name), g.units[k].fn["rel"], w[k][0]))
                        k = w[k][1]
                    rep.bad("wait", u.name, "%s:%s" % (u.fn["rel"], line), "threads that may use Python are waited for with its lock held", steps)
                    break
    rep.count("calls with the lock", n)


GUARDS = {"AcquireGIL": ("PyGILState_Ensure", "PyGILState_Release"), "ReleaseGIL": ("PyEval_SaveThread", "PyEval_RestoreThread")}


class Guard(Client):
    def __init__(self, fn):
        self.fn = fn

    def want_inline(self, fl, st, ev, fn):
        return fn.get("cls") == self.fn["cls"]

    def call(self, fl, st, ev):
        if ev.f in (GUARDS["AcquireGIL"] + GUARDS["ReleaseGIL"]):
            return [(st.with_auto(st.auto + (ev.f,), "%s at %s" % (ev.f, ev.where())), ("t",))]


def deliveries(db, rep, g):
    """elements are not delivered with the lock held: whoever takes them may wait for a thread that needs it"""
    w = waits(g, "dest")
    rep.count("functions that deliver elements", len(w))
    rep.need("functions that deliver elements", 20)
    for key, u in g.units.items():
        if not u.fn["rel"].startswith("arki/python/"):
            continue
        holds = key in g.why and g.direct(key)
        for state, kind, t, line in u.events:
            if kind == "api" or not (state == "held" or state == "in" and holds):
                continue
            for x in g.targets(kind, t):
                if x == "dest" or x in w and x in g.units and not g.units[x].fn["rel"].startswith("arki/python/"):
                    steps = []
                    k = x
                    while k and k in w and len(steps) < 10:
                        steps.append("%s (%s:%s)" % (norm(g.units[k].name), g.units[k].fn["rel"], w[k][0]))
                        k = w[k][1]
                    rep.bad("deliver", u.name, "%s:%s" % (u.fn["rel"], line), "elements are delivered with Python's lock held", steps)
                    break


def guards(db, rep):
    """making and destroying the guards does to the lock what their names say"""
    for cls, (first, last) in GUARDS.items():
        for c, r in db.records.items():
            if c.rsplit("::", 1)[-1] != cls or "/arki/" not in (r.get("file") or ""):
                continue
            for m in r["methods"]:
                fn = db.functions.get(m["id"])
                if fn is None or not fn.get("body") or not (m.get("ctor") or m.get("dtor")):
                    continue
                rep.count("guards")
                want = first if m.get("ctor") else last
                fl = Flow(db, Guard(fn), depth=3)
                out = fl.run(fn, ())
                fields = [f["n"] for f in r["fields"]]
                for x in out.norm + out.ret:
                    st = x[0]
                    # nothing left to give back
                    idle = m.get("dtor") and st.auto == () and any(truth and rel == "==" and c in (0, None) or not truth and rel == "!=" for (v, rel, c), truth in st.facts.items() if any(n in str(v) for n in fields))
                    if st.auto != (want,) and not idle:
                        rep.bad("guard", fn["q"], where(fn), "%s does not call %s exactly once" % (norm(fn["q"]), want), st.steps())
    rep.need("guards", 4)


def check(db, rep):
    g = Gil(db)
    rep.rule("where the lock is given up (ReleaseGIL), nothing that is called, destroyed or passed on uses Python without taking it (AcquireGIL)")
    rep.rule("methods that arkimet calls and threads take the lock before they use Python; objects that do not are never handed over")
    rep.rule("threads are not waited for with the lock held")
    unlocked(db, rep, g)
    callbacks(db, rep, g)
    kept(db, rep, g)
    threads(db, rep, g)
    handed_over(db, rep, g)
    deadlocks(db, rep, g)
    guards(db, rep)
    deliveries(db, rep, g)
