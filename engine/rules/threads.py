"""Threads that read the datasets of a merged query: what they share is locked,
nobody waits for ever, nothing they read is lost, and they end before what they
use does."""
import re
from rulebase import *
from failures import norm, callers
from lockuse import strip

LOCKS = re.compile(r"^std::(unique_lock|lock_guard|scoped_lock)<")
SYNC = re.compile(r"^(const )?std::(mutex|recursive_mutex|shared_mutex|condition_variable|atomic|atomic_bool|atomic_flag|once_flag|thread)\b")
CALL_ONLY = re.compile(r"^std::(mutex|recursive_mutex|shared_mutex)$")


def fields_of(db, cls):
    return (db.records.get(cls) or {"fields": ()})["fields"]


def own_mem(n, names):
    """the field of this object a node is, if it is one of `names`"""
    if isinstance(n, dict) and n.get("k") == "mem" and n.get("n") in names:
        b = n.get("b")
        while isinstance(b, dict) and b.get("k") in ("full", "temp", "icast", "cast"):
            b = b["e"]
        if isinstance(b, dict) and b.get("k") == "this":
            return n["n"]
    return None


def methods_with_body(db, cls):
    r = db.records.get(cls)
    for m in r["methods"] if r else ():
        f = db.functions.get(m["id"])
        if f and f.get("body") and not m.get("implicit"):
            yield m, f


class Guarded:
    """accesses to the fields of a record that has a mutex, and whether the
    mutex is held there"""

    def __init__(self, db, cls, mutexes, names):
        self.db, self.cls, self.mutexes, self.names = db, cls, mutexes, names

    def lock_var(self, st):
        """variable that a declaration statement makes hold our mutex"""
        if st.get("k") != "decl":
            return None
        for v in st["v"]:
            if LOCKS.match(v.get("t") or "") or LOCKS.match(v.get("dt") or ""):
                i = v.get("i")
                args = (i or {}).get("a", ()) if isinstance(i, dict) else ()
                while isinstance(i, dict) and i.get("k") in ("full", "temp"):
                    i = i["e"]
                    args = i.get("a", ())
                if any(own_mem(strip(a), self.mutexes) for a in args):
                    if not any("defer_lock" in (strip(a).get("q") or strip(a).get("t") or "") for a in args):
                        return v["id"]
        return None

    def visit(self, n, held, out):
        """`held`: variables that hold the mutex; out gets (node, field, bool)"""
        if isinstance(n, list):
            for x in n:
                self.visit(x, held, out)
            return
        if not isinstance(n, dict):
            return
        if n.get("k") == "{}":
            held = set(held)
            for s in n.get("b", ()):
                v = self.lock_var(s)
                if v is not None:
                    held.add(v)
                    continue
                u = self.switched(s)
                if u:
                    (held.discard if u[1] == "unlock" else held.add)(u[0])
                    continue
                self.visit(s, held, out)
            return
        f = own_mem(n, self.names)
        if f:
            out.append((n, f, bool(held)))
            return
        if n.get("k") == "call" and n.get("id") in self.db.method_of and self.db.method_of[n["id"]][0] == self.cls:
            o = n.get("o")
            if isinstance(o, dict) and strip(o).get("k") == "this":
                out.append((n, "()" + n["id"], bool(held)))
        for k, x in n.items():
            if isinstance(x, (dict, list)):
                self.visit(x, held, out)

    def switched(self, s):
        """x.lock() or x.unlock() on a variable, as a statement"""
        s = strip(s)
        if s.get("k") == "call" and s.get("n") in ("lock", "unlock") or s.get("k") == "call" and (s.get("f") or "").endswith(("::lock", "::unlock")):
            o = s.get("o")
            o = strip(o) if isinstance(o, dict) else None
            if o and o.get("k") == "ref" and LOCKS.match(o.get("t") or ""):
                return o.get("v"), s["f"].rsplit("::", 1)[-1]
            if o and own_mem(o, self.mutexes):
                return "mutex " + o["n"], s["f"].rsplit("::", 1)[-1]
        return None


def shared_records(db):
    for q, r in sorted(db.records.items()):
        if not q.startswith("arki::") or "test" in (r.get("file") or ""):
            continue
        mx = [f["n"] for f in r["fields"] if CALL_ONLY.match(f["t"])]
        if mx:
            yield q, r, mx


def guarded(db, rep):
    for q, r, mx in shared_records(db):
        names = {f["n"] for f in r["fields"] if not SYNC.match(f["t"]) and not f["t"].startswith("const ")}
        rep.count("records with a mutex")
        g = Guarded(db, q, set(mx), names)
        acc = {}
        ids = {}
        for m, f in methods_with_body(db, q):
            ids[f["id"]] = (m, f)
            if m.get("ctor") or m.get("dtor"):
                continue
            out = []
            g.visit(f["body"], set(), out)
            acc[f["id"]] = out
        # helpers that are only called with the mutex held
        inner = {}
        for fid, out in acc.items():
            for n, what, held in out:
                if what.startswith("()"):
                    inner.setdefault(what[2:], []).append((fid, held))
        safe = {}

        def always(fid, seen=()):
            if fid in safe:
                return safe[fid]
            if fid in seen:
                return True
            cs = callers(db).get(fid, ())
            mine = inner.get(fid, ())
            ok = bool(mine) and all(c in acc for c in cs) and all(h or always(c, seen + (fid,)) for c, h in mine)
            if not seen:
                safe[fid] = ok
            return ok

        for fid, out in acc.items():
            m, f = ids[fid]
            rep.funcs.add(f["q"])
            for n, what, held in out:
                if what.startswith("()"):
                    continue
                rep.count("accesses to shared fields")
                if not held and not always(fid):
                    rep.bad("unlocked", norm(f["q"]), where(f, n.get("l")), "%s is used without holding %s" % (what, " or ".join(mx)))
        # nobody else reaches them
        for fid, fn in db.functions.items():
            if not fn.get("body") or fid in ids or not fn["rel"].startswith("arki/") or fn["file"] != r["file"]:
                continue
            for x in fbody(fn):
                if x.get("k") == "mem" and (x.get("q") or "").rsplit("::", 1)[0] == q and x["n"] in names and fn.get("cls") != q \
                        and "lambda" not in fid:
                    rep.bad("unlocked", norm(fn["q"]), where(fn, x.get("l")), "%s is used from outside its class" % x["n"])


# ---------------------------------------------------------------- waiting


def lambdas_in(n):
    for x in walk(n):
        if x.get("k") == "lambda":
            yield x


def wait_calls(fn):
    for x in fbody(fn):
        if x.get("k") == "call" and (x.get("f") or "").startswith("std::condition_variable") and (x.get("f") or "").rsplit("::", 1)[-1] in ("wait", "wait_for", "wait_until"):
            yield x


def has_pred(x):
    n = {"wait": 2, "wait_for": 3, "wait_until": 3}[x["f"].rsplit("::", 1)[-1]]
    a = [y for y in x.get("a", ()) if strip(y).get("k") != "defarg"]
    return len(a) >= n


def read_names(db, n, names, cls, depth=3):
    """fields of this object that are read by a piece of code"""
    out = set()
    for x in walk(n):
        f = own_mem(x, names)
        if f:
            out.add(f)
        if depth and x.get("k") == "call" and x.get("id") in db.functions and db.method_of.get(x["id"], ("",))[0] == cls:
            b = db.functions[x["id"]].get("body")
            if b:
                out |= read_names(db, b, names, cls, depth - 1)
    return out


class Notify(Client):
    """automaton: (fields written that someone waits for, notified)"""

    def __init__(self, watched):
        self.watched = watched

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def mark(self, st, loc, node):
        m = re.match(r"this\.(\w+)", loc or "")
        if m and m.group(1) in self.watched:
            return st.with_auto((st.auto[0] | {m.group(1)}, st.auto[1]), "line %s: %s is changed" % (node.get("l"), m.group(1)))
        return st

    def assign(self, fl, st, loc, val, node):
        return self.mark(st, loc, node)

    def compound(self, fl, st, loc, op, val, node):
        return self.mark(st, loc, node)

    def call(self, fl, st, ev):
        if ev.f.startswith("std::condition_variable::notify"):
            return [(st.with_auto((st.auto[0], True), "line %d: %s" % (ev.line, ev.name)), ("void",))]
        if ev.obj and ev.obj[0] == "s" and re.match(r"this\.(\w+)$", ev.obj[1]) and ev.obj[1][5:] in self.watched and \
                ev.name in ("push_back", "emplace_back", "push", "emplace", "pop_front", "pop", "push_front", "pop_back", "clear", "erase", "store", "exchange", "swap"):
            st = self.mark(st, ev.obj[1], ev.node)
            return [(st, ("void",))]
        return None


def waiting(db, rep):
    for q, r, mx in shared_records(db):
        names = {f["n"] for f in r["fields"] if not CALL_ONLY.match(f["t"]) and "condition_variable" not in f["t"]}
        watched = set()
        for m, f in methods_with_body(db, q):
            for x in wait_calls(f):
                rep.count("waits on a condition")
                rep.funcs.add(f["q"])
                if has_pred(x):
                    watched |= read_names(db, x["a"][-1], names, q)
                    continue
                # in a loop that tests the shared fields again
                loops = [y for y in fbody(f) if y.get("k") in ("while", "do", "for") and any(z is x for z in walk(y.get("b")))]
                if not loops:
                    rep.bad("wait", norm(f["q"]), where(f, x.get("l")), "the wait can end with nothing having happened, and what it waits for is not tested again")
                for y in loops:
                    watched |= read_names(db, y.get("c"), names, q)
        if not watched:
            continue
        consts = {f["n"] for f in r["fields"] if f["t"].startswith("const ")}
        watched -= consts
        rep.count("fields somebody waits for", len(watched))
        roots = []
        inner = set()
        for m, f in methods_with_body(db, q):
            if m.get("ctor") or m.get("dtor"):
                continue
            cs = callers(db).get(f["id"], ())
            if cs and all(db.method_of.get(c, ("",))[0] == q for c in cs) and m.get("acc") != "public":
                inner.add(f["id"])
            roots.append((m, f))
        for m, f in roots:
            if f["id"] in inner:
                continue
            cl = Notify(watched)
            fl = Flow(db, cl)
            out = fl.run(f, (frozenset(), False))
            hit = False
            for st, val, line in out.ret + [(s, None, f["end"]) for s in out.norm]:
                if st.auto[0]:
                    hit = True
                    if not st.auto[1]:
                        rep.bad("notify", norm(f["q"]), where(f, line), "%s changed, and those who wait for it are not told" % ", ".join(sorted(st.auto[0])), st.steps())
                        break
            if hit:
                rep.count("methods that change what is waited for")


# ---------------------------------------------------------------- the queue


class Ring(Client):
    """what a method of a bounded queue does, path by path.  automaton: tuple of
    events"""

    def __init__(self, db, buf):
        self.db, self.buf = db, buf
        self.blocked = []           # (line, what is known) when the wait goes on

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.f.startswith("std::condition_variable::wait"):
            pred = [v for v in ev.args if v[0] == "l"]
            if not any(v[0] == "l" for v in ev.args):
                self.blocked.append((ev.line, facts(st)))
            st = st.drop_facts(lambda a: "this." in a[0] or "this." in str(a[2])).with_auto(st.auto + (("wait",),))
            if not pred:
                return [(st, ("void",))]
            nd, owner = fl.lambdas[pred[0][1]]
            out = []
            for s, v in fl.inline_lambda(nd, owner, pred[0], st, [], ev.node):
                if v[0] == "c" and not v[1]:
                    self.blocked.append((ev.line, facts(s)))
                    continue
                if v[0] == "s":
                    if fl.decide(s, (v[1], "==", 0)) is True:
                        self.blocked.append((ev.line, facts(s)))
                        continue
                    s = s.with_fact((v[1], "==", 0), False)
                out.append((s, ("void",)))
            return out
        return None

    def fact(self, fl, st, atom, truth, line):
        if "this." in atom[0]:
            return st.with_auto(st.auto + (("fact", atom, truth),))
        return st

    def slot(self, loc):
        m = re.match(r"this\.%s\[(.*)\]$" % re.escape(self.buf), loc or "")
        return m and m.group(1)

    def assign(self, fl, st, loc, val, node):
        i = self.slot(loc)
        if i is not None and val is not None and not (val == ("c", 0)):
            return st.with_auto(st.auto + (("store", i, facts(st)),), "line %s: stored at %s" % (node.get("l"), i))
        m = re.match(r"this\.(\w+)$", loc or "")
        if m:
            return st.with_auto(st.auto + (("set", m.group(1), fl.vstr(val) if val else "?", facts(st)),), "line %s: %s = %s" % (node.get("l"), m.group(1), fl.vstr(val) if val else "?"))
        return st


def facts(st):
    """what is known of the fields after what has happened"""
    known = {}
    for e in st.auto:
        if e[0] == "fact":
            known[e[1]] = e[2]
        elif e[0] == "wait":
            known = {}
        elif e[0] == "set":
            x = re.compile(r"\bthis\.%s\b" % e[1])
            known = {k: v for k, v in known.items() if not x.search(k[0]) and not x.search(str(k[2]))}
    return frozenset(known.items())


def nxt(i, size):
    """forms of the position that follows i"""
    return {"((1+%s)%%%s)" % (i, size), "((%s+1)%%%s)" % (i, size)}


def equal(fs, a, b):
    """what is known of a == b"""
    for (x, op, c), t in fs:
        if op != "==" or not isinstance(c, str) or not c.startswith("$"):
            continue
        if {x, c[1:]} == {a, b}:
            return t
    return None


def queue(db, rep):
    for q, r, mx in shared_records(db):
        bufs = [f["n"] for f in r["fields"] if f["t"].endswith("]") or f["t"].startswith(("std::array<", "std::vector<"))]
        ints = {f["n"] for f in r["fields"] if f["t"] in ("unsigned long", "unsigned int", "int", "long", "std::size_t")}
        bools = {f["n"] for f in r["fields"] if f["t"] == "bool"}
        if len(bufs) != 1 or len(ints) < 2:
            continue
        runs, blocked = {}, {}
        for m, f in methods_with_body(db, q):
            if m.get("ctor") or m.get("dtor") or m.get("acc") != "public":
                continue
            cl = Ring(db, bufs[0])
            out = Flow(db, cl).run(f, ())
            runs[f["id"]] = (m, f, out)
            blocked[f["id"]] = cl.blocked
        stores = {e[1] for m, f, out in runs.values() for st, v, l in out.ret + [(s, None, 0) for s in out.norm] for e in st.auto if e[0] == "store"}
        if not stores:
            continue
        rep.count("bounded queues")
        if len(stores) != 1:
            rep.bad("queue", q, r["file"] + ":%d" % r["line"], "elements are stored at different positions: %s" % ", ".join(sorted(stores)))
            continue
        W = stores.pop()
        sizes = set()
        for m, f, out in runs.values():
            for st, v, l in out.ret + [(s, None, 0) for s in out.norm]:
                for e in st.auto:
                    if e[0] == "set":
                        mm = re.match(r"\(\((?:1\+(.*)|(.*)\+1)\)%(.*)\)$", e[2])
                        if mm:
                            sizes.add(mm.group(3))
        if len(sizes) != 1:
            rep.bad("queue", q, r["file"] + ":%d" % r["line"], "positions wrap at %s" % (", ".join(sorted(sizes)) or "nothing"))
            continue
        # positions of elements taken out
        takes = set()
        rx = re.compile(r"this\.%s\[(.*?)\]" % re.escape(bufs[0]))
        ends = {}
        for m, f, out in runs.values():
            ends[f["id"]] = [(st, v, l) for st, v, l in out.ret] + [(s, None, f["end"]) for s in out.norm]
            for st, v, l in out.ret:
                if v and v[0] == "s":
                    takes |= set(rx.findall(v[1]))
        if len(takes) != 1:
            rep.bad("queue", q, r["file"] + ":%d" % r["line"], "elements are taken from %s" % (", ".join(sorted(takes)) or "nowhere"))
            continue
        T = takes.pop()
        if T == W:
            rep.bad("queue", q, r["file"] + ":%d" % r["line"], "elements are taken from where they are stored")
        wf, tf = W.split(".")[-1], T.split(".")[-1]
        for fid, (m, f, out) in sorted(runs.items(), key=lambda x: x[1][1]["line"]):
            rep.funcs.add(f["q"])
            stores_here = any(e[0] == "store" for st, v, l in ends[fid] for e in st.auto)
            for line, known in blocked[fid]:
                rep.count("reasons to wait")
                full = [equal(known, n, T) for s in sizes for n in nxt(W, s)]
                none = equal(known, W, T) is True and any(truth_in(known, "this." + b) is False for b in bools)
                if stores_here and True not in full:
                    rep.bad("queue", norm(f["q"]), where(f, line), "it may wait while there is room")
                elif not stores_here and not none:
                    rep.bad("queue", norm(f["q"]), where(f, line), "it may wait while there are elements, or when no more will be added")
            for st, v, l in ends[fid]:
                rep.count("paths through the queue")
                ev = st.auto
                sets = [e for e in ev if e[0] == "set"]
                st_ev = [e for e in ev if e[0] == "store"]

                def bad(msg):
                    rep.bad("queue", norm(f["q"]), where(f, l), msg, st.steps())

                moved_w = [e for e in sets if e[1] == wf]
                moved_t = [e for e in sets if e[1] == tf]
                other = [e for e in sets if e[1] not in (wf, tf) and e[1] in ints]
                taken = v and v[0] == "s" and rx.search(v[1])
                if st_ev:
                    full = [equal(st_ev[0][2], n, T) for s in sizes for n in nxt(W, s)]
                    if False not in full:
                        bad("an element is stored without knowing that there is room")
                    if len(st_ev) != 1:
                        bad("an element is stored %d times" % len(st_ev))
                    if len(moved_w) != 1 or not any(moved_w[0][2] in nxt(W, s) for s in sizes):
                        bad("after storing an element, %s is %s" % (wf, "not moved to the next position" if not moved_w else "set to " + moved_w[-1][2]))
                    elif ev.index(moved_w[0]) < ev.index(st_ev[0]):
                        bad("%s is moved before the element is stored" % wf)
                    if moved_t:
                        bad("storing an element moves %s" % tf)
                elif moved_w:
                    bad("%s moves and nothing is stored" % wf)
                if moved_t:
                    if equal(moved_t[0][3], W, T) is not False:
                        bad("an element is taken out without knowing that there is one")
                    if len(moved_t) != 1 or not any(moved_t[0][2] in nxt(T, s) for s in sizes):
                        bad("after taking an element, %s is set to %s" % (tf, moved_t[-1][2]))
                    if not taken:
                        bad("%s moves and the element there is not given" % tf)
                elif taken and not st_ev:
                    if equal(facts(st), W, T) is not False:
                        bad("what is at %s is given without knowing that there is an element" % T)
                if v == ("c", 0) and m["n"] != "isDone" and "*" in (f.get("rt") or ""):
                    rep.count("ends of the queue")
                    if equal(facts(st), W, T) is not True:
                        bad("the end is given while there may be elements")
                    if not any(is_true(st, "this." + b) for b in bools):
                        bad("the end is given while elements may still be added")
        rep.count("queue methods", len(runs))


def truth_in(known, x):
    for (a, op, c), t in known:
        if a == x and op == "==" and c == 0:
            return not t
        if a == x and op == "==" and c == 1:
            return t
    return None


def is_true(st, x):
    return truth_in(facts(st), x) is True


# ---------------------------------------------------------------- the threads


def thread_classes(db):
    """(class with a std::thread, what it runs, subclasses that say what to run)"""
    for q, r in sorted(db.records.items()):
        if not q.startswith("arki::") or "test" in (r.get("file") or ""):
            continue
        th = [f["n"] for f in r["fields"] if f["t"] in ("std::thread", "std::jthread")]
        if th:
            yield q, r, th


def runs_of(db, q):
    """methods of this object that are run by what the thread is given"""
    out = set()
    for m, f in methods_with_body(db, q):
        for x in fbody(f):
            if x.get("k") == "ctor" and x.get("cls", "") in ("std::thread", "std::jthread"):
                for y in walk(x):
                    if y.get("k") == "call" and y.get("id") in db.method_of:
                        out.add(y["id"])
                    if y.get("k") == "ref" and y.get("d") == "func" and y.get("id") in db.method_of:
                        out.add(y["id"])
    return out


def bodies(db, q):
    """what the threads of a class and of its subclasses run: (class, function)"""
    for i in runs_of(db, q):
        for y in {i} | set(all_overriders(db, i)):
            f = db.functions.get(y)
            if f and f.get("body"):
                yield db.method_of[y][0], f


def reads_of(db, fn, cls, depth=3, seen=None):
    """fields of this object that a function uses, lambdas included"""
    seen = seen if seen is not None else set()
    if fn["id"] in seen:
        return set()
    seen.add(fn["id"])
    names = {f["n"] for c in [cls] + list(superclasses(db, cls)) for f in fields_of(db, c)}
    out = set()
    for x in fbody(fn):
        f = own_mem(x, names)
        if f:
            out.add(f)
        if depth and x.get("k") == "call" and x.get("id") in db.functions and db.method_of.get(x["id"], ("",))[0] in [cls] + list(superclasses(db, cls)):
            out |= reads_of(db, db.functions[x["id"]], cls, depth - 1, seen)
    return out


class Ending(Client):
    """the destructor of an object with a thread.  automaton: set of `joined`,
    `drained`, `unstarted`"""
    all_loops = True

    def __init__(self, db, th, queues):
        self.db, self.th, self.queues = db, th, queues

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return bool(ev.obj and ev.obj[0] == "s" and ev.obj[1] == "this")

    def may_throw(self, fl, st, ev):
        return False

    def is_thread(self, v):
        return v and v[0] == "s" and v[1] in ["this." + t for t in self.th]

    def call(self, fl, st, ev):
        if self.is_thread(ev.obj):
            if ev.name == "join":
                return [(st.with_auto(st.auto | {"joined"}, "line %d: joined" % ev.line), ("void",))]
            if ev.name == "detach":
                return [(st.with_auto(st.auto | {"detached"}), ("void",))]
            if ev.name == "joinable":
                return [(st, ("s", "JOINABLE"))]
        if ev.cls in self.queues and ev.name in self.queues[ev.cls]:
            return [(st.with_auto(st.auto | {"taken"}), ("s", "%s@%d" % (ev.name, ev.line)))]
        return None

    def fact(self, fl, st, atom, truth, line):
        x, op, c = atom
        if x == "JOINABLE" and op == "==" and c == 0:
            return st.with_auto((st.auto | {"unstarted"}) if truth else (st.auto - {"unstarted"}))
        m = re.match(r"(\w+)@\d+", str(x))
        if m and op == "==" and c == 0 and any(m.group(1) in v for v in self.queues.values()):
            if truth:
                return st.with_auto(st.auto | {"drained"}, "line %s: nothing more is given" % line)
        return st


def endings(db, rep):
    queues = {}
    for q, r, mx in shared_records(db):
        # methods that wait until somebody else takes something
        give = {m["n"] for m, f in methods_with_body(db, q) if any(True for x in wait_calls(f)) and "*" in (f.get("rt") or "")}
        queues[q] = give
    waits = {f["id"] for q, r, mx in shared_records(db) for m, f in methods_with_body(db, q) if any(True for x in wait_calls(f))}
    for q, r, th in thread_classes(db):
        rep.count("classes with a thread")
        for cls, body in bodies(db, q):
            if cls == q and not fields_of(db, q):
                continue
            rep.count("bodies of threads")
            rep.funcs.add(body["q"])
            used = reads_of(db, body, cls)
            held = {f["n"] for f in fields_of(db, cls)} & used
            # who joins before those fields are destroyed: a destructor of the class, or of what derives from it
            dt = [f for m, f in methods_with_body(db, cls) if m.get("dtor")]
            blocked = any(x.get("k") == "call" and x.get("id") in waits for x in fbody(body))
            if cls == q:
                held = {f for f in held if f not in th}
            if not held:
                continue
            w = where(body)
            if not dt:
                rep.bad("ending", cls, w, "%s can be destroyed while the thread still uses %s: the thread is only waited for afterwards" % (cls.rsplit("::", 1)[-1], ", ".join(sorted(held))))
                continue
            for f in dt:
                rep.funcs.add(f["q"])
                fl = Flow(db, Ending(db, th, queues))
                out = fl.run(f, frozenset())
                for st, v, line in out.ret + [(s, None, f["end"]) for s in out.norm]:
                    rep.count("ends of threads")
                    if "unstarted" in st.auto:
                        continue
                    if "joined" not in st.auto or "detached" in st.auto:
                        rep.bad("ending", norm(f["q"]), where(f, line), "the thread may still be using %s" % ", ".join(sorted(held)), st.steps())
                        break
                    if blocked and "drained" not in st.auto:
                        rep.bad("ending", norm(f["q"]), where(f, line), "the thread is waited for while it may be waiting for its data to be taken", st.steps())
                        break
        # those who only use what the base class has
        for f in [f for m, f in methods_with_body(db, q) if m.get("dtor")]:
            out = Flow(db, Ending(db, th, queues)).run(f, frozenset())
            rep.funcs.add(f["q"])
            for st, v, line in out.ret + [(s, None, f["end"]) for s in out.norm]:
                if "unstarted" not in st.auto and "joined" not in st.auto:
                    rep.bad("ending", norm(f["q"]), where(f, line), "the thread may still be running", st.steps())
                    break


class Body(Client):
    """what a thread does.  automaton: set of `queried`, `done`, `error`"""

    def __init__(self, db, rep, fn, cls, queues):
        self.db, self.rep, self.fn, self.cls, self.queues = db, rep, fn, cls, queues

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return bool(ev.obj and ev.obj[0] == "s" and ev.obj[1] == "this") and not fn.get("virt")

    def call(self, fl, st, ev):
        a = st.auto
        if (ev.cls or "").endswith("dataset::Reader") and ev.name.startswith("query_"):
            self.rep.count("queries run by threads")
            if "queried" in a:
                self.rep.bad("body", norm(self.fn["q"]), where(self.fn, ev.line), "the dataset is queried again", st.steps())
            if "done" in a:
                self.rep.bad("body", norm(self.fn["q"]), where(self.fn, ev.line), "the dataset is queried after saying that there is no more data", st.steps())
            st = st.with_auto(a | {"queried"}, "line %d: the dataset is queried" % ev.line)
            fl.throw(st, "std::runtime_error", ev.line)
            for v in ev.args:
                if v[0] == "l":
                    self.consumer(fl, st, v, ev)
            return [(st, ("s", "all_sent@"))]
        if ev.cls in self.queues and ev.name == self.queues[ev.cls]:
            return [(st.with_auto(a | {"done"}, "line %d: no more data" % ev.line), ("void",))]
        return None

    def consumer(self, fl, st, v, ev):
        """each element goes to the queue, and the answer is whether to go on"""
        nd, owner = fl.lambdas[v[1]]
        cl = Giving(self.db, self.queues)
        f2 = Flow(self.db, cl)
        f2.lambdas = fl.lambdas
        f2.stack = list(fl.stack)
        f2.thr = [[]]
        try:
            res = f2.inline_lambda(nd, owner, v, st.with_auto(frozenset()), [("s", "ELEMENT")] * len(nd["params"]), ev.node)
        except Exception as e:
            self.rep.count("consumers not decided")
            return
        for s, val in res:
            self.rep.count("consumers of threads")
            if "given" not in s.auto:
                self.rep.bad("body", norm(self.fn["q"]), where(self.fn, nd.get("l")), "an element that was read is not passed on", s.steps())
            if "again" in s.auto:
                self.rep.bad("body", norm(self.fn["q"]), where(self.fn, nd.get("l")), "an element is passed on twice", s.steps())
            if val and val[0] == "c" and not val[1] and "asked" not in s.auto:
                self.rep.bad("body", norm(self.fn["q"]), where(self.fn, nd.get("l")), "the query is stopped though nobody asked to", s.steps())
            for x in s.auto:
                m = re.match(r"(\w+) ([01])$", x)
                if m and val and val[0] == "c" and m.group(1) in self.initial and (int(m.group(2)) == self.initial[m.group(1)]) != bool(val[1]):
                    self.rep.bad("body", norm(self.fn["q"]), where(self.fn, nd.get("l")), "the query %s" % ("goes on after it was asked to stop" if val[1] else "is stopped though nobody asked to"), s.steps())
        if res and all(v and v[0] == "c" and not v[1] for s, v in res):
            self.rep.bad("body", norm(self.fn["q"]), where(self.fn, nd.get("l")), "the query is stopped after the first element")

    def assign(self, fl, st, loc, val, node):
        if str(loc).startswith("this.") and val and val[0] == "s" and "what()" in val[1]:
            return st.with_auto(st.auto | {"error"}, "line %s: the error is kept" % node.get("l"))
        return st


def flags(db, classes):
    """bool fields and the value they start with"""
    out = {}
    for c in classes:
        for f in fields_of(db, c):
            if "bool" in f["t"] and isinstance(f.get("i"), dict):
                v = first_const(f["i"])
                if v is not None:
                    out[f["n"]] = v
        for m, f in methods_with_body(db, c):
            if m.get("ctor"):
                for i in f.get("inits", ()):
                    v = first_const(i["e"])
                    if i.get("mem") and v is not None:
                        out[i["mem"]] = v
    return out


def first_const(n):
    for x in walk(n):
        if x.get("k") == "bool":
            return int(x.get("v") in (True, "true", 1))
        if isinstance(x.get("cv"), (bool, int)):
            return int(x["cv"])
    return None


class Giving(Client):
    def __init__(self, db, queues):
        self.db, self.queues = db, queues

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.cls in self.queues and ev.args and "ELEMENT" in " ".join(fl.vstr(x) for x in ev.args):
            return [(st.with_auto(st.auto | ({"given"} if "given" not in st.auto else {"again"})), ("void",))]
        if ev.obj and ev.obj[0] == "s" and ev.name in ("load", "operator bool") or ev.obj and ev.name.startswith("operator ") and "atomic" in (ev.cls or ""):
            return [(st, ("s", "FLAG:" + fl.vstr(ev.obj).split(".")[-1]))]
        return None

    def fact(self, fl, st, atom, truth, line):
        x, op, c = atom
        if str(x).startswith("FLAG:") and op == "==" and c == 0:
            return st.with_auto(st.auto | {"asked", "%s %d" % (x[5:], not truth)})
        return st.with_auto(st.auto | {"asked"})


def body_checks(db, rep):
    queues = {}
    for q, r, mx in shared_records(db):
        bools = {f["n"] for f in r["fields"] if f["t"] in ("bool", "std::atomic<bool>")}
        for m, f in methods_with_body(db, q):
            if m.get("ctor"):
                continue
            for x in fbody(f):
                if x.get("k") == "bin" and x.get("op") == "=" and own_mem(x.get("a"), bools) and (x.get("b") or {}).get("cv") in (1, True) or \
                        x.get("k") == "bin" and x.get("op") == "=" and own_mem(x.get("a"), bools) and strip(x["b"]).get("k") == "bool" and strip(x["b"]).get("v") in (True, "true", 1):
                    queues[q] = m["n"]
    for q, r, th in thread_classes(db):
        for cls, body in bodies(db, q):
            has_queue = {f["t"] for f in fields_of(db, cls)} & set(queues)
            cl = Body(db, rep, body, cls, queues)
            cl.initial = flags(db, [cls] + list(superclasses(db, cls)))
            fl = Flow(db, cl)
            out = fl.run(body, frozenset())
            for st, t, line in out.thr:
                if t == "any" or t.startswith("std::") or t.startswith("arki::"):
                    rep.bad("body", norm(body["q"]), where(body, line), "an exception leaves the thread, which ends the program", st.steps())
                    break
            for st, v, line in out.ret + [(s, None, body["end"]) for s in out.norm]:
                rep.count("ways a thread ends")
                failed = any("caught" in str(x) for x in st.steps())
                if "queried" not in st.auto:
                    rep.bad("body", norm(body["q"]), where(body, line), "the thread ends without querying its dataset", st.steps())
                if has_queue and "done" not in st.auto:
                    rep.bad("body", norm(body["q"]), where(body, line), "the thread ends without saying that there is no more data: who waits for it waits for ever", st.steps())
            catches = [x for x in fbody(body) if x.get("k") == "try"]
            # every handler keeps the error
            for t in catches:
                for h in t["h"]:
                    rep.count("errors kept by threads")
                    if not any(x.get("k") in ("bin", "call") and x.get("op") == "=" or x.get("k") == "call" and (x.get("f") or "").endswith(("::assign", "current_exception")) for x in walk(h["b"])) \
                            and not any(x.get("k") == "throw" for x in walk(h["b"])):
                        rep.bad("body", norm(body["q"]), where(body, h.get("l")), "an error is caught by the thread and not kept")


# ---------------------------------------------------------------- those who use them


def reader_classes(db):
    """classes whose objects are threads that do something"""
    out = {}
    for q, r, th in thread_classes(db):
        for cls, body in bodies(db, q):
            out[cls] = (q, th)
    return out


def calls_in(n, names, classes):
    return any(x.get("k") == "call" and (x.get("f") or "").rsplit("::", 1)[-1] in names and x.get("cls") in classes for x in walk(n))


def clean(s):
    return re.sub(r"'[0-9.]+|@\d+:\d+", "", s)


class Owner(Client):
    """starts threads, waits for them and puts together what they did.
    automaton: set of what happened to the current one, `anyerr`"""
    PER = ("started", "joined", "erred", "noerr", "added", "asked", "kept")

    def __init__(self, db, rep, fn, readers, bases):
        self.db, self.rep, self.fn, self.readers, self.bases = db, rep, fn, readers, bases

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] and not fn.get("virt") and ev.cls not in self.readers and ev.cls not in self.bases and \
            (fn.get("cls") == self.fn.get("cls") or not fn.get("cls")) and len(list(fbody(fn))) < 300

    def bad(self, line, msg, st):
        self.rep.bad("merging", norm(self.fn["q"]), where(self.fn, line), msg, st.steps())

    def may_throw(self, fl, st, ev):
        return False

    def put(self, st, *tags, note=None):
        return st.with_auto(st.auto | set(tags), note)

    def call(self, fl, st, ev):
        o = clean(ev.obj[1]) if ev.obj and ev.obj[0] == "s" else ""
        a = [clean(fl.vstr(x)) for x in ev.args]
        if ev.cls in self.readers and ev.name == "start":
            self.rep.count("threads started")
            if a and not same_element(o, a[0]):
                self.bad(ev.line, "the thread is given another dataset than the one at its position", st)
            for x in ev.args[1:]:
                if not (x[0] == "s" and "#" in x[1]):
                    self.bad(ev.line, "the thread is not given the query", st)
            if "changed" in st.auto:
                self.bad(ev.line, "the thread is given another query than the one that was asked", st)
            st = self.put(st, "started")
            fl.throw(st, "std::system_error", ev.line)
            return [(st, ("void",))]
        if (ev.cls in self.readers or ev.cls in self.bases) and ev.name == "join":
            self.rep.count("threads waited for")
            st = self.put(st, "joined", note="line %d: the thread has ended" % ev.line)
            fl.throw(self.put(st, "anyerr", "erred"), "std::system_error", ev.line)
            return [(st, ("void",))]
        if ev.name == "empty" and o.endswith(".errorbuf"):
            if "joined" not in st.auto:
                self.bad(ev.line, "the error of a thread is looked at before the thread has ended", st)
            return None
        if ev.name == "add" and a and a[0].endswith(".summary"):
            if "joined" not in st.auto:
                self.bad(ev.line, "the summary of a thread is used before the thread has ended", st)
            if "noerr" not in st.auto:
                self.bad(ev.line, "the summary of a dataset is used without knowing that it was read without errors", st)
            if "added" in st.auto:
                self.bad(ev.line, "the summary of a dataset is added twice", st)
            st = self.put(st, "added")
            fl.throw(st, "std::bad_alloc", ev.line)
            return [(st, ("void",))]
        if (ev.cls or "").endswith("dataset::Reader") and ev.name.startswith("query_"):
            if re.search(r"(operator\[\]\(0\)|\.front\(\)|\.at\(0\))$", o):
                self.rep.count("queries of the only dataset")
                c = re.sub(r"\.(operator\[\]\(0\)|front\(\)|at\(0\))$", "", o)
                only = any(clean(str(x)) == c + ".size()" and op == "==" and k == 1 and t for (x, op, k), t in st.facts.items())
                if not only:
                    self.bad(ev.line, "only the first dataset is queried, and there may be others", st)
                st = self.put(st, "direct")
            elif o.endswith("[*]"):
                self.rep.count("datasets queried in turn")
                if "asked" in st.auto:
                    self.bad(ev.line, "a dataset is queried twice", st)
                st = self.put(st, "asked")
            if "changed" in st.auto:
                self.bad(ev.line, "the dataset is given another query than the one that was asked", st)
            fl.throw(st, "any", ev.line)
            return [(st, ("s", "%s()@%d" % (ev.name, ev.line)))]
        if ev.name in ("push_back", "emplace_back") and a and "create_reader(" in a[-1]:
            return [(self.put(st, "kept"), ("void",))]
        return None

    def assign(self, fl, st, loc, val, node):
        m = re.match(r"(\w+#\d+\.\d+)\.([A-Za-z_]\w*)", str(loc))
        if m and m.group(2) != "progress" and "error" not in m.group(2):
            return self.put(st, "changed", note="line %s: %s of the query is changed" % (node.get("l"), m.group(2)))
        return st

    def fact(self, fl, st, atom, truth, line):
        x, op, c = atom
        if str(x).endswith(".errorbuf.empty()") and op == "==" and c == 0:
            return self.put(st, *(("erred", "anyerr") if truth else ("noerr",)), note="line %d: the thread %s" % (line, "failed" if truth else "did not fail"))
        return st

    def kind(self, what, node):
        if isinstance(what, tuple):
            if calls_in(node, ("join",), set(self.readers) | self.bases):
                return "join"
            if calls_in(node, ("start",), set(self.readers)):
                return "start"
            if any(x.get("k") == "call" and (x.get("cls") or "").endswith("dataset::Reader") and (x.get("f") or "").rsplit("::", 1)[-1].startswith("query_") for x in walk(node)):
                return "ask"
        elif getattr(what, "name", "") == "foreach_dataset":
            return "keep"
        return None

    def iter_begin(self, fl, st, what, node):
        k = self.kind(what, node)
        if not k:
            return st
        st = st.drop_facts(lambda f: "[*]" in str(f[0]) or "larg" in str(f[0]))
        return st.with_auto(frozenset(x for x in st.auto if x not in self.PER))

    def iter_end(self, fl, st, what, node, how, val=None):
        k = self.kind(what, node)
        a = st.auto
        line = node.get("l")
        if k == "join":
            self.rep.count("threads put together")
            if "joined" not in a:
                self.bad(line, "a thread is not waited for", st)
            elif "erred" not in a and "noerr" not in a:
                self.bad(line, "whether a thread failed is not looked at", st)
            elif "noerr" in a and "added" not in a and self.sums(node):
                self.bad(line, "the summary of a dataset is not added to the result", st)
            if how in ("break", "return"):
                self.bad(line, "the remaining threads are not waited for", st)
            st = st.drop_facts(lambda f: "[*]" in str(f[0]))
        elif k == "start":
            if "started" not in a or how in ("break", "return"):
                self.bad(line, "a dataset is not queried", st)
        elif k == "ask":
            if "asked" not in a or how in ("break", "return"):
                self.bad(line, "a dataset is not queried", st)
        elif k == "keep":
            self.rep.count("datasets put together")
            if "kept" not in a:
                self.bad(line, "a dataset is left out", st)
            if how == "end" and val and val[0] == "c" and not val[1]:
                self.bad(line, "the remaining datasets are left out", st)
        if k:
            st = st.with_auto(frozenset(x for x in st.auto if x not in self.PER))
        return st

    def sums(self, node):
        return any("summary" in {f["n"] for f in fields_of(self.db, c)} for c in self.readers
                   if any(x.get("k") == "mem" and (x.get("q") or "").startswith(c + "::") for x in walk(node)))


def same_element(o, a):
    """the object and the argument are at the same position of two lists"""
    io, ia = (re.search(r"(?:operator\[\]\((.*)\)|at\((.*)\)|(\[\*\]))$", x) for x in (o, a))
    if not io or not ia:
        return True
    if io.group(3) or ia.group(3):
        return True
    return [x for x in io.groups() if x is not None] == [x for x in ia.groups() if x is not None]


class Merge(Client):
    """takes the next element among what the threads have read.  automaton: what
    is known of the current thread, `some` when one was chosen before"""
    PER = ("null", "head", "take", "leave", "compared", "took element", "took thread")

    def __init__(self, db, rep, fn, gives, takes, ends):
        self.db, self.rep, self.fn, self.gives, self.takes, self.ends = db, rep, fn, gives, takes, ends

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def bad(self, line, msg, st):
        self.rep.bad("merge", norm(self.fn["q"]), where(self.fn, line), msg, st.steps())

    def call(self, fl, st, ev):
        o = clean(ev.obj[1]) if ev.obj and ev.obj[0] == "s" else ""
        if ev.id in self.gives:
            self.rep.count("threads looked at")
            return [(st.with_auto(st.auto | {"seen"}), ("s", "HEAD"))] if "[*]" in o else [(st, ("s", "BEST"))]
        if ev.id in self.takes:
            if not o.startswith(("BESTTHREAD.",)) and "[*]" not in o:
                return None
            if "some" not in st.auto:
                self.bad(ev.line, "an element is taken from a thread that may have none", st)
            return [(st.with_auto(st.auto | {"taken"}), ("s", "TAKEN"))]
        if ev.name == "compare" and len(ev.args) == 2:
            return [(st, ("s", "CMP(%s,%s)" % tuple(fl.vstr(x) for x in ev.args)))]
        if ev.id in self.ends:
            st = st.with_auto(st.auto | {"ended"})
            fl.throw(st, "std::runtime_error", ev.line)
            return [(st, ("void",))]
        return None

    def assign(self, fl, st, loc, val, node):
        if "inside" in st.auto and val and val[0] == "s":
            if val[1] == "HEAD":
                if not str(loc).split("'")[0] in self.own:
                    return st.with_auto(st.auto | {"took element"}, "line %s: chosen" % node.get("l"))
            elif re.search(r"\[\*\]$", clean(val[1])) and not str(loc).split("'")[0] in self.own:
                return st.with_auto(st.auto | {"took thread"})
        return st

    def fact(self, fl, st, atom, truth, line):
        x, op, c = atom
        a = st.auto
        if x == "HEAD" and op == "==" and c == 0:
            return st.with_auto(a | {"null" if truth else "head"})
        m = re.match(r"CMP\((\w+),(\w+)\)$", str(x))
        if m:
            a = a | {"compared"}
            if m.groups() == ("HEAD", "BEST") and op == "<" and c in (0, 1):
                a = a | {"take" if truth else "leave"}
            elif m.groups() == ("BEST", "HEAD") and op == "<" and c in (0, 1):
                a = a | {"leave" if truth else "take"}
            return st.with_auto(a)
        return st

    def iter_begin(self, fl, st, what, node):
        if not isinstance(what, tuple):
            return st
        self.own = set()
        for x in walk(node.get("b")):
            if x.get("k") == "decl":
                self.own |= {fl.vkey(v) for v in x["v"]}
        if node.get("var"):
            self.own.add(fl.vkey(node["var"]))
        env = dict(st.env)
        for k, v in env.items():
            if v and v[0] == "s" and k not in self.own:
                if v[1] == "HEAD":
                    st = st.with_env(k, ("s", "BEST"))
                elif "took" in st.auto and re.search(r"\[\*\]$", clean(v[1])):
                    st = st.with_env(k, ("s", "BESTTHREAD"))
        st = st.drop_facts(lambda f: "HEAD" in str(f[0]))
        if "some" in st.auto:
            st = st.with_fact(("BEST", "==", 0), False).with_fact(("BESTTHREAD", "==", 0), False)
        return st.with_auto(frozenset(x for x in st.auto if x not in self.PER) | {"inside"})

    def iter_end(self, fl, st, what, node, how, val=None):
        if not isinstance(what, tuple):
            return st
        a = st.auto
        line = node.get("l")
        self.rep.count("choices followed")
        took = {x for x in a if x.startswith("took ")}
        if "seen" not in a:
            self.bad(line, "what a thread has read is not looked at", st)
        elif "null" in a and took:
            self.bad(line, "a thread that has nothing more is chosen", st)
        elif "head" in a:
            if "some" not in a and not took:
                self.bad(line, "the first element that is found is not chosen", st)
            elif "some" in a and "compared" not in a:
                self.bad(line, "an element is %s without comparing it with the one chosen before" % ("chosen" if took else "not chosen"), st)
            elif "compared" in a and ("take" in a) == ("leave" in a):
                self.bad(line, "which of two elements comes first is not what the comparison says", st)
            elif "compared" in a and ("take" in a) != bool(took):
                self.bad(line, "an element that comes %s is %s" % (("first", "not chosen") if "take" in a else ("later", "chosen")), st)
            if took and "took thread" not in took:
                self.bad(line, "an element is chosen, and the thread that has it is not", st)
            self.kinds.add(frozenset(took)) if took else None
        if how in ("break", "return"):
            self.bad(line, "what the remaining threads have read is not looked at", st)
        st = st.drop_facts(lambda f: "HEAD" in str(f[0]) or "CMP" in str(f[0]))
        if took:
            for k, v in dict(st.env).items():
                if v and v[0] == "s" and k not in self.own:
                    if v[1] == "HEAD":
                        st = st.with_env(k, ("s", "BEST"))
                    elif re.search(r"\[\*\]$", clean(v[1])):
                        st = st.with_env(k, ("s", "BESTTHREAD"))
            for x in ("BEST", "BESTTHREAD", "HEAD"):
                st = st.with_fact((x, "==", 0), False)
        return st.with_auto(frozenset(x for x in a if x not in self.PER + ("inside", "seen")) | ({"some", "took"} if took else set()))


class Drive(Client):
    """gives what is merged to who asked for it"""

    def __init__(self, db, rep, fn, pools):
        self.db, self.rep, self.fn, self.pools = db, rep, fn, pools

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] and not fn.get("virt") and ev.cls not in self.pools and fn.get("cls") in (None, self.fn.get("cls"))

    def may_throw(self, fl, st, ev):
        return False

    def bad(self, line, msg, st):
        self.rep.bad("delivery", norm(self.fn["q"]), where(self.fn, line), msg, st.steps())

    def call(self, fl, st, ev):
        a = st.auto
        if ev.cls in self.pools and ev.name == self.pools[ev.cls]:
            self.rep.count("elements merged")
            if "have" in a and "given" not in a:
                self.bad(ev.line, "an element that was merged is not given to who asked for it", st)
            if "stopped" in a or "end" in a:
                self.bad(ev.line, "more data is taken after %s" % ("being told to stop" if "stopped" in a else "the end"), st)
            st = st.drop_facts(lambda f: "NEXT" in str(f[0])).with_auto(a - {"have", "given", "end"} | {"asked"})
            fl.throw(st, "std::runtime_error", ev.line)
            return [(st, ("s", "NEXT"))]
        if ev.cls.startswith("std::function<bool") and ev.args and fl.vstr(ev.args[0]) == "NEXT":
            if "given" in a:
                self.bad(ev.line, "an element is given twice", st)
            if "have" not in a:
                self.bad(ev.line, "what is given may be nothing", st)
            st = st.with_auto(a | {"given"})
            fl.throw(st, "any", ev.line)
            return [(st, ("s", "ANSWER"))]
        return None

    def fact(self, fl, st, atom, truth, line):
        x, op, c = atom
        if x == "NEXT" and op == "==" and c == 0:
            return st.with_auto(st.auto | {"end" if truth else "have"})
        if x == "ANSWER" and op == "==" and c == 0 and truth:
            return st.with_auto(st.auto | {"stopped"})
        return st


def merging(db, rep):
    readers = reader_classes(db)
    bases = {v[0] for v in readers.values()}
    sh = {q for q, r, mx in shared_records(db)}
    gives, takes = set(), set()
    for q in sh:
        for m, f in methods_with_body(db, q):
            if any(True for x in wait_calls(f)) and "*" in (f.get("rt") or ""):
                gives.add(f["id"])
            elif (f.get("rt") or "").startswith("std::shared_ptr<"):
                takes.add(f["id"])
    if not readers:
        return
    every = [f for f in db.functions.values() if f.get("body") and f["rel"].startswith("arki/") and "test" not in f["rel"]]
    files = {db.records[c]["file"] for c in readers}
    near = sorted((f for f in every if f["file"] in files), key=lambda f: (f["rel"], f["line"]))
    mine = set(readers) | bases
    joiners = set()
    pools = {}
    for f in near:
        if f.get("cls") in mine or f.get("cls") in sh:
            continue
        names = {(x.get("f") or "").rsplit("::", 1)[-1] for x in fbody(f) if x.get("k") == "call" and x.get("cls") in mine}
        asks = any(x.get("k") == "call" and (x.get("cls") or "").endswith("dataset::Reader") and (x.get("f") or "").rsplit("::", 1)[-1].startswith("query_") for x in fbody(f))
        keeps = any(x.get("k") == "call" and (x.get("f") or "").endswith("::foreach_dataset") for x in fbody(f))
        if "join" in names:
            joiners.add(f["id"])
        if names & {"join", "start"} or asks or keeps:
            rep.funcs.add(f["q"])
            rep.count("users of threads")
            cl = Owner(db, rep, f, readers, bases)
            out = Flow(db, cl).run(f, frozenset())
            for st, v, line in out.ret + [(s, None, f["end"]) for s in out.norm]:
                if "anyerr" in st.auto:
                    rep.bad("merging", norm(f["q"]), where(f, line), "a thread failed and nobody is told", st.steps())
                    break
    for f in near:
        if f.get("cls") in mine or f.get("cls") in sh or not any(x.get("k") == "call" and x.get("id") in gives for x in fbody(f)):
            continue
        rep.funcs.add(f["q"])
        cl = Merge(db, rep, f, gives, takes, joiners)
        cl.own, cl.kinds = set(), set()
        out = Flow(db, cl).run(f, frozenset())
        if f.get("cls"):
            pools[f["cls"]] = method_name(f)
        if len(cl.kinds) > 1:
            rep.bad("merge", norm(f["q"]), where(f), "the element that is chosen and the thread it is taken from are not always changed together")
        for st, v, line in out.ret + [(s, None, f["end"]) for s in out.norm]:
            rep.count("ways an element is taken")
            if v == ("c", 0):
                if "some" in st.auto:
                    rep.bad("merge", norm(f["q"]), where(f, line), "the end is given while there are elements", st.steps())
                if "ended" not in st.auto:
                    rep.bad("merge", norm(f["q"]), where(f, line), "the end is given without waiting for the threads and looking at their errors", st.steps())
            elif v != ("s", "TAKEN"):
                rep.bad("merge", norm(f["q"]), where(f, line), "what is returned is not the element that was taken", st.steps())
    for f in near:
        if f.get("cls") in pools or not any(x.get("k") == "call" and x.get("cls") in pools and (x.get("f") or "").rsplit("::", 1)[-1] == pools[x["cls"]] for x in fbody(f)):
            continue
        rep.funcs.add(f["q"])
        out = Flow(db, Drive(db, rep, f, pools)).run(f, frozenset())
        for st, v, line in out.ret + [(s, None, f["end"]) for s in out.norm]:
            if "asked" not in st.auto:
                continue
            rep.count("ways a merged query ends")
            if "end" not in st.auto and "stopped" not in st.auto:
                rep.bad("delivery", norm(f["q"]), where(f, line), "the query ends and there may be more data", st.steps())
                break
            if "have" in st.auto and "given" not in st.auto:
                rep.bad("delivery", norm(f["q"]), where(f, line), "an element that was merged is not given to who asked for it", st.steps())
                break
    # what a thread uses is ready before it starts
    for c, (base, th) in sorted(readers.items()):
        used = set()
        for cls, body in bodies(db, base):
            if cls == c:
                used |= reads_of(db, body, c)
        for m, f in methods_with_body(db, c):
            if m.get("ctor") or m.get("dtor"):
                continue
            starts = {x["id"] for x in fbody(f) if x.get("k") == "call" and x.get("id") in db.method_of and db.method_of[x["id"]][0] == base and
                      any(y.get("k") == "ctor" and y.get("cls") in ("std::thread", "std::jthread") for y in fbody(db.functions.get(x["id"], {"body": None})) )}
            if not starts:
                continue
            rep.count("ways to start a thread")
            rep.funcs.add(f["q"])
            ready(db, rep, f, starts, used & {x["n"] for x in fields_of(db, c)})


class Ready(Client):
    def __init__(self, starts):
        self.starts = starts

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def want_inline(self, fl, st, ev, fn):
        return False

    def call(self, fl, st, ev):
        if ev.id in self.starts:
            return [(st.with_auto(st.auto | {"started"}, "line %d: the thread starts" % ev.line), ("void",))]
        return None

    def assign(self, fl, st, loc, val, node):
        m = re.match(r"this\.(\w+)", str(loc))
        if m:
            return st.with_auto(st.auto | {("late " if "started" in st.auto else "set ") + m.group(1)})
        return st


def ready(db, rep, f, starts, used):
    out = Flow(db, Ready(starts)).run(f, frozenset())
    rewritten = set()
    for st, v, line in out.ret + [(s, None, f["end"]) for s in out.norm]:
        late = {x[5:] for x in st.auto if x.startswith("late ")} & used
        if late:
            rep.bad("ready", norm(f["q"]), where(f, line), "%s is set when the thread may already be using it" % ", ".join(sorted(late)), st.steps())
        if "started" not in st.auto:
            rep.bad("ready", norm(f["q"]), where(f, line), "the thread is not started", st.steps())


def check(db, rep):
    rep.rule("fields of an object that has a mutex are used only while the mutex is held; who waits on a condition tests it again, and "
             "whoever changes what it depends on notifies it")
    rep.rule("the queue between threads gives elements in order, each once: it waits only when full, or when empty and not finished")
    rep.rule("a thread passes on all it reads, keeps its errors, always says when it has finished, and has ended before what it uses is destroyed or looked at")
    rep.rule("merging looks at what every thread has read, takes the first in order, delivers it once, ends only when all have ended, and reports their errors")
    guarded(db, rep)
    waiting(db, rep)
    queue(db, rep)
    endings(db, rep)
    body_checks(db, rep)
    merging(db, rep)
    for what, n in (("classes with a thread", 1), ("bodies of threads", 2), ("users of threads", 3), ("threads put together", 2), ("ways a thread ends", 2),
                    ("queries run by threads", 2), ("choices followed", 2), ("ways a merged query ends", 1), ("ways to start a thread", 1)):
        rep.need(what, n)
