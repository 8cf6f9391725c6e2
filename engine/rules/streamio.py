"""What is sent to an output arrives whole, once and in order, also through a filter."""
import re
from rulebase import *
from db import is_test
from failures import norm
from rollback import clean
from readonly import Graph

SYS = re.compile(r"^arki::stream::LinuxBackend::(\w+)$")
OUT = ("write", "writev", "sendfile")
IN = ("read", "splice")
POLLIN, POLLERR, POLLHUP = 1, 8, 16
CHILD = "arki::utils::subprocess::Child"
NOT_AVAILABLE = ("SpliceNotAvailable", "SendfileNotAvailable")
EOF_SOURCE, EOF_DEST = 1, 2


def syscall(node):
    fe = node.get("fe")
    if isinstance(fe, dict):
        m = SYS.match(fe.get("q") or "")
        if m:
            return m.group(1)
    return None


def in_stream(fn):
    return fn["rel"].startswith("arki/stream") and not is_test(fn["rel"])


def testing(fn):
    return "TestingBackend" in fn["q"] or "TestingBackend" in (fn.get("cls") or "")


def base(s):
    """name without the marks of versions"""
    return re.sub(r"'\d+", "", s)


def mask(sym, tail):
    """N of (N&x.<tail>)"""
    m = re.match(r"\((\d+)&(.*)\.%s('\d+)?\)$" % tail, sym)
    if m:
        return int(m.group(1)), base(m.group(2))
    m = re.match(r"\((.*)\.%s('\d+)?&(\d+)\)$" % tail, sym)
    if m:
        return int(m.group(3)), base(m.group(1))
    return None


class Inside(Client):
    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return None
        return in_stream(fn)

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False


# -- transfers: the position moves by what was written

class Transfer(Inside):
    """automaton: (writes, advanced) - writes: ((symbol, position field or '', constant buffer?, verdict), …) with verdict '' / 'ok' / 'fail',
    advanced: ((field, symbol), …)"""

    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.n = 0

    def position(self, ev, what):
        """the field that says how much was written before"""
        if what == "sendfile":
            cnt = ev.args[3]
        elif what == "write":
            cnt = ev.args[2]
        else:
            return "?"
        m = re.match(r"\((.*)-([^()]*)\)$", clean(cnt))
        if not m:
            # a count of what is left
            return base(clean(cnt)) if re.match(r"this\.\w+$", base(clean(cnt))) else ""
        return base(m.group(2))

    def call(self, fl, st, ev):
        what = syscall(ev.node)
        if what in OUT:
            self.n += 1
            sym = "moved@%d" % ev.line
            pos = self.position(ev, what)
            const = what == "write" and ev.args[1][0] == "c"
            if pos.startswith("this.") and what == "write" and "-" in clean(ev.args[2]):
                buf = base(clean(ev.args[1]))
                if pos not in buf:
                    self.bad("what is written doesn't start where the last write ended", ev, st,
                             "%d bytes less are written than the whole, but not from position %s" % (0, pos), "start")
            w, a = st.auto
            return [(st.with_auto((w + ((sym, pos, const, ""),), a), "line %d: %s" % (ev.line, what)), ("s", sym))]
        if what is not None:
            return [(st, ("s", "got@%d" % ev.line))]
        if ev.obj and "progress_callback" in clean(ev.obj):
            return [(st, ("void",))]
        return None

    def bad(self, rule, ev, st, msg, detail=""):
        self.rep.bad(rule, norm(self.root["q"]), where(self.root, ev if isinstance(ev, int) else ev.line), msg, st.steps(), detail)

    def note(self, st, field, sym):
        w, a = st.auto
        return st.with_auto((w, a + ((field, sym),)))

    def compound(self, fl, st, loc, op, val, node):
        if op in ("+=", "-=") and loc and loc.startswith("this.") and val and val[0] == "s" and val[1].startswith("moved@"):
            return self.note(st, base(loc), val[1])
        return st

    def assign(self, fl, st, loc, val, node):
        if loc and loc.startswith("this.") and val and val[0] == "s":
            m = re.match(r"\((.*)\+(.*)\)$", val[1])
            if m:
                x, y = m.group(1), m.group(2)
                for f, s in ((x, y), (y, x)):
                    if base(f) == base(loc) and s.startswith("moved@") and not re.search(r"[()+]", s):
                        return self.note(st, base(loc), s)
        return st

    def fact(self, fl, st, atom, truth, line):
        s, rel, c = atom
        if not s.startswith("moved@"):
            return st
        v = None
        if rel == "<" and c == 0:
            v = "fail" if truth else "ok"
        elif rel == "<" and c == 1:
            v = "" if truth else "ok"
        elif rel == "==" and c == 0:
            v = "ok" if truth else ""
        elif rel == "==" and c == -1:
            v = "fail" if truth else "ok"
        elif rel == "==" and isinstance(c, int) and c > 0 and truth:
            v = "ok"
        if not v:
            return st
        w, a = st.auto
        out = []
        for x in w:
            if x[0] == s:
                if x[3] and x[3] != v:
                    return None
                x = (x[0], x[1], x[2], v)
            out.append(x)
        return st.with_auto((tuple(out), a))


def extra(fn):
    """how many bytes the constant parts of what is given to writev add"""
    n = 0
    for x in fbody(fn):
        if x.get("k") == "decl":
            for v in x["v"]:
                if "iovec" in str(v.get("t")):
                    for y in walk(v.get("i")):
                        if y.get("k") == "init":
                            for e in (y.get("e") or y.get("a") or ())[1:2]:
                                c = e
                                while isinstance(c, dict) and c.get("k") in ("icast", "cast", "full"):
                                    c = c.get("e")
                                if isinstance(c, dict) and c.get("k") == "int":
                                    n += int(c.get("cv", c.get("v", 0)))
    return n


def complete(st, fields, more=0):
    """the path knows that the position is at the end"""
    for (s, rel, c), truth in st.facts.items():
        if more == 1 and rel == "<" and truth and isinstance(c, str) and base(c.lstrip("$")) in fields and base(s).startswith("this."):
            return True
        if more and not re.search(r"\b%d\b" % more, str(c) + " " + s):
            continue
        if base(s) in fields and ((rel == "==" and truth) or (rel == "<" and not truth)):
            return True
        if isinstance(c, str) and base(c.lstrip("$")) in fields and ((rel == "==" and truth) or (rel == "<" and not truth)):
            return True
        if not isinstance(c, str) and rel == "==" and truth and any(f in base(s) for f in fields) and "-" in s and c == 0:
            return True
    return False


def transfers(db, rep):
    rep.rule("after data was given to an output the position has moved by exactly what was taken, the next write starts there, and the "
             "end is reported only when the position is at the end")
    done = enum_value(db, "arki::stream::TransferResult", "DONE")
    rep.anchor(done is not None, "arki::stream::TransferResult::DONE")
    roots = []
    for fn in sorted(db.functions.values(), key=lambda f: f["id"]):
        if in_stream(fn) and not testing(fn) and fn.get("body") and any(syscall(x) in OUT for x in fbody(fn) if x.get("k") == "call"):
            if "TransferResult" in (fn.get("rt") or ""):
                roots.append(fn)
    for fn in roots:
        c = Transfer(rep, fn)
        more = extra(fn)
        fl = Flow(db, c, depth=6)
        fl.stack = [fn]
        out = fl.run(fn, ((), ()))
        rep.count("functions that give data to an output")
        rep.count("writes followed", c.n)
        rep.funcs.add(fn["id"])
        rep.site("transfer", where(fn))
        for st, v, line in out.ret:
            w, a = st.auto
            for sym, pos, const, verdict in w:
                adv = [f for f, s in a if s == sym]
                if verdict == "fail":
                    if adv:
                        c.bad("position moved by a failed write", line or fn["line"], st, "%s moved though nothing was written" % adv[0], "failed")
                    if v and v[0] == "c" and int(v[1]) == done:
                        c.bad("failed write taken for the end", line or fn["line"], st, "the end is reported after a failed write", "faildone")
                    continue
                if not adv:
                    # nothing was taken: there is nothing to count
                    if st.facts.get((sym, "==", 0)) is True or st.facts.get((sym, "<", 1)) is True:
                        continue
                    c.bad("position not moved by what was written", line or fn["line"], st, "what the system took isn't counted", "count")
                    continue
                if len(adv) != len(set(adv)):
                    c.bad("position moved twice", line or fn["line"], st, "what the system took is counted twice in %s" % adv[0], "twice")
                if pos.startswith("this.") and pos not in adv:
                    c.bad("position not moved by what was written", line or fn["line"], st,
                          "the next write starts at %s, which wasn't moved by what the system took" % pos, "pos")
                if v and v[0] == "c" and int(v[1]) == done and not const and not complete(st, set(adv), more if pos == "?" else 0):
                    c.bad("end reported before everything was written", line or fn["line"], st,
                          "the end is reported without knowing that the position is at the end", "done")
        for u in fl.unsupported:
            rep.errors.append("unsupported construct in %s: %s" % (fn["q"], u))


# -- copies of a span of a file by hand

class Copy(Client):
    """automaton: (symbol of the read, count argument ok, position fields that have moved by it)"""

    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.reads = self.sends = 0

    def want_inline(self, fl, st, ev, fn):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.name == "pread" and len(ev.args) >= 3:
            self.reads += 1
            off = " ".join(sorted({x["n"] for x in walk(ev.argn[2]) if x.get("k") in ("ref", "mem") and x.get("n")}))
            return [(st.with_auto(("read", off), "line %d: read at %s" % (ev.line, off)), ("s", "got@%d" % ev.line))]
        if ev.name in ("send_buffer", "_write_output_buffer") and len(ev.args) >= 2 and st.auto:
            self.sends += 1
            if not (ev.args[1][0] == "s" and ev.args[1][1].startswith("got@")):
                self.rep.bad("what was read isn't what is sent", norm(self.root["q"]), ev.where(),
                             "the size sent isn't the size read", st.steps(), "size")
        return None

    def moved(self, st, loc, val, added):
        if st.auto and st.auto[0] == "read" and added and val and val[0] == "s" and val[1].startswith("got@"):
            return st.with_auto(st.auto + (base(loc),))
        return st

    def compound(self, fl, st, loc, op, val, node):
        if op in ("+=", "-=") and loc:
            return self.moved(st, loc, val, True)
        return st

    def assign(self, fl, st, loc, val, node):
        if loc and val and val[0] == "s" and "got@" in val[1] and re.match(r"\(", val[1]) and base(loc) in base(val[1]):
            return self.moved(st, loc, ("s", "got@"), True)
        return st


# -- the output of a filter

class Close(Inside):
    """automaton: (pollin, hup, end, moved, dest, flags) for one step of the event loop
    pollin, hup: None unknown, 0, 1; end: the read of the filter's output said that it ended; moved: something may have been read in this
    step; dest: the destination is closed; flags: ((field, 0/1), …) that keep that there is something to read"""

    def __init__(self, rep, root, which, keepers, pend=()):
        self.pend = set(pend)
        self.rep, self.root, self.which, self.keepers = rep, root, which, keepers
        self.closes = 0
        self.found, self.other = set(), set()
        self.name = {"out": "stdout", "err": "stderr"}[which]

    def put(self, st, note=None, **kw):
        d = dict(zip(("pollin", "hup", "end", "moved", "dest", "gone", "flags"), st.auto))
        d.update(kw)
        return st.with_auto(tuple(d[k] for k in ("pollin", "hup", "end", "moved", "dest", "gone", "flags")), note)

    def call(self, fl, st, ev):
        what = syscall(ev.node)
        if what in IN:
            if ev.args and "get_std" in clean(ev.args[0]) and "get_%s" % self.name in clean(ev.args[0]):
                full = sorted(p for p in self.pend if ("has nothing left: " + p, 1) not in st.auto[6])
                if full and what == "read":
                    self.rep.bad("data is replaced before it was written", norm(self.root["q"]), ev.where(),
                                 "more is read from the filter though %s may hold data not written yet" % full[0], st.steps(), "replaced")
                st = self.put(st, flags=tuple(x for x in st.auto[6] if not x[0].startswith("has nothing left: ")))
                return [(self.put(st, "line %d: %s of the filter's %s" % (ev.line, what, self.name), moved=True, end=False), ("s", "got@%d" % ev.line))]
            return [(st, ("s", "other@%d" % ev.line))]
        if what in OUT:
            return [(st, ("s", "sent@%d" % ev.line))]
        if ev.cls == CHILD and ev.name == "close_" + self.name:
            self.closes += 1
            pollin, hup, end, moved, dest, gone, flags = st.auto
            if not end and not dest:
                kept = dict(flags)
                why = None
                if moved:
                    why = "something was just read from it and more may follow"
                elif pollin != 0:
                    why = "the last poll may have said that there is something to read"
                elif not hup:
                    why = "the filter still has it open"
                else:
                    for k in self.keepers:
                        if kept.get(k) != 0:
                            why = "%s may say that there is something left to read" % k.replace("this.", "")
                            break
                if why:
                    self.rep.bad("the output of a filter is closed before it was all read", norm(self.root["q"]), ev.where(),
                                 "%s of the filter is closed while %s" % (self.name, why), st.steps(), self.name)
            return [(self.put(st, "line %d: %s closed" % (ev.line, self.name), gone=1), ("void",))]
        if ev.cls == CHILD and ev.name == "get_" + self.name:
            return [(st, ("s", "this.child.get_%s()" % self.name))]
        if ev.obj and "progress_callback" in clean(ev.obj):
            return [(st, ("void",))]
        return None

    def fact(self, fl, st, atom, truth, line):
        s, rel, c = atom
        for p in holds_nothing(self.pend, atom, truth):
            st = self.put(st, flags=tuple(sorted(set(st.auto[6]) | {("has nothing left: " + p, 1)})))
        m = mask(s, "revents")
        if m and rel == "==" and c == 0:
            n, who = m
            if "dest" in who and not n & POLLIN:
                return st
            pollin, hup = st.auto[:2]
            if n & POLLIN:
                if not truth and n == POLLIN:
                    st = self.put(st, "line %d: there is something to read" % line, pollin=1)
                elif truth:
                    if pollin == 1:
                        return None
                    st = self.put(st, "line %d: nothing to read" % line, pollin=0)
            if n & (POLLHUP | POLLERR) and not n & ~(POLLHUP | POLLERR):
                st = self.put(st, hup=0 if truth else 1)
            return st
        if s.startswith("got@"):
            if (rel == "==" and c == 0 and truth):
                return self.put(st, "line %d: end of the output of the filter" % line, end=True)
            if rel == "<" and c == 0 and not truth and st.facts.get((s, "<", 1)) is True:
                return self.put(st, "line %d: end of the output of the filter" % line, end=True)
            if rel == "<" and c == 1 and truth and st.facts.get((s, "<", 0)) is False:
                return self.put(st, "line %d: end of the output of the filter" % line, end=True)
            return st
        if s.startswith("this.child.get_") and rel == "==" and c == -1:
            if truth:
                return self.put(st, gone=1)
            return self.put(st, gone=0)
        b = base(s)
        if b in self.keepers and rel == "==" and c == 0:
            fl_ = dict(st.auto[6])
            if b in fl_ and fl_[b] != (0 if truth else 1):
                return None
            fl_[b] = 0 if truth else 1
            return self.put(st, flags=tuple(sorted(fl_.items())))
        return st

    def assign(self, fl, st, loc, val, node):
        if loc and loc.startswith("this.") and val and val[0] == "c":
            b = base(loc)
            if val[1] in (1, True) and str((node or {}).get("t", "bool")) in ("bool", ""):
                (self.found if st.auto[0] == 1 else self.other).add(b)
            if b in self.keepers:
                f = dict(st.auto[6])
                f[b] = int(val[1])
                st = self.put(st, flags=tuple(sorted(f.items())))
        return st

    def compound(self, fl, st, loc, op, val, node):
        if op == "|=" and loc and base(loc).endswith(".flags") and val and val[0] == "c" and int(val[1]) & EOF_DEST:
            return self.put(st, "the destination is closed", dest=True)
        return st


def reaches(db, test):
    """functions of arki/stream with a body that come to a call satisfying test through calls inside arki/stream"""
    direct, calls = set(), {}
    for fn in db.functions.values():
        if not in_stream(fn) or not fn.get("body") or testing(fn):
            continue
        for x in fbody(fn):
            if x.get("k") == "call":
                if test(x):
                    direct.add(fn["id"])
                if x.get("id"):
                    calls.setdefault(fn["id"], []).append(x)
    got = set(direct)
    while True:
        new = {i for i, xs in calls.items() if i not in got and any(x["id"] in got for x in xs)}
        if not new:
            return got, calls
        got |= new


def on_self(x):
    o = x.get("o")
    while isinstance(o, dict) and o.get("k") in ("icast", "cast", "un"):
        o = o.get("e")
    return o is None or o.get("k") == "this"


def filters(db, rep):
    rep.rule("an output of a filter is closed, and a step of the event loop ends the transfer, only after a read said that it ended or "
             "when poll says that it was hung up, that there is nothing to read and no earlier poll said there is")
    for which, name in (("out", "stdout"), ("err", "stderr")):
        got, calls = reaches(db, lambda x: x.get("cls") == CHILD and (x.get("f") or "").endswith("::close_" + name))
        called = {x["id"] for i, xs in calls.items() if i in got for x in xs if x["id"] in got and on_self(x)}
        for i in sorted(got):
            fn = db.functions[i]
            if i in called or fn.get("rt") != "bool":
                continue
            reads = False
            keep = ()
            for turn in range(2):
                c = Close(rep if turn else Report(db, "x"), fn, which, keep, pending_members(db, fn) if which == "out" else ())
                fl = Flow(db, c, depth=8)
                fl.stack = [fn]
                out = fl.run(fn, (None, None, False, False, False, None, ()))
                keep = tuple(sorted(c.found - c.other))
            rep.count("event loop steps that close %s of a filter" % name)
            rep.count("places that close %s of a filter, by path" % name, c.closes)
            rep.funcs.add(fn["id"])
            rep.site("closes " + name, where(fn))
            for u in fl.unsupported:
                rep.errors.append("unsupported construct in %s: %s" % (fn["q"], u))
            if which != "out":
                continue
            for st, v, line in out.ret:
                pollin, hup, end, moved, dest, gone, flags = st.auto
                if v and v[0] == "c" and int(v[1]) == 0:
                    continue
                if end or dest or gone == 1:
                    continue
                rep.bad("transfer ended before the filter's output did", norm(fn["q"]), where(fn, line or fn["line"]),
                        "the step says that it's over, but the output of the filter isn't known to have ended", st.steps(), "done")
            # what was read and not yet written
            pend = pending_members(db, fn)
            step = sibling(db, fn, pend)
            for setup in step:
                c = Drain(pend)
                fl = Flow(db, c, depth=8)
                fl.stack = [setup]
                o2 = fl.run(setup, ())
                rep.count("event loop steps that wait for what was read to be written")
                for st, v, line in o2.ret:
                    if v and v[0] == "c" and int(v[1]) == 0 and pend - set(st.auto):
                        rep.bad("the event loop ends with data still to be written", norm(setup["q"]), where(setup, line or setup["line"]),
                                "the loop may end though %s may hold data not written yet" % ", ".join(sorted(pend)), st.steps(), "pending")
    rep.need("event loop steps that close stdout of a filter", 3)
    rep.need("event loop steps that close stderr of a filter", 1)
    rep.need("event loop steps that wait for what was read to be written", 1)


def pending_members(db, fn):
    """members of the class that hold data on its way to the output"""
    out = set()
    for cls in [fn.get("cls")] + list(superclasses(db, fn.get("cls"))):
        for f in (db.records.get(cls) or {}).get("fields", ()):
            t = (f.get("t") or "").replace("const ", "").strip()
            r = db.records.get(t) or {}
            if any(in_stream(g) and any(syscall(x) in OUT for x in fbody(g) if x.get("k") == "call")
                   for m in r.get("methods", ()) for g in [db.functions.get(m["id"])] if g and g.get("body")):
                out.add("this." + f["n"])
    return out


def sibling(db, fn, pend):
    """the other steps of the event loop of the same class that answer whether to go on: bool methods without parameters"""
    if not pend:
        return []
    out = []
    r = db.records.get(fn.get("cls")) or {}
    for m in r.get("methods", ()):
        g = db.functions.get(m["id"])
        if g and g.get("body") and g.get("rt") == "bool" and not g["params"] and g["id"] != fn["id"]:
            if any(x.get("k") == "mem" and x["n"] in [p[5:] for p in pend] for x in fbody(g)) or method_name(g) == "setup_poll":
                out.append(g)
    return out


def holds_nothing(pend, atom, truth):
    """the members that a fact says hold nothing more to write"""
    s, rel, c = atom
    b, cc = base(s), (base(c.lstrip("$")) if isinstance(c, str) else c)
    for p in pend:
        if not b.startswith(p + "."):
            continue
        if isinstance(cc, str) and cc.startswith(p + "."):
            ok = (rel == "<" and not truth) or (rel == "==" and truth)
        else:
            ok = (rel == "==" and cc == 0 and truth) or (rel == "<" and cc == 1 and truth)
        if ok:
            yield p


class Drain(Inside):
    """automaton: members known to hold nothing more to write"""

    def __init__(self, pend):
        self.pend = pend

    def fact(self, fl, st, atom, truth, line):
        for p in holds_nothing(self.pend, atom, truth):
            st = st.with_auto(tuple(sorted(set(st.auto) | {p})))
        return st


# -- what is read is given on

class Given(Client):
    """automaton: (symbol, where it comes from, names in the offset, given on?, offset moved?, kept in) for the last read"""

    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return fn.get("cls") == self.root.get("cls") and reads(fn)

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        what = syscall(ev.node)
        if what in ("read", "pread"):
            self.n += 1
            sym = "got@%d" % ev.line
            off = ()
            if what == "pread" and len(ev.argn) > 3:
                off = tuple(sorted({x["n"] for x in walk(ev.argn[3]) if x.get("k") in ("ref", "mem") and x.get("n")}))
            free = tuple(sorted({tuple(sorted((base(s), base(c.lstrip("$"))))) for (s, rel, c), truth in st.facts.items()
                                 if isinstance(c, str) and ((rel == "<" and not truth) or (rel == "==" and truth))}))
            return [(st.with_auto((sym, off, False, False, "", free), "line %d: %s" % (ev.line, what)), ("s", sym))]
        if what is not None:
            return [(st, ("s", "sent@%d" % ev.line))]
        if st.auto and any(a[0] == "s" and a[1] == st.auto[0] for a in ev.args) and len(ev.args) >= 2 and "trace" not in ev.name:
            return [(self.put(st, given=True), ("s", "r@%d" % ev.line))]
        return None

    def fact(self, fl, st, atom, truth, line):
        s, rel, n = atom
        if st.auto and s == st.auto[0] and truth and (rel == "==" and n in (0, -1) or rel == "<" and n in (0, 1)):
            return st.with_auto(None)
        return st

    def put(self, st, given=None, moved=None, kept=None):
        sym, off, g, m, k, free = st.auto
        return st.with_auto((sym, off, g or bool(given), m or bool(moved), kept or k, free))

    def compound(self, fl, st, loc, op, val, node):
        if st.auto and op == "+=" and loc and val == ("s", st.auto[0]) and base(loc).rsplit(".", 1)[-1].split("#")[0] in st.auto[1]:
            return self.put(st, moved=True)
        return st

    def assign(self, fl, st, loc, val, node):
        if st.auto and loc and val and val[0] == "s":
            if val[1] == st.auto[0] and loc.startswith("this."):
                return self.put(st, given=True, kept=base(loc))
            if st.auto[0] in val[1] and "+" in val[1] and base(loc).rsplit(".", 1)[-1].split("#")[0] in st.auto[1]:
                return self.put(st, moved=True)
        return st


def reads(fn):
    return any(x.get("k") == "call" and syscall(x) in ("read", "pread") for x in fbody(fn))


def given(db, rep):
    rep.rule("what was read is given on with the size that was read, from a position that moves by it, and doesn't replace what was not written yet")
    mine = [f for f in db.functions.values() if in_stream(f) and not testing(f) and f.get("body")]
    readers = {f["id"]: f for f in mine if reads(f)}
    helpers = {x["id"] for f in mine for x in fbody(f) if x.get("k") == "call" and x.get("id") in readers and on_self(x) and
               readers[x["id"]].get("cls") == f.get("cls") and x["id"] != f["id"]}
    for fn in sorted(db.functions.values(), key=lambda f: f["id"]):
        if not in_stream(fn) or testing(fn) or not fn.get("body"):
            continue
        if fn["id"] in helpers or not reads(fn) and not any(x.get("k") == "call" and x.get("id") in helpers for x in fbody(fn)):
            continue
        c = Given(rep, fn)
        fl = Flow(db, c, depth=4)
        fl.stack = [fn]
        out = fl.run(fn, None)
        rep.count("functions that read data to give it on")
        rep.count("reads of data to give on", c.n)
        rep.funcs.add(fn["id"])
        for st, v, line in list(out.ret) + [(s, None, None) for s in out.norm]:
            if not st.auto:
                continue
            sym, off, g, m, kept, free = st.auto
            w = where(fn, line or fn["line"])
            if not g:
                rep.bad("what was read isn't what is given on", norm(fn["q"]), w, "nothing is done with exactly the size that was read", st.steps(), "size")
            if off and not m:
                rep.bad("the same part of a file is sent again", norm(fn["q"]), w, "the position of the next read isn't moved by what was read", st.steps(), "offset")
            if kept and not any(kept in p for p in free):
                rep.bad("data is replaced before it was written", norm(fn["q"]), w,
                        "more is read though %s bytes read before may not have been written yet" % kept.replace("this.", ""), st.steps(), "replaced")
    rep.need("functions that read data to give it on", 3)


# -- the event loops

class Loop(Inside):
    """automaton: (results of transfers in this turn, setups that said no, steps that said that it's over)"""
    all_loops = True

    def __init__(self, again):
        self.again = again
        self.setups = set()
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return None if "(lambda" in fn["q"] else in_stream(fn) and "TransferResult" not in (fn.get("rt") or "") \
            and method_name(fn) not in ("setup_poll", "on_poll")

    def call(self, fl, st, ev):
        if syscall(ev.node):
            return fl.opaque(ev.node, st, ev, ("s", "sys@%d" % ev.line))
        fn = db_fn(fl, ev)
        t, no, yes = st.auto
        if fn and "TransferResult" in (fn.get("rt") or ""):
            self.n += 1
            sym = "transfer@%d" % ev.line
            return [(st.with_auto((t + ((sym, None),), no, yes), "line %d: %s" % (ev.line, ev.name)), ("s", sym))]
        if ev.name in ("setup_poll", "on_poll") and not on_self(ev.node):
            sym = "%s@%d" % (ev.name, ev.line)
            if ev.name == "setup_poll":
                self.setups.add(sym)
            return [(st, ("s", sym))]
        if ev.obj and "progress_callback" in clean(ev.obj):
            return [(st, ("void",))]
        return None

    def iter_begin(self, fl, st, what, node, *a):
        return st.with_auto(((), (), ())).drop_facts(lambda k: "@" in k[0])

    def compound(self, fl, st, loc, op, val, node):
        if op == "|=" and loc and re.search(r"(^|\.)flags$", base(loc)):
            t, no, yes = st.auto
            return st.with_auto((t, no, tuple(sorted(set(yes) | {"flag %d" % int(val[1]) if val and val[0] == "c" else "flag ?"}))))
        return st

    def fact(self, fl, st, atom, truth, line):
        s, rel, c = atom
        t, no, yes = st.auto
        if rel == "==" and s.startswith("transfer@"):
            out = []
            for x, v in t:
                if x == s:
                    if isinstance(v, int) and (v == c) != truth or isinstance(v, tuple) and truth and c in v:
                        return None
                    if truth:
                        v = c
                    elif not isinstance(v, int):
                        v = tuple(sorted(set(v or ()) | {c}))
                out.append((x, v))
            return st.with_auto((tuple(out), no, yes))
        if rel == "==" and c == 0 and s.startswith("setup_poll@") and truth:
            return st.with_auto((t, tuple(sorted(set(no) | {s})), yes))
        if rel == "==" and c == 0 and s.startswith("on_poll@") and not truth:
            return st.with_auto((t, no, tuple(sorted(set(yes) | {s}))))
        return st


def db_fn(fl, ev):
    return fl.db.functions.get(ev.id)


def loops(db, rep):
    rep.rule("an event loop ends only when a transfer in that turn said that it's done or that an end was closed, when one of its steps "
             "said so, or when none of its steps waits for anything")
    again = enum_value(db, "arki::stream::TransferResult", "WOULDBLOCK")
    rep.anchor(again is not None, "arki::stream::TransferResult::WOULDBLOCK")
    ends = {enum_value(db, "arki::stream::TransferResult", n): f for n, f in (("EOF_SOURCE", EOF_SOURCE), ("EOF_DEST", EOF_DEST))}
    for fn in sorted(db.functions.values(), key=lambda f: f["id"]):
        if not in_stream(fn) or testing(fn) or not fn.get("body"):
            continue
        calls = [x for x in fbody(fn) if x.get("k") == "call" and x.get("id")]
        moves = any("TransferResult" in ((db.functions.get(x["id"]) or {}).get("rt") or "") for x in calls)
        steps = any((x.get("f") or "").endswith("::on_poll") and not on_self(x) for x in calls)
        rt = fn.get("rt") or ""
        if "SendResult" in rt and (moves or steps) and any(x.get("k") in ("while", "for", "do") for x in fbody(fn)):
            kind = "loop"
        elif rt == "bool" and moves:
            kind = "step"
        else:
            continue
        c = Loop(again)
        fl = Flow(db, c, depth=6)
        fl.stack = [fn]
        out = fl.run(fn, ((), (), ()))
        if kind == "step" and not feeds(db, fn):
            continue
        rep.count("event loops" if kind == "loop" else "event loop steps that feed a filter")
        rep.funcs.add(fn["id"])
        rep.site("event loop", where(fn))
        for st, v, line in out.ret:
            if kind == "step" and not (v and v[0] == "c" and int(v[1])):
                continue
            t, no, yes = st.auto
            w = where(fn, line or fn["line"])
            if any(x == again or not isinstance(x, int) and again not in (x or ()) for s, x in t):
                rep.bad("the transfer ends before it's done", norm(fn["q"]), w, "it ends though the transfer may only have said that it can't go on now",
                        st.steps(), "again")
            elif kind == "loop" and any(isinstance(x, int) and x in ends and "flag %d" % ends[x] not in yes and "flag ?" not in yes for s, x in t):
                rep.bad("a closed end isn't reported", norm(fn["q"]), w, "the transfer stopped because an end was closed, but the result doesn't say so",
                        st.steps(), "flag")
            elif kind == "step" and not t:
                rep.bad("the transfer ends before it's done", norm(fn["q"]), w, "the step says that it's over without a transfer", st.steps(), "none")
            elif steps and not [y for y in yes if not y.startswith("flag")] and set(no) != c.setups:
                rep.bad("the transfer ends before it's done", norm(fn["q"]), w, "it ends though a step may still wait for something", st.steps(), "waits")
    rep.need("event loops", 2)
    rep.need("event loop steps that feed a filter", 1)


def feeds(db, fn):
    got, _ = reaches(db, lambda x: x.get("cls") == CHILD and (x.get("f") or "").endswith("::close_stdin"))
    return fn["id"] in got


# -- starting again with another way to transfer

SENDS = ("send_buffer", "send_line", "send_file_segment", "send", "loop")


class Again(Client):
    """automaton: None, ('tried', arguments of the first send)"""

    def __init__(self, rep, root, eager):
        self.rep, self.root, self.eager = rep, root, eager
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return in_stream(fn) and not fn.get("virt") and not fn["q"].rsplit("::", 1)[-1].startswith(("loop", "start_filter"))

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.kind == "ctor" and any(re.search(r"(^|::)(FileToPipe|BufferToPipe|LineToPipe|\w*ToPipe)", ev.cls or "") for _ in (0,)) and len(ev.args) >= 2:
            return [(st, ("s", "PIPE{%s}" % "|".join(base(clean(a)) for a in ev.args)))]
        if ev.kind == "call" and ev.name in SENDS and ev.args and self.ours(ev):
            key = "|".join(base(clean(a)) for a in ev.args)
            tried = st.auto
            if tried is not None and tried[0] == "again":
                self.n += 1
                if key == tried[1] and tried[2] not in self.eager:
                    self.rep.bad("data already sent is sent again", norm(self.root["q"]), ev.where(),
                                 "after %s the whole of the data is sent again, also what was already taken" % tried[2], st.steps(), "again")
                elif tried[2] not in self.eager and not key.startswith("PIPE"):
                    was, now = tried[1].split("|"), key.split("|")
                    if len(was) == len(now) >= 2:
                        self.rest(was, now, ev, st, tried[2])
                return [(st, ("s", "result@%d" % ev.line))]
            for t in NOT_AVAILABLE:
                fl.throw(st.with_auto(("again", key, t), "line %d: %s stops with %s" % (ev.line, ev.name, t)), "arki::stream::" + t, ev.line)
            return [(st, ("s", "result@%d" % ev.line))]
        return None

    def rest(self, was, now, ev, st, t):
        """the start has moved by what the size has shrunk"""
        more, less = diff(was[-2], now[-2], "+"), diff(was[-1], now[-1], "-")
        if more is None or less is None or more == less:
            return
        self.rep.bad("data already sent is sent again", norm(self.root["q"]), ev.where(),
                     "after %s the start of what is left moves by %s, but its size shrinks by %s" % (t, more, less), st.steps(), "rest")

    def ours(self, ev):
        return (ev.cls or "").startswith("arki::stream::") or (ev.f or "").startswith("arki::stream::")


def diff(a, b, sign):
    """what b is off from a: None if it can't be told"""
    if a == b:
        return "0"
    for x, y in ((a + sign, ""), ("", sign + a) if sign == "+" else (None, None)):
        if x is not None and b.startswith("(" + x) and b.endswith(y + ")"):
            return b[len(x) + 1:len(b) - len(y) - 1]
    return None


class Eager(Inside):
    """is the exception thrown only when nothing was transferred yet?"""

    def call(self, fl, st, ev):
        if syscall(ev.node):
            return [(st, ("s", "moved@%d" % ev.line))]
        return None


def eager(db, rep, t):
    """every place that throws t knows that the position is at the start"""
    res = True
    n = 0
    for fn in sorted(db.functions.values(), key=lambda f: f["id"]):
        if not in_stream(fn) or testing(fn) or not fn.get("body"):
            continue
        if not any(x.get("k") == "throw" and t in str((x.get("e") or {}).get("t") or x.get("t") or "") for x in fbody(fn)):
            continue
        n += 1
        fl = Flow(db, Eager(), depth=6)
        fl.stack = [fn]
        out = fl.run(fn, "x")
        for st, ty, line in out.thr:
            if not ty.endswith(t):
                continue
            if not any(re.match(r"this\.\w+$", base(s)) and ((rel == "==" and c == 0 and truth) or (rel == "<" and c == 1 and truth))
                       for (s, rel, c), truth in st.facts.items()):
                res = False
    rep.count("places that find a way to transfer not available", n)
    return res and n > 0


def fallbacks(db, rep):
    rep.rule("when a way to transfer data turns out not to be available, the other one starts from what was not transferred yet")
    ok = {t for t in NOT_AVAILABLE if eager(db, rep, t)}
    for fn in sorted(db.functions.values(), key=lambda f: f["id"]):
        if not in_stream(fn) or testing(fn) or not fn.get("body"):
            continue
        if not any(x.get("k") == "try" and any(any(t in (h.get("t") or "") for t in NOT_AVAILABLE) for h in x["h"]) for x in fbody(fn)):
            continue
        if not any(x.get("k") == "call" and (x.get("f") or "").rsplit("::", 1)[-1] in SENDS for x in fbody(fn)):
            continue
        c = Again(rep, fn, ok)
        fl = Flow(db, c, depth=6)
        fl.stack = [fn]
        fl.run(fn, None)
        rep.count("senders with another way to transfer")
        rep.count("second attempts", c.n)
        rep.funcs.add(fn["id"])
        rep.site("fallback", where(fn))
    rep.need("senders with another way to transfer", 3)


# -- the source ends early

def carriers(db, rep):
    rep.rule("that a file ended before all of the data was sent never stays unnoticed: the result that says so is handed on or looked at")
    bit = None
    seg = {i for r in ("arki::StreamOutput",) for m in (db.records.get(r) or {}).get("methods", ()) if m["n"] == "send_file_segment"
           for i in [m["id"]] + list(all_overriders(db, m["id"]))}
    rep.anchor(bool(seg), "arki::StreamOutput::send_file_segment")
    car = set(seg)
    g = Graph(db)
    by_callee = {}
    for fid, fn in db.functions.items():
        if fn.get("body") and not is_test(fn["rel"]):
            for x in fbody(fn):
                if x.get("k") == "call" and x.get("id"):
                    by_callee.setdefault(x["id"], set()).add(fid)
    bases = {}
    for r in db.records.values():
        for m in r["methods"]:
            for o in m.get("over", ()):
                bases.setdefault(m["id"], set()).add(o)

    def up(i):
        out, todo = {i}, [i]
        while todo:
            for b in bases.get(todo.pop(), ()):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    todo = set()
    for i in seg:
        todo |= up(i)
    car |= todo
    seen = set()
    while todo:
        i = todo.pop()
        for fid in sorted(by_callee.get(i, ())):
            fn = db.functions[fid]
            if (fid in seen and fid in car) or in_stream(fn) or testing(fn):
                continue
            seen.add(fid)
            c = Source(car)
            fl = Flow(db, c, depth=1, interesting=None)
            fl.stack = [fn]
            out = fl.run(fn, ())
            rep.funcs.add(fid)
            hands = False
            for st, v, line in [(s, v, l) for s, v, l in out.ret] + [(s, None, fn["line"]) for s in out.norm]:
                for sym in st.auto:
                    if v and v[0] == "s" and sym in v[1]:
                        hands = True
                    else:
                        rep.bad("a source that ended early isn't noticed", norm(fn["q"]), where(fn, line or fn["line"]),
                                "the result of sending data from a file isn't looked at for the end of the file", st.steps(), "source")
            if hands and fid not in car:
                for j in up(fid):
                    car.add(j)
                    todo.add(j)
    rep.count("functions that hand on or look at the result of sending from a file", len(seen))
    rep.need("functions that hand on or look at the result of sending from a file", 5)


class Source(Client):
    """automaton: results that may say that the source ended early"""

    def __init__(self, car):
        self.car = car

    def want_inline(self, fl, st, ev, fn):
        return False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.kind == "call" and ev.id in self.car:
            sym = "sent@%d" % ev.line
            return [(st.with_auto(tuple(sorted(set(st.auto) | {sym})), "line %d: %s" % (ev.line, ev.name)), ("s", sym))]
        return None

    def fact(self, fl, st, atom, truth, line):
        m = mask(atom[0], "flags")
        if m and m[0] & EOF_SOURCE:
            return st.with_auto(tuple(x for x in st.auto if x not in m[1]))
        return st


def check(db, rep):
    transfers(db, rep)
    rep.need("functions that give data to an output", 4)
    rep.rule("a span of a file copied by hand goes on from where it was, and what was read is what is sent")
    for fn in implementations(db, "arki::StreamOutput", "send_file_segment"):
        if is_test(fn["rel"]) or testing(fn):
            continue
        if not any(x.get("k") == "call" and (x.get("f") or "").endswith("::pread") for x in fbody(fn)):
            continue
        c = Copy(rep, fn)
        c.all_loops = True

        def end(fl, st, what, node, how, val=None, c=c, fn=fn):
            if st.auto and st.auto[0] == "read" and how == "end":
                off, moved = st.auto[1], st.auto[2:]
                if not any(m.split("#")[0].rsplit(".", 1)[-1] in off.split() for m in moved):
                    rep.bad("the same part of a file is sent again", norm(fn["q"]), where(fn, node.get("l") or fn["line"]),
                            "the position of the next read, %s, isn't moved by what was read" % off, st.steps(), "copy")
            return st.with_auto(())
        c.iter_end = end
        fl = Flow(db, c, depth=1)
        fl.stack = [fn]
        fl.run(fn, ())
        rep.count("copies of files by hand")
        rep.funcs.add(fn["id"])
    rep.need("copies of files by hand", 1)
    given(db, rep)
    loops(db, rep)
    filters(db, rep)
    fallbacks(db, rep)
    carriers(db, rep)
