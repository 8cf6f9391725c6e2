"""Putting summaries together loses nothing and counts nothing twice: numbers,
sizes and times of everything added are in the sum, each row is kept with its
items, and each row is handed on once."""
import itertools
from rulebase import *
from db import is_test
from failures import norm
from duplicates import Base, plain
from terms import *
from terms import C as K

STATS, TABLE, VISITOR, ROW = "arki::summary::Stats", "arki::summary::Table", "arki::summary::Visitor", "arki::summary::Row"
FIELDS = ("count", "size", "begin", "end")


class Unknown(Exception):
    pass


# -- statistics: every case of what is merged ---------------------------------
def prim(ev, p, f, name, obj, oloc, vals, n):
    both = ([obj] if obj is not None else []) + list(vals)
    op = n.get("op") or (name[8:] if name.startswith("operator") else name)
    if op in NEG and len(both) == 2:
        return [(compare(op, both[0], both[1]), p)]
    if name == "compare" and len(both) == 2:
        return [(add(both[0], both[1], -1), p)]
    if name in ("min", "max") and f.startswith("std::") and len(vals) == 2:
        c = compare("<", vals[1], vals[0]) if name == "min" else compare("<", vals[0], vals[1])
        return [(cond(c, vals[1], vals[0]), p)]
    cls = n.get("cls") or ""
    if name == "get" and cls == "arki::Metadata":
        return [(S("rt"), p)]
    if name == "get_Position":
        return [(S("time"), p)]
    if name == "data_size":
        return [(S("bytes"), p)]
    if n.get("k") == "ctor" and cls == STATS and len(vals) == 1 and n.get("cm") not in ("copy", "move"):
        v = S("summarised")
        for k, x in (("count", K(1)), ("size", S("bytes")), ("begin", S("time")), ("end", S("time"))):
            v = Eval.update(v, k, x)
        return [(v, p)]
    if n.get("k") == "ctor" and cls.startswith("arki::core::Time"):
        if all(v == K(0) for v in vals):
            return [(K(0), p)]
    return None


def value(t, a):
    k = t[0]
    if k == "c":
        return int(t[1])
    if k == "lin":
        return t[1] + sum(c * value(x, a) for x, c in t[2])
    if t in a:
        return a[t]
    if k == "s" and t[1].startswith("null"):
        return 0
    if k == "cmp":
        l, r = value(t[2], a), t[3]
        return int({"==": l == r, "<=": l <= r, "<": l < r, ">": l > r, ">=": l >= r, "!=": l != r}[t[1]])
    if k == "not":
        return int(not value(t[1], a))
    if k == "and":
        return int(all(value(x, a) for x in t[1:]))
    if k == "cond":
        return value(t[2] if value(t[1], a) else t[3], a)
    if k in ("deref", "get") or k == "addr":
        return value(t[-1], a)
    raise Unknown(repr(t)[:100])


def run(db, fn):
    e = Eval(db, prim)
    e.stack = [fn]
    p = Path()
    p.env["this"] = S("this")
    for prm in fn.get("params", ()):
        p.env[e.var(prm["id"])] = S("s")
    cur = [p]
    for i in fn.get("inits") or ():
        nxt = []
        for q in cur:
            if i.get("mem"):
                for v, r in e.ev(i["e"], q):
                    if i["e"].get("k") == "ctor" and not (i["e"].get("a") or []):
                        v = K(0)
                    nxt.append(e.write(r, ("this", i["mem"]), v))
            else:
                nxt += [r for _, r in e.ev(i["e"], q)]
        cur = nxt
    return [r for q in cur for r in e.body(fn, q)]


def stats(db, rep):
    todo = []
    for fn in db.functions.values():
        if not fn.get("body") or is_test(fn["rel"]) or cls_of(fn) != STATS or len(fn.get("params", ())) != 1:
            continue
        t = fn["params"][0].get("t", "")
        if method_name(fn) == "merge" or fn.get("ctor") and "Metadata" in t:
            todo.append((fn, "Metadata" not in t))
    rep.anchor(len(todo) >= 2, STATS + "::merge")
    for fn, whole in todo:
        rep.funcs.add(fn["q"])
        try:
            paths = run(db, fn)
        except Unsupported as x:
            rep.errors.append("%s: %s" % (fn["q"], x))
            continue
        times = (0, 1, 2, 3)
        cases = []
        for n, b, e in [(0, 0, 0)] + [(2, b, e) for b in times[1:] for e in times[1:] if b <= e]:
            if whole:
                cases += [(n, b, e, m, mb, me) for m, mb, me in [(0, 0, 0)] + [(3, x, y) for x in times[1:] for y in times[1:] if x <= y]]
            else:
                cases += [(n, b, e, 1, x, x) for x in times[1:]]
        if fn.get("ctor"):
            cases = [c for c in cases if c[0] == 0]
        for n, b, e, m, mb, me in cases:
            rep.count("cases of merging")
            a = {("fld", S("this"), k): v for k, v in zip(FIELDS, (n, n * 10, b, e))}
            if whole:
                a.update({("fld", S("s"), k): v for k, v in zip(FIELDS, (m, m * 7, mb, me))})
            a.update({S("rt"): 1, S("bytes"): 7, S("time"): mb})
            want = {"count": n + m, "size": n * 10 + m * 7, "begin": b if not m else mb if not n else min(b, mb),
                    "end": e if not m else me if not n else max(e, me)}
            try:
                got = []
                for p in paths:
                    if all(bool(value(c, a)) == tr for c, tr in p.conds):
                        got.append({k: value(Eval.field(p.env["this"], k), a) for k in FIELDS})
            except Unknown as x:
                rep.errors.append("%s: the value is not understood: %s" % (fn["q"], x))
                return
            if not got:
                rep.bad("sum", norm(fn["q"]), where(fn), "statistics are not merged, although there is nothing wrong with them")
                break
            for g in got:
                for k in FIELDS:
                    if g[k] != want[k] and not (k in ("begin", "end") and not n + m):
                        rep.bad("sum", norm(fn["q"]), where(fn), "%s is wrong after adding %s to %s" % (
                            {"count": "the number of elements", "size": "the size", "begin": "the first time", "end": "the last time"}[k],
                            "nothing" if not m else "elements" if whole else "an element", "no elements" if not n else "others"), detail=k)
    rep.need("cases of merging", 50)


# -- the last instant is part of what is summarised -----------------------------
def intervals(db, rep):
    def end_of(n):
        while isinstance(n, dict) and (n.get("k") in ("cast", "icast", "full", "temp", "paren") or
                                       n.get("k") == "ctor" and len(n.get("a") or []) == 1):
            n = n["e"] if n.get("k") != "ctor" else n["a"][0]
        return isinstance(n, dict) and n.get("k") == "mem" and n.get("q") == STATS + "::end"
    for fn in db.functions.values():
        if not fn.get("body") or is_test(fn["rel"]) or not fn["rel"].startswith("arki/"):
            continue
        for n in walk(fn["body"]):
            if n.get("k") == "ctor" and n.get("cls") == "arki::core::Interval" and len(n.get("a") or []) == 2:
                if any(x.get("k") == "mem" and (x.get("q") or "").startswith(STATS + "::") for x in walk(n)):
                    rep.count("intervals of summaries")
                    if end_of(n["a"][1]):
                        rep.bad("interval", norm(fn["q"]), where(fn, n.get("l")), "the interval made from a summary ends before the last element: "
                                "its end is excluded, and the last time of a summary is not")


# -- rows ------------------------------------------------------------------------
class Rows(Base):
    """automaton: a row was added; its statistics were added; both, once or
    more; statistics were decoded and not merged yet"""

    def __init__(self, db, rep, fn, many):
        self.db, self.rep, self.fn, self.many = db, rep, fn, many
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"] or "operator()" in fn["q"]:
            return None
        return cls_of(fn) == cls_of(self.fn) and fn["rel"] == self.fn["rel"] and fn["id"] != self.fn["id"] and ev.name not in ("want_clean", "intern") or \
            not fn.get("cls") and fn["rel"] == self.fn["rel"]

    def may_throw(self, fl, st, ev):
        return False

    def done(self, st, line):
        a = st.auto
        r, s = [next((x for x in a if x[0] == k), None) for k in ("row", "stat")]
        if not r or not s:
            return st
        if r[1] and s[1] and s[1] != r[1] + ".stats" and st.env.get(r[1] + ".stats") != ("s", s[1]):
            self.bad("rows", line, "a row is added, and the statistics of something else", st)
        return self.put(st, (("pairs", 2 if ("pairs", 1) in a or ("pairs", 2) in a else 1),), (r, s, ("pairs", 1), ("decoded",)),
                        "line %d: the row is in the table and in its sum" % line)

    def call(self, fl, st, ev):
        a = st.auto
        if ev.kind != "call":
            return None
        own = ev.path("o") or ""
        rows = "std::vector<%s>" % ROW
        if (ev.cls or "").startswith(rows) and own == "this.rows" and ev.name in ("emplace_back", "push_back", "insert", "emplace"):
            self.n += 1
            if any(x[0] == "row" for x in a):
                self.bad("rows", ev.line, "a row is added twice, or without adding its statistics", st)
            return [(self.done(self.put(st, (("row", ev.path(len(ev.args) - 1)),)), ev.line), ("s", "ROW"))]
        if ev.cls == STATS and ev.name == "merge" and own == "this.stats":
            self.n += 1
            if any(x[0] == "stat" for x in a):
                self.bad("rows", ev.line, "the statistics of a row are added twice, or without the row", st)
            return [(self.done(self.put(st, (("stat", ev.path(0)),)), ev.line), None)]
        if ev.cls == TABLE and ev.name == "merge" and cls_of(self.fn) != TABLE:
            self.n += 1
            return [(self.put(st, (("pairs", 1),), (("decoded",),), "line %d: merged" % ev.line), None)]
        if ev.cls == STATS and ev.name in ("decode", "decodeString", "decode_structure"):
            if ("decoded",) in a and self.many:
                self.bad("decoded", ev.line, "what was read before is not added to the summary", st)
            return [(self.put(st, (("decoded",),), (), "line %d: statistics are read" % ev.line), ("s", "STATS@%d" % ev.line))]
        return None


def rows(db, rep):
    todo = []
    for fn in db.functions.values():
        if not fn.get("body") or is_test(fn["rel"]) or not fn["rel"].startswith("arki/summary") or "(lambda" in fn["q"]:
            continue
        if cls_of(fn) == TABLE and method_name(fn) == "merge":
            todo.append((fn, False))
        elif cls_of(fn) != STATS and any(n.get("k") == "call" and n.get("cls") == STATS and (n.get("f") or "").rsplit("::", 1)[-1] in
                                         ("decode", "decodeString") for n in walk(fn["body"])):
            todo.append((fn, True))
    for fn, many in todo:
        rep.funcs.add(fn["q"])
        cl = Rows(db, rep, fn, many)
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.errors += fl.unsupported
        if not cl.n:
            rep.errors.append("no row found in %s" % fn["q"])
            continue
        rep.count("functions that read rows" if many else "functions that add a row")
        for st, v, line in out.ret:
            a = st.auto
            if any(x[0] in ("row", "stat") for x in a):
                cl.bad("rows", line, "a row is added without its statistics, or the other way round", st)
            elif ("decoded",) in a:
                cl.bad("decoded", line, "what was read is not added to the summary", st)
            elif not many and ("pairs", 1) not in a:
                cl.bad("rows", line, "what is merged is counted twice" if ("pairs", 2) in a else "what is merged is not added to the summary", st)
    rep.need("functions that add a row", 6)
    rep.need("functions that read rows", 3)


# -- items stay in their places -----------------------------------------------------
class Items(Eval):
    """assignments to the elements of an array of items: index and value"""

    def binop(self, n, p):
        if n["op"] == "=":
            l = n["a"]
            while l.get("k") in ("cast", "icast", "full", "temp", "paren"):
                l = l["e"]
            if l.get("k") == "sub" or l.get("k") == "call" and l.get("op") == "[]":
                out = []
                for lv, q in self.ev(l, p):
                    for v, r in self.ev(n["b"], q):
                        r = r.copy()
                        r.ops = r.ops + ((lv, v, n.get("l")),)
                        out.append((v, r))
                return out
        return super().binop(n, p)


def iprim(ev, p, f, name, obj, oloc, vals, n):
    if n.get("op") == "[]" or name in ("operator[]", "at"):
        b, i = (obj, vals[0]) if obj is not None else (vals[0], vals[1])
        return [(("sub", b, i), p)]
    if n.get("op") == "*" and len(vals) + (obj is not None) == 1:
        return [(obj if obj is not None else vals[0], p)]
    if name in ("move", "forward") and len(vals) == 1:
        return [(vals[0], p)]
    if name == "codeForPos" and vals:
        return [(("sub", S(TABLE + "::mso"), vals[0]), p)]
    if name == "posForCode" and vals:
        return [(("pos", vals[0]), p)]
    if name in ("intern", "lookup"):
        return [(("call", name, obj if obj is not None else S("?")) + tuple(vals), p)]
    return [(("call", name) + ((obj,) if obj is not None else ()) + tuple(vals), p)] if n.get("k") == "call" else None


def subs(t, out):
    """places of items that a value is taken from"""
    if not isinstance(t, tuple) or not t:
        return out
    if t[0] == "sub":
        out.append((t[1], t[2]))
        return subs(t[2], out)
    for x in t:
        subs(x, out)
    return out


def places(db, rep):
    for fn in db.functions.values():
        if not fn.get("body") or is_test(fn["rel"]) or not fn["rel"].startswith("arki/summary"):
            continue
        loops = [n for n in walk(fn["body"]) if n.get("k") in ("for", "while", "forr")]
        for l in loops:
            body = l.get("b")
            if not body or any(n is not l and n.get("k") in ("for", "while", "forr", "do", "switch", "try") for n in walk(body)):
                continue
            hot = [n for n in walk(body) if n.get("k") == "bin" and n.get("op") == "=" and "types::Type *" in (n.get("t") or n.get("at") or "")]
            if not hot:
                continue
            e = Items(db, iprim, depth=1)
            e.stack = [fn]
            p = Path()
            p.env["this"] = S("this")
            try:
                pre = [p]
                outs = [q for x in pre for q, how in e.stmts([body], x)]
            except (Unsupported, ValueError) as x:
                continue
            seen = set()
            for q in outs:
                for lv, v, line in q.ops:
                    if lv[0] != "sub":
                        continue
                    seen.add(line)
                    want = lv[2]
                    # names known by the code of the type
                    for b, i in subs(v, []):
                        if i != want:
                            rep.bad("place", norm(fn["q"]), where(fn, line), "an item is put in a place which is not the one that it was taken from")
            for x in seen:
                rep.count("items put in their places")
    rep.need("items put in their places", 5)


# -- equal rows become one ------------------------------------------------------------
class Turn(Eval):
    """one turn of a loop over rows with two iterators"""

    def stmt(self, n, p):
        if n.get("k") == "continue":
            return [(p, "continue")]
        return super().stmt(n, p)


def tprim(ev, p, f, name, obj, oloc, vals, n):
    both = ([obj] if obj is not None else []) + list(vals)
    op = n.get("op")
    if op in ("*", "->") and len(both) == 1:
        return [(("elem", both[0]), p)]
    if op in ("++", "--"):
        l = oloc or ev.loc((n.get("a") or [{}])[0], p)
        v = add(both[0], K(1 if op == "++" else -1))
        return [(v, ev.write(p, l, v) if l else p)]
    if op in ("++", "--") and len(both) == 2:
        l = oloc or ev.loc((n.get("a") or [{}])[0], p)
        v = add(both[0], K(1 if op == "++" else -1))
        return [(both[0], ev.write(p, l, v) if l else p)]
    if op in ("==", "!=") and len(both) == 2:
        if any(x[0] == "elem" for x in both):
            t = ("same",) + tuple(sorted(both, key=repr))
            return [(t if op == "==" else negate(t), p)]
        return [(compare(op, both[0], both[1]), p)]
    if op in ("+", "-") and len(both) == 2:
        return [(add(both[0], both[1], 1 if op == "+" else -1), p)]
    if op == "=" and len(both) == 2 and both[0][0] == "elem":
        q = p.copy()
        q.ops = q.ops + (("copy", both[0], both[1]),)
        return [(both[0], q)]
    if name == "merge" and n.get("cls") == STATS and len(both) == 2:
        q = p.copy()
        q.ops = q.ops + (("merge", both[0], both[1]),)
        return [(K(0), q)]
    if name in ("begin", "end") and n.get("k") == "call":
        return [(S("rows." + name), p)]
    if name in ("resize", "erase"):
        q = p.copy()
        q.ops = q.ops + ((name,) + tuple(vals),)
        return [(K(0), q)]
    return [(("call", f) + tuple(both), p)] if n.get("k") == "call" else None


def compaction(db, rep):
    it = "normal_iterator<%s *" % ROW
    for fn in db.functions.values():
        if not fn.get("body") or is_test(fn["rel"]) or cls_of(fn) != TABLE:
            continue
        for loop in walk(fn["body"]):
            if loop.get("k") not in ("while", "for") or not loop.get("b"):
                continue
            its = {n["v"] for n in walk(loop) if n.get("k") == "ref" and it in (n.get("t") or "") and "v" in n and not (n.get("n") or "").startswith("__")}
            if len(its) != 2 or any(n is not loop and n.get("k") in ("while", "for", "forr", "do") for n in walk(loop)):
                continue
            if any(n.get("k") == "call" and (n.get("f") or "").startswith("arki::") and not n.get("op") and n.get("cls") != STATS
                   for n in walk(loop)):
                continue        # parts of the turn are elsewhere
            e = Turn(db, tprim, depth=1)
            e.stack = [fn]
            p = Path()
            p.env["this"] = S("this")
            for v in its:
                p.env[e.var(v)] = S("it%s" % v)
            try:
                outs = []
                for c, q in e.ev(loop["c"], p) if loop.get("c") else [(K(1), p)]:
                    q = e.assume(q, c, True)
                    for r, how in e.stmts([loop["b"]], q) if q else []:
                        if how in (None, "continue") and loop.get("inc"):
                            outs += [(x, None) for _, x in e.ev(loop["inc"], r)]
                        else:
                            outs.append((r, None if how == "continue" else how))
            except Unsupported:
                continue
            vals = {v: [add(r.env[e.var(v)], S("it%s" % v), -1) for r, how in outs if how is None] for v in its}
            reads = [v for v in its if vals[v] and all(x == K(1) for x in vals[v])]
            if len(reads) != 1:
                if len(reads) == 2 or not any(o[0] == "merge" for r, _ in outs for o in r.ops):
                    continue
                rep.bad("equal rows", norm(fn["q"]), where(fn, loop.get("l")), "the loop that joins equal rows doesn't look at each row once")
                continue
            rd = S("it%s" % reads[0])
            wv = next(v for v in its if v != reads[0])
            wr = S("it%s" % wv)
            rep.count("loops that join equal rows")
            for r, how in outs:
                if how is not None:
                    continue
                same = next((tr for c, tr in r.conds if c[0] == "same"), None)
                w = r.env[e.var(wv)]
                merges = [o for o in r.ops if o[0] == "merge"]
                copies = [o for o in r.ops if o[0] == "copy"]
                if same is None:
                    rep.bad("equal rows", norm(fn["q"]), where(fn, loop.get("l")), "a row is joined with another, or dropped, without comparing them")
                elif same:
                    good = [("merge", ("fld", ("elem", wr), "stats"), ("fld", ("elem", rd), "stats"))]
                    if merges != good or copies or w != wr:
                        rep.bad("equal rows", norm(fn["q"]), where(fn, loop.get("l")), "the statistics of a row equal to the one before are not added to it")
                else:
                    near = compare("==", rd, add(wr, K(1)))
                    there = any(e.truth(c) == near and tr or e.truth(c) == negate(near) and not tr for c, tr in r.conds)
                    ok = copies == [("copy", ("elem", add(wr, K(1))), ("elem", rd))] or not copies and there
                    if merges or w != add(wr, K(1)) or not ok:
                        rep.bad("equal rows", norm(fn["q"]), where(fn, loop.get("l")), "a row that is not equal to the one before is lost")
            # what is kept afterwards
            for n in walk(fn["body"]):
                if n.get("k") == "call" and (n.get("f") or "").endswith("::resize") and ROW in (n.get("cls") or "") and len(n.get("a") or []) == 1:
                    q = Path(p.env)
                    q.env[e.var(wv)] = wr
                    arg, init = n["a"][0], None
                    while arg.get("k") in ("cast", "icast", "paren") and arg.get("e"):
                        arg = arg["e"]
                    if arg.get("k") == "ref" and "v" in arg:
                        init = next((x["i"] for d in walk(fn["body"]) if d.get("k") == "decl" for x in d["v"]
                                     if x.get("id") == arg["v"] and x.get("i") and d.get("l", 0) > loop.get("l", 0)), None)
                    try:
                        got = e.ev(init or n["a"][0], q)
                    except Unsupported:
                        continue
                    for v, _ in got:
                        if "it%s" % reads[0] not in repr(v) and "it%s" % wv not in repr(v):
                            continue        # not said in terms of the two
                        if v != add(add(wr, S("rows.begin"), -1), K(1)):
                            rep.bad("equal rows", norm(fn["q"]), where(fn, n.get("l")), "the rows that are kept are not those up to the last one that was written")


# -- visits ----------------------------------------------------------------------------
class Visits(Base):
    """automaton for the row at hand: in, refused, visited, and whether the
    visitor asked to stop"""

    def __init__(self, db, rep, fn):
        self.db, self.rep, self.fn = db, rep, fn
        self.n = self.loops = 0

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return None
        return cls_of(fn) == TABLE and ev.name != "want_clean"

    def may_throw(self, fl, st, ev):
        return False

    def iter_begin(self, fl, st, what, node):
        if plain(what) == "this.rows" if isinstance(what, tuple) else "rows" in repr(what):
            self.loops += 1
            return self.put(st, ("in",), ("visited", "refused"))
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        if not (plain(what) == "this.rows" if isinstance(what, tuple) else "rows" in repr(what)):
            return st
        a = st.auto
        if "stop" not in a and "visited" not in a and "refused" not in a:
            self.bad("visit", node.get("l"), "a row is not visited", st)
        if how in ("break", "return") and "stop" not in a:
            self.bad("visit", node.get("l"), "rows after this one are not visited", st)
        if how == "end" and "stop" in a:
            self.bad("visit", node.get("l"), "rows are visited after the visitor asked to stop", st)
        return self.put(st, (), ("in",))

    def call(self, fl, st, ev):
        a = st.auto
        if ev.kind == "call" and ev.cls == ROW and ev.name == "matches":
            return [(self.put(st, (), ("refused",), "line %d: the row matches" % ev.line), ("c", 1)),
                    (self.put(st, ("refused",), (), "line %d: the row doesn't match" % ev.line), ("c", 0))]
        if ev.kind == "call" and ev.name == "operator()" and "Visitor" in ((ev.cls or "") + (ev.ot or "")) and len(ev.args) == 2:
            self.n += 1
            if "visited" in a:
                self.bad("visit", ev.line, "a row is visited twice", st)
            if "refused" in a:
                self.bad("visit", ev.line, "a row that doesn't match is visited", st)
            return [(self.put(st, ("visited",), (), "line %d: visited" % ev.line), ("c", 1)),
                    (self.put(st, ("visited", "stop"), (), "line %d: the visitor asks to stop" % ev.line), ("c", 0))]
        return None


def visits(db, rep):
    for fn in db.functions.values():
        if not fn.get("body") or is_test(fn["rel"]) or cls_of(fn) != TABLE or "(lambda" in fn["q"]:
            continue
        if not any((p.get("t") or "").replace("const ", "").startswith(VISITOR + " ") for p in fn.get("params", ())):
            continue
        rep.funcs.add(fn["q"])
        cl = Visits(db, rep, fn)
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.errors += fl.unsupported
        if not cl.n or not cl.loops:
            rep.errors.append("no visit of rows found in %s" % fn["q"])
            continue
        rep.count("visits of rows")
        for st, v, line in out.ret:
            if v and v[0] == "c" and bool(v[1]) == ("stop" in st.auto):
                cl.bad("visit", line, "the caller isn't told that the visitor asked to stop" if v[1] else "the caller is told to stop, and nobody asked", st)
    rep.need("visits of rows", 2)


# -- visitors that put summaries together -------------------------------------------------
class Merge(Base):
    def __init__(self, db, rep, fn, stats):
        self.db, self.rep, self.fn, self.stats = db, rep, fn, stats
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return None if "(lambda" in fn["q"] else cls_of(fn) == cls_of(self.fn)

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.kind == "call" and ev.cls in (TABLE, STATS) and ev.name == "merge":
            self.n += 1
            if "merged" in st.auto:
                self.bad("merge", ev.line, "a row is added twice", st)
            if not any(x == self.stats for x in ev.args):
                self.bad("merge", ev.line, "a row is added with statistics which are not its own", st)
            return [(self.put(st, ("merged",), (), "line %d: added" % ev.line), None)]
        return None


class Add(Base):
    """automaton: the rows of the other summary were visited"""

    def __init__(self, db, rep, fn):
        self.db, self.rep, self.fn = db, rep, fn
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return None if "(lambda" in fn["q"] else ev.name not in ("visit", "visitFiltered", "empty", "merge") and cls_of(fn) == "arki::Summary"

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if ev.kind != "call":
            return None
        if ev.name == "empty" and ev.cls in (TABLE, "arki::Summary"):
            mine = (ev.path("o") or "").startswith("this") and method_name(self.fn) == "add"
            if mine:
                return None
            return [(self.put(st, ("empty",), (), "line %d: nothing to add" % ev.line), ("c", 1)),
                    (self.put(st, (), ("empty",)), ("c", 0))]
        if ev.name in ("visit", "visitFiltered", "merge") and ev.cls in ("arki::Summary", TABLE):
            self.n += 1
            if "visited" in st.auto:
                self.bad("add", ev.line, "a summary is added twice", st)
            if method_name(self.fn) == "filter" and ev.name == "visit":
                self.bad("add", ev.line, "rows that don't match are added", st)
            return [(self.put(st, ("visited",), (), "line %d: added" % ev.line), None)]
        return None


def merging(db, rep):
    for fn in implementations(db, VISITOR, "operator()"):
        if is_test(fn["rel"]) or not any(n.get("k") == "call" and n.get("cls") in (TABLE, STATS) and (n.get("f") or "").endswith("::merge")
                                  for n in walk(fn["body"])):
            continue
        rep.funcs.add(fn["q"])
        fl0 = Flow(db, None)
        fl0.stack = [fn]
        cl = Merge(db, rep, fn, ("s", fl0.vkey(fn["params"][1])))
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.errors += fl.unsupported
        rep.count("visitors that add")
        for st, v, line in out.ret:
            if "merged" not in st.auto:
                cl.bad("merge", line, "a row is not added", st)
            if v and v[0] == "c" and not v[1]:
                cl.bad("merge", line, "rows after this one are not added", st)
    rep.need("visitors that add", 3)
    for fn in db.functions.values():
        if not fn.get("body") or is_test(fn["rel"]) or cls_of(fn) != "arki::Summary" or method_name(fn) not in ("add", "filter"):
            continue
        rep.funcs.add(fn["q"])
        cl = Add(db, rep, fn)
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.errors += fl.unsupported
        if not cl.n:
            rep.errors.append("%s: what it adds is not found" % fn["q"])
            continue
        rep.count("ways to add to a summary")
        for st, v, line in out.ret:
            if "visited" not in st.auto and "empty" not in st.auto:
                cl.bad("add", line, "what is given is not added", st)
    rep.need("ways to add to a summary", 5)


# -- rows that match ----------------------------------------------------------------------
class Matches(Base):
    """automaton: for the item at hand, a condition exists, the item is
    missing, does not match"""

    def __init__(self, db, rep, fn):
        self.db, self.rep, self.fn = db, rep, fn
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return None if "(lambda" in fn["q"] else cls_of(fn) == cls_of(self.fn)

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        a = st.auto
        if ev.kind != "call":
            return None
        if ev.name == "empty" and ev.cls == "arki::Matcher":
            return [(self.put(st, ("all",)), ("c", 1)), (self.put(st, (), ("all",)), ("c", 0))]
        if ev.name == "get" and ev.cls == "arki::Matcher":
            return [(self.put(st, ("cond",), ("refused", "looked"), "line %d: there is a condition" % ev.line), ("c", 1)),
                    (self.put(st, (), ("cond", "refused", "looked"), "line %d: there is no condition" % ev.line), ("c", 0))]
        if ev.name == "matchItem":
            self.n += 1
            return [(self.put(st, ("looked",), (), "line %d: the item matches" % ev.line), ("c", 1)),
                    (self.put(st, ("looked", "refused"), (), "line %d: the item doesn't match" % ev.line), ("c", 0))]
        if ev.name == "operator()" and ev.cls == "arki::Matcher":
            return [(self.put(st, ("timed",), ("untimed",), "line %d: the times match" % ev.line), ("c", 1)),
                    (self.put(st, ("timed", "untimed"), (), "line %d: the times don't match" % ev.line), ("c", 0))]
        return None


def matches(db, rep):
    for fn in fns(db, ROW + "::matches"):
        if not fn.get("body"):
            continue
        rep.funcs.add(fn["q"])
        cl = Matches(db, rep, fn)
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.errors += fl.unsupported
        if not cl.n:
            rep.errors.append("%s: no condition is tried" % fn["q"])
            continue
        rep.count("ways to match a row")
        for st, v, line in out.ret:
            a = st.auto
            if not v or v[0] != "c":
                rep.errors.append("%s: the result is not understood" % fn["q"])
            elif v[1] and "all" not in a:
                if "cond" in a and ("refused" in a or "looked" not in a):
                    cl.bad("match", line, "a row matches, although one of its items doesn't or is missing", st)
                elif "untimed" in a or "timed" not in a:
                    cl.bad("match", line, "a row matches, although its times don't", st)
            elif not v[1]:
                if "all" in a:
                    cl.bad("match", line, "a row does not match, and there are no conditions", st)
                elif not ("untimed" in a or "cond" in a and ("refused" in a or "looked" not in a)):
                    cl.bad("match", line, "a row does not match, and nothing is wrong with it", st)
    rep.need("ways to match a row", 1)


def check(db, rep):
    rep.rule("adding statistics gives the sum of numbers and sizes, and the earliest and latest time, whatever is empty; "
             "intervals made from them include the last instant")
    rep.rule("everything merged in a table adds one row, and its own statistics, once; statistics that are read are merged; "
             "items keep their places")
    rep.rule("visits hand on each row once, unless it doesn't match or the visitor stops, and visitors that add rows never stop; "
             "a row matches if all its items that have a condition do, and its times")
    stats(db, rep)
    intervals(db, rep)
    rows(db, rep)
    places(db, rep)
    compaction(db, rep)
    visits(db, rep)
    merging(db, rep)
    matches(db, rep)
