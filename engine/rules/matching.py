"""What a matcher selects does not depend on the form it is evaluated in: the
decoded item or its encoded buffer, the matcher as it was parsed, its clone, its
text as sent to a remote server, its SQL, and the AND/OR it is part of."""
import re
import itertools
from rulebase import *
from db import is_test, superclasses, subclasses
from terms import *
from terms import C as K
from flow import Flow, Client
from failures import norm

IMPL = "arki::matcher::Implementation"
DT = "arki::matcher::reftime::DTMatch"
ARGS = "OptionalCommaList"
JOINER = "CommaJoiner"


def strip(t):
    return (t or "").replace("const ", "").replace("&", "").replace("*", "").strip()


class MEval(Eval):
    """terms, with the vocabulary of matchers: the item being matched, the
    arguments of the pattern, text being composed"""

    def ev(self, n, p):
        if n.get("k") == "cast" and n.get("ck") == "Dynamic":
            return [(("item", strip(n.get("t"))), p)]
        return super().ev(n, p)

    def truth(self, v):
        if v[0] == "addr":
            return K(1)
        return super().truth(v)


def base_of(n):
    """the stream at the left of a chain of <<"""
    while True:
        if n.get("k") in ("full", "temp", "cast", "icast", "paren"):
            n = n["e"]
        elif n.get("k") == "call" and (n.get("f") or "").endswith("operator<<"):
            n = n["o"] if n.get("o") is not None else n["a"][0]
        else:
            return n


def pieces(v):
    """flatten a value used as text"""
    if v[0] == "text":
        return [x for y in v[1] for x in pieces(y)]
    return [v]


def join_text(*vs):
    return ("text", tuple(x for v in vs for x in pieces(v)))


def vocabulary(want):
    def prim(ev, q, f, name, obj, oloc, vals, n):
        k, cls = n.get("k"), n.get("cls") or ""
        if k == "ctor" and ARGS in cls:
            return [(("args",), q)]
        if obj is not None and obj == ("args",):
            if name in ("operator[]", "at") and vals:
                return [(("arg", vals[0], None), q)]
            if name.startswith("get") and vals:
                at = ("arg", vals[0], vals[1] if len(vals) > 1 else None)
                return [(at, q)]
            if name == "has":
                return [(("has", vals[0]), q)]
            return [(("call", name, obj) + tuple(vals), q)]
        if k == "ctor" and JOINER in cls:
            return [(("join", ()), q)]
        if obj is not None and obj[0] == "join":
            if name in ("addUndef", "add_missing"):
                x = ("undef",) if name == "addUndef" else ("missing",)
                return [(S("void"), ev.write(q, oloc, ("join", obj[1] + (x,))))]
            if name == "add":
                t = strip((n["a"][0] if n.get("a") else {}).get("t"))
                v, out = vals[0], []
                todo = [(v, q)]
                if "Optional" in t:
                    todo = []
                    for tr in (True, False):
                        r = ev.assume(q, ev.field(v, "present"), tr)
                        if r is not None and tr:
                            todo.append((ev.field(v, "value"), r))
                        elif r is not None:
                            out.append((S("void"), ev.write(r, oloc, ("join", obj[1] + (("undef",),)))))
                for v, r in todo:
                    if len(vals) > 1:
                        for tr in (True, False):
                            s = ev.assume(r, compare("==", v, vals[1]), tr)
                            if s is not None:
                                out.append((S("void"), ev.write(s, oloc, ("join", obj[1] + ((("missing",) if tr else v),)))))
                    else:
                        out.append((S("void"), ev.write(r, oloc, ("join", obj[1] + (v,)))))
                return out
            if name == "join":
                ps = []
                for i, x in enumerate(obj[1]):
                    ps += ([("str", ",")] if i else []) + ([("str", "-")] if x == ("missing",) else [] if x == ("undef",) else pieces(x))
                return [(("text", tuple(ps)), q)]
        if k == "ctor" and "stringstream" in cls and not vals or k == "ctor" and "ostringstream" in cls:
            return [(("text", ()), q)]
        if name == "operator<<" and n.get("k") == "call":
            b = base_of(n)
            l = ev.loc(b, q)
            if l is None:
                return None
            cur = ev.read(q, l)
            if cur[0] == "text":
                x = vals[-1]
                if x[0] in ("call", "s") and re.search(r"setw|setfill|setprecision|hex|dec|fixed", str(x[1])):
                    return [(S("stream"), q)]
                return [(S("stream"), ev.write(q, l, join_text(cur, x)))]
        if obj is not None and obj[0] == "text" and name in ("str", "c_str"):
            return [(obj, q)]
        if name == "snprintf" and len(vals) >= 3 and vals[2][0] == "str":
            l = ev.loc(n["a"][0], q)
            fmt = re.split(r"%[-+ #0-9.*]*(?:hh|h|ll|l|z|j)?([a-zA-Z%])", vals[2][1])
            ps, args = [], list(vals[3:])
            for i, x in enumerate(fmt):
                if i % 2 == 0:
                    if x:
                        ps.append(("str", x))
                elif x == "%":
                    ps.append(("str", "%"))
                elif args:
                    ps += pieces(args.pop(0))
            if l:
                return [(S("n"), ev.write(q, l, ("text", tuple(ps))))]
        if k == "ctor" and cls.startswith("std::basic_string<") and vals:
            return [(vals[0], q)]
        if name == "operator+" and len(vals) == 2 and obj is None and "basic_string" in (n.get("t") or ""):
            return [(join_text(vals[0], vals[1]), q)]
        if name == "operator+=" and oloc and vals and "basic_string" in (n.get("t") or ""):
            return [(S("void"), ev.write(q, oloc, join_text(obj, vals[0])))]
        if name in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>=") and not want(n):
            a, b = (obj, vals[0]) if obj is not None else (vals[0], vals[-1])
            return [(compare(name[8:], a, b), q)]
        # what is read from the item being matched
        it = obj if obj is not None and obj[0] == "item" else None
        static = n.get("o") is None and len(vals) >= 2 and vals[0] == S("data") and vals[1] == S("size")
        if it or static:
            skip = 2 if static else 0
            nm = name
            outs = [(i - skip, a) for i, a in enumerate(n.get("a") or []) if i >= skip]
            done = False
            for i, a in outs:
                l = ev.loc(a, q)
                if l:
                    q, done = ev.write(q, l, ("dec", nm, i)), True
            return [(("dec", nm, -1), q)]
        return None
    return prim


def mentions(t, pred, out=None):
    out = out if out is not None else []
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            out.append(t)
        for x in t:
            mentions(x, pred, out)
    return out


def members(t):
    return {x[2] for x in mentions(t, lambda y: y[0] == "fld" and y[1] == S("this"))}


def decoded(t):
    return {x for x in mentions(t, lambda y: y[0] == "dec")}


def split_conds(p, ev):
    """conjunctions that failed: one case for the first part that failed"""
    done, todo = [], [(list(p.conds), ())]
    while todo:
        rest, acc = todo.pop()
        if not rest:
            done.append(acc)
            continue
        (t, tr), rest = rest[0], rest[1:]
        t = ev.truth(t)
        while t[0] == "not":
            t, tr = t[1], not tr
        if t[0] == "and":
            if tr:
                todo.append(([(x, True) for x in t[1:]] + rest, acc))
            else:
                for i in range(1, len(t)):
                    todo.append(([(x, True) for x in t[1:i]] + [(t[i], False)] + rest, acc))
            continue
        c = const(t)
        if c is not None:
            if bool(c) == tr:
                todo.append((rest, acc))
            continue
        if (t, not tr) in acc:
            continue
        todo.append((rest, acc if (t, tr) in acc else acc + ((t, tr),)))
    return done


def consistent(conds):
    """no equality with two constants, no constant outside the limits"""
    eq = {}
    for t, tr in conds:
        if t[0] == "cmp" and t[1] == "==" and tr:
            if eq.setdefault(t[2], t[3]) != t[3]:
                return False
    for t, tr in conds:
        if t[0] == "cmp" and t[2] in eq:
            ok = (eq[t[2]] == t[3]) if t[1] == "==" else (eq[t[2]] <= t[3])
            if ok != tr:
                return False
    return True


def cases(ev, paths):
    """[(conditions, accepted)] of a function that returns bool"""
    out = []
    for p in paths:
        r = p.ret
        if r is None:
            continue
        for truth in (True, False):
            q = ev.assume(p, r, truth)
            if q is None:
                continue
            for c in split_conds(q, ev):
                if consistent(c):
                    out.append((c, truth))
    return out


def simplest(cs):
    return {(frozenset(c), a) for c, a in cs}


def method(db, cls, name, n=None, pred=None):
    for fn in fns(db, "%s::%s" % (cls, name)):
        if fn.get("body") and (n is None or len(fn["params"]) == n) and (pred is None or pred(fn)):
            return fn
    return None


def run_ctor(ev, fn, args):
    """paths at the end of a constructor; members in env['this']"""
    ev.stack = [fn]
    p = Path()
    p.env["this"] = S("new")
    for i, prm in enumerate(fn["params"]):
        p.env[ev.var(prm["id"])] = args[i]
    cur = [p]
    for it in fn.get("inits") or ():
        if not it.get("mem"):
            continue
        e = it["e"]
        nxt = []
        for q in cur:
            if e.get("k") == "ctor" and not e.get("a"):
                nxt.append(q)
                continue
            for v, r in ev.ev(e, q):
                nxt.append(ev.write(r, ("this", it["mem"]), v))
        cur = nxt
    out = []
    for q in cur:
        out += ev.body(fn, q)
    return out


class Matcher:
    def __init__(self, db, rep, cls):
        self.db, self.rep, self.cls = db, rep, cls
        self.fields = [f["n"] for f in db.records[cls]["fields"]]
        self.types = {f["n"]: f["t"] for f in db.records[cls]["fields"]}
        own = lambda g: cls_of(g) == cls or (cls_of(g) or "").startswith("arki::matcher::Optional")
        self.ev = MEval(db, vocabulary(lambda n: False), want=own, limit=4000)
        self.pos = {}
        self.default = {}
        self.bool_ok = True
        self.followed = False

    # -- the arguments of the pattern
    def arguments(self):
        fn = next((f for f in fns(self.db, "%s::%s" % (self.cls, short(self.cls).rsplit("::", 1)[-1]))
                   if f.get("body") and len(f["params"]) == 1 and "basic_string" in f["params"][0]["t"]), None)
        self.ctor = fn
        if fn is None:
            return
        try:
            paths = run_ctor(self.ev, fn, [S("pattern")])
        except Unsupported:
            return
        for m in self.fields:
            for p in paths:
                v = self.ev.field(p.env["this"], m)
                for a in mentions(v, lambda t: t[0] == "arg"):
                    i = const(a[1])
                    if i is None:
                        continue
                    self.pos.setdefault(m, set()).add(i)
                    if a == v and a[2] is not None:
                        self.default[m] = a[2]
                if mentions(v, lambda t: t[0] == "fld" and t[1] == ("args",) and t[2] == "tail" or
                            t[0] == "call" and t[2:] == (S("pattern"),) and not str(t[1]).startswith("std::")):
                    self.pos.setdefault(m, set()).add("tail")
            # parameters that helpers set from an argument
        self.followed = bool(self.pos)
        self.rep.count("pattern arguments", len(self.pos))

    def when_set(self, m):
        """terms of a member, and their value in a matcher where it is given"""
        me = ("fld", S("this"), m)
        sub = {("fld", me, "present"): K(1)}
        t = self.types[m]
        if t in ("int", "unsigned int", "long", "unsigned"):
            sub[me] = K(0)
        return me, sub

    def unset(self, conds, m):
        """the conditions rule out that the member was given"""
        me, sub = self.when_set(m)
        for t, tr in conds:
            for c in mentions(t, lambda y: y[0] == "call" and len(y) == 3 and y[2] == me):
                nm = str(c[1]).rsplit("::", 1)[-1]
                sub[c] = K(1) if nm in ("size", "length") else K(0) if nm == "empty" else c
        if me in sub:
            # given with any value: try more than one
            return all(self.contradicts(conds, dict(sub, **{})) if v == 0 else
                       self.contradicts(conds, {**sub, me: K(v)}) for v in (0, 1, 7))
        return self.contradicts(conds, sub)

    def contradicts(self, conds, sub):
        for t, tr in conds:
            c = const(self.ev.truth(subst(t, sub)))
            if c is not None and bool(c) != tr:
                return True
        return False

    # -- matching
    def matching(self):
        item = method(self.db, self.cls, "matchItem")
        buf = method(self.db, self.cls, "match_buffer")
        if item is None:
            return
        self.rep.funcs.add(item["q"])
        try:
            ci = cases(self.ev, self.ev.run(item))
        except Unsupported as e:
            self.rep.count("matchers with loops")
            return
        decide = self.strip_type(ci)
        if buf is not None:
            self.rep.funcs.add(buf["q"])
            try:
                cb = cases(self.ev, self.ev.run(buf))
            except Unsupported:
                self.rep.count("matchers with loops")
                cb = None
            if cb is not None:
                self.rep.count("buffer matchers")
                self.same(item, buf, decide, self.strip_type(cb), ci, cb)
        self.conditions(item, decide)

    def strip_type(self, cs):
        """leave out the tests that the item is of the right kind"""
        out = set()
        for conds, acc in cs:
            rest, wrong = [], False
            for t, tr in conds:
                if t[0] == "item" or t == ("cmp", "==", S("code"), t[-1]) or mentions(t, lambda y: y in (S("size"), S("code"))) and not decoded(t):
                    wrong |= not acc and t[0] == "item" and not tr
                    if not acc and t[0] == "cmp" and t[2] == S("code") and not tr:
                        wrong = True
                    if not acc and t[0] == "cmp" and t[2] == S("size") and (t[1] == "<=" and tr):
                        wrong = True
                    continue
                if mentions(t, lambda y: y[0] == "dec" and y[1] == "style"):
                    wrong |= not acc and not tr
                    continue
                rest.append((t, tr))
            if not wrong:
                out.add((tuple(rest), acc))
        return out

    def same(self, item, buf, a, b, ci, cb):
        sa, sb = ({(frozenset(self.clean(c)), acc) for c, acc in x} for x in (a, b))
        for (c, acc) in sorted(sb ^ sa, key=repr):
            there = [x for x in (sa if (c, acc) in sb else sb) if not any((t, not tr) in x[0] for t, tr in c)]
            if there and all(x[1] == acc for x in there):
                continue        # tested in another order
            which = "match_buffer" if (c, acc) in sb else "matchItem"
            other = "matchItem" if which == "match_buffer" else "match_buffer"
            self.rep.bad("match", buf["q"], where(buf), "%s %s when %s, %s does not" % (
                which, "accepts" if acc else "rejects", self.say(c), other))
            break
        kinds = set()
        for conds, acc in cb:
            if acc:
                codes = [t for t, tr in conds if tr and t[0] == "cmp" and t[1] == "==" and t[2] == S("code")]
                styles = [t for t, tr in conds if tr and t[0] == "cmp" and t[1] == "==" and t[2][0] == "dec" and t[2][1] == "style"]
                if not codes:
                    self.rep.bad("match", buf["q"], where(buf), "match_buffer accepts data without a test that it is the type being matched")
                    return
                kinds.add((codes[0][3], styles[0][3] if styles else None))
        for conds, acc in ci:
            if acc:
                styles = [t for t, tr in conds if tr and t[0] == "cmp" and t[1] == "==" and t[2][0] == "dec" and t[2][1] == "style"]
                if styles and (len(kinds) != 1 or {styles[0][3]} != {k[1] for k in kinds}):
                    self.rep.bad("match", buf["q"], where(buf), "match_buffer and matchItem accept items of a different style")
                    return

    @staticmethod
    def clean(c):
        def f(t):
            if isinstance(t, tuple):
                if t and t[0] == "dec":
                    return ("dec", str(t[1]), t[2])
                return tuple(f(x) for x in t)
            return t
        return [(f(t), tr) for t, tr in c]

    def say(self, conds):
        out = []
        for t, tr in sorted(conds, key=repr):
            out.append(("" if tr else "not ") + self.text(t))
        return " and ".join(out) or "always"

    def text(self, t):
        if t[0] == "fld" and t[1] == S("this"):
            return t[2]
        if t[0] == "fld":
            return "%s.%s" % (self.text(t[1]), t[2])
        if t[0] == "dec":
            return "%s[%s]" % (t[1], t[2])
        if t[0] == "cmp":
            return "%s%s%s" % (self.text(t[2]), t[1], t[3])
        if t[0] == "lin":
            return "+".join("%s*%s" % (k, self.text(x)) for x, k in t[2])
        if t[0] == "call":
            return "%s(%s)" % (str(t[1]).rsplit("::", 1)[-1], ",".join(self.text(x) for x in t[2:] if isinstance(x, tuple)))
        return str(t[1] if len(t) > 1 else t[0])

    def conditions(self, item, decide):
        """every condition of the pattern is tested, against the value at its
        position"""
        if not self.followed:
            return
        free = {m for m in self.fields if m not in self.pos}
        pairs, excuses = {}, {}
        for conds, acc in sorted(decide, key=repr):
            if not acc or not self.in_range(conds):
                continue
            for m in self.pos:
                if self.auxiliary(m):
                    continue
                if self.unset(conds, m):
                    continue
                hit = self.tested(conds, m, free)
                if hit is None:
                    self.rep.bad("tested", item["q"], where(item), "an item is accepted without a test of %s when the pattern gives it: %s" % (
                        m, self.say(conds)))
                    return
                real = {d for d in hit if d[0] == "dec"}
                for d in real:
                    pairs.setdefault(m, set()).add(d)
                if not real:
                    why = {d for d in hit if d[0] == "if"}
                    excuses[m] = excuses[m] & why if m in excuses else why
                    if not excuses[m] and why:
                        self.rep.bad("tested", item["q"], where(item), "an item is accepted without a test of %s when the pattern gives it: %s" % (
                            m, self.say(conds)))
                        return
        self.rep.count("conditions tested", len(pairs))
        order = []
        for m, ds in pairs.items():
            ps = [x for x in self.pos[m] if x != "tail"]
            ds = {d for d in ds if d[2] >= 0}
            if len(ds) > 1:
                self.rep.bad("tested", item["q"], where(item), "%s is compared with different values of the item: %s" % (
                    m, ", ".join(sorted(self.text(d) for d in ds))))
                return
            if len(ps) == 1 and len(ds) == 1:
                d, = ds
                order.append((d[1], ps[0], d[2], m))
        order.sort()
        for (g1, p1, d1, m1), (g2, p2, d2, m2) in zip(order, order[1:]):
            if g1 == g2 and d2 <= d1:
                self.rep.bad("tested", item["q"], where(item), "argument %d (%s) is compared with value %d of the item, argument %d (%s) with value %d" % (
                    p1, m1, d1, p2, m2, d2))
                return
        # nothing given: everything of this kind is accepted
        for conds, acc in decide:
            if acc:
                continue
            if all(not members(t) & set(self.pos) for t, tr in conds):
                self.rep.bad("tested", item["q"], where(item), "an item is rejected whatever the pattern gives: %s" % self.say(conds))
                return
            sub = {}
            for m in self.fields:
                me = ("fld", S("this"), m)
                sub[("fld", me, "present")] = K(0)
                if m in self.default and const(self.default[m]) is not None:
                    sub[me] = self.default[m]
            if any("call" in repr(t) for t, tr in conds if not decoded(t)) or "lambda@" in repr(conds):
                continue
            if all(m in self.default or "Optional" in self.types[m] or self.auxiliary(m) for m in self.pos) and not self.contradicts(conds, sub):
                self.rep.bad("tested", item["q"], where(item), "an item is rejected when the pattern gives nothing: %s" % self.say(conds))
                return

    def in_range(self, conds):
        """a function that returns one of some constants returns one of them"""
        no = {}
        for t, tr in conds:
            if t[0] == "cmp" and t[1] == "==" and t[2][0] == "call" and not tr:
                no.setdefault(t[2], set()).add(t[3])
        for c, vals in no.items():
            for fn in fns(self.db, str(c[1])):
                rets = [x.get("e", {}) for x in walk(fn["body"]) if x.get("k") == "ret"]
                cv = {x.get("cv") if x.get("cv") is not None else (int(x["v"]) if x.get("k") == "int" else None) for x in rets}
                if None not in cv and cv <= vals:
                    return False
        return True

    def auxiliary(self, m):
        """the unit of another argument"""
        t = self.types[m]
        return t == "bool" or "Unit" in t

    def tested(self, conds, m, free):
        me = ("fld", S("this"), m)
        hit = None
        fixed = any(t[0] == "cmp" and t[1] == "==" and tr and members(t) == {m} and not decoded(t) and not t[2] == ("fld", me, "present")
                    for t, tr in conds)
        seen = False
        for t, tr in conds:
            ms, ds = members(t), decoded(t)
            if m in ms or (free & ms and not self.other_args(ms, m)):
                if m in ms:
                    seen = True
                if ds:
                    good = tr if t[0] == "cmp" and t[1] == "==" else tr if t[0] == "call" else False
                    if t[0] == "cmp" and t[1] == "==" and ("::end'" in repr(t) or "npos" in repr(t)):
                        good = not tr
                    if good:
                        hit = (hit or set()) | {d for d in ds if m in ms and t[0] == "cmp" and len(ds) == 1}
            elif ds and not ms and seen:
                if fixed:
                    hit = hit or set()
                # the item says that the value has no meaning
                elif t[0] == "dec" and not tr:
                    hit = (hit or set()) | {("if", t, tr)}
                elif t[0] == "cmp" and t[1] == "==" and t[3] == 0 and tr and t[2][0] == "dec" and t[2][2] >= 4:
                    hit = (hit or set()) | {("if", t, tr)}
        return hit

    def other_args(self, ms, m):
        return any(x in self.pos and x != m for x in ms)

    # -- text
    def printing(self):
        fn = method(self.db, self.cls, "toString")
        if fn is None or not self.followed:
            return
        self.rep.funcs.add(fn["q"])
        try:
            paths = self.ev.run(fn)
        except Unsupported:
            self.rep.count("texts with loops")
            return
        self.rep.count("texts")
        for p in paths:
            if p.ret is None:
                continue
            ps = pieces(p.ret)
            fields, cur = {}, 0
            first = ps[0] if ps else None
            for t in ps:
                if t[0] == "str":
                    bits = re.split(r"([,:])", t[1])
                    for b in bits:
                        if b == ",":
                            cur += 1
                        elif b == ":":
                            cur = "tail"
                        elif b:
                            fields.setdefault(cur, []).append(("str", b))
                    if cur == "tail":
                        fields.setdefault(cur, [])
                else:
                    fields.setdefault(cur, []).append(t)
            styled = first is not None and first[0] == "str" and first[1][:1].isalpha()
            for c in split_conds(p, self.ev):
                if not consistent(c):
                    continue
                for m in self.pos:
                    self.printed(fn, m, fields, 1 if styled else 0, c, p)
                    if self.rep_done:
                        return

    rep_done = False

    def printed(self, fn, m, fields, off, conds, p):
        at = {}
        for k, ts in fields.items():
            if any(m in members(t) for t in ts):
                at[k] = ts
        want = {(x + off if x != "tail" else x) for x in self.pos[m]}
        for k in at:
            if k not in want:
                self.rep.bad("text", fn["q"], where(fn), "%s is printed at position %s, and parsed from position %s" % (
                    m, k if k == "tail" else k - off, ", ".join(str(x) for x in sorted(self.pos[m], key=str))))
                self.rep_done = True
                return
        if at or self.auxiliary(m):
            return
        if any(fields.get(k) for k in want):
            if len(want) == 1 and all(t == ("str", "-") for t in fields[list(want)[0]]):
                return
        if self.unset(conds, m):
            return
        # an argument that has no meaning with the others is left out
        sig = [t for t, tr in conds if mentions(t, lambda y: y[0] == "out") and not members(t) & {m}]
        if sig:
            return
        self.rep.bad("text", fn["q"], where(fn), "the text of the matcher leaves out %s although the pattern gave it: %s" % (m, self.say(conds)))
        self.rep_done = True

    # -- clone
    def cloning(self):
        fn = method(self.db, self.cls, "clone")
        if fn is None:
            return
        made = [x for x in fbody(fn) if x.get("k") == "new" and (x.get("i") or {}).get("k") == "ctor"]
        made = [x["i"] for x in made if strip(x["t"]) == self.cls]
        if len(made) != 1:
            return
        c = made[0]
        ctor = self.db.functions.get(c.get("id"))
        self.rep.funcs.add(fn["q"])
        if ctor is None or not ctor.get("body"):
            return      # made by the compiler: copies all members
        try:
            self.ev.stack = [fn]
            p = Path()
            p.env["this"] = S("this")
            vals = [self.ev.ev(a, p)[0][0] for a in c.get("a") or []]
            paths = run_ctor(self.ev, ctor, vals)
        except (Unsupported, IndexError):
            return
        if (self.ctor or {}).get("id") == ctor["id"] or not vals:
            return      # parsed again, or filled afterwards
        self.rep.count("clones")
        for p in paths:
            for m in self.fields:
                v = self.ev.field(p.env["this"], m)
                want = ("fld", S("this"), m)
                if v == want or v[0] == "fld" and v[2] == m and v[1] == S("this"):
                    continue
                if v[0] == "call" and want in v or m in members(v) and len(members(v)) == 1:
                    continue
                if self.derived(m) and v == ("fld", S("new"), m):
                    continue
                got = ", ".join(sorted(members(v)))
                self.rep.bad("clone", fn["q"], where(fn, c["l"]), "the copy of the matcher has in %s %s" % (m, got or "not what the original has"))
                return

    def derived(self, m):
        return False


def walk_text(p):
    return pieces(p)


# -- reference times ---------------------------------------------------------
OPS = re.compile(r"(<=|>=|==|<|>|=)\s*'?$")


def reftimes(db, rep):
    for cls in sorted(subclasses(db, DT)):
        if db.records[cls].get("abstract"):
            continue
        rel = {g["rel"] for g in db.functions.values() if cls_of(g) == cls}
        own = lambda g: (cls_of(g) or "") == cls or (cls_of(g) or "").startswith("arki::core::Interval") or \
            not g.get("cls") and g["rel"] in rel and bool(g.get("params")) and \
            ("Time" in g["params"][0]["t"] or "Interval" in g["params"][0]["t"])
        inherited = [cls] + list(superclasses(db, cls))
        ev = MEval(db, vocabulary(lambda n: False), want=own, limit=2000)
        ms = [f["n"] for c in inherited if c in db.records for f in db.records[c]["fields"]]
        mt = method(db, cls, "match", 1, lambda f: "Time" in f["params"][0]["t"])
        if mt is None or not ms:
            continue
        try:
            cs = cases(ev, ev.run(mt))
        except Unsupported:
            rep.count("reference time tests with loops")
            continue
        ops = {}
        for conds, acc in cs:
            if not acc:
                continue
            for t, tr in conds:
                o = op_of(t, tr)
                if o:
                    ops.setdefault(o[0], set()).add(o[1])
        if not ops:
            rep.count("reference time tests with loops")
            continue
        rep.count("reference time tests")
        intervals(db, rep, cls, ev, cs, ms)
        for name in ("sql", "toString"):
            fn = method(db, cls, name)
            if fn is None:
                continue
            rep.funcs.add(fn["q"])
            try:
                paths = ev.run(fn)
            except Unsupported:
                continue
            rep.count("reference time texts")
            for p in paths:
                if p.ret is None:
                    continue
                used = set()
                last = ""
                for t in pieces(p.ret):
                    if t[0] == "str":
                        last += t[1]
                        continue
                    m = OPS.search(last)
                    if m:
                        for x in sorted(key(t)):
                            if x not in ops:
                                continue
                            used.add(x)
                            if m.group(1) in ("==", "=") and len(ops) > 1:
                                eq = [c for c, tr in p.conds if tr and c[0] == "cmp" and c[1] == "==" and len(key(c)) > 1]
                                if eq:
                                    used |= set(ops)
                                    continue
                            if m.group(1).replace("==", "=") not in {o.replace("==", "=") for o in ops[x]}:
                                rep.bad("reftime", fn["q"], where(fn), "%s is written as '%s', and matched as '%s'" % (
                                    x, m.group(1), "' '".join(sorted(ops[x]))))
                    last = ""
                for x in ops:
                    if x in used:
                        continue
                    if not any(x in key(c) or x.split(".")[0] in key(c) for c, tr in p.conds):
                        rep.bad("reftime", fn["q"], where(fn), "%s leaves out %s, which match() tests" % (name, x))
                        break


def key(t):
    """members of the test, by name (with the part of an interval)"""
    out = set()
    for x in mentions(t, lambda y: y[0] == "fld" and y[1] == S("this")):
        out.add(x[2])
    parts = set()
    for x in mentions(t, lambda y: y[0] == "fld" and y[1][0] == "fld" and y[1][1] == S("this")):
        parts.add("%s.%s" % (x[1][2], x[2]))
        out.discard(x[1][2])
    return out | parts


def op_of(t, tr):
    """(member, operator) of a comparison of the time with a member, in the
    order time OP member"""
    if t[0] != "cmp":
        return None
    ks = key(t)
    if len(ks) != 1:
        return None
    c, m = lin(t[2])
    mine = [(x, k) for x, k in m.items() if key(x)]
    others = [(x, k) for x, k in m.items() if not key(x)]
    if len(mine) != 1 or not others:
        return None
    k, op = t[3], t[1]
    if mine[0][1] == -1:      # time - member OP k
        r = {("==", 0): "==", ("<=", 0): "<=", ("<=", -1): "<"}.get((op, k))
        if not tr:
            r = {"<=": ">", "<": ">=", "==": None}.get(r)
    else:                     # member - time OP k
        r = {("==", 0): "==", ("<=", 0): ">=", ("<=", -1): ">"}.get((op, k))
        if not tr:
            r = {">=": "<", ">": "<=", "==": None}.get(r)
    return (list(ks)[0], r) if r else None


DAY = 86400
POINTS = (0, 1, 2, 3, DAY - 2, DAY - 1)


def linear_atom(t, roots):
    """coefficients of a comparison over named quantities, or None"""
    if t[0] != "cmp":
        return None
    c, m = lin(t[2])
    out, groups = {}, {}
    for x, k in m.items():
        if x[0] == "fld" and x[2] in ("ho", "mi", "se"):
            groups.setdefault(x[1], {})[x[2]] = k
        elif x in roots:
            out[roots[x]] = k
        elif x[0] == "call" and "duration" in str(x[1]):
            out["duration"] = k
        else:
            return None
    for x, g in groups.items():
        if x not in roots or set(g) != {"ho", "mi", "se"} or g["ho"] != 3600 * g["se"] or g["mi"] != 60 * g["se"]:
            return None
        out[roots[x]] = g["se"]
    return t[1], c, out, t[3]


def holds(atom, env):
    op, c, m, k = atom
    v = c + sum(env[x] * n for x, n in m.items())
    return v == k if op == "==" else v <= k


def intervals(db, rep, cls, ev, cs, members_):
    """an interval that contains a time that matches is not ruled out"""
    fn = method(db, cls, "match", 1, lambda f: "Interval" in f["params"][0]["t"])
    tm = method(db, cls, "match", 1, lambda f: "Time" in f["params"][0]["t"])
    if fn is None or tm is None:
        return
    iv, tt = S(fn["params"][0]["n"]), S(tm["params"][0]["n"])
    roots = {("fld", iv, "begin"): "begin", ("fld", iv, "end"): "end", tt: "t"}
    names = []
    for m in members_:
        roots[("fld", S("this"), m)] = m
        names.append(m)
    try:
        ci = cases(ev, ev.run(fn))
    except Unsupported:
        return

    def rules(cases_, want):
        out = []
        for conds, acc in cases_:
            if acc != want:
                continue
            row = []
            for t, tr in conds:
                a = linear_atom(t, roots)
                if a is None:
                    return None
                row.append((a, tr))
            if row is not None:
                out.append(row)
        return out
    accept, reject = rules(cs, True), rules(ci, False)
    if accept is None or reject is None:
        return
    rep.count("interval tests")
    rep.funcs.add(fn["q"])
    sat = lambda rows, env: any(all(holds(a, env) == tr for a, tr in row) for row in rows)
    for vals in itertools.product(POINTS, repeat=len(names)):
        env = dict(zip(names, vals))
        good = [t for t in POINTS if sat(accept, dict(env, t=t))]
        if not good:
            continue
        for b in POINTS:
            for e in POINTS:
                for days in (0, 1):
                    dur = (e - b) % DAY + days * DAY
                    if not dur or not sat(reject, dict(env, begin=b, end=e, duration=dur)):
                        continue
                    inside = [t for t in good if dur >= DAY or (b <= t < e if b < e else t >= b or t < e)]
                    if inside:
                        rep.bad("reftime", fn["q"], where(fn), "an interval that contains a time that matches is ruled out: %s" % (
                            "it lasts a day or more" if dur >= DAY else
                            "it begins before midnight and ends after it" if b > e else "it begins and ends on the same day"))
                        return


# -- composition -------------------------------------------------------------
MATCH = ("matchItem", "match_buffer", "match_interval", "match", "matchItemSet", "matchMetadata", "intersect_interval")


class Quantifier(Client):
    """walks a function that tries all the parts of a matcher"""
    all_loops = True

    def __init__(self, mode, what):
        self.mode, self.what = mode, what
        self.problems = []
        self.loops = 0
        self.tests = 0

    # auto: (where, result) where in out/in/after; result None/yes/no
    def want_inline(self, fl, st, ev, fn):
        return False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def call(self, fl, st, ev):
        if st.auto[0] == "in" and ev.name in MATCH and ev.name not in ("operator",):
            self.tests += 1
            return [(st.with_auto(("in", "yes"), "a part matched"), ("c", True)), (st.with_auto(("in", "no"), "a part did not match"), ("c", False))]
        if st.auto[0] == "in" and ev.name == "get" and ev.args:
            v = ("s", "item'%d" % ev.line)
            a = st.with_fact((v[1], "==", 0), False)
            b = st.with_fact((v[1], "==", 0), True).with_auto(("in", "no"), "the item is missing")
            return [(a, v), (b, v)]
        return None

    def fact(self, fl, st, atom, truth, line):
        if st.auto[0] == "in" and atom[1] == "==" and atom[2] == 0 and truth and ".second" in str(atom[0]):
            return st.with_auto(("in", "no"), "no matcher for the item")
        return st

    def iter_begin(self, fl, st, what, node=None):
        self.loops += 1
        return st.drop_facts(lambda a: True).with_auto(("in", None), "next part") if hasattr(st, "drop_facts") else st

    def iter_end(self, fl, st, what, node=None, how="end", val=None):
        r = st.auto[1]
        line = (node or {}).get("l")
        if how == "return":
            return st
        if self.mode == "or" and r == "yes":
            self.problems.append(("a part that matches does not make the whole match", line, st))
        if self.mode == "and" and r != "yes":
            self.problems.append(("a part that %s does not make the whole fail" % ("does not match" if r == "no" else "is not tried"), line, st))
        if how == "break":
            self.problems.append(("the remaining parts are not tried", line, st))
        return st.with_auto(("after", None))


def quantifiers(db, rep):
    todo = []
    for cls, mode, names in (("arki::matcher::OR", "or", ("matchItem", "match_buffer", "match_interval")),
                             ("arki::matcher::AND", "and", ("matchItemSet", "matchMetadata")),
                             ("arki::matcher::MatchReftime", "and", ("matchItem", "match_buffer", "match_interval", "intersect_interval"))):
        for n in names:
            fn = method(db, cls, n)
            rep.anchor(fn is not None, "%s::%s" % (short(cls), n))
            if fn is not None:
                todo.append((fn, mode))
    for fn, mode in todo:
        cl = Quantifier(mode, fn["q"])
        fl = Flow(db, cl, None)
        out = fl.run(fn, ("out", None))
        if not cl.tests:
            rep.count("parts tried in another way")
            continue
        rep.funcs.add(fn["q"])
        rep.count("compositions")
        for msg, line, st in cl.problems[:1]:
            rep.bad("parts", fn["q"], where(fn, line), msg, st.steps())
        for st, v, line in out.ret:
            w, r = st.auto
            if not isinstance(v, tuple) or v[0] != "c":
                continue
            if bool(v[1]):
                if mode == "or" and not (w == "in" and r == "yes") and not empty(st):
                    rep.bad("parts", fn["q"], where(fn, line), "matches although no part matched", st.steps())
                if mode == "and" and w == "in":
                    rep.bad("parts", fn["q"], where(fn, line), "matches before all the parts have been tried", st.steps())
            else:
                if mode == "or" and w == "in":
                    rep.bad("parts", fn["q"], where(fn, line), "fails before all the parts have been tried", st.steps())
                if mode == "and" and not (w == "in" and r == "no") and not untyped(fn, st, w):
                    rep.bad("parts", fn["q"], where(fn, line), "fails although no part failed", st.steps())


def empty(st):
    return any("empty" in str(a[0]) and t is False and a[1] == "==" and a[2] == 0 or "size" in str(a[0]) and a[2] == 0 and t
               for a, t in st.facts.items())


def untyped(fn, st, w):
    # an item of another type does not match
    return w == "out" and short(fn["q"]).startswith("matcher::MatchReftime")


def wrappers(db, rep):
    """Matcher and AND hand over to what they contain"""
    todo = []
    for fn in db.functions.values():
        if cls_of(fn) == "arki::Matcher" and fn.get("rt") == "bool" and method_name(fn).startswith("operator()") and fn.get("body"):
            todo.append((fn, None))
    for n in ("matchItem", "match_buffer", "match_interval"):
        fn = method(db, "arki::matcher::AND", n)
        if fn:
            todo.append((fn, n))
    for fn, n in todo:
        ev = MEval(db, vocabulary(lambda x: False), want=lambda g: False)
        try:
            cs = [p for p in ev.run(fn)]
        except Unsupported:
            rep.count("parts tried in another way")
            continue
        rep.count("compositions")
        rep.funcs.add(fn["q"])
        params = [S(p.get("n") or "arg%d" % i) for i, p in enumerate(fn["params"])]
        handed = 0
        for p in cs:
            if p.ret is None:
                continue
            c = const(p.ret)
            if c is None:
                if not all(mentions(p.ret, lambda y, x=x: y == x) for x in params):
                    rep.bad("parts", fn["q"], where(fn), "the matcher inside is not given what is to be matched")
                handed += 1
                if p.ret[0] in ("not", "cond"):
                    rep.bad("parts", fn["q"], where(fn), "does not answer what the matcher inside answers")
            elif c == 0:
                rep.bad("parts", fn["q"], where(fn), "fails without asking the matcher inside")
            else:
                # matches everything: there is nothing inside
                ok = False
                for t, tr in p.conds:
                    s = repr(t)
                    if ("m_impl" in s and not tr) or ("empty" in s and tr) or ("end" in s and "find" in s and tr) or ("find" in s and "end" in s) or ("m_impl" in s and t[0] == "cmp" and tr):
                        ok = True
                if not ok:
                    rep.bad("parts", fn["q"], where(fn), "matches without asking the matcher inside")
        if not handed:
            rep.bad("parts", fn["q"], where(fn), "never asks the matcher inside")


def parsing(db, rep):
    """no part of an expression is dropped when it is parsed"""
    for fn in fns(db, "arki::matcher::AND::parse"):
        if not fn.get("body"):
            continue
        rep.count("expressions parsed")
        rep.funcs.add(fn["q"])
        disc = discarded(fn["body"])
        looked = any((x.get("f") or "").rsplit("::", 1)[-1] in ("find", "count", "contains", "lower_bound") and "components" in json_text(x.get("o"))
                     for x in fbody(fn) if x.get("k") == "call")
        for x in disc:
            nm = (x.get("f") or "").rsplit("::", 1)[-1]
            if nm in ("insert", "emplace", "try_emplace") and "components" in json_text(x.get("o")) and not looked:
                rep.bad("parse", fn["q"], where(fn, x["l"]), "a second group of conditions on the same type is dropped: the result of %s() is not looked at" % nm)


LOSES = ("operator=", "clear", "erase", "swap", "pop_back", "resize", "assign", "pop_front")
ADDS = ("emplace_back", "push_back", "insert", "emplace", "insert_or_assign", "try_emplace")


def in_loops(n, inside=False):
    """nodes of a body, with whether they are inside a loop"""
    if isinstance(n, list):
        for x in n:
            yield from in_loops(x, inside)
    elif isinstance(n, dict):
        yield n, inside
        k = n.get("k")
        for f, v in n.items():
            if isinstance(v, (dict, list)):
                yield from in_loops(v, inside or k in ("for", "forr", "while", "do") and f == "b")


def own_breaks(n, loop=None):
    """breaks and returns that end a loop that collects parts"""
    if isinstance(n, list):
        for x in n:
            yield from own_breaks(x, loop)
    elif isinstance(n, dict):
        k = n.get("k")
        if k in ("ret", "break") and loop is not None and any(
                x.get("k") == "call" and components_of(x) and (x.get("f") or "").rsplit("::", 1)[-1] in ADDS for x in walk(loop)):
            yield n
        if k in ("for", "forr", "while", "do"):
            loop = n
        if k in ("switch", "lambda"):
            loop = None
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from own_breaks(v, loop)


def components_of(x):
    o = x.get("o") if x.get("k") == "call" else x.get("a") if x.get("k") == "bin" else None
    while isinstance(o, dict) and o.get("k") in ("icast", "full", "temp", "cast"):
        o = o.get("e")
    return isinstance(o, dict) and o.get("k") == "mem" and o.get("n") == "components"


def building(db, rep):
    """putting expressions together loses none of them"""
    for name in ("parse", "merge"):
        for fn in fns(db, "arki::matcher::OR::" + name):
            if not fn.get("body"):
                continue
            rep.funcs.add(fn["q"])
            adds = [x for x, lp in in_loops(fn["body"]) if x.get("k") == "call" and components_of(x) and (x.get("f") or "").rsplit("::", 1)[-1] in ADDS]
            if not adds:
                rep.count("expressions built in another way")
                continue
            rep.count("expressions built")
            for x, lp in in_loops(fn["body"]):
                nm = (x.get("f") or "").rsplit("::", 1)[-1] if x.get("k") == "call" else "operator=" if x.get("k") == "bin" and x.get("op") == "=" else ""
                if lp and nm in LOSES and components_of(x):
                    rep.bad("build", fn["q"], where(fn, x.get("l")), "the alternatives collected so far are replaced while others are added")
            for x in own_breaks(fn["body"]):
                rep.bad("build", fn["q"], where(fn, x.get("l")), "the remaining alternatives are left out")
                break
    # an update keeps the conditions on the types that the other does not have
    for fn in fns(db, "arki::matcher::AND::update"):
        if fn.get("body"):
            rep.funcs.add(fn["q"])
            rep.count("expressions built")
            for x, lp in in_loops(fn["body"]):
                nm = (x.get("f") or "").rsplit("::", 1)[-1] if x.get("k") == "call" else ""
                if nm in LOSES and nm != "operator=" and components_of(x):
                    rep.bad("build", fn["q"], where(fn, x.get("l")), "an update drops the conditions on what the other expression does not mention")
    # what a merge matches is what either matched
    for fn in fns(db, "arki::matcher::AND::merge"):
        if fn.get("body"):
            rep.funcs.add(fn["q"])
            merged = any(x.get("k") == "call" and (x.get("f") or "").endswith("OR::merge") for x in fbody(fn))
            erased = any(x.get("k") == "call" and (x.get("f") or "").rsplit("::", 1)[-1] == "erase" for x in fbody(fn))
            rep.count("expressions built")
            if not merged:
                rep.bad("build", fn["q"], where(fn), "the conditions on a type that both expressions have are not merged")
            if not erased and not any(x.get("k") == "call" and (x.get("f") or "").rsplit("::", 1)[-1] in ("operator=", "swap") for x in fbody(fn)):
                rep.bad("build", fn["q"], where(fn), "keeps a condition that only one of the expressions has")


JOINS = (("arki::matcher::MatchReftime", "sql", "and"), ("arki::matcher::OR", "toReftimeSQL", "or"),
         ("arki::matcher::OR", "toStringValueOnlyExpanded", "or"), ("arki::matcher::OR", "toStringValueOnly", "or"),
         ("arki::matcher::AND", "toStringExpanded", ";"), ("arki::matcher::AND", "toString", ";"))


def joins(db, rep):
    """the parts are written with the word that is read back as what they are"""
    for cls, name, word in JOINS:
        fn = method(db, cls, name)
        if fn is None:
            continue
        todo, seen = [(fn, 0)], set()
        while todo:
            g, depth = todo.pop()
            if g["id"] in seen or not g.get("body"):
                continue
            seen.add(g["id"])
            for x in fbody(g):
                if x.get("k") == "str":
                    w = str(x.get("v", "")).strip().strip("()").strip().lower()
                    if w in ("and", "or", ";"):
                        rep.count("connectives")
                        if w != word:
                            rep.bad("join", fn["q"], where(g, x.get("l")), "parts are joined with '%s' instead of '%s'" % (w, word))
                if depth < 1 and x.get("k") == "call":
                    h = db.functions.get(x.get("id"))
                    if h and h.get("body") and not h.get("cls") and h["rel"] == g["rel"]:
                        todo.append((h, depth + 1))


def json_text(n):
    return repr(n)


def discarded(n, out=None):
    """calls whose value is not used"""
    out = out if out is not None else []

    def top(s):
        while isinstance(s, dict) and s.get("k") in ("full", "temp", "cast", "icast", "paren"):
            s = s["e"]
        if isinstance(s, dict) and s.get("k") == "call":
            out.append(s)

    def go(s):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "{}":
            for x in s.get("b") or ():
                top(x)
                go(x)
            return
        for f in ("a", "b", "body"):
            v = s.get(f)
            if k in ("if", "for", "while", "do", "forr", "try", "switch", "label") and isinstance(v, dict):
                top(v)
                go(v)
        if k == "try":
            for h in s.get("h") or ():
                go(h.get("b"))
        if k == "switch":
            for g in s.get("g") or ():
                for x in g.get("b") or ():
                    top(x)
                    go(x)
    go(n)
    return out


def check(db, rep):
    rep.rule("a matcher takes the same decision on a decoded item and on its encoded buffer: the same tests of the same values")
    rep.rule("each argument of a pattern is tested against the value of the item at its position, and nothing is rejected that the pattern does not mention")
    rep.rule("the text of a matcher prints each argument at the position it is parsed from, and the copy of a matcher has all its members")
    rep.rule("conditions on reference times use the same comparisons in memory, in SQL and in text")
    rep.rule("an AND matches when all its parts do, an OR when any does; an absent item is no match; what has no conditions matches everything")
    rep.rule("putting expressions together loses no alternative and no condition, and joins them with the word that is read back as what they are")
    for cls in sorted(subclasses(db, IMPL)):
        rec = db.records.get(cls)
        if not rec or cls in ("arki::matcher::AND", "arki::matcher::OR"):
            continue
        m = Matcher(db, rep, cls)
        m.arguments()
        m.matching()
        m.printing()
        m.cloning()
    reftimes(db, rep)
    quantifiers(db, rep)
    wrappers(db, rep)
    parsing(db, rep)
    building(db, rep)
    joins(db, rep)
    rep.need("buffer matchers", 10)
    rep.need("pattern arguments", 25)
    rep.need("conditions tested", 20)
    rep.need("texts", 10)
    rep.need("clones", 8)
    rep.need("reference time tests", 3)
    rep.need("interval tests", 3)
    rep.need("compositions", 8)
