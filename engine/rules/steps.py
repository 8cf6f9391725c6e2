"""Names of segments and the time they cover: for every step, the name made for
a time, the interval read back from the name, and the interval and the names
used to find segments on disk agree with each other."""
import re
from collections import namedtuple
from rulebase import *
from db import is_test, superclasses
from terms import *
from terms import C as K
from failures import norm

STEP = "arki::dataset::Step"
FIELDS = ("ye", "mo", "da")


def time_prims(ev, q, f, name, obj, oloc, vals, n):
    """the arithmetic of times"""
    if name in ("create_lowerbound", "set_lowerbound", "Time") and "Time" in (n.get("cls") or "") and len(vals) >= 3:
        a = [v if i == 0 or const(v) != -1 else K(1) for i, v in enumerate(vals[:3])]
        t = ("T",) + tuple(a) + (not any(grown(x) for x in a[1:]),)
        if name == "set_lowerbound":
            return [(("void",), ev.write(q, oloc, t) if oloc else q)]
        return [(t, q)]
    if name == "set_upperbound":
        return [(("void",), ev.write(q, oloc, ("upper",) + tuple(vals[:3])) if oloc else q)]
    if name == "normalise" and oloc:
        t = flat(ev.read(q, oloc))
        if t[0] == "T":
            t = t[:4] + (True,)
        return [(("void",), ev.write(q, oloc, t))]
    if name == "start_of_next_month" and obj is not None:
        t = flat(obj)
        if t[0] == "T":
            return [(("T", t[1], add(t[2], K(1)), K(1), True), q)]
    if name == "Interval" and n.get("k") == "ctor" and len(vals) == 2:
        return [(("I", flat(vals[0]), flat(vals[1])), q)]
    if f in ("std::min", "std::max") and len(vals) == 2:
        return [((name,) + tuple(sorted((flat(v) for v in vals), key=repr)), q)]
    if name in ("stoul", "stoi", "stol", "strtoul", "atoi") and vals:
        return [(vals[0], q)]
    if name in ("c_str", "native", "string", "str") and obj is not None and not vals:
        return [(obj, q)]
    if name == "operator[]" and obj is not None and vals:
        return [(("group", const(vals[0])), q)]
    return None


def grown(t):
    """a component one or more past what it was"""
    c, m = lin(t)
    return bool(m) and c > 0 and all(v == 1 for v in m.values())


def flat(t):
    """updates of the fields of a time, as a time"""
    if t[0] == "upd":
        b = flat(t[1])
        if b[0] == "T" and t[2] in FIELDS:
            a = list(b[1:4])
            i = FIELDS.index(t[2])
            a[i] = t[3]
            return ("T",) + tuple(a) + (b[4] and a[i] == b[1 + i] or not any(grown(x) for x in a[1:]),)
        return ("upd", b) + t[2:]
    return t


def field(t, f):
    t = flat(t)
    return t


# ------------------------------------------------------------------ formats
CONV = re.compile(r"%(0?)(\d*)(l?[dui])")


def tokens(fmt):
    """a format as a list of literals and conversions (width)"""
    out, pos = [], 0
    for m in CONV.finditer(fmt):
        if m.start() > pos:
            out.append(fmt[pos:m.start()])
        out.append(int(m.group(2) or 0))
        pos = m.end()
    if pos < len(fmt):
        out.append(fmt[pos:])
    return out


def shape(toks):
    """name tokens with the literals joined"""
    out = []
    for t in toks:
        if isinstance(t, str) and out and isinstance(out[-1], str):
            out[-1] += t
        elif t != "":
            out.append(t)
    return out


class Names:
    """operator(): what a name is made of"""

    def __init__(self, db, rep):
        self.db, self.rep, self.small = db, rep, []

    def prim(self, ev, q, f, name, obj, oloc, vals, n):
        if name in ("snprintf", "__builtin_snprintf", "sprintf"):
            k = 2 if "snprintf" in name else 1
            fmt = vals[k]
            loc = ev.loc(n["a"][0], q)
            if fmt[0] != "str" or not loc:
                return None
            args = list(vals[k + 1:])
            parts, size = [], 1
            for t in tokens(fmt[1]):
                if isinstance(t, str):
                    parts.append(("str", t))
                    size += len(t)
                else:
                    parts.append(("num", t, args.pop(0) if args else S("missing")))
                    size += max(t, 1)
            room = const(vals[1]) if k == 2 else None
            if room is not None and room < size:
                self.small.append((n["l"], room, size))
            return [(("void",), ev.write(q, loc, ("text",) + tuple(parts)))]
        if name == "operator<<" and (oloc or n.get("a")):
            dest = oloc or ev.loc(n["a"][0], q)
            v = vals[-1]
            if not dest and n["a"][0].get("k") == "call":   # chained
                dest = self.target(ev, n["a"][0], q)
            if dest:
                old = ev.read(q, dest)
                old = old[1:] if old[0] == "text" else ()
                return [(S("stream"), ev.write(q, dest, ("text",) + old + text(v)))]
            return None
        if name in ("operator+", "operator+=", "append") and "string" in (n.get("t") or ""):
            ops = ([obj] if obj is not None else []) + list(vals)
            r = ("text",) + text(ops[0]) + text(ops[-1])
            if name != "operator+" and oloc:
                q = ev.write(q, oloc, r)
            return [(r, q)]
        if name in ("to_string",) and vals:
            return [(("text", ("num", 0, vals[0])), q)]
        if name == "str" and obj is not None:
            return [(obj, q)]
        if n.get("k") == "ctor" and name in ("path", "basic_string", "string"):
            return [(vals[0] if vals else ("text",), q)]
        if n.get("k") == "ctor" and "stream" in name:
            return [(("text",) + (text(vals[0]) if vals and vals[0][0] in ("str", "text") else ()), q)]
        return time_prims(ev, q, f, name, obj, oloc, vals, n)

    def target(self, ev, n, q):
        while n.get("k") in ("call", "cast", "icast"):
            if n.get("o") is not None:
                n = n["o"]
            elif n.get("a"):
                n = n["a"][0]
            elif n.get("e"):
                n = n["e"]
            else:
                return None
        return ev.loc(n, q)


def text(v):
    if v[0] == "text":
        return v[1:]
    if v[0] == "str":
        return (v,)
    return (("num", 0, v),)


def find(db, cls, name):
    """the method that an object of the class has"""
    todo = [cls]
    while todo:
        c = todo.pop(0)
        rec = db.records.get(c)
        if not rec:
            continue
        for m in rec["methods"]:
            if m["n"] == name and not m.get("implicit"):
                fn = db.functions.get(m["id"])
                if fn and fn.get("body"):
                    return fn
        todo += [b if isinstance(b, str) else b.get("n") or b.get("t") for b in rec["bases"]]
    return None


class Check:
    def __init__(self, db, rep):
        self.db, self.rep = db, rep

    def made(self):
        """classes of the objects that Step::create can give"""
        out = []
        for fn in fns(self.db, STEP + "::create"):
            for x in walk(fn["body"]):
                if x["k"] in ("new", "ctor"):
                    c = (x.get("cls") or x.get("t") or "").replace(" *", "").replace("const ", "")
                    if c in self.db.records and c not in out and STEP in self.bases(c):
                        out.append(c)
        return out

    def bases(self, c, seen=None):
        seen = seen if seen is not None else set()
        rec = self.db.records.get(c)
        for b in (rec or {"bases": []})["bases"]:
            b = b if isinstance(b, str) else b.get("n") or b.get("t")
            if b not in seen:
                seen.add(b)
                self.bases(b, seen)
        return seen

    # -- the name of a time
    def name(self, cls):
        fn = find(self.db, cls, "operator()")
        if fn is None:
            return None, None
        nm = Names(self.db, self.rep)
        tm = S("time")
        paths = Eval(self.db, nm.prim).run(fn, [tm])
        for l, room, size in nm.small:
            self.rep.bad("truncated", norm(fn["q"]), where(fn, l),
                         "the buffer of a segment name has %d bytes, the name needs %d" % (room, size), [], "buffer")
        rets = {text(p.ret) for p in paths if p.ret}
        return fn, rets

    # -- the interval of a name
    def interval(self, cls, name):
        fn = find(self.db, cls, "path_timespan")
        toks = shape([x[1] for x in name])
        nums = [x for x in name if x[0] == "num"]
        formats = []

        def prim(ev, q, f, nm, obj, oloc, vals, n):
            if nm.endswith("sscanf") and len(vals) >= 2 and vals[1][0] == "str":
                got = tokens(vals[1][1])
                formats.append((n["l"], got, vals))
                for i, v in enumerate(vals[2:]):
                    if v[0] == "addr":
                        q = ev.write(q, v[1], ("conv", i))
                return [(S("scanned"), q)]
            return time_prims(ev, q, f, nm, obj, oloc, vals, n)
        ivl = S("interval")
        paths = Eval(self.db, prim).run(fn, [S("path"), ivl])
        for l, got, vals in formats:
            w = where(fn, l)
            self.rep.count("names read back")
            if not same_shape(got, toks):
                self.rep.bad("format", norm(fn["q"]), w, "segment names are read with a format which is not the one they are "
                             "written with: %s / %s" % (show(got), show(toks)), [], "format")
            k = len([x for x in got if isinstance(x, int)])
            if len(vals) - 2 != k:
                self.rep.bad("format", norm(fn["q"]), w, "%d values are read into %d variables" % (k, len(vals) - 2), [], "args")
            for p in paths:
                if p.ret is not None and p.ret != K(0):
                    ok = [c for c, t in p.conds if scanned(c, t, k)]
                    if not ok:
                        self.rep.bad("unchecked", norm(fn["q"]), where(fn), "a name is accepted without having read all of its "
                                     "%d numbers" % k, [], "count")
        out = []
        for p in paths:
            if p.ret is None or p.ret == K(0):
                continue
            v = p.env[("v", fn["id"], 1, fn["params"][1]["id"])]
            i = ("I", flat(Eval.field(v, "begin")), flat(Eval.field(v, "end")))
            out.append((p.conds, i))
        return fn, out, nums

    # -- the files on disk
    def files(self, cls):
        """the classes of directories and files explored for a step"""
        fn = find(self.db, cls, "explore")
        if fn is None:
            return None
        dirs = None
        for x in walk(fn["body"]):
            if x["k"] in ("new", "ctor"):
                c = (x.get("cls") or x.get("t") or "").replace(" *", "")
                if any(b.endswith("step::Dirs") for b in self.bases(c)):
                    dirs = c
        return fn, dirs


def scanned(c, t, k):
    return t and c == compare("==", S("scanned"), K(k)) or not t and c[0] == "cmp" and c[1] == "<=" and c[2] == S("scanned") and \
        c[3] == k - 1


def same_shape(a, b):
    a, b = shape(a), shape(b)
    return len(a) == len(b) and all(x == y if isinstance(x, str) or isinstance(y, str) else
                                    x == y or not x or not y or True for x, y in zip(a, b)) and \
        all(isinstance(x, str) == isinstance(y, str) for x, y in zip(a, b)) and widths(a, b)


def widths(a, b):
    """a width that limits what is read has to be the written one"""
    return all(isinstance(x, str) or not x or not y or x == y for x, y in zip(a, b))


def show(toks):
    return "".join(t if isinstance(t, str) else "%%%sd" % ("0%d" % t if t else "") for t in toks)



YE, MO, DA = (("fld", S("time"), f) for f in FIELDS)
RANGES = {MO: (1, 12), DA: (1, 31), YE: (1000, 9999)}


def span(t):
    """the values a term over a time can have, or None"""
    if t in RANGES:
        return RANGES[t]
    if t[0] == "c" and isinstance(t[1], int):
        return (t[1], t[1])
    if t[0] == "lin":
        lo = hi = t[1]
        for x, k in t[2]:
            r = span(x)
            if r is None:
                return None
            lo, hi = lo + min(k * r[0], k * r[1]), hi + max(k * r[0], k * r[1])
        return (lo, hi)
    if t[0] == "div" and t[2] > 0:
        r = span(t[1])
        return r and (int(r[0] / t[2]), int(r[1] / t[2]))
    if t[0] == "cond":
        a, b = span(t[2]), span(t[3])
        return a and b and (min(a[0], b[0]), max(a[1], b[1]))
    return None


def possible(c, truth):
    """can the condition have that value for some time; None if not known"""
    if c[0] == "not":
        return possible(c[1], not truth)
    if c[0] != "cmp":
        return None
    r = span(c[2])
    if r is None:
        return None
    if c[1] == "<=":
        return r[0] <= c[3] if truth else r[1] > c[3]
    if c[1] == "==":
        return r[0] <= c[3] <= r[1] if truth else r != (c[3], c[3])
    return None


def expected(begin, conds):
    """what an interval that begins there has to end with, for the times that
    satisfy the conditions; a string says what is wrong, None: not understood"""
    if begin[0] != "T":
        return None
    _, y, m, d, _ = begin
    if y != YE:
        c, mm = lin(y)
        if len(mm) == 1:
            (t, k), = mm.items()
            if t[0] == "div" and rounded(t, k, c, YE) is not None:
                if not rounded(t, k, c, YE):
                    return "it begins in year %s" % words(y)
                if m == K(1) and d == K(1):
                    return ("T", add(y, K(k)), K(1), K(1), True)
        if YE in mm or not mm:
            return "it begins in year %s" % words(y)
        return None
    if m == K(1) and d == K(1):
        return ("T", add(YE, K(1)), K(1), K(1), True)
    if m != MO:
        if MO in lin(m)[1] or const(m) is not None or m in (DA, YE):
            return "it begins in month %s" % words(m)
        return None
    nextm = ("T", YE, add(MO, K(1)), K(1), True)
    if d == DA:
        return ("T", YE, MO, add(DA, K(1)), True)
    if const(d) is not None:
        low = [c[3] + 1 for c, t in conds if c[0] == "cmp" and c[1:3] == ("<=", DA) and not t]
        high = [c[3] + 1 for c, t in conds if c[0] == "cmp" and c[1:3] == ("<=", DA) and t]
        if d[1] != max(low + [1]):
            return "it begins on day %d, for times from day %d on" % (d[1], max(low + [1]))
        return ("T", YE, MO, K(min(high)), True) if high else nextm
    c, mm = lin(d)
    if len(mm) == 1:
        (t, k), = mm.items()
        if t[0] == "div" and rounded(t, k, c, DA) is not None:
            if not rounded(t, k, c, DA):
                return "it begins on day %s" % words(d)
            return tuple(["min"] + sorted((("T", YE, MO, add(d, K(k)), True), nextm), key=repr))
        if t == DA:
            return "it begins on day %s" % words(d)
    return None


def rounded(t, k, c, x):
    """k * ((x + a) / n) + c is x rounded down to a multiple of k, plus an
    offset; None if it is not made from x"""
    a, m = lin(t[1])
    if m != {x: 1}:
        return None
    return t[2] == k and c == -a and RANGES[x][0] + a >= 0


def words(t):
    if t[0] == "c":
        return str(t[1])
    if t[0] == "s":
        return t[1]
    if t[0] == "fld":
        return t[2]
    if t[0] == "lin":
        return "+".join((["%d" % t[1]] if t[1] else []) + ["%s%s" % ("" if k == 1 else "%d*" % k, words(x)) for x, k in t[2]])
    if t[0] == "div":
        return "(%s)/%d" % (words(t[1]), t[2])
    if t[0] == "T":
        return "%s-%s-%s%s" % (words(t[1]), words(t[2]), words(t[3]), "" if t[4] else " (not normalised)")
    if t[0] in ("min", "max"):
        return "%s(%s, %s)" % (t[0], words(t[1]), words(t[2]))
    return str(t)[:80]


def known(t):
    """is it a time made of understood parts"""
    if t[0] == "T":
        return all(span(x) is not None for x in t[1:4])
    return t[0] in ("min", "max") and known(t[1]) and known(t[2])


def settle(paths, sub):
    """the intervals of several paths in terms of the time of the name"""
    out = []
    for conds, i in paths:
        cs, dead = [], False
        for c, t in conds:
            c = subst(c, sub)
            if c[0] == "not":
                c, t = c[1], not t
            if const(c) is not None:
                dead = dead or bool(c[1]) != t
            elif not (c[0] == "cmp" and c[2] == S("scanned")):
                if possible(c, t) is False:
                    dead = True
                elif possible(c, not t) is not False:
                    cs.append((c, t))
        if dead:
            continue
        i = subst(subst(i, sub), {c: K(int(t)) for c, t in cs})
        split = choices(i)
        for extra in split:
            m = {c: K(int(t)) for c, t in cs}
            m.update({c: K(int(t)) for c, t in extra})
            out.append((sorted(set(cs) | set(extra), key=repr), norm_i(subst(i, m))))
    return out


def choices(t):
    """ways of deciding the conditions inside of a term"""
    found = []

    def visit(x):
        if isinstance(x, tuple):
            if x and x[0] == "cond" and x[1] not in found and not has_cond(x[1]):
                found.append(x[1])
            for y in x:
                visit(y)

    def has_cond(x):
        return isinstance(x, tuple) and (x and x[0] == "cond" or any(has_cond(y) for y in x))
    visit(t)
    out = [()]
    for c in found[:4]:
        out = [o + ((c, tr),) for o in out for tr in (True, False)]
    return out


def norm_i(t):
    if t[0] in ("min", "max"):
        a, b = norm_i(t[1]), norm_i(t[2])
        return a if a == b else tuple([t[0]] + sorted((a, b), key=repr))
    if t[0] == "I":
        return ("I", norm_i(t[1]), norm_i(t[2]))
    return t


def groups(regex):
    """the groups of an extended regular expression, in order: (start, end)"""
    out, stack, i = [], [], 0
    while i < len(regex):
        c = regex[i]
        if c == "\\":
            i += 2
            continue
        if c == "[":
            j = i + 1
            if j < len(regex) and regex[j] == "^":
                j += 1
            while j < len(regex) and regex[j] != "]":
                if regex[j:j + 2] == "[:":
                    j = regex.index(":]", j) + 1
                j += 1
            i = j + 1
            continue
        if c == "(":
            out.append([i + 1, None])
            stack.append(len(out) - 1)
        if c == ")" and stack:
            out[stack.pop()][1] = i
        i += 1
    return out


def number(s):
    """a part of a regular expression that matches a number: (width, values)"""
    m = re.fullmatch(r"(?:\[\[:digit:\]\]|\[0-9\]|\\d)\{(\d+)\}", s)
    if m:
        return int(m.group(1)), None
    m = re.fullmatch(r"\[([0-9])-([0-9])\]", s)
    if m:
        return 0, set(range(int(m.group(1)), int(m.group(2)) + 1))
    m = re.fullmatch(r"\[([0-9]+)\]", s)
    if m:
        return 0, {int(x) for x in m.group(1)}
    m = re.fullmatch(r"(?:\[\[:digit:\]\]|\[0-9\])\+?", s)
    if m:
        return 0, None
    return None


class Steps:
    def __init__(self, db, rep):
        self.db, self.rep = db, rep
        self.ck = Check(db, rep)

    def bad(self, rule, fn, line, msg, detail):
        self.rep.bad(rule, norm(fn["q"]), where(fn, line) if line else where(fn), msg, [], detail)

    def covers(self, fn, paths, what):
        """each interval is exactly the one of the times with that name"""
        for conds, i in paths:
            b, e = i[1], i[2]
            x = expected(b, conds)
            self.rep.count("intervals")
            if isinstance(x, str):
                self.bad("interval", fn, None, "the interval of %s does not start with its times: %s" % (what, x), "begin")
            elif x is None:
                self.rep.count("intervals not understood")
            elif e != x and known(e):
                self.bad("interval", fn, None, "the interval of %s that starts at %s ends at %s instead of %s" % (
                    what, words(b), words(e), words(x)), "end")
            elif e != x:
                self.rep.count("intervals not understood")

    def step(self, cls):
        ck, rep = self.ck, self.rep
        fn, rets = ck.name(cls)
        if fn is None:
            return
        rep.site("steps", "%s (%s)" % (short(cls), where(fn)))
        if len(rets) != 1:
            rep.count("names not understood")
            return
        name = merge_text(rets.pop())
        rep.count("names written")
        nums = [x for x in name if x[0] == "num"]
        if not nums:
            return
        pfn, paths, _ = ck.interval(cls, name)
        sub = {("conv", i): x[2] for i, x in enumerate(nums)}
        settled = settle(paths, sub)
        self.covers(pfn, settled, "a segment")
        self.refused(cls, pfn, sub)
        self.disk(cls, name, settled)

    def refused(self, cls, fn, sub):
        """no name that is written is refused when it is read"""
        for p in Eval(self.db, self.scan_prim).run(fn, [S("path"), S("interval")]):
            if p.ret != K(0):
                continue
            cs = [(subst(c, sub), t) for c, t in p.conds if not (c[0] == "cmp" and c[2] == S("scanned"))]
            if len(cs) < len(p.conds) and not cs:
                continue
            if any(c == ("cmp", "==", S("scanned"), 99) for c, t in p.conds):
                continue
            read = [t for c, t in p.conds if c[0] == "cmp" and c[2] == S("scanned")]
            if cs and all((const(c) is not None and bool(c[1]) == t) or possible(c, t) for c, t in cs):
                self.bad("refused", fn, None, "names of segments are refused when %s" % " and ".join(
                    "%s%s %s %s" % ("" if t else "not ", words(c[2]), c[1], c[3]) for c, t in cs if c[0] == "cmp"), "refused")

    @staticmethod
    def scan_prim(ev, q, f, nm, obj, oloc, vals, n):
        if nm.endswith("sscanf") and len(vals) >= 2:
            for i, v in enumerate(vals[2:]):
                if v[0] == "addr":
                    q = ev.write(q, v[1], ("conv", i))
            return [(S("scanned"), q)]
        return time_prims(ev, q, f, nm, obj, oloc, vals, n)

    # -- directories and files
    def disk(self, cls, name, settled):
        ck, rep = self.ck, self.rep
        r = ck.files(cls)
        if r is None or r[1] is None:
            return
        efn, dirs = r
        m = re.search(r"<\s*(.*?)\s*>", dirs)
        parse = find(self.db, dirs, "parse")
        period = find(self.db, dirs, "to_period")
        make = find(self.db, dirs, "make_files")
        if not (m and parse and period and make):
            return
        files = m.group(1)
        i = next((i for i, x in enumerate(name) if x[0] == "str" and "/" in x[1]), None)
        if i is None or i != 1 or name[i][1] != "/":
            self.bad("disk", efn, None, "names of segments are not made of a directory and a file", "layout")
            return
        dirnum, rest = name[0], list(name[2:])
        rep.count("directory layouts")
        # directory names
        for x in walk(parse["body"]):
            if x["k"] == "bin" and x["op"] in ("!=", "==") and x.get("b", {}).get("cv") is not None and \
                    x["a"].get("k") == "bin" and x["a"]["op"] == "-":
                if x["b"]["cv"] != dirnum[1]:
                    self.bad("disk", parse, x["l"], "directories of %d digits are visited, segments are in directories of %d digits"
                             % (x["b"]["cv"], dirnum[1]), "digits")
        self.period(period, [dirnum[2]], {}, "a directory", None)
        # files
        self.regexp(cls, files, rest, dirnum, settled)

    def period(self, fn, args, sub, what, same):
        paths = Eval(self.db, self.virtual(fn)).run(fn, args)
        got = []
        for p in paths:
            if p.ret and p.ret[0] == "I":
                got.append((p.conds, p.ret))
            elif p.ret is not None:
                self.rep.count("intervals not understood")
        got = settle(got, sub)
        if same is None:
            self.covers(fn, got, what)
        else:
            self.covers(fn, got, what)
            a = {(tuple(c), i) for c, i in got}
            b = {(tuple(c), i) for c, i in same}
            self.rep.count("intervals of files compared")
            if a != b and all(known(i[1]) and known(i[2]) for _, i in a | b):
                self.bad("disk", fn, None, "the interval of a file is not the one of the segment in it", "same")

    def virtual(self, fn, cls=None):
        def prim(ev, q, f, name, obj, oloc, vals, n):
            if n.get("virt") and cls and (obj is None or obj == S("this")) and name not in ("c_str", "native"):
                g = find(self.db, cls, name)
                if g is not None:
                    return ev.inline(g, q, S("this"), None, vals, n)
            r = Names.prim(Names(self.db, self.rep), ev, q, f, name, obj, oloc, vals, n)
            return r
        return prim

    def regexp(self, cls, files, rest, dirnum, settled):
        rep = self.rep
        mk = find(self.db, files, "make_regexp")
        per, fmt, rel = (find(self.db, files, x) for x in ("to_period", "to_format", "to_relpath"))
        if not (mk and per and fmt and rel):
            return
        regex, slots = None, None
        seen = []

        def prim(ev, q, f, name, obj, oloc, vals, n):
            if n.get("k") == "ctor" and name in ("ERegexp", "Regexp") and vals:
                seen.append((n["l"], vals))
                return [(("regexp",), q)]
            return self.virtual(mk, files)(ev, q, f, name, obj, oloc, vals, n)
        Eval(self.db, prim).run(mk)
        for l, vals in seen:
            t = merge_text(text(vals[0]))
            if t and t[0][0] == "str":
                regex = t[0][1]
                slots = const(vals[1]) if len(vals) > 1 else None
        if regex is None:
            rep.count("regular expressions not understood")
            return
        rep.count("regular expressions")
        rep.site("file names", "%s: %s (%s)" % (short(files), regex, where(mk)))
        gs = groups(regex)
        numbers, formats, whole = [], [], []
        for gi, (a, b) in enumerate(gs, 1):
            if b is None:
                continue
            inner = regex[a:b]
            nb = number(inner)
            if nb:
                numbers.append((gi, a, b, nb))
            elif inner in ("[^.]+", "[^.]*", "[a-z0-9]+", "[[:alnum:]]+"):
                formats.append(gi)
        if not formats:
            rep.count("regular expressions not understood")
            return
        for gi, (a, b) in enumerate(gs, 1):
            if b is not None and all(a <= x[1] and x[2] <= b for x in numbers) and all(a <= gs[f - 1][0] and gs[f - 1][1] <= b for f in formats) and gi not in formats:
                whole.append(gi)
        # literals and numbers in the order of the name
        want = rest
        nums = [x for x in want if x[0] == "num"]
        if len(nums) != len(numbers):
            self.bad("disk", mk, None, "file names have %d numbers, those looked for have %d" % (len(nums), len(numbers)), "numbers")
            return
        for w, (gi, a, b, (width, values)) in zip(nums, numbers):
            r = span(w[2])
            if width and w[1] and width != w[1] or width and not w[1] and r and len(str(r[1])) > width:
                self.bad("disk", mk, None, "numbers of %d digits are looked for, they are written with %d" % (width, w[1]), "width")
            if values is not None and r and not set(range(r[0], r[1] + 1)) <= values:
                self.bad("disk", mk, None, "only the parts %s are looked for, segments can have %d to %d" % (
                    sorted(values), r[0], r[1]), "values")
        lits = []
        for k in range(len(numbers) - 1):
            lits.append(re.sub(r"[()\\]", "", regex[numbers[k][2] + 1:numbers[k + 1][1] - 1]))
        names = [x[1] for x in want if x[0] == "str"]
        if lits != names:
            self.bad("disk", mk, None, "file names are separated by %r, those looked for by %r" % (names, lits), "literals")
        # uses of the groups
        for fn, ok, what in ((fmt, formats, "format"), (rel, whole, "name")):
            for x in walk(fn["body"]):
                if x["k"] == "call" and x.get("f", "").endswith("::operator[]") and x.get("a") and x["a"][0].get("cv") is not None:
                    rep.count("groups used")
                    if x["a"][0]["cv"] not in ok:
                        self.bad("disk", fn, x["l"], "the %s of a segment is taken from group %d of %s" % (what, x["a"][0]["cv"], regex), what)
        if slots is not None and slots <= max(formats):
            self.bad("disk", mk, None, "%d groups are kept, group %d is used" % (slots, max(formats)), "slots")
        sub = {("group", gi): w[2] for w, (gi, _, _, _) in zip(nums, numbers)}
        sub[("fld", S("this"), "value")] = dirnum[2]
        sub[S("this.value")] = dirnum[2]
        paths = Eval(self.db, self.virtual(per, files)).run(per, [S("re")])
        got = []
        for p in paths:
            if p.ret and p.ret[0] == "I":
                got.append((p.conds, p.ret))
        got = settle(got, sub)
        self.covers(per, got, "a file")
        a = {(tuple(c), i) for c, i in got}
        b = {(tuple(c), i) for c, i in settled}
        rep.count("intervals of files compared")
        if a and b and a != b and all(known(i[1]) and known(i[2]) for _, i in a | b):
            self.bad("disk", per, None, "the interval of a file is not the one of the segment in it", "same")


def merge_text(parts):
    out = []
    for p in parts:
        if p[0] == "str" and out and out[-1][0] == "str":
            out[-1] = ("str", out[-1][1] + p[1])
        elif p != ("str", ""):
            out.append(p)
    return out


def check(db, rep):
    rep.rule("the name of a segment has the time components that its interval is read back from, in the same format")
    rep.rule("the interval of a segment is the one of the times that are written with its name")
    rep.rule("the segments looked for on disk have the names that are written, and the same interval")
    st = Steps(db, rep)
    made = st.ck.made()
    rep.anchor(len(made) >= 3, "Step::create makes the steps")
    for c in made:
        try:
            st.step(c)
        except Unsupported as e:
            rep.count("steps not understood")
    placement(db, rep)
    rep.need("names written", 4)
    rep.need("intervals", 8)
    rep.need("regular expressions", 3)
    rep.need("names read back", 4)


# ------------------------------------------------------------------ placement
Pl = namedtuple("Pl", "time elem", defaults=("", ""))


class Place(Client):
    """data is put in the segment named after its own reference time"""

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root

    def may_throw(self, fl, st, ev):
        return False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.root["rel"] and not fn.get("virt") and \
            any(x["k"] == "call" and (x.get("f") or "") in (STEP + "::operator()", STEP + "::operator") or "get_Position" in (x.get("f") or "")
                for x in walk(fn["body"]))

    def call(self, fl, st, ev):
        name = ev.name or ""
        if name in ("get", "has_source_blob", "get_Position", "reftime") and isinstance(ev.obj, tuple) and ev.obj[0] == "s":
            return [(st, ("s", "%s.%s()" % (ev.obj[1], name)))]
        if name == "operator()" and STEP in [ev.cls] + superclasses(self.db, ev.cls or ""):
            t = fl.vstr(ev.args[0]) if ev.args else ""
            self.rep.count("names made for a time")
            self.rep.site("placements", "%s: %s" % (ev.where(), t[:100]))
            m = re.match(r"(.*?)(\.md)?\.(get|reftime)\(\)", t)
            if re.search(r"period_end|\.end\b|now\(", t):
                self.rep.bad("placed", norm(self.root["q"]), ev.where(), "a segment is named after %s instead of its beginning" % t[:100],
                             st.steps(), "time")
            return [(st.with_auto(Pl(t, m.group(1) if m else "")), ("s", "step(%s)" % t))]
        if name in ("emplace_back", "push_back", "emplace", "insert", "add") and st.auto.elem and ev.args and \
                "operator[](" in fl.vstr(ev.obj):
            a = fl.vstr(ev.args[-1])
            self.rep.count("data placed")
            if not re.sub(r"'\d+", "", a).startswith(re.sub(r"'\d+", "", st.auto.elem)):
                self.rep.bad("placed", norm(self.root["q"]), ev.where(), "%s is put in the segment of %s" % (a[:80], st.auto.elem[:80]),
                             st.steps(), "element")
        return None

    def iter_begin(self, fl, st, what, node):
        return st.with_auto(Pl())


def placement(db, rep):
    rep.rule("data is placed in, and removed from, the segment named after its own reference time")
    n = 0
    for fn in list(db.functions.values()):
        if not fn.get("body") or not fn["rel"].startswith("arki/dataset/") or is_test(fn["rel"]) or fn["rel"].endswith("step.cc"):
            continue
        if not any(x["k"] == "call" and (x.get("f") or "") == STEP + "::operator()" for x in walk(fn["body"])):
            continue
        n += 1
        cl = Place(db, rep, fn)
        fl = Flow(db, cl, interesting=None)
        fl.stack = [fn]
        fl.run(fn, Pl())
        for u in fl.unsupported:
            rep.errors.append(u)
    rep.count("functions that name segments", n)
    rep.need("names made for a time", 2)
    rep.need("data placed", 1)
