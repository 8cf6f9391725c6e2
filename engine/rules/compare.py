"""Comparisons of metadata items tell apart what can differ: when two items are
found equal every field of one has been compared with the same field of the
other, and no difference is lost in a narrower type."""
import re
from rulebase import *
from db import is_test, superclasses, subclasses
from terms import *
from terms import C as K
from failures import norm

TYPE = "arki::types::Type"
NAMES = ("compare", "compare_local", "equals")
WIDE = ("long", "unsigned long", "size_t", "off_t", "int64_t", "uint64_t", "std::size_t", "unsigned long long", "long long",
        "double", "float", "off64_t", "__off_t", "std::streamoff", "ptrdiff_t")
# not part of what an item is: when a dataset was assigned
IGNORED = {"arki::types::AssignedDataset": ("core::Time",)}


def strip(t):
    return (t or "").replace("const ", "").replace("&", "").strip()


def side(t):
    """left: this, right: the other item"""
    if t is None:
        return None
    if t[0] == "addr":
        return side(t[2])
    if t == S("this"):
        return "L"
    if t[0] == "s" and t[1].startswith("other"):
        return "R"
    if t[0] in ("deref", "get"):
        return side(t[1])
    return None


def atoms(t, out=None):
    """the fields of the two items that a term is made from"""
    out = out if out is not None else set()
    if not isinstance(t, tuple) or not t:
        return out
    if t[0] == "dec":
        out.add(t[1:])
        return out
    if t[0] == "fld" and side(t[1]):
        out.add((side(t[1]), "field", t[2], ""))
        return out
    if t[0] == "addr":
        return atoms(t[2], out)
    for x in t:
        atoms(x, out)
    return out


class Comparison:
    def __init__(self, db, rep, fn):
        self.db, self.rep, self.fn = db, rep, fn
        self.cls = cls_of(fn)
        self.fetched = {}
        self.notes = []

    def helper(self, g):
        """a part of the comparison, in a function of its own"""
        return bool(g.get("body")) and cls_of(g) not in self.db.records and g.get("rel") == self.fn["rel"]

    def prim(self, ev, q, f, name, obj, oloc, vals, n):
        if name in NAMES + ("operator==", "operator<", "operator>", "operator!=") and len(vals) >= 1:
            a, b = (obj, vals[0]) if obj is not None else (vals[0], vals[-1])
            if n.get("op") in ("==", "!=", "<", ">", "<=", ">=") or name.startswith("operator"):
                return [(compare(name[8:], val(a), val(b)), q)]
            if side(a) and side(b):
                # the comparison of a base class
                return [(("base", f, bool(n.get("virt"))), q)]
            return [(("difference", val(a), val(b)), q)]
        if name.startswith("compare") and len(vals) >= 2 and obj is None and not (
                len(vals) > 2 and self.helper(self.db.functions.get(n.get("id")) or {}) and
                {a[0] for a in atoms(val(vals[0]))} == {a[0] for a in atoms(val(vals[1]))}):
            return [(("difference", val(vals[0]), val(vals[1])), q)]
        if name == "memcmp" and len(vals) == 3:
            return [(("difference", val(vals[0]), val(vals[1])), q)]
        s = side(obj) if obj is not None else None
        if s and (name.startswith("get") or name in ("style", "type_code") or not vals):
            outs = []
            for i, a in enumerate(n.get("a") or []):
                l = ev.loc(a, q)
                if l:
                    at = ("dec", s, name, i, strip(a.get("t")))
                    outs.append(at)
                    q = ev.write(q, l, at)
            if outs:
                for at in outs:
                    self.fetched[at[1:]] = n["l"]
                return [(S("void"), q)]
            at = ("dec", s, name, -1, strip(n.get("t")))
            if name.startswith("get"):
                self.fetched[at[1:]] = n["l"]
            return [(at, q)]
        if name in ("c_str", "native", "str", "data", "size") and obj is not None and not vals:
            return [(obj, q)]
        return None

    def run(self):
        fn = self.fn
        prm = fn["params"]
        ev = Eval(self.db, self.prim, want=self.helper)
        paths = ev.run(fn, [S("other%d" % i) for i in range(len(prm))])
        zero = []
        todo, paths = list(paths), []
        while todo:
            p = todo.pop()
            if p.ret is not None and p.ret[0] == "cond":
                for truth in (True, False):
                    q = ev.assume(p, p.ret[1], truth)
                    if q is not None:
                        q = q.copy()
                        q.ret = p.ret[2 if truth else 3]
                        todo.append(q)
            else:
                paths.append(p)
        for p in paths:
            if p.ret is None:
                continue
            c = const(p.ret)
            eq = self.fn["rt"] == "bool"
            if c is not None:
                if bool(c) == eq:
                    zero.append((p, None))
                elif not eq:
                    self.sign(p, c)
            else:
                t = ev.truth(p.ret)
                inner, tr = (t[1], False) if t[0] == "not" else (t, True)
                if (inner, not tr) in p.conds and not eq or (inner, tr) in p.conds and not eq:
                    if (inner, tr) in p.conds:
                        continue
                zero.append((p, p.ret))
        return zero

    def sign(self, p, c):
        """the sign of the result follows the comparison that was made"""
        if not p.conds:
            return
        t, truth = p.conds[-1]
        if t[0] != "cmp" or t[1] != "<=":
            return
        cc, m = lin(t[2])
        l = [k for x, k in m.items() if all(a[0] == "L" for a in atoms(x)) and atoms(x)]
        r = [k for x, k in m.items() if all(a[0] == "R" for a in atoms(x)) and atoms(x)]
        if len(m) != 2 or len(l) != 1 or len(r) != 1 or l[0] == r[0]:
            return
        # l*L - l*R <= k
        k = t[3] - cc
        less = None
        if truth and k <= 0:
            less = l[0] > 0
        elif not truth and k >= 0:
            less = l[0] < 0
        if less is None:
            return
        self.rep.count("signs")
        if less != (c < 0):
            self.rep.bad("sign", norm(self.fn["q"]), where(self.fn), "the smaller item is given as the greater one (%d)" % c, [], "sign")

    def compared(self, p, ret):
        """groups of fields that are known to be equal"""
        out, bounds = [], {}
        for t, truth in p.conds:
            a = atoms(t)
            if t[0] == "cmp" and t[1] == "<=":
                lo, hi = bounds.setdefault(t[2], [None, None])
                if truth:
                    bounds[t[2]][1] = t[3] if hi is None else min(hi, t[3])
                else:
                    bounds[t[2]][0] = t[3] + 1 if lo is None else max(lo, t[3] + 1)
                continue
            if t[0] == "and" and all(len(sides(atoms(x))) < 2 for x in t[1:]):
                continue
            out.append((a, t, truth))
        for t, (lo, hi) in bounds.items():
            if lo is not None and lo == hi or sides(atoms(t)) != {"L", "R"}:
                out.append((atoms(t), t, True))
        if ret is not None:
            out.append((atoms(ret), ret, True))
        return out


def sides(a):
    return {x[0] for x in a}


def val(t):
    return t[2] if t[0] == "addr" else t


def atoms_only_style(t):
    a = atoms(t)
    return bool(a) and all(x[1] in ("style", "type_code") for x in a)


def check_fn(db, rep, fn):
    c = Comparison(db, rep, fn)
    try:
        zero = c.run()
    except Unsupported:
        rep.count("comparisons not understood")
        return
    fields = {}
    for at, line in c.fetched.items():
        fields.setdefault(at[1:], {})[at[0]] = line
    rep.count("comparisons")
    ignore = IGNORED.get(c.cls, ())
    need = {f for f, s in fields.items() if "L" in s and "R" in s and not f[2].startswith("bool") and
            not any(f[2].endswith(i) for i in ignore)}
    rep.count("fields", len(need))
    styled = method_name(fn) == "compare" and any(m["n"] == "style" for m in db.records.get(c.cls, {"methods": []})["methods"])
    for p, ret in zero:
        bases = [x for x in flatten(ret) if x[0] == "base"]
        groups = c.compared(p, ret)
        done, known = set(), {}
        for s, t, truth in groups:
            l = {a[1:] for a in s if a[0] == "L"}
            r = {a[1:] for a in s if a[0] == "R"}
            if l and r:
                done |= l & r
            if len(l) == 1 and len(r) == 1 and l != r and next(iter(l))[0] == next(iter(r))[0]:
                rep.bad("pair", norm(fn["q"]), where(fn), "two different fields are compared: %s and %s of %s" % (
                    next(iter(l))[1], next(iter(r))[1], next(iter(l))[0]), [], "pair")
            if t[0] == "difference" and bool(l) != bool(r):
                rep.bad("pair", norm(fn["q"]), where(fn), "a field is compared with itself", [], "itself")
            if t[0] == "cmp" and t[1] == "==" and truth and bool(l) != bool(r) and len(l | r) == 1:
                known.setdefault(next(iter(l | r)), set()).add("L" if l else "R")
        if styled and not any(b[2] for b in bases) and not any(f[0] == "style" for f in done):
            rep.bad("style", norm(fn["q"]), where(fn), "items of different styles are compared as if they were of the same one", [], "style")
        if bases:
            continue
        here = {a[1:] for v in list(p.env.values()) + [ret] for a in atoms(v)} | {a[1:] for t, _ in p.conds for a in atoms(t)}
        values = {f for f in done if f[0] not in ("style", "type_code")}
        if not values and not known and any(m["n"].startswith("get") for m in db.records.get(c.cls, {"methods": []})["methods"]) and \
                not any(x[0] in ("call", "difference", "base") and not atoms_only_style(x) for x in flatten(ret) + [
                    y for t, _ in p.conds for y in flatten(t)]):
            rep.bad("nothing", norm(fn["q"]), where(fn), "items are equal without having compared their values", [], "nothing")
        # a unit that says that there is no value: one of the two is, and they are the same
        for t, truth in p.conds:
            if t[0] == "and" and not truth and all(x[0] == "not" and x[1][0] == "cmp" and x[1][1] == "==" for x in t[1:]):
                fs = {a[1:] for x in t[1:] for a in atoms(x)}
                if len(fs) == 1 and len({x[1][3] for x in t[1:]}) == 1 and next(iter(fs)) in done:
                    known.setdefault(next(iter(fs)), set()).update("LR")
        # a unit that says that there is no value
        excused = set(known) | {(f[0], f[1] + 1) for f in known}
        missing = {f for f in (need & here) - done if f not in excused and f[:2] not in excused}
        if missing:
            f = sorted(missing, key=repr)[0]
            rep.bad("field", norm(fn["q"]), where(fn, fields[f]["L"]), "items are equal without having compared %s (%s)" % (
                "value %d of %s" % (f[1] + 1, f[0]) if f[1] >= 0 else f[0], f[2]), [], "%s/%d" % (f[0], f[1]))
    # members
    mem_need = members(db, c.cls)
    for p, ret in zero:
        if not mem_need:
            break
        flat = flatten(ret) + [y for t, _ in p.conds for y in flatten(t)]
        seen = {}
        for g, _, _ in c.compared(p, ret):
            for a in g:
                if a[1] == "field":
                    seen.setdefault(a[2], set()).add(a[0])
        for f in mem_need:
            rep.count("members")
            if seen.get(f, set()) != {"L", "R"} and not (base_has(db, c.cls, f) and any(x[0] == "base" for x in flat)):
                rep.bad("field", norm(fn["q"]), where(fn), "items are equal without having compared their %s" % f, [], f)
    # differences that do not fit
    for x in walk(fn["body"]):
        e = None
        if x["k"] == "decl":
            for v in x["v"]:
                if strip(v.get("t")) == "int" and v.get("i"):
                    narrow(rep, fn, v["i"])
        if x["k"] == "ret" and x.get("e") and fn["rt"] == "int":
            narrow(rep, fn, x["e"])


def narrow(rep, fn, e):
    while e.get("k") in ("cast", "icast", "full", "temp"):
        e = e["e"]
    if e.get("k") == "bin" and e["op"] == "-":
        rep.count("differences")
        if strip(e.get("t")) in WIDE:
            rep.bad("narrow", norm(fn["q"]), where(fn, e["l"]), "the difference of two values of type %s is returned as an int" % e["t"],
                    [], "narrow")
    if e.get("k") == "cond":
        narrow(rep, fn, e["a"])
        narrow(rep, fn, e["b"])


def flatten(t):
    out = []
    if isinstance(t, tuple):
        out.append(t if t else ("",))
        for x in t:
            out += flatten(x) if isinstance(x, tuple) else []
    return out


def members(db, cls):
    """what tells the items of a class apart, for classes that keep it in members"""
    if not any(c == "arki::types::Source" for c in superclasses(db, cls)):
        return ()
    rec = db.records[cls]
    return tuple(f["n"] for f in rec["fields"] if f["n"] in ("filename", "offset", "size", "url"))


def base_has(db, cls, f):
    return f == "format"


def check(db, rep):
    rep.rule("items that compare as equal had every decoded field compared with the same field of the other item")
    rep.rule("differences of values are not narrowed to int, and the sign of a comparison follows from it")
    for fn in list(db.functions.values()):
        if not fn.get("body") or is_test(fn["rel"]) or not fn["rel"].startswith("arki/"):
            continue
        if method_name(fn) not in NAMES or len(fn["params"]) != 1:
            continue
        cls = cls_of(fn)
        if TYPE not in superclasses(db, cls) or cls == TYPE:
            if fn["rel"].startswith("arki/types/") or fn["rel"].startswith("arki/metadata/"):
                rep.count("other comparisons")
                for x in walk(fn["body"]):
                    if x["k"] == "decl":
                        for v in x["v"]:
                            if strip(v.get("t")) == "int" and v.get("i"):
                                narrow(rep, fn, v["i"])
                    if x["k"] == "ret" and x.get("e") and fn["rt"] == "int":
                        narrow(rep, fn, x["e"])
            continue
        rep.site("comparisons", "%s (%s)" % (short(norm(fn["q"])), where(fn)))
        check_fn(db, rep, fn)
    rep.need("comparisons", 20)
    rep.need("fields", 25)
