"""Forward evaluation of loop-free functions to canonical terms: every path of
the function, the conditions it took, the values it left in its variables and
the value it returned. Values are terms over the inputs; arithmetic is kept in
linear normal form, so that the way an expression is written does not matter."""
from rulebase import *


def C(n):
    return ("c", n)


def S(name):
    return ("s", name)


def lin(t):
    """term -> (constant, {term: coefficient})"""
    if t[0] == "c" and isinstance(t[1], int):
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, m):
    m = {k: v for k, v in m.items() if v}
    if not m:
        return C(c)
    if c == 0 and len(m) == 1 and list(m.values()) == [1]:
        return next(iter(m))
    return ("lin", c, tuple(sorted(m.items(), key=repr)))


def add(a, b, sign=1):
    ca, ma = lin(a)
    cb, mb = lin(b)
    m = dict(ma)
    for k, v in mb.items():
        m[k] = m.get(k, 0) + sign * v
    return mklin(ca + sign * cb, m)


def scale(a, n):
    c, m = lin(a)
    return mklin(c * n, {k: v * n for k, v in m.items()})


def const(t):
    return t[1] if t[0] == "c" and isinstance(t[1], int) else None


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
FLIP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def compare(op, a, b):
    """canonical comparison: variables on the left, constant on the right"""
    d = add(a, b, -1)
    c, m = lin(d)
    if not m:
        r = {"==": c == 0, "!=": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]
        return C(int(r))
    if len(m) == 1:
        (t, k), = m.items()
        if t[0] == "cond":
            l, r = (compare(op, add(scale(x, k), C(c)), C(0)) for x in t[2:4])
            if const(l) is not None and const(r) is not None:
                return l if l == r else t[1] if l[1] else negate(t[1])
    first = sorted(m.items(), key=repr)[0]
    if first[1] < 0:
        c, m, op = -c, {k: -v for k, v in m.items()}, FLIP[op]
    left = mklin(0, m)
    k = -c
    # integers: x < k is x <= k-1
    if op == "<":
        op, k = "<=", k - 1
    if op == ">":
        op, k = ">=", k + 1
    if op == ">=":
        return ("not", ("cmp", "<=", left, k - 1))
    if op == "!=":
        return ("not", ("cmp", "==", left, k))
    return ("cmp", op, left, k)


def negate(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "c":
        return C(int(not t[1]))
    return ("not", t)


def subst(t, m):
    """replace terms, rebuilding the normal forms"""
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or t[0] in ("c", "s"):
        return t
    if t[0] == "lin":
        r = C(t[1])
        for k, v in t[2]:
            r = add(r, scale(subst(k, m), v))
        return r
    if t[0] == "div":
        return div(subst(t[1], m), t[2])
    if t[0] == "cmp":
        return compare(t[1], subst(t[2], m), C(t[3]))
    if t[0] == "not":
        return negate(subst(t[1], m))
    if t[0] == "cond":
        return cond(subst(t[1], m), subst(t[2], m), subst(t[3], m))
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def div(a, n):
    if const(a) is not None and n:
        return C(int(a[1] / n))
    return ("div", a, n)


def cond(c, a, b):
    if const(c) is not None:
        return a if c[1] else b
    if a == b:
        return a
    if c[0] == "not":
        return cond(c[1], b, a)
    # a condition on the choice between constants is a condition on the choice
    if c[0] == "cmp" and c[2][0] == "cond":
        x = c[2]
        l, r = compare(c[1], x[2], C(c[3])), compare(c[1], x[3], C(c[3]))
        if const(l) is not None and const(r) is not None:
            return cond(x[1], a if l[1] else b, a if r[1] else b)
    return ("cond", c, a, b)


class Path:
    __slots__ = ("env", "conds", "ret", "ops")

    def __init__(self, env=None, conds=(), ret=None, ops=()):
        self.env, self.conds, self.ret, self.ops = dict(env or {}), conds, ret, ops

    def copy(self):
        return Path(self.env, self.conds, self.ret, self.ops)


class Unsupported(Exception):
    pass


class Eval:
    """`prim(ev, path, fn, name, obj, args, node)` gives the value of a call or
    None for the default: inline functions of the program that have a body, or
    an opaque term"""

    def __init__(self, db, prim=None, depth=8, want=None, limit=400):
        self.db, self.prim, self.depth, self.want, self.limit = db, prim, depth, want, limit
        self.idx = None

    # -- entry
    def run(self, fn, args=None, this=S("this"), env=None):
        self.stack = [fn]
        p = Path(env)
        p.env["this"] = this
        for i, prm in enumerate(fn.get("params", ())):
            v = args[i] if args and i < len(args) else S(prm.get("n") or "arg%d" % i)
            p.env[self.var(prm["id"])] = v
        return self.body(fn, p)

    def var(self, i):
        return ("v", self.stack[-1]["id"], len(self.stack), i)

    def body(self, fn, p):
        out = []
        for q, how in self.stmts([fn["body"]], p):
            if how in (None, "return"):
                out.append(q)
        return out

    # -- statements: yields (path, how)
    def stmts(self, nodes, p):
        cur = [(p, None)]
        for n in nodes:
            nxt = []
            for q, how in cur:
                if how:
                    nxt.append((q, how))
                else:
                    nxt.extend(self.stmt(n, q))
            cur = nxt
            if len(cur) > self.limit:
                raise Unsupported("too many paths")
        return cur

    def stmt(self, n, p):
        k = n.get("k")
        if k == "{}":
            return self.stmts(n.get("b") or [], p)
        if k == "decl":
            cur = [p]
            for v in n.get("v", ()):
                nxt = []
                for q in cur:
                    if v.get("i"):
                        for val, r in self.ev(v["i"], q):
                            r.env[self.var(v["id"])] = val
                            nxt.append(r)
                    else:
                        q = q.copy()
                        q.env[self.var(v["id"])] = S("%s" % v.get("n"))
                        nxt.append(q)
                cur = nxt
            return [(q, None) for q in cur]
        if k == "ret":
            if n.get("e"):
                out = []
                for val, q in self.ev(n["e"], p):
                    q = q.copy()
                    q.ret = val
                    out.append((q, "return"))
                return out
            q = p.copy()
            q.ret = ("void",)
            return [(q, "return")]
        if k == "if":
            pre = self.stmts([n["init"]], p) if n.get("init") else [(p, None)]
            out = []
            for p0, how in pre:
                decls = n["var"] if isinstance(n.get("var"), dict) else None
                forks = [(p0, None)]
                if decls is not None:
                    forks = self.stmt(decls if decls.get("k") == "decl" else {"k": "decl", "v": [decls]}, p0)
                for p1, how in forks:
                    if how is not None:
                        out.append((p1, how))
                        continue
                    for val, q in self.ev(n["c"], p1):
                        for truth in (True, False):
                            r = self.assume(q, val, truth)
                            if r is None:
                                continue
                            b = n.get("a") if truth else n.get("b")
                            out.extend(self.stmt(b, r) if b else [(r, None)])
            return out
        if k == "throw":
            return [(p, "throw")]
        if k in ("null", None):
            return [(p, None)]
        if k in ("for", "while", "do", "forr", "goto", "label", "try"):
            raise Unsupported("%s at %s" % (k, n.get("l")))
        if k == "switch":
            return self.switch(n, p)
        if k == "break":
            return [(p, "break")]
        if k in ("full", "temp", "cast", "icast") and n.get("e", {}).get("k") == "throw":
            return [(p, "throw")]
        if k == "call" and self.noreturn(n):
            return [(p, "throw")]
        return [(q, None) for _, q in self.ev(n, p)]

    @staticmethod
    def noreturn(n):
        name = (n.get("f") or "").rsplit("::", 1)[-1]
        return n.get("nr") or name.startswith("throw_") or name in ("abort", "exit", "_exit", "terminate")

    def switch(self, n, p):
        out = []
        for val, q in self.ev(n["c"], p):
            rest, enter, default = [q], [[] for _ in n["g"]], None
            for i, g in enumerate(n["g"]):
                for lab in g["lab"]:
                    if lab.get("default"):
                        default = i
                        continue
                    (c, _), = self.ev(lab["e"], q)
                    t = compare("==", val, c)
                    enter[i] += [x for x in (self.assume(r, t, True) for r in rest) if x]
                    rest = [x for x in (self.assume(r, t, False) for r in rest) if x]
            if default is not None:
                enter[default] += rest
            else:
                out += [(r, None) for r in rest]
            cur = []
            for i, g in enumerate(n["g"]):
                cur += enter[i]
                nxt = []
                for r in cur:
                    for s, how in self.stmts(g["b"], r):
                        if how is None:
                            nxt.append(s)
                        else:
                            out.append((s, None if how == "break" else how))
                cur = nxt
            out += [(r, None) for r in cur]
        return out

    def truth(self, v):
        if v[0] in ("cmp", "not") or const(v) is not None:
            return v
        if v[0] == "lin":
            return negate(compare("==", v, C(0)))
        return v

    def assume(self, p, val, truth):
        val = self.truth(val)
        if val[0] == "and":
            if truth:
                for x in val[1:]:
                    p = self.assume(p, x, True)
                    if p is None:
                        return None
                return p
        if val[0] == "not":
            return self.assume(p, val[1], not truth)
        c = const(val)
        if c is not None:
            return p if bool(c) == truth else None
        for t, tr in p.conds:
            if t == val:
                return p if tr == truth else None
        q = p.copy()
        q.conds = q.conds + ((val, truth),)
        return q

    # -- locations
    def loc(self, n, p):
        k = n.get("k")
        if k in ("cast", "icast", "full", "temp", "tobool", "paren"):
            return self.loc(n["e"], p)
        if k == "ref" and "v" in n and n.get("d") in ("var", "parm"):
            return (self.var(n["v"]),)
        if k == "mem":
            b = n.get("b")
            if b is None or b.get("k") == "this":
                return ("this", n["n"])
            base = self.loc(b, p)
            return base + (n["n"],) if base else None
        if k == "un" and n.get("op") == "*":
            return self.loc(n["e"], p)
        return None

    def read(self, p, loc):
        v = p.env.get(loc[0])
        if v is None:
            v = S("this") if loc[0] == "this" else S(str(loc[0]))
        for f in loc[1:]:
            v = self.field(v, f)
        return v

    @staticmethod
    def field(v, f):
        if v[0] == "addr":
            v = v[2]
        while v[0] == "upd":
            if v[2] == f:
                return v[3]
            v = v[1]
        if v[0] == "T" and f in ("ye", "mo", "da"):
            return v[1 + ("ye", "mo", "da").index(f)]
        if v[0] == "I" and f in ("begin", "end"):
            return v[1 if f == "begin" else 2]
        return ("fld", v, f)

    def write(self, p, loc, val):
        q = p.copy()

        def upd(v, path):
            if not path:
                return val
            return self.update(v, path[0], upd(self.field(v, path[0]), path[1:]))
        base = q.env.get(loc[0])
        if base is None:
            base = S(str(loc[0]))
        q.env[loc[0]] = upd(base, loc[1:])
        return q

    @staticmethod
    def update(v, f, x):
        if v[0] == "upd" and v[2] == f:
            return ("upd", v[1], f, x)
        return ("upd", v, f, x)

    # -- expressions: yields (value, path)
    def ev(self, n, p):
        k = n.get("k")
        if n.get("cv") is not None and isinstance(n["cv"], int):
            return [(C(n["cv"]), p)]
        if k in ("cast", "icast", "full", "temp", "tobool", "paren", "defarg"):
            return self.ev(n["e"], p)
        if k == "str":
            return [(("str", n["v"]), p)]
        if k == "bool":
            return [(C(int(n["v"])), p)]
        if k == "this":
            return [(p.env.get("this", S("this")), p)]
        if k in ("ref", "mem"):
            loc = self.loc(n, p)
            if loc:
                return [(self.read(p, loc), p)]
            if k == "mem" and n.get("b"):
                return [(self.field(v, n["n"]), q) for v, q in self.ev(n["b"], p)]
            return [(S(n.get("q") or n.get("n") or "?"), p)]
        if k == "un":
            op = n["op"]
            if op == "&":
                loc = self.loc(n["e"], p)
                return [(("addr", loc, self.read(p, loc)) if loc else ("s", "&?"), p)]
            if op in ("++", "--", "p++", "p--", "++p", "--p"):
                loc = self.loc(n["e"], p)
                if not loc:
                    return [(S("?"), p)]
                v = add(self.read(p, loc), C(1 if "+" in op else -1))
                return [(v, self.write(p, loc, v))]
            out = []
            for v, q in self.ev(n["e"], p):
                if op == "-":
                    out.append((scale(v, -1), q))
                elif op == "+":
                    out.append((v, q))
                elif op == "!":
                    out.append((negate(self.truth(v)), q))
                elif op == "*":
                    out.append((v, q))
                else:
                    out.append((("un", op, v), q))
            return out
        if k == "bin":
            return self.binop(n, p)
        if k == "cond":
            out = []
            for c, q in self.ev(n["c"], p):
                for a, r in self.ev(n["a"], q):
                    for b, s in self.ev(n["b"], r):
                        out.append((cond(self.truth(c), a, b), s))
            return out
        if k == "sub":
            out = []
            for b, q in self.ev(n["b"], p):
                for i, r in self.ev(n["i"], q):
                    out.append((("sub", b, i), r))
            return out
        if k in ("call", "ctor", "new"):
            return self.call(n, p)
        if k == "lambda":
            return [(("lambda", n.get("id")), p)]
        if k == "throw":
            raise Unsupported("throw expression")
        if k == "init":
            return self.many(n.get("a") or [], p, lambda vs, q: [(("init",) + tuple(vs), q)])
        return [(("s", "%s@%s" % (k, n.get("l"))), p)]

    def many(self, nodes, p, f):
        cur = [((), p)]
        for a in nodes:
            cur = [(vs + (v,), r) for vs, q in cur for v, r in self.ev(a, q)]
        return [x for vs, q in cur for x in f(vs, q)]

    def binop(self, n, p):
        op = n["op"]
        if op == "=" or op in ("+=", "-=", "*=", "/="):
            loc = self.loc(n["a"], p)
            out = []
            for v, q in self.ev(n["b"], p):
                if loc and op != "=":
                    v = self.arith(op[0], self.read(q, loc), v)
                out.append((v, self.write(q, loc, v) if loc else q))
            return out
        if op == ",":
            return [(b, r) for a, q in self.ev(n["a"], p) for b, r in self.ev(n["b"], q)]
        out = []
        for a, q in self.ev(n["a"], p):
            for b, r in self.ev(n["b"], q):
                out.append((self.arith(op, a, b), r))
        return out

    def arith(self, op, a, b):
        if op == "+":
            return add(a, b)
        if op == "-":
            return add(a, b, -1)
        if op == "*":
            if const(b) is not None:
                return scale(a, b[1])
            if const(a) is not None:
                return scale(b, a[1])
        if op == "/" and const(b):
            return div(a, b[1])
        if op == "%" and const(a) is not None and const(b):
            return C(a[1] - int(a[1] / b[1]) * b[1])
        if op in NEG:
            return compare(op, a, b)
        if op in ("&&", "||"):
            a, b = self.truth(a), self.truth(b)
            if const(a) is not None:
                return (b if a[1] else a) if op == "&&" else (a if a[1] else b)
            if op == "||":
                return negate(("and", negate(a), negate(b)))
            return ("and", a, b)
        return ("bin", op, a, b)

    # -- calls
    def call(self, n, p):
        nodes = list(n.get("a") or [])
        f = n.get("f") or ""
        name = f.rsplit("::", 1)[-1]
        out = []

        def done(vals, q):
            obj = None
            oloc = None
            if n.get("o") is not None:
                oloc = self.loc(n["o"], q)
                ovs = self.ev(n["o"], q)
                obj, q = ovs[0]
            return self.apply(n, q, f, name, obj, oloc, vals)
        return self.many(nodes, p, done)

    def apply(self, n, q, f, name, obj, oloc, vals):
        if self.prim:
            r = self.prim(self, q, f, name, obj, oloc, vals, n)
            if r is not None:
                return r
        if n.get("k") == "ctor" and len(vals) == 1 and n.get("cm") in ("copy", "move"):
            return [(vals[0], q)]
        if n.get("op") == "=" and len(vals) == 1 and oloc:
            return [(vals[0], self.write(q, oloc, vals[0]))]
        if n.get("k") == "new":
            init = n.get("e") or n.get("i")
            return self.ev(init, q) if init else [(("new", n.get("t")), q)]
        fn = self.db.functions.get(n.get("id"))
        if fn is not None and n.get("virt") is not True and fn.get("body") and len(self.stack) < self.depth and \
                (self.want is None or self.want(fn)):
            try:
                return self.inline(fn, q, obj, oloc, vals, n)
            except Unsupported:
                pass
        res = ("call", f) + ((obj,) if obj is not None else ()) + tuple(vals)
        # what the call can change
        for i, a in enumerate(n.get("a") or []):
            prm = fn["params"][i]["t"] if fn is not None and i < len(fn.get("params", ())) else ""
            l = self.loc(a, q) if prm.rstrip().endswith("&") and not prm.startswith("const") else \
                vals[i][1] if vals[i][0] == "addr" else None
            if l:
                q = self.write(q, l, ("out", i) + res)
        return [(res, q)]

    def inline(self, fn, q, obj, oloc, vals, n):
        self.stack.append(fn)
        try:
            r = q.copy()
            old = r.env.get("this")
            if n.get("o") is not None or n.get("k") == "ctor":
                r.env["this"] = obj if obj is not None else ("new", fn.get("cls"))
            for i, prm in enumerate(fn.get("params", ())):
                r.env[self.var(prm["id"])] = vals[i] if i < len(vals) else S(prm.get("n"))
            outs = []
            nodes = list(n.get("a") or [])
            for s in self.body(fn, r):
                ret = s.ret if s.ret is not None else ("void",)
                s = s.copy()
                s.ret = None
                back = [(i, s.env.get(self.var(prm["id"]))) for i, prm in enumerate(fn.get("params", ()))
                        if prm.get("t", "").rstrip().endswith("&") or prm.get("ref")]
                this = s.env.get("this")
                own = n.get("k") != "ctor" and isinstance(n.get("o"), dict) and n["o"].get("k") == "this"
                s.env["this"] = this if own and this is not None else old
                outs.append((ret, s, back, this))
        finally:
            self.stack.pop()
        res = []
        for ret, s, back, this in outs:
            for i, v in back:
                if i < len(nodes) and v is not None:
                    l = self.loc(nodes[i], s)
                    if l:
                        s = self.write(s, l, v)
            if oloc and this is not None and this != obj:
                s = self.write(s, oloc, this)
            res.append((ret, s))
        return res
