"""Path-sensitive, interprocedural typestate dataflow over the resolved AST.

A state is (automaton state of the rule, abstract environment, branch facts).
States with equal automaton state and environment are merged by intersecting
their facts (property simulation), loops are iterated to a fixpoint, calls are
inlined when the callee can reach something the rule observes, exceptions and
implicit destructors are followed.  Nothing is executed, and no solver is used:
branch facts are comparisons against constants or between names, decided by a
finite case split on orderings.
"""
from db import EngineError, walk, all_overriders

TOP = ("t",)


import re


class State:
    __slots__ = ("auto", "env", "facts", "trace", "_k")

    def __init__(self, auto, env, facts, trace=None):
        self.auto = auto
        self.env = env
        self.facts = facts
        self.trace = trace
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.auto, frozenset(self.env.items()))
        return self._k

    def with_auto(self, auto, note=None):
        if auto == self.auto:
            return self
        return State(auto, self.env, self.facts, (note, self.trace) if note else self.trace)

    def with_env(self, k, v):
        if self.env.get(k) == v:
            return self
        e = dict(self.env)
        e[k] = v
        return State(self.auto, e, self.facts, self.trace)

    def with_fact(self, atom, truth):
        if self.facts.get(atom) == truth:
            return self
        f = dict(self.facts)
        f[atom] = truth
        return State(self.auto, self.env, f, self.trace)

    def drop_facts(self, pred):
        bad = [a for a in self.facts if pred(a)]
        if not bad:
            return self
        f = dict(self.facts)
        for a in bad:
            del f[a]
        return State(self.auto, self.env, f, self.trace)

    def steps(self):
        out = []
        t = self.trace
        while t:
            out.append(t[0])
            t = t[1]
        return list(reversed(out))


def merge(states, cap=48):
    """merge states with the same automaton state and environment"""
    if len(states) <= 1:
        return states
    d = {}
    for s in states:
        k = s.key()
        o = d.get(k)
        if o is None:
            d[k] = s
        elif o is not s and o.facts != s.facts:
            f = {a: t for a, t in o.facts.items() if s.facts.get(a) == t}
            d[k] = State(o.auto, o.env, f, o.trace)
    out = list(d.values())
    if len(out) > cap:
        # join the environments of states with equal automaton state
        g = {}
        for s in out:
            g.setdefault(s.auto, []).append(s)
        out = []
        for a, l in g.items():
            if len(l) == 1:
                out.append(l[0])
                continue
            env = dict(l[0].env)
            for s in l[1:]:
                for k in list(env):
                    if s.env.get(k) != env[k]:
                        env[k] = ("s", k + "@join") if not k.startswith(("this", "@this")) else env[k]
            facts = {x: t for x, t in l[0].facts.items() if all(s.facts.get(x) == t for s in l[1:])}
            out.append(State(a, env, facts, l[0].trace))
    return out


class Out:
    __slots__ = ("norm", "brk", "cont", "ret", "thr")

    def __init__(self, norm=()):
        self.norm = list(norm)
        self.brk = []
        self.cont = []
        self.ret = []   # (state, value, line)
        self.thr = []   # (state, type, line)

    def absorb(self, o, norm=False):
        if norm:
            self.norm += o.norm
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.thr += o.thr


def merge_tagged(lst):
    """merge (state, tag, line) by (tag, line)"""
    if len(lst) <= 1:
        return lst
    g = {}
    for s, v, l in lst:
        g.setdefault((v, l), []).append(s)
    out = []
    for (v, l), ss in g.items():
        for s in merge(ss):
            out.append((s, v, l))
    return out


class Event:
    __slots__ = ("f", "id", "node", "obj", "args", "line", "fn", "stack", "kind", "cls", "ot", "t", "virt", "argn", "flow")

    @property
    def name(self):
        return self.f.rsplit("::", 1)[-1] if self.f else ""

    def where(self):
        return "%s:%d" % (self.fn["rel"], self.line)

    def path(self, i):
        """symbolic name of argument i (or of the object with i='o')"""
        v = self.obj if i == "o" else (self.args[i] if i < len(self.args) else None)
        if v and v[0] == "s":
            return v[1]
        if v and v[0] == "c":
            return repr(v[1])
        return None


SMART = ("std::unique_ptr<", "std::shared_ptr<", "std::__shared_ptr", "std::weak_ptr<",
         "std::reference_wrapper<")
PASS1 = {
    "std::move", "std::forward", "std::static_pointer_cast", "std::dynamic_pointer_cast",
    "std::const_pointer_cast", "std::ref", "std::cref", "std::addressof", "std::as_const",
}
PURE_STD = {
    "size", "empty", "length", "get", "has_value", "value", "str", "c_str", "data", "count",
    "back", "front", "find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "substr",
    "compare", "native", "string", "filename", "parent_path", "extension", "stem", "joinable",
    "owns_lock", "first", "second", "operator bool", "good", "eof", "fail", "what", "lower_bound",
    "upper_bound", "capacity", "max_size", "min", "max", "operator[]", "is_absolute", "code",
}


class Unsupported(EngineError):
    pass


class Client:
    """what a rule observes; override what is needed"""

    all_loops = False
    built = True        # what a constructor leaves in the members of a local object is known
    fold_inc = 0                # constants smaller than this are followed through ++ and +=

    def call(self, fl, st, ev):
        return None

    def want_inline(self, fl, st, ev, fn):
        return None

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return True

    def dtor(self, fl, st, typ, loc, line):
        return None

    wide = 5       # values of a variable in a loop before it is widened

    def concat(self, fl, st, op, parts):
        """value of text put together, None for the default"""
        return None

    def assign(self, fl, st, loc, val, node):
        return st

    def text(self, fl, st, vals, node):
        """a string is made of a part of something"""

    def sub(self, fl, st, base, idx, node):
        """base[idx] of an array or pointer is used"""

    def compound(self, fl, st, loc, op, val, node):
        return st

    def fact(self, fl, st, atom, truth, line):
        return st

    def iter_begin(self, fl, st, what, node):
        """one visit of an element of the container (or of the callback given to a call) starts"""
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        """it ends; how: end, break, return"""
        return st

    def on_return(self, fl, st, val, node):
        return st

    def on_throw(self, fl, st, typ, line):
        return st


CONTAINER = re.compile(r"std::(__cxx11::)?(vector|set|map|list|deque|unordered_set|unordered_map|multiset|multimap)<")
INSERTS = {"insert", "emplace", "push_back", "emplace_back", "push_front", "emplace_front", "push", "operator[]", "try_emplace",
           "insert_or_assign"}


class Flow:
    def __init__(self, db, client, interesting=None, depth=10, cap=48, inline_small=10):
        self.db = db
        self.cl = client
        self.depth = depth
        self.cap = cap
        self.stack = []      # inlined functions
        self.visiting = []   # containers of the loops over iterators
        self.lambdas = {}    # id -> (node, owner fn)
        self.refcaps = set()    # reference variables captured by reference
        self.refvars = {}    # varkey -> True for reference variables
        self.interesting = interesting  # set of function ids that may reach events (or None)
        self.thr = []        # stack of throw collectors
        self.temps = []      # stack of temporaries
        self.unsupported = []
        self.n_calls = 0
        self.n_inlined = 0
        self.funcs_seen = set()
        self.fnidx = {}
        self.small = inline_small
        self.budget = 400000
        self.lazy = {}
        self.ctor_this = {}  # constructor call node -> object under construction
        self.over = {}       # by-copy captures of the closure running at a depth

    # ------------------------------------------------------------------ keys
    def idx(self, fn):
        k = fn["id"]
        if k not in self.fnidx:
            self.fnidx[k] = len(self.fnidx) + 1
        return self.fnidx[k]

    def vkey(self, n):
        """key of a local variable (declaration or reference node)"""
        vid = n.get("v") if n.get("k") == "ref" else n.get("id")
        return "%s#%s.%s" % (n.get("n", ""), self.tuidx(), vid)

    def tuidx(self):
        fn = self.cur()
        tu = fn["tu"]
        k = "tu:" + tu
        if k not in self.fnidx:
            self.fnidx[k] = len(self.fnidx) + 1
        return self.fnidx[k]

    def cur(self):
        return self.stack[-1]

    # ----------------------------------------------------------------- entry
    def run(self, fn, auto, env=None, this="this", params=None):
        """analyse fn from automaton state auto: returns Out (ret / thr)"""
        e = dict(env or {})
        e["@this"] = ("s", this)
        st = State(auto, e, {})
        self.stack = [fn]
        self.funcs_seen.add(fn["id"])
        for p in fn["params"]:
            k = self.vkey(p)
            if params and p["n"] in params:
                st = st.with_env(k, params[p["n"]])
            else:
                st = st.with_env(k, ("s", k))
        out = self.body(fn, [st])
        res = Out()
        for s in out.norm:
            s = self.cl.on_return(self, s, ("void",), None)
            res.ret.append((s, ("void",), fn["end"]))
        res.ret += out.ret
        res.thr += out.thr
        res.ret = merge_tagged(res.ret)
        res.thr = merge_tagged(res.thr)
        return res

    def body(self, fn, states):
        out = Out(states)
        if fn.get("ctor"):
            for i in fn.get("inits", ()):
                if not out.norm:
                    break
                nxt = []
                thr = []
                self.thr.append(thr)
                if not i.get("mem"):
                    self.ctor_this[id(self.peel(i["e"]))] = None
                for s in out.norm:
                    if i.get("mem"):
                        self.ctor_this[id(self.peel(i["e"]))] = s.env.get("@this", ("s", "this"))[1] + "." + i["mem"]
                    for s2, v in self.ev_full(i["e"], s):
                        if i.get("mem"):
                            th = s2.env.get("@this", ("s", "this"))[1]
                            s2 = self.set_loc(s2, th + "." + i["mem"], v, i["e"])
                        nxt.append(s2)
                self.thr.pop()
                out.thr += thr
                out.norm = merge(nxt, self.cap)
        o = self.stmt(fn["body"], out.norm)
        out.norm = []
        out.absorb(o, norm=True)
        out.norm = merge(out.norm + out.brk + out.cont, self.cap)
        out.brk = out.cont = []
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, n, states):
        self.budget -= len(states) + 1
        if self.budget < 0:
            raise Unsupported("analysis budget exceeded in %s" % self.stack[0]["q"])
        if n is None or not states:
            return Out(states)
        k = n["k"]
        m = getattr(self, "s_" + {"{}": "block", "if": "if", "while": "while", "do": "do", "for": "for",
                                  "forr": "forr", "switch": "switch", "break": "break",
                                  "continue": "continue", "ret": "ret", "try": "try", "decl": "decl",
                                  "null": "null", "goto": "goto", "label": "label"}.get(k, "expr"))
        return m(n, states)

    def s_null(self, n, states):
        return Out(states)

    def s_goto(self, n, states):
        self.unsupported.append("goto in %s" % self.cur()["q"])
        return Out([])

    def s_label(self, n, states):
        return self.stmt(n["b"], states)

    def s_expr(self, n, states):
        out = Out()
        thr = []
        self.thr.append(thr)
        for s in states:
            for s2, v in self.ev_full(n, s):
                out.norm.append(s2)
        self.thr.pop()
        out.thr = merge_tagged(thr)
        out.norm = merge(out.norm, self.cap)
        return out

    def run_dtors(self, vars_, states, tagged=False):
        """destroy variables (reverse order of declaration)"""
        if not vars_:
            return states
        if tagged:
            out = []
            for s, v, l in states:
                for s2 in self.run_dtors(vars_, [s]):
                    out.append((s2, v, l))
            return merge_tagged(out)
        for v in reversed(vars_):
            nxt = []
            for s in states:
                nxt += self.destroy(s, v["dt"], self.vkey(v), v["l"])
            states = merge(nxt, self.cap)
        return states

    def destroy(self, s, typ, loc, line):
        r = self.cl.dtor(self, s, typ, loc, line)
        if r is not None:
            return r
        rec = self.db.records.get(typ)
        if rec:
            did = next((m["id"] for m in rec["methods"] if m.get("dtor")), None)
            fn = self.db.functions.get(did) if did else None
            out = [s]
            if fn and self.interesting is not None and fn["id"] in self.interesting \
                    and len(self.stack) < self.depth and all(f["id"] != fn["id"] for f in self.stack):
                self.thr.append([])
                out = [s2 for s2, v in self.inline(fn, s, ("s", loc), [], None)]
                self.thr.pop()
            # members and bases
            for f in rec["fields"]:
                if f["t"] in self.db.records and self.dtor_reach(f["t"]):
                    out = [x for s2 in out for x in self.destroy(s2, f["t"], loc + "." + f["n"], line)]
            for b in rec["bases"]:
                if self.dtor_reach(b):
                    out = [x for s2 in out for x in self.destroy(s2, b, loc, line)]
            return out
        return [s]

    def dtor_reach(self, typ, seen=None):
        if self.interesting is None:
            return False
        seen = seen or set()
        if typ in seen:
            return False
        seen.add(typ)
        rec = self.db.records.get(typ)
        if not rec:
            return False
        did = next((m["id"] for m in rec["methods"] if m.get("dtor")), None)
        if did in self.interesting and did in self.db.functions:
            return True
        return any(self.dtor_reach(f["t"], seen) for f in rec["fields"]) or any(
            self.dtor_reach(b, seen) for b in rec["bases"])

    def s_block(self, n, states):
        out = Out()
        active = []
        for x in n["b"]:
            if not states:
                break
            o = self.stmt(x, states)
            if active:
                o.brk = self.run_dtors(active, o.brk)
                o.cont = self.run_dtors(active, o.cont)
                o.ret = self.run_dtors(active, o.ret, True)
                o.thr = self.run_dtors(active, o.thr, True)
            out.absorb(o)
            states = o.norm
            if x and x["k"] == "decl":
                for v in x["v"]:
                    if v.get("dt") and not v.get("static"):
                        active.append(v)
        out.norm = self.run_dtors(active, states)
        return out

    def scoped(self, decls, f, states):
        """run f(states) with the variables of decls alive around it"""
        out = Out()
        active = []
        for d in decls:
            if d is None:
                continue
            o = self.stmt(d, states)
            out.absorb(o)
            states = o.norm
            if d["k"] == "decl":
                active += [v for v in d["v"] if v.get("dt")]
        o = f(states)
        if active:
            o.brk = self.run_dtors(active, o.brk)
            o.cont = self.run_dtors(active, o.cont)
            o.ret = self.run_dtors(active, o.ret, True)
            o.thr = self.run_dtors(active, o.thr, True)
            o.norm = self.run_dtors(active, o.norm)
        out.absorb(o, norm=True)
        return out

    def s_decl(self, n, states):
        out = Out(states)
        for v in n["v"]:
            nxt = []
            thr = []
            self.thr.append(thr)
            key = self.vkey(v)
            if v.get("ref"):
                self.refvars[key] = True
            for s in out.norm:
                if "i" in v:
                    pe = self.peel(v["i"])
                    if pe is not None and pe["k"] == "ctor" and not v.get("ref"):
                        self.ctor_this[id(pe)] = key
                        s = self.forget(s, key)
                    for s2, val in self.ev_full(v["i"], s):
                        if val != ("s", key) or not self.cl.built:
                            s2 = self.forget(s2, key)
                        s2 = self.cl.assign(self, s2, key, val, v)
                        s2 = s2.with_env(key, self.clean(key, val, v["l"]))
                        if pe is not None and pe["k"] == "ctor" and not pe["a"] and CONTAINER.match(pe.get("cls", "")) and \
                                self.plain_container(v):
                            s2 = s2.with_env(key, ("s", key)).with_fact((key + ".empty()", "==", 0), False)
                        nxt.append(s2)
                        for b in v.get("bind", ()):
                            bk = self.vkey(b)
                            whole = nxt[-1].env.get(key)
                            named = whole is not None and whole[0] == "s" and self.part(v, b) != b["n"]
                            whole = whole[1] + "." + self.part(v, b) if named else bk
                            nxt[-1] = nxt[-1].with_env(bk, nxt[-1].env.get(whole, ("s", whole)))
                else:
                    s2 = self.forget(s, key)
                    nxt.append(s2.with_env(key, ("s", key)))
            self.thr.pop()
            out.thr += merge_tagged(thr)
            out.norm = merge(nxt, self.cap)
        return out

    def s_if(self, n, states):
        def go(states):
            out = Out()
            thr = []
            self.thr.append(thr)
            T, F = [], []
            for s in states:
                t, f = self.cond(n["c"], s)
                T += t
                F += f
            self.thr.pop()
            out.thr += merge_tagged(thr)
            T = merge(T, self.cap)
            F = merge(F, self.cap)
            out.absorb(self.stmt(n["a"], T), norm=True)
            if n.get("b"):
                out.absorb(self.stmt(n["b"], F), norm=True)
            else:
                out.norm += F
            out.norm = merge(out.norm, self.cap)
            return out
        return self.scoped([n.get("init"), n.get("var")], go, states)

    def loop(self, states, cond, body, inc=None, test_first=True, var=None):
        out = Out()
        seen = {}
        exits = []
        work = states
        first = True
        it = 0
        head = {}
        while work:
            it += 1
            if it > 40:
                self.unsupported.append("loop fixpoint in %s" % self.cur()["q"])
                break
            # a variable that takes ever new values is widened to an unknown one
            if it > 2:
                wide = set()
                for s in work:
                    for k, v in s.env.items():
                        if v[0] in "sc":
                            hv = head.setdefault(k, set())
                            hv.add(v)
                            if len(hv) > self.cl.wide:
                                wide.add(k)
                if wide:
                    ww = []
                    for s in work:
                        e = None
                        for k in wide:
                            v = s.env.get(k)
                            if v is not None and v[0] in "sc" and not k.startswith(("this", "@this")):
                                e = e or dict(s.env)
                                e[k] = ("s", k + "@w")
                        if e:
                            s = State(s.auto, e, {a: t for a, t in s.facts.items()
                                                  if "@w" not in a[0] and "@w" not in str(a[2])}, s.trace)
                        ww.append(s)
                    work = merge(ww, self.cap)
            if cond is not None and (test_first or not first):
                thr = []
                self.thr.append(thr)
                T, F = [], []
                for s in work:
                    t, f = cond(s)
                    T += t
                    F += f
                self.thr.pop()
                out.thr += merge_tagged(thr)
                exits += F
                work = merge(T, self.cap)
            first = False
            new = []
            for s in work:
                k = s.key()
                o = seen.get(k)
                if o is None:
                    seen[k] = s
                    new.append(s)
                else:
                    f = {a: t for a, t in o.facts.items() if s.facts.get(a) == t}
                    if f != o.facts:
                        s = State(s.auto, s.env, f, o.trace)
                        seen[k] = s
                        new.append(s)
            if not new:
                break
            if it > 6:
                new = merge(new, 4)
            o = body(new)
            out.ret += o.ret
            out.thr += o.thr
            exits += o.brk
            work = merge(o.norm + o.cont, self.cap)
            if inc is not None and work:
                thr = []
                self.thr.append(thr)
                nxt = []
                for s in work:
                    for s2, v in self.ev_full(inc, s):
                        nxt.append(s2)
                self.thr.pop()
                out.thr += merge_tagged(thr)
                work = merge(nxt, self.cap)
            out.ret = merge_tagged(out.ret)
            out.thr = merge_tagged(out.thr)
        out.norm = merge(exits, self.cap)
        return out

    def s_while(self, n, states):
        if n.get("var"):
            def body(ss):
                def inner(ss2):
                    o = Out()
                    thr = []
                    self.thr.append(thr)
                    T, F = [], []
                    for s in ss2:
                        t, f = self.cond(n["c"], s)
                        T += t
                        F += f
                    self.thr.pop()
                    o.thr += thr
                    o.brk += F
                    o.absorb(self.stmt(n["b"], merge(T, self.cap)), norm=True)
                    return o
                return self.scoped([n["var"]], inner, ss)
            return self.loop(states, None, body)
        return self.loop(states, lambda s: self.cond(n["c"], s), self.visit_body(n, TOP)
                         if self.cl.all_loops else lambda ss: self.stmt(n["b"], ss))

    def s_do(self, n, states):
        return self.loop(states, lambda s: self.cond(n["c"], s), lambda ss: self.stmt(n["b"], ss), test_first=False)

    def s_for(self, n, states):
        def go(ss):
            c = n.get("c")
            cont = self.loop_container(n)
            if cont is not None:
                nxt = []
                rng = TOP
                for s in ss:
                    for s2, p in self.basepath(cont, s):
                        nxt.append(s2)
                        rng = ("s", p) if p else TOP
                more, done, ss = self.range_facts(rng, n, merge(nxt, self.cap))

                def cc(s):
                    t, f = self.cond(c, s)
                    return [y for y in map(more, t) if y is not None], [y for x in f for y in done(x)]
                self.visiting.append(rng[1] if rng[0] == "s" else None)
                try:
                    return self.loop(ss, cc, self.visit_body(n, rng), inc=n.get("inc"))
                finally:
                    self.visiting.pop()
            return self.loop(ss, (lambda s: self.cond(c, s)) if c else None, self.visit_body(n, TOP)
                             if self.cl.all_loops else lambda x: self.stmt(n["b"], x), inc=n.get("inc"))
        return self.scoped([n.get("init")], go, states)

    def s_forr(self, n, states):
        out = Out()
        thr = []
        self.thr.append(thr)
        nxt = []
        rv = {}
        for s in states:
            for s2, v in self.ev_full(n["r"], s):
                nxt.append(s2)
                rv[None] = v
        self.thr.pop()
        out.thr += thr
        v = n["var"]
        key = self.vkey(v)
        rng = rv.get(None, TOP)
        sym = (rng[1] + "[*]") if rng[0] == "s" else key

        more, done, nxt = self.range_facts(rng, n, nxt)

        def cond(s):
            d = done(s)
            s = more(s)
            if s is None:
                return [], d
            s2 = self.forget(s, key)
            s2 = s2.drop_facts(lambda a: sym in str(a[0]) or sym in str(a[2]))
            s2 = s2.with_env(key, ("s", sym))
            for b in v.get("bind", ()):
                bk = self.vkey(b)
                s2 = s2.with_env(bk, ("s", sym + "." + self.part(v, b)))
            return [s2], d
        if v.get("ref"):
            self.refvars[key] = True
        o = self.loop(merge(nxt, self.cap), cond, self.visit_body(n, rng))
        out.absorb(o, norm=True)
        return out

    def visited(self, p):
        """the container, for an iterator of the loop that visits it"""
        for e in (".begin()", ".cbegin()"):
            if p.endswith(e) and p[:-len(e)] in self.visiting:
                return p[:-len(e)]
        return p

    def part(self, v, b):
        """name of the part of a structured binding's value that b stands for"""
        t = re.sub(r"^const | ?[&*]+$", "", v.get("t") or "")
        i = [x["id"] for x in v["bind"]].index(b["id"])
        if t.startswith("std::pair<") and i < 2:
            return ("first", "second")[i]
        r = self.db.records.get(t)
        if r and i < len(r["fields"]) and not r.get("bases"):
            return r["fields"][i]["n"]
        return b["n"]

    def visit_body(self, n, rng):
        def body(ss):
            o = self.stmt(n["b"], [self.cl.iter_begin(self, s, rng, n) for s in ss])
            end = lambda s, how, val=None: self.cl.iter_end(self, s, rng, n, how, val)
            o.norm = [end(s, "end") for s in o.norm]
            o.cont = [end(s, "end") for s in o.cont]
            o.brk = [end(s, "break") for s in o.brk]
            o.ret = [(end(s, "return", v), v, l) for s, v, l in o.ret]
            return o
        return body

    def range_facts(self, rng, n, states):
        """a loop that visits a container is entered exactly when the container
        is not empty: (more, done, states)"""
        if rng[0] != "s" or len(rng[1]) > 120:
            return (lambda s: s), (lambda s: [s]), states
        atom = (rng[1] + ".empty()", "==", 0)
        flag = "loop@%s:%d" % (self.tuidx(), n["l"])

        def more(s):
            if s.env.get(flag) == ("c", 0):
                d = self.decide(s, atom)
                if d is False:
                    return None
                return s.with_env(flag, ("c", 1)).with_fact(atom, True)
            return s

        def done(s):
            if s.env.get(flag) == ("c", 0):
                if self.decide(s, atom) is True:
                    return []
                s = s.with_fact(atom, False)
            e = dict(s.env)
            e.pop(flag, None)
            return [State(s.auto, e, s.facts, s.trace)]
        return more, done, [s.with_env(flag, ("c", 0)) for s in states]

    def plain_container(self, v):
        """a local container only used through its own methods, loops and known functions"""
        fn = self.cur()
        if "_plain" not in fn:
            fn["_plain"] = {}
        if v["id"] in fn["_plain"]:
            return fn["_plain"][v["id"]]
        ok = 0
        tot = sum(1 for x in walk(fn["body"]) if x["k"] == "ref" and x.get("v") == v["id"] and x.get("d") == "var")
        if any(x["k"] == "ref" and x.get("v") == v["id"] for l in walk(fn["body"]) if l["k"] == "lambda" for x in walk(l)):
            tot = -1
        for x in walk(fn["body"]):
            if x["k"] == "call" and x.get("o"):
                o = self.peel(x["o"])
                if o["k"] == "ref" and o.get("v") == v["id"] and o.get("d") == "var":
                    ok += 1
            if x["k"] == "forr":
                o = self.peel(x["r"])
                if o["k"] == "ref" and o.get("v") == v["id"]:
                    ok += 1
            if x["k"] in ("call", "ctor") and x.get("id") in self.db.functions:
                for a in x["a"]:
                    o = self.peel(a)
                    if o["k"] == "ref" and o.get("v") == v["id"]:
                        ok += 1
        fn["_plain"][v["id"]] = ok == tot
        return ok == tot

    def loop_container(self, n):
        """the container a classic loop visits, for
        for (auto i = c.begin(); i != c.end(); ++i) and
        for (size_t i = 0; i < c.size(); ++i)"""
        c = self.peel(n.get("c"))
        if not n.get("init") or c is None:
            return None
        if n["init"]["k"] != "decl" or len(n["init"]["v"]) < 1 or not n["init"]["v"][0].get("i"):
            return None
        if c["k"] == "call" and c.get("op") == "!=":
            ab = ([c["o"]] if c.get("o") else []) + c["a"]
            a, b = ab if len(ab) == 2 else (None, None)
        elif c["k"] == "bin" and c["op"] in ("!=", "<"):
            a, b = c["a"], c["b"]
        else:
            return None
        a, b = self.peel(a), self.peel(b)
        while b is not None and b["k"] == "ctor" and len(b["a"]) == 1:
            b = self.peel(b["a"][0])
        while a is not None and a["k"] == "ctor" and len(a["a"]) == 1:
            a = self.peel(a["a"][0])
        v = n["init"]["v"][0]
        i = self.peel(v["i"])
        while i is not None and i["k"] == "ctor" and len(i["a"]) == 1:
            i = self.peel(i["a"][0])
        if not a or not b or not i or a["k"] != "ref" or a.get("v") != v.get("id") or b["k"] != "call" or not b.get("o"):
            return None
        if b["f"].endswith(("::end", "::cend")) and i["k"] == "call" and i["f"].endswith(("::begin", "::cbegin")):
            return b["o"]
        if b["f"].endswith("::size") and i.get("cv", i.get("v") if i["k"] == "int" else None) == 0:
            return b["o"]
        return None

    def s_switch(self, n, states):
        def go(states):
            out = Out()
            thr = []
            self.thr.append(thr)
            enter = [[] for _ in n["g"]]
            nomatch = []
            for s in states:
                for s2, v in self.ev_full(n["c"], s):
                    rest = [s2]
                    default_at = None
                    for gi, g in enumerate(n["g"]):
                        for lab in g["lab"]:
                            if lab.get("default"):
                                default_at = gi
                                continue
                            nr = []
                            for r in rest:
                                lv = self.const(lab["e"])
                                t, f = self.compare(r, v, "==", lv if lv else TOP, lab["l"])
                                enter[gi] += t
                                nr += f
                            rest = nr
                    if default_at is not None:
                        enter[default_at] += rest
                    else:
                        nomatch += rest
            self.thr.pop()
            out.thr += merge_tagged(thr)
            cur = []
            for gi, g in enumerate(n["g"]):
                cur = merge(cur + enter[gi], self.cap)
                blk = {"k": "{}", "l": n["l"], "b": g["b"]}
                o = self.s_block(blk, cur)
                out.norm += o.brk
                o.brk = []
                cur = o.norm
                o.norm = []
                out.absorb(o)
            out.norm = merge(out.norm + cur + nomatch, self.cap)
            return out
        return self.scoped([n.get("init"), n.get("var")], go, states)

    def s_break(self, n, states):
        o = Out()
        o.brk = states
        return o

    def s_continue(self, n, states):
        o = Out()
        o.cont = states
        return o

    def s_ret(self, n, states):
        out = Out()
        thr = []
        self.thr.append(thr)
        if n.get("e"):
            for s in states:
                if self.is_boolish(n["e"]):
                    t, f = self.cond(n["e"], s)
                    for x in t:
                        x = self.cl.on_return(self, x, ("c", 1), n) if len(self.stack) == 1 else x
                        out.ret.append((x, ("c", 1), n["l"]))
                    for x in f:
                        x = self.cl.on_return(self, x, ("c", 0), n) if len(self.stack) == 1 else x
                        out.ret.append((x, ("c", 0), n["l"]))
                else:
                    for s2, v in self.ev_full(n["e"], s):
                        s2 = self.cl.on_return(self, s2, v, n) if len(self.stack) == 1 else s2
                        out.ret.append((s2, v, n["l"]))
        else:
            for s in states:
                s = self.cl.on_return(self, s, ("void",), n) if len(self.stack) == 1 else s
                out.ret.append((s, ("void",), n["l"]))
        self.thr.pop()
        out.thr = merge_tagged(thr)
        out.ret = merge_tagged(out.ret)
        return out

    def is_boolish(self, n):
        k = n["k"]
        if k == "full" or k == "temp":
            return self.is_boolish(n["e"])
        if k == "bin":
            return n["op"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||")
        if k == "un":
            return n["op"] == "!"
        if k in ("bool", "tobool"):
            return True
        if k in ("call", "ref", "mem"):
            return n.get("t") == "bool"
        if k == "cond":
            return n.get("t") == "bool"
        return False

    EXC = {
        "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
        "std::system_error": ["std::runtime_error"], "std::invalid_argument": ["std::logic_error"],
        "std::out_of_range": ["std::logic_error"], "std::bad_alloc": ["std::exception"],
        "std::filesystem::filesystem_error": ["std::system_error"],
        "std::__cxx11::filesystem::filesystem_error": ["std::system_error"],
        "std::ios_base::failure": ["std::system_error"],
    }

    def exc_supers(self, t):
        t = t.replace("const ", "").replace("&", "").replace("*", "").strip()
        out = [t]
        todo = [t]
        while todo:
            x = todo.pop()
            b = list(self.EXC.get(x, ()))
            r = self.db.records.get(x)
            if r:
                b += r["bases"]
            for y in b:
                if y not in out:
                    out.append(y)
                    todo.append(y)
        return out

    def s_try(self, n, states):
        o = self.stmt(n["b"], states)
        out = Out(o.norm)
        out.brk, out.cont, out.ret = o.brk, o.cont, o.ret
        pending = o.thr
        for h in n["h"]:
            caught, rest = [], []
            for s, t, l in pending:
                ht = h.get("t")
                if ht is None:
                    caught.append((s, t, l))
                    continue
                ht = self.exc_supers(ht)[0]
                if t == "any":
                    if ht in ("std::exception",):
                        caught.append((s, t, l))
                    else:
                        caught.append((s, ht, l))
                        rest.append((s, t, l))
                else:
                    if ht in self.exc_supers(t):
                        caught.append((s, t, l))
                    else:
                        rest.append((s, t, l))
            pending = rest
            if caught:
                by_t = {}
                for s, t, l in caught:
                    by_t.setdefault(t, []).append(s)
                for t, ss in by_t.items():
                    self.lazy.setdefault("exc", []).append(t)
                    oo = self.stmt(h["b"], merge(ss, self.cap))
                    self.lazy["exc"].pop()
                    out.absorb(oo, norm=True)
        out.thr += pending
        out.norm = merge(out.norm, self.cap)
        out.thr = merge_tagged(out.thr)
        return out

    # ------------------------------------------------------------ expressions
    def throw(self, s, typ, line):
        s = self.cl.on_throw(self, s, typ, line)
        if s is None:
            return
        if self.thr:
            self.thr[-1].append((s, typ, line))

    def ev_full(self, n, s):
        """evaluate a full expression: temporaries are destroyed at its end"""
        self.temps.append([])
        res = self.ev(n, s)
        tl = self.temps.pop()
        if tl:
            out = []
            for s2, v in res:
                ss = [s2]
                for typ, key, line in reversed(tl):
                    ss = [y for x in ss for y in self.destroy(x, typ, key, line)]
                out += [(x, v) for x in ss]
            res = out
        return res

    def const(self, n):
        if n is None:
            return None
        while n["k"] in ("full", "temp", "defarg"):
            n = n["e"]
        if "cv" in n:
            v = n["cv"]
            return ("c", v)
        if n["k"] == "str":
            return ("c", n["v"])
        if n["k"] == "nullp":
            return ("c", 0)
        if n["k"] == "ref" and n.get("d") == "enum":
            return ("c", n.get("cv", n["q"]))
        if n["k"] in ("icast", "cast", "tobool"):
            return self.const(n["e"])
        if n["k"] == "un" and n["op"] == "-" and n["e"]["k"] == "float" and float(n["e"]["v"]).is_integer():
            return ("c", -int(float(n["e"]["v"])))
        return None

    def forget(self, s, key):
        """drop what is known through an overwritten name"""
        def bad(a):
            return self.mentions(a[0], key) or self.mentions(a[2], key)
        s = s.drop_facts(bad)
        sub = [k for k in s.env if k.startswith(key + ".")]
        if sub:
            e = dict(s.env)
            for k in sub:
                del e[k]
            s = State(s.auto, e, s.facts, s.trace)
        return s

    @staticmethod
    def mentions(x, key):
        return isinstance(x, str) and key in x

    def clean(self, key, val, line):
        if val == ("s", key):
            return val
        if val[0] == "s" and (key in val[1] or len(val[1]) > 160):
            return ("s", "%s'%s" % (key, line))
        if val[0] in ("t", "void"):
            return ("s", "%s'%s" % (key, line))
        return val

    def set_loc(self, s, loc, val, node):
        line = node.get("l", 0) if node else 0
        s = self.cl.assign(self, s, loc, val, node)
        s = self.forget(s, loc)
        v = self.clean(loc, val, line)
        if v[0] == "s" and v[1].startswith(loc + "'"):
            s = s.drop_facts(lambda a: self.mentions(a[0], v[1]) or self.mentions(a[2], v[1]))
        return s.with_env(loc, v)

    def loc(self, n, s):
        """list of (state, location string or None) of an lvalue"""
        k = n["k"]
        if k in ("full", "temp", "cast", "icast", "defarg"):
            return self.loc(n["e"], s)
        if k == "ref":
            if n.get("d") in ("var", "parm"):
                key = self.vkey(n)
                ov = self.over.get(len(self.stack))
                if ov and key in ov and key in self.refcaps and ov[key][0] == "s":
                    return [(s, ov[key][1])]
                if self.refvars.get(key):
                    v = s.env.get(key)
                    if v and v[0] == "s":
                        return [(s, v[1])]
                return [(s, key)]
            return [(s, n.get("q") or n["n"])]
        if k == "this":
            return [(s, s.env.get("@this", ("s", "this"))[1])]
        if k == "mem":
            out = []
            for s2, p in self.basepath(n["b"], s):
                out.append((s2, (p + "." + n["n"]) if p else None))
            return out
        if k == "un" and n["op"] == "*":
            return [(s2, v[1] if v[0] == "s" else None) for s2, v in self.ev(n["e"], s)]
        if k == "sub":
            out = []
            for s2, p in self.basepath(n["b"], s):
                for s3, i in self.ev(n["i"], s2):
                    self.cl.sub(self, s3, p, i, n)
                    out.append((s3, "%s[%s]" % (p, self.vstr(i)) if p else None))
            return out
        if k == "call":
            return [(s2, v[1] if v[0] == "s" else None) for s2, v in self.ev(n, s)]
        return [(s2, v[1] if v[0] == "s" else None) for s2, v in self.ev(n, s)]

    def basepath(self, n, s):
        out = []
        for s2, v in self.ev(n, s):
            if v[0] == "s":
                out.append((s2, v[1]))
            else:
                for s3, p in self.loc(n, s2):
                    out.append((s3, p))
        return out

    @staticmethod
    def vstr(v):
        if v[0] == "s":
            return v[1]
        if v[0] == "c":
            return str(v[1])
        if v[0] == "l":
            return "<lambda>"
        if v[0] == "f":
            return v[1]
        return "?"

    def ev(self, n, s):
        """list of (state, value)"""
        if n is None:
            return [(s, TOP)]
        self.budget -= 1
        k = n["k"]
        if k in ("call", "ctor"):
            return self.ev_call(n, s)
        c = self.const(n) if k not in ("bin", "cond") or "cv" in n else None
        if c is not None:
            return [(s, c)]
        if k == "ref":
            d = n.get("d")
            if d in ("var", "parm"):
                key = self.vkey(n)
                ov = self.over.get(len(self.stack))
                if ov and key in ov:
                    v = ov[key]
                    if key in self.refcaps and v[0] == "s" and v[1] in s.env:
                        return [(s, s.env[v[1]])]
                    return [(s, v)]
                v = s.env.get(key)
                if v is None:
                    return [(s, ("s", key))]
                if v[0] == "s" and self.refvars.get(key) and v[1] in s.env:
                    return [(s, s.env[v[1]])]
                return [(s, v)]
            if d == "func":
                return [(s, ("f", n["id"]))]
            q = n.get("q") or n["n"]
            v = s.env.get(q)
            return [(s, v if v is not None else ("s", q))]
        if k == "mem":
            out = []
            for s2, p in self.basepath(n["b"], s):
                if p is None:
                    out.append((s2, TOP))
                    continue
                key = p + "." + n["n"]
                v = s2.env.get(key)
                out.append((s2, v if v is not None else ("s", key)))
            return out
        if k == "this":
            return [(s, s.env.get("@this", ("s", "this")))]
        if k == "full":
            return self.ev_full(n["e"], s)
        if k == "temp":
            r = self.ev(n["e"], s)
            if self.temps and not (n["e"]["k"] in ("ctor", "call") and n.get("elided")):
                key = "tmp%s:%d" % (self.tuidx(), n["l"])
                self.temps[-1].append((n["dt"], key, n["l"]))
            return r
        if k in ("icast", "defarg"):
            return self.ev(n["e"], s)
        if k == "tobool":
            t, f = self.cond(n, s)
            return [(x, ("c", 1)) for x in t] + [(x, ("c", 0)) for x in f]
        if k == "cast":
            return self.ev(n["e"], s)
        if k == "un":
            return self.ev_un(n, s)
        if k == "bin":
            return self.ev_bin(n, s)
        if k == "cond":
            t, f = self.cond(n["c"], s)
            out = []
            for x in merge(t, self.cap):
                out += self.ev(n["a"], x)
            for x in merge(f, self.cap):
                out += self.ev(n["b"], x)
            return out
        if k == "lambda":
            self.lambdas[n["id"]] = (n, self.cur())
            for c in n["caps"]:
                if "i" in c:
                    res = []
                    for s2, v in self.ev(c["i"], s):
                        key = "%s#%s.%s" % (c["n"], self.tuidx(), c["v"])
                        s = s2.with_env(key, v if v[0] != "t" else ("s", key))
            th = s.env.get("@this")
            caps = []
            for c in n["caps"]:
                if c.get("v") and not c["byref"] and "i" not in c:
                    ref = {"k": "ref", "n": c["n"], "v": c["v"], "d": "var", "l": n["l"]}
                    key = self.vkey(ref)
                    for s2, v in self.ev(ref, s):
                        if v[0] in ("s", "c", "l", "f") and v != ("s", key):
                            caps.append((key, v))
                elif c.get("v") and c["byref"]:
                    # a reference captured by reference refers to what it is bound to
                    key = "%s#%s.%s" % (c["n"], self.tuidx(), c["v"])
                    v = s.env.get(key)
                    if self.refvars.get(key) and v and v[0] == "s" and v[1] != key:
                        self.refcaps.add(key)
                        caps.append((key, v))
            return [(s, ("l", n["id"], th[1] if th else "this", tuple(caps)))]
        if k == "throw":
            if n.get("e"):
                for s2, v in self.ev_full(n["e"], s):
                    self.throw(s2, n.get("t", "any"), n["l"])
            else:
                ex = self.lazy.get("exc") or ["any"]
                self.throw(s, ex[-1], n["l"])
            return []
        if k == "new":
            out = []
            for s2, v in (self.ev(n["i"], s) if n.get("i") else [(s, TOP)]):
                if v[0] == "s" and v[1].startswith("holder"):
                    out.append((s2, v))
                else:
                    out.append((s2, ("s", "new(%s)@%d" % (n["t"], n["l"]))))
            return out
        if k == "delete":
            out = []
            for s2, v in self.ev(n["e"], s):
                typ = n["t"]
                loc = v[1] if v[0] == "s" else "?"
                for s3 in self.destroy(s2, typ, loc, n["l"]):
                    out.append((s3, ("void",)))
            return out
        if k == "sub":
            out = []
            for s2, p in self.loc(n, s):
                if p is None:
                    out.append((s2, TOP))
                else:
                    v = s2.env.get(p)
                    out.append((s2, v if v is not None else ("s", p)))
            return out
        if k == "init":
            cur = [s]
            vals = []
            for a in n["a"]:
                nxt = []
                for x in cur:
                    for s2, v in self.ev(a, x):
                        nxt.append(s2)
                        vals.append(v)
                cur = merge(nxt, self.cap)
            if len(n["a"]) == 1 and vals:
                return [(x, vals[0]) for x in cur]
            return [(x, TOP) for x in cur]
        if k == "stmtexpr":
            o = self.stmt(n["b"], [s])
            return [(x, TOP) for x in o.norm]
        if k == "zero":
            return [(s, ("c", 0))]
        if k == "x":
            cur = [s]
            for c in n["c"]:
                nxt = []
                for x in cur:
                    nxt += [s2 for s2, v in self.ev(c, x)]
                cur = merge(nxt, self.cap)
            return [(x, TOP) for x in cur]
        if k in ("float", "sizeof", "str", "int", "bool", "nullp"):
            return [(s, TOP)]
        if k in ("{}", "decl", "if", "ret"):
            o = self.stmt(n, [s])
            return [(x, TOP) for x in o.norm]
        return [(s, TOP)]

    def ev_un(self, n, s):
        op = n["op"]
        if op == "!":
            t, f = self.cond(n["e"], s)
            return [(x, ("c", 0)) for x in t] + [(x, ("c", 1)) for x in f]
        if op in ("++", "--", "p++", "p--"):
            out = []
            for s2, l in self.loc(n["e"], s):
                if l is None:
                    out.append((s2, TOP))
                    continue
                old = s2.env.get(l, ("s", l))
                nv = TOP
                if self.cl.fold_inc and old[0] == "c" and isinstance(old[1], int) and abs(old[1]) < self.cl.fold_inc:
                    nv = ("c", old[1] + (1 if "+" in op else -1))
                s3 = self.grown(s2, self.set_loc(s2, l, nv, n), l, old, "+" in op)
                out.append((s3, old if op[0] == "p" else s3.env[l]))
            return out
        if op == "&":
            return [(s2, ("s", l) if l else TOP) for s2, l in self.loc(n["e"], s)]
        if op == "*":
            return self.ev(n["e"], s)
        out = []
        for s2, v in self.ev(n["e"], s):
            if op == "-" and v[0] == "c" and isinstance(v[1], int):
                out.append((s2, ("c", -v[1])))
            elif v[0] == "s":
                out.append((s2, ("s", "%s(%s)" % (op, v[1]))))
            else:
                out.append((s2, TOP))
        return out

    def grown(self, before, after, l, old, up):
        """a count that started from 0 and grew is more than 0"""
        v = after.env.get(l)
        if not up or not v or v[0] != "s":
            return after
        if old[0] == "c" and isinstance(old[1], int) and old[1] >= 0 or \
                old[0] == "s" and (before.facts.get((old[1], "<", 1)) is False or before.facts.get((old[1], "<", 0)) is False):
            return after.with_fact((v[1], "<", 1), False)
        return after

    def ev_bin(self, n, s):
        op = n["op"]
        if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
            t, f = self.cond(n, s)
            return [(x, ("c", 1)) for x in t] + [(x, ("c", 0)) for x in f]
        if op == ",":
            out = []
            for s2, v in self.ev(n["a"], s):
                out += self.ev(n["b"], s2)
            return out
        if op == "=":
            out = []
            for s2, v in self.ev(n["b"], s):
                for s3, l in self.loc(n["a"], s2):
                    if l is None:
                        out.append((s3, v))
                    else:
                        out.append((self.set_loc(s3, l, v, n), v))
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            for s2, v in self.ev(n["b"], s):
                for s3, l in self.loc(n["a"], s2):
                    if l is None:
                        out.append((s3, TOP))
                        continue
                    old = s3.env.get(l, ("s", l))
                    s3 = self.cl.compound(self, s3, l, op, v, n)
                    nv = TOP
                    if op == "|=" and old[0] == "c" and v[0] == "c" and isinstance(v[1], int) and isinstance(old[1], int):
                        nv = ("c", old[1] | v[1])
                    elif self.cl.fold_inc and op in ("+=", "-=") and old[0] == "c" and v[0] == "c" and isinstance(v[1], int) \
                            and isinstance(old[1], int) and abs(old[1]) < self.cl.fold_inc:
                        nv = ("c", old[1] + v[1] if op == "+=" else old[1] - v[1])
                    elif op == "&=" and old[0] == "c" and v[0] == "c" and isinstance(v[1], int) and isinstance(old[1], int):
                        nv = ("c", old[1] & v[1])
                    s4 = self.grown(s3, self.set_loc(s3, l, nv, n), l, old, op == "+=" and v[0] == "c" and isinstance(v[1], int) and v[1] > 0)
                    out.append((s4, s4.env[l]))
            return out
        out = []
        for s2, a in self.ev(n["a"], s):
            for s3, b in self.ev(n["b"], s2):
                if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
                    r = None
                    if op == "|":
                        r = a[1] | b[1]
                    elif op == "&":
                        r = a[1] & b[1]
                    if r is not None:
                        out.append((s3, ("c", r)))
                        continue
                sa, sb = self.vstr(a), self.vstr(b)
                if "?" in (sa, sb) or len(sa) + len(sb) > 140:
                    out.append((s3, TOP))
                else:
                    if op in ("+", "*", "&", "|") and sb < sa:
                        sa, sb = sb, sa
                    out.append((s3, ("s", "(%s%s%s)" % (sa, op, sb))))
        return out

    # ------------------------------------------------------------- conditions
    def cond(self, n, s):
        """(states where true, states where false)"""
        k = n["k"]
        if k == "full":
            self.temps.append([])
            t, f = self.cond(n["e"], s)
            tl = self.temps.pop()
            for typ, key, line in reversed(tl):
                t = [y for x in t for y in self.destroy(x, typ, key, line)]
                f = [y for x in f for y in self.destroy(x, typ, key, line)]
            return t, f
        if k in ("temp", "defarg"):
            return self.cond(n["e"], s)
        if k in ("icast",) and n.get("t") == "bool":
            return self.cond(n["e"], s)
        if k == "cast" and n.get("t") == "bool" and n["e"]["k"] not in ("int",):
            return self.cond(n["e"], s)
        if k == "un" and n["op"] == "!":
            t, f = self.cond(n["e"], s)
            return f, t
        if k == "bin" and n["op"] == "&&":
            t, f = self.cond(n["a"], s)
            T, F = [], list(f)
            for x in merge(t, self.cap):
                t2, f2 = self.cond(n["b"], x)
                T += t2
                F += f2
            return T, F
        if k == "bin" and n["op"] == "||":
            t, f = self.cond(n["a"], s)
            T, F = list(t), []
            for x in merge(f, self.cap):
                t2, f2 = self.cond(n["b"], x)
                T += t2
                F += f2
            return T, F
        if k == "bin" and n["op"] == ",":
            T, F = [], []
            for s2, v in self.ev(n["a"], s):
                t, f = self.cond(n["b"], s2)
                T += t
                F += f
            return T, F
        if k == "bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
            T, F = [], []
            for s2, a in self.ev(n["a"], s):
                for s3, b in self.ev(n["b"], s2):
                    t, f = self.compare(s3, a, n["op"], b, n["l"])
                    T += t
                    F += f
            return T, F
        if k == "cond":
            t, f = self.cond(n["c"], s)
            T, F = [], []
            for x in merge(t, self.cap):
                a, b = self.cond(n["a"], x)
                T += a
                F += b
            for x in merge(f, self.cap):
                a, b = self.cond(n["b"], x)
                T += a
                F += b
            return T, F
        if k == "tobool":
            e = n["e"]
            T, F = [], []
            for s2, v in self.ev(e, s):
                t, f = self.compare(s2, v, "!=", ("c", 0), n["l"])
                T += t
                F += f
            return T, F
        T, F = [], []
        for s2, v in self.ev(n, s):
            if v[0] == "c":
                (T if v[1] else F).append(s2)
            else:
                t, f = self.compare(s2, v, "!=", ("c", 0), n.get("l", 0))
                T += t
                F += f
        return T, F

    def compare(self, s, a, op, b, line):
        """split s on a op b"""
        neg = False
        if op == "!=":
            op, neg = "==", True
        elif op == ">":
            a, b, op = b, a, "<"
        elif op == ">=":
            op, neg = "<", True
        elif op == "<=":
            a, b, op, neg = b, a, "<", True
        if a[0] == "c" and b[0] == "c":
            try:
                r = (a[1] == b[1]) if op == "==" else (a[1] < b[1])
                r = r != neg
                return ([s], []) if r else ([], [s])
            except TypeError:
                return [s], [s]
        if a[0] not in ("s", "c", "f", "l") or b[0] not in ("s", "c", "f", "l"):
            return [s], [s]
        if a[0] in ("f", "l") or b[0] in ("f", "l"):
            # a callable is never null
            if op == "==" and (a == ("c", 0) or b == ("c", 0)):
                return ([s], []) if neg else ([], [s])
            return [s], [s]
        if op == "==" and (a == ("c", 0) and is_new(b) or b == ("c", 0) and is_new(a)):
            # what was just made is not null
            return ([s], []) if neg else ([], [s])
        # normalise: constants on the right for ==; x < c / c < x kept with flag
        if op == "==" and a[0] == "c":
            a, b = b, a
        if op == "<" and a[0] == "c":
            # c < x   <=>  not (x < c+1) for ints
            if isinstance(a[1], int):
                atom = (b[1], "<", a[1] + 1)
                neg = not neg
            else:
                atom = (str(a[1]), "<", b[1])
        elif b[0] == "c":
            atom = (a[1], op, b[1])
        else:
            x, y = a[1], b[1]
            if x == y:
                r = (op == "==") != neg
                return ([s], []) if r else ([], [s])
            if op == "==" and y < x:
                x, y = y, x
            atom = (x, op, "$" + y)
        d = self.decide(s, atom)
        if d is not None:
            r = d != neg
            return ([s], []) if r else ([], [s])
        st = self.cl.fact(self, s.with_fact(atom, True), atom, True, line)
        sf = self.cl.fact(self, s.with_fact(atom, False), atom, False, line)
        T = [st] if st is not None else []
        F = [sf] if sf is not None else []
        return (F, T) if neg else (T, F)

    def decide(self, s, atom):
        f = s.facts.get(atom)
        if f is not None:
            return f
        x, op, c = atom
        if isinstance(c, str) and c.startswith("$"):
            y = c[1:]
            if op == "<":
                if s.facts.get((y, "<", "$" + x)) is True:
                    return False
                e = s.facts.get((x, "==", c) if x < y else (y, "==", "$" + x))
                if e is True:
                    return False
            elif op == "==":
                if s.facts.get((x, "<", c)) is True or s.facts.get((y, "<", "$" + x)) is True:
                    return False
            return None
        rel = [(o2, c2, t) for (x2, o2, c2), t in s.facts.items() if x2 == x and type(c2) is type(c)]
        if not rel:
            return None
        if isinstance(c, str):
            for o2, c2, t in rel:
                if o2 == "==" and t:
                    return c2 == c if op == "==" else None
            return None
        consts = sorted({c2 for _, c2, _ in rel} | {c})
        cands = set()
        for v in consts:
            cands |= {v - 1, v, v + 1}
        res = set()
        for v in cands:
            ok = all(((v == c2) if o2 == "==" else (v < c2)) == t for o2, c2, t in rel)
            if ok:
                res.add((v == c) if op == "==" else (v < c))
        if len(res) == 1:
            return res.pop()
        return None

    # ------------------------------------------------------------------ calls
    def ev_args(self, nodes, s):
        cur = [(s, ())]
        for a in nodes:
            nxt = []
            for s2, vs in cur:
                for s3, v in self.ev(a, s2):
                    nxt.append((s3, vs + (v,)))
            # merge states with equal argument values
            g = {}
            for s3, vs in nxt:
                g.setdefault(vs, []).append(s3)
            cur = [(x, vs) for vs, ss in g.items() for x in merge(ss, self.cap)]
        return cur

    def ev_call(self, n, s):
        k = n["k"]
        f = n.get("f", "")
        name = f.rsplit("::", 1)[-1]
        out = []
        # object
        objs = [(s, None)]
        if k == "call" and n.get("o") is not None:
            objs = self.ev(n["o"], s)
            # for value objects the location matters more than the value
            r = []
            for s2, v in objs:
                if v[0] in ("s", "l", "f"):
                    r.append((s2, v))
                else:
                    for s3, l in self.loc(n["o"], s2) if n["o"]["k"] in ("ref", "mem", "this", "sub") else [(s2, None)]:
                        r.append((s3, ("s", l) if l and v[0] != "c" else v))
            objs = r
        elif n.get("fe") is not None:
            objs = self.ev(n["fe"], s)
        for s1, ov in objs:
            for s2, vals in self.ev_args(n["a"], s1):
                out += self.apply(n, s2, ov, vals, f, name)
        return out

    def apply(self, n, s, ov, vals, f, name):
        k = n["k"]
        cls = n.get("cls", "")
        ot = n.get("ot", "")
        # --- transparent std helpers
        if k == "call":
            if f in PASS1 and vals:
                return [(s, vals[0])]
            if ov is not None and n.get("op") in ("*", "->") and (cls.startswith("std::") or cls.startswith("__gnu_cxx")):
                if cls.startswith(SMART) or cls.startswith("std::optional") or cls.startswith("std::_Optional"):
                    return [(s, ov)]
                if ov[0] == "s":
                    return [(s, ("s", self.visited(ov[1]) + "[*]"))]
                return [(s, TOP)]
            if ov is not None and name == "get" and cls.startswith(SMART):
                return [(s, ov)]
            if ov is not None and name == "lock" and cls.startswith("std::weak_ptr"):
                return [(s, ov)]
            if ov is not None and name == "operator bool" and cls.startswith("std::"):
                t, fl = self.compare(s, ov, "!=", ("c", 0), n["l"])
                return [(x, ("c", 1)) for x in t] + [(x, ("c", 0)) for x in fl]
            if n.get("op") in ("==", "!=", "<", ">", "<=", ">=") and not self.user_op(n):
                a, b = (ov, vals[0]) if ov is not None else (vals[0], vals[1])
                t, fl = self.compare(s, a, n["op"], b, n["l"])
                return [(x, ("c", 1)) for x in t] + [(x, ("c", 0)) for x in fl]
            if n.get("op") in ("/", "+") and (f.startswith("std::operator") or f.startswith("std::filesystem::operator")):
                parts = ([ov] if ov is not None else []) + list(vals)
                v = self.cl.concat(self, s, n["op"], parts)
                if v is not None:
                    return [(s, v)]
                a = [self.vstr(v) for v in parts]
                if "?" not in a:
                    return [(s, ("s", "(%s %s %s)" % (a[0], n["op"], a[1])))]
            if f.endswith("::sys::with_suffix") and len(vals) == 2:
                return [(s, ("s", "with_suffix(%s,%s)" % (self.vstr(vals[0]), self.vstr(vals[1]))))]
            if ov is not None and ov[0] in ("s", "c") and cls.startswith("std::filesystem::path") and f.rsplit("::", 1)[-1].startswith("operator ") \
                    and "basic_string" in f:
                return [(s, ov)]
            if ov is not None and cls.startswith(("std::basic_string<", "std::filesystem::path")) and \
                    name in ("operator+=", "operator/=", "append", "assign", "clear", "push_back", "resize", "erase",
                             "insert", "replace", "pop_back", "replace_extension", "remove_filename", "replace_filename"):
                res = []
                for s2, l in self.loc(n["o"], s):
                    v = self.cl.concat(self, s2, name, [ov] + list(vals)) if l is not None else None
                    if v is not None:
                        res.append((self.set_loc(s2, l, v, n), v))
                        continue
                    if l is not None:
                        s2 = self.set_loc(s2, l, ("s", "%s'%d" % (l, n["l"])), n)
                    ev = self.event(n, s2, ("s", l) if l else ov, vals, f)
                    r = self.cl.call(self, s2, ev)
                    res += r if r is not None else [(s2, ("s", l) if l else ov)]
                return res
            if n.get("op") == "=" and ov is not None and cls.startswith("std::") and vals:
                res = []
                for s2, l in self.loc(n["o"], s):
                    if l is not None:
                        s2 = self.set_loc(s2, l, vals[0], n)
                    res.append((s2, vals[0]))
                return res
            if name == "reset" and cls.startswith(SMART) and ov is not None:
                res = []
                for s2, l in self.loc(n["o"], s):
                    ev = self.event(n, s2, ov, vals, f)
                    r = self.cl.call(self, s2, ev)
                    ss = [x for x, _ in r] if r is not None else [s2]
                    for s3 in ss:
                        if l is not None:
                            s3 = self.set_loc(s3, l, vals[0] if vals else ("c", 0), n)
                        res.append((s3, ("void",)))
                return res
        else:
            t = n.get("t", "")
            if t.startswith("const "):
                t = t[6:]
            if n.get("cm") and vals and not self.has_body_ctor(n):
                return [(s, vals[0])]
            if t.startswith(("std::function<",) + SMART) or t.startswith("std::basic_string_view") or t.startswith("std::optional<"):
                if vals:
                    return [(s, vals[0])]
                return [(s, ("c", 0))]
            if (t.startswith("std::basic_string<") or t.startswith("std::__cxx11::basic_string") or t.startswith("std::filesystem::") or t == "std::string") and vals:
                if vals[0][0] in ("c", "s"):
                    if len(vals) > 1:
                        self.cl.text(self, s, vals, n)
                    return [(s, vals[0])]
        # --- indirect calls
        target = None
        if name == "operator()" and ov is not None and ov[0] in ("l", "f"):
            target = ov
        elif n.get("fe") is not None and ov is not None and ov[0] in ("l", "f"):
            target = ov
        ev = self.event(n, s, ov, vals, f)
        self.n_calls += 1
        # a lambda of the code under analysis called by name is just followed
        local = target is not None and target[0] == "l" and target[1] in self.lambdas and not ev.cls.startswith("std::")
        r = None if local else self.cl.call(self, s, ev)
        if r is not None:
            return r
        if target is not None:
            if target[0] == "l" and target[1] in self.lambdas:
                node, owner = self.lambdas[target[1]]
                return self.inline_lambda(node, owner, target, s, vals, n)
            if target[0] == "f" and target[1] in self.db.functions:
                fn = self.db.functions[target[1]]
                if self.should_inline(ev, fn, s):
                    return self.inline(fn, s, None, vals, n)
        # --- assignment of plain structures
        if n.get("op") == "=" and ov is not None and vals and n.get("o") is not None:
            m = self.db.method_of.get(n.get("id"))
            if m and m[1].get("implicit") and vals[0][0] == "s":
                res = []
                for s2, l in self.loc(n["o"], s):
                    res.append((self.set_loc(s2, l, vals[0], n) if l is not None else s2, vals[0]))
                return res
        # --- make_shared / make_unique
        if f in ("std::make_shared", "std::make_unique"):
            return self.opaque(n, s, ev, ("s", "new(%s)@%d" % (n.get("t", ""), n["l"])))
        fid = n.get("id")
        cands = None
        if fid:
            if n.get("virt") and not n.get("qual"):
                ids = all_overriders(self.db, fid)
                cands = [self.db.functions[i] for i in ids if i in self.db.functions]
                if len(cands) > 1 and not self.cl.inline_virtual(self, s, ev, cands):
                    cands = []
                elif len(cands) > 1:
                    r = self.cl.inline_virtual(self, s, ev, cands)
                    if isinstance(r, list):
                        cands = r
                elif len(cands) == 1 and len(ids) > 1:
                    cands = []
            elif fid in self.db.functions:
                cands = [self.db.functions[fid]]
        if cands:
            todo = [fn for fn in cands if self.should_inline(ev, fn, s)]
            if todo:
                res = []
                for fn in todo:
                    this = ov
                    if k == "ctor":
                        this = ("s", "tmp%s:%d" % (self.tuidx(), n["l"]))
                        if id(n) in self.ctor_this:
                            this = ("s", self.ctor_this[id(n)] or s.env.get("@this", ("s", "this"))[1])
                        res += [(x, this) for x, _ in self.inline(fn, s, this, vals, n)]
                        continue
                    res += self.inline(fn, s, this, vals, n)
                return res
        # lambdas handed to code that is not analysed: it may call them
        # any number of times
        lams = [v for v in vals if v[0] == "l" and v[1] in self.lambdas]
        for v in lams:
            node, owner = self.lambdas[v[1]]
            if self.interesting is not None and v[1] not in self.interesting:
                continue
            def body(ss):
                o = Out()
                for x in ss:
                    thr = []
                    self.thr.append(thr)
                    args = [("s", "larg%d@%d" % (i, n["l"])) for i in range(len(node["params"]))]
                    x = self.cl.iter_begin(self, x, ev, node)
                    o.norm += [self.cl.iter_end(self, y, ev, node, "end", val) for y, val in
                               self.inline_lambda(node, owner, v, x, args, n)]
                    self.thr.pop()
                    o.thr += thr
                return o
            lo = self.loop([s], lambda x: ([x], [x]), body)
            for x, t, l in lo.thr:
                self.throw(x, t, l)
            res = []
            for x in lo.norm:
                res += self.opaque(n, x, ev)
            return res
        if k == "ctor" and not vals:
            rec = self.db.records.get(cls)
            if rec and not self.has_body_ctor(n):
                res = []
                for x, v in self.opaque(n, s, ev):
                    if v[0] == "s":
                        for fd in rec["fields"]:
                            c = self.const(fd["i"]) if fd.get("i") else None
                            if c is not None:
                                x = x.with_env(v[1] + "." + fd["n"], c if isinstance(c, tuple) else ("c", c))
                    res.append((x, v))
                return res
        return self.opaque(n, s, ev)

    @staticmethod
    def peel(n):
        while n is not None and n["k"] in ("full", "temp", "icast", "cast", "defarg"):
            n = n["e"]
        return n

    def has_body_ctor(self, n):
        return False

    def user_op(self, n):
        return n.get("id") in self.db.functions and self.interesting and n["id"] in self.interesting

    def event(self, n, s, ov, vals, f):
        ev = Event()
        ev.f = f
        ev.id = n.get("id")
        ev.node = n
        ev.obj = ov
        ev.args = vals
        ev.argn = n["a"]
        ev.line = n["l"]
        ev.fn = self.cur()
        ev.stack = self.stack
        ev.kind = n["k"]
        ev.cls = n.get("cls", "")
        ev.ot = n.get("ot", "")
        ev.t = n.get("t", "")
        ev.virt = n.get("virt", False)
        ev.flow = self
        return ev

    def should_inline(self, ev, fn, s):
        if len(self.stack) >= self.depth or any(f["id"] == fn["id"] for f in self.stack):
            return False
        w = self.cl.want_inline(self, s, ev, fn)
        if w is not None:
            return w
        if self.interesting is not None and fn["id"] in self.interesting:
            return True
        if any(v[0] == "l" and (self.interesting is None or v[1] in self.interesting) for v in ev.args):
            return True
        # small helpers: values flow through them
        if self.small and not fn.get("virt"):
            if "_nodes" not in fn:
                fn["_nodes"] = sum(1 for _ in walk(fn["body"]))
            if fn["_nodes"] <= 40:
                return True
            return fn["rel"] == self.stack[0]["rel"] and fn["_nodes"] <= self.small * 12
        return False

    def inline(self, fn, s, this, vals, n):
        self.n_inlined += 1
        self.funcs_seen.add(fn["id"])
        saved = s.env.get("@this")
        e = dict(s.env)
        if this is not None and this[0] == "s":
            e["@this"] = this
        elif this is not None:
            e["@this"] = ("s", "obj@%d" % (n["l"] if n else 0))
        self.stack.append(fn)
        for i, p in enumerate(fn["params"]):
            key = self.vkey(p)
            v = vals[i] if i < len(vals) else TOP
            argn = n["a"][i] if n and i < len(n["a"]) else None
            if p.get("ref"):
                # bind to the location of the argument when there is one
                self.stack.pop()
                lv = None
                if argn is not None:
                    base = argn
                    while base["k"] in ("full", "temp", "icast", "defarg"):
                        base = base["e"]
                    if base["k"] in ("ref", "mem", "sub", "un") and v[0] not in ("l", "f"):
                        r = self.loc(base, s)
                        if len(r) == 1:
                            lv = r[0][1]
                self.stack.append(fn)
                if lv is not None:
                    self.refvars[key] = True
                    e[key] = ("s", lv)
                    continue
                self.refvars.pop(key, None)
            e[key] = v if v[0] not in ("t", "void") else ("s", key)
        st = State(s.auto, e, s.facts, s.trace)
        o = self.body(fn, [st])
        names = None
        self.stack.pop()
        res = []
        pref = self.locals_of(fn)
        for x in o.norm:
            res.append((self.leave(x, saved, pref), ("void",)))
        for x, v, l in o.ret:
            res.append((self.leave(x, saved, pref), v))
        for x, t, l in o.thr:
            self.throw_raw(self.leave(x, saved, pref), t, n["l"] if n else l)
        g = {}
        for x, v in res:
            g.setdefault(v, []).append(x)
        return [(y, v) for v, ss in g.items() for y in merge(ss, self.cap)]

    def throw_raw(self, s, t, line):
        if self.thr:
            self.thr[-1].append((s, t, line))

    def locals_of(self, fn):
        r = fn.get("_locals")
        if r is None:
            r = set()
            for p in fn["params"]:
                r.add((p["n"], p["id"]))
            for x in walk(fn["body"]):
                if x["k"] == "decl":
                    for v in x["v"]:
                        r.add((v["n"], v["id"]))
                        for b in v.get("bind", ()):
                            r.add((b["n"], b["id"]))
                elif x["k"] == "forr":
                    r.add((x["var"]["n"], x["var"]["id"]))
                elif x["k"] == "lambda":
                    for p in x["params"]:
                        r.add((p["n"], p["id"]))
            fn["_locals"] = r
        k = "tu:" + fn["tu"]
        if k not in self.fnidx:
            self.fnidx[k] = len(self.fnidx) + 1
        i = self.fnidx[k]
        return {"%s#%s.%s" % (a, i, b) for a, b in r}

    def leave(self, s, saved, pref):
        e = {}
        for k, v in s.env.items():
            if k == "@this":
                continue
            b = k.split(".", 2)
            if k in pref:
                continue
            i = k.find("#")
            if i >= 0:
                # name#tu.id[.field...]
                j = k.find(".", i)
                m = k.find(".", j + 1)
                if m > 0 and k[:m] in pref:
                    continue
            e[k] = v
        if saved is not None:
            e["@this"] = saved
        return State(s.auto, e, s.facts, s.trace)

    def inline_lambda(self, node, owner, clo, s, vals, n):
        this = clo[2]
        if len(self.stack) >= self.depth or any(f["id"] == node["id"] for f in self.stack):
            return self.opaque(n, s, self.event(n, s, None, vals, "lambda"))
        fn = {"id": node["id"], "q": owner["q"] + "::<lambda>", "rel": owner["rel"], "file": owner["file"],
              "tu": owner["tu"], "params": node["params"], "body": node["b"], "line": node["l"],
              "end": node["b"].get("el", node["l"])}
        cached = self.lazy.get(("lam", node["id"]))
        if cached:
            fn = cached
        else:
            self.lazy[("lam", node["id"])] = fn
        d = len(self.stack) + 1
        saved = self.over.get(d)
        self.over[d] = dict(clo[3]) if len(clo) > 3 else {}
        try:
            return self.inline(fn, s, ("s", this), vals, n)
        finally:
            if saved is None:
                self.over.pop(d, None)
            else:
                self.over[d] = saved

    def is_pure(self, n):
        f = n.get("f", "")
        name = f.rsplit("::", 1)[-1]
        if n["k"] == "ctor":
            return True
        cls = n.get("cls", "")
        if cls.startswith("std::") or cls.startswith("__gnu_cxx"):
            return name in PURE_STD
        m = self.db.method_of.get(n.get("id"))
        if m:
            return bool(m[1].get("const"))
        return False

    def opaque(self, n, s, ev, val=None):
        if n.get("nr"):
            self.throw(s, "noreturn" if ev.name in ("exit", "abort", "_exit") else "any", n["l"])
            return []
        pure = self.is_pure(n)
        if not n.get("nt") and self.can_throw(n, ev) and self.cl.may_throw(self, s, ev):
            self.throw(s, "any", n["l"])
        if val is None:
            o = self.vstr(ev.obj) if ev.obj is not None else None
            name = ev.name or "fn"
            a = ",".join(self.vstr(v) for v in ev.args)
            if len(a) > 100:
                a = a[:100]
            if pure and (o or a):
                sym = "%s.%s(%s)" % (o, name, a) if o is not None else "%s(%s)" % (name, a)
            else:
                sym = "%s(%s)@%s:%d" % (name, a, self.tuidx(), n["l"])
                s = s.drop_facts(lambda f: self.mentions(f[0], sym) or self.mentions(f[2], sym))
            val = ("s", sym) if "?" not in sym else ("s", "%s()@%s:%d" % (name, self.tuidx(), n["l"]))
            if n.get("t") == "void":
                val = ("void",)
        if not pure:
            if ev.obj is not None and ev.obj[0] == "s" and ev.name in ("operator++", "operator--", "operator+=", "operator-=") and \
                    not ev.cls.startswith("std::basic_string"):
                # an iterator that moves: what is known of it and of its element no longer holds
                p = ev.obj[1]
                q = self.visited(p) + "[*]"
                s = s.drop_facts(lambda f: any(isinstance(x, str) and (x == p or x == "$" + p or p + "[*]" in x or p + "->" in x or q in x)
                                               for x in (f[0], f[2])))
            if ev.obj is not None and ev.obj[0] == "s":
                p = ev.obj[1] + "."
                s = s.drop_facts(lambda f: any(isinstance(x, str) and p in x and "(" in x.split(p, 1)[1] for x in (f[0], f[2])))
            for i, v in enumerate(ev.args):
                an = n["a"][i]
                while an["k"] in ("full", "temp", "defarg", "icast", "cast"):
                    an = an["e"]
                if an["k"] == "un" and an["op"] == "&" or (an["k"] in ("ref", "mem") and self.byref(n, i)):
                    base = an["e"] if an["k"] == "un" else an
                    r = self.loc(base, s)
                    if len(r) == 1 and r[0][1]:
                        l = r[0][1]
                        # out parameter: contents are new
                        s = self.forget(s, l)
                        if l in s.env and not l.startswith("this") and s.env[l][0] != "l" and not self.refvars.get(l):
                            s = s.with_env(l, ("s", "%s'%d" % (l, n["l"])))
        if ev.obj is not None and ev.obj[0] == "s" and ev.name in INSERTS and ev.cls.startswith("std::") and \
                (ev.name != "operator[]" or "map<" in ev.cls):
            s = s.drop_facts(lambda f: f[0] == ev.obj[1] + ".empty()")
            s = s.with_fact((ev.obj[1] + ".empty()", "==", 0), True)
        return [(s, val)]

    def byref(self, n, i):
        """is parameter i of the callee a non const reference?"""
        fn = self.db.functions.get(n.get("id"))
        if fn and i < len(fn["params"]):
            t = fn["params"][i]["t"]
            return t.endswith("&") and not t.startswith("const ")
        return False

    NOTHROW_STD = {
        "size", "empty", "length", "get", "c_str", "data", "begin", "end", "cbegin", "cend", "swap",
        "clear", "joinable", "operator bool", "operator->", "operator*", "operator()", "str",
    }

    def can_throw(self, n, ev):
        f = ev.f or ""
        if n["k"] == "ctor" and not n.get("id") in self.db.functions:
            return False
        cls = n.get("cls", "")
        if cls.startswith("std::") or f.startswith("std::") or cls.startswith("__gnu_cxx"):
            return ev.name == "operator()" and cls.startswith("std::function")
        if "::" not in f and n.get("id") not in self.db.functions and n.get("fe") is None:
            return False   # C library
        return True


def callgraph_reach(db, pred):
    """ids of functions and lambdas from which a call satisfying pred can be
    reached (through static calls, virtual dispatch, constructors, implicit
    destructors, lambdas defined in the body)."""
    rev = {}
    seeds = set()
    ctor_of = {}
    for fid, fn in db.functions.items():
        edges = fn.get("_edges")
        if edges is None:
            edges = fn["_edges"] = function_edges(db, fn)
        for owner, callee, node in edges:
            rev.setdefault(callee, set()).add(owner)
            if node is not None and pred(node):
                seeds.add(owner)
    # virtual dispatch: a call to a method may run any overrider
    out = set(seeds)
    todo = list(seeds)
    while todo:
        x = todo.pop()
        srcs = set(rev.get(x, ()))
        # callers that call something x overrides
        m = db.method_of.get(x)
        if m:
            stack = list(m[1]["over"])
            while stack:
                o = stack.pop()
                srcs |= rev.get(o, set())
                mm = db.method_of.get(o)
                if mm:
                    stack += mm[1]["over"]
        for y in srcs:
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


NEW = re.compile(r"new\([^()]*(\([^()]*\)[^()]*)*\)@\d+$")


def is_new(v):
    return v[0] == "s" and v[1].startswith("new(") and bool(NEW.match(v[1]))


def dtor_ids(db, typ, seen=None):
    """destructors run when an object of this type dies"""
    seen = seen if seen is not None else set()
    if typ in seen:
        return []
    seen.add(typ)
    out = []
    inner = typ
    for p in ("std::unique_ptr<", "std::shared_ptr<"):
        if inner.startswith(p):
            inner = inner[len(p):].split(",")[0].rstrip(">").strip()
    r = db.records.get(inner)
    if not r:
        return out
    for m in r["methods"]:
        if m.get("dtor"):
            out.append(m["id"])
            if m.get("virt") and inner != typ:
                pass
    for f in r["fields"]:
        out += dtor_ids(db, f["t"], seen)
    for b in r["bases"]:
        out += dtor_ids(db, b, seen)
    return out


def function_edges(db, fn):
    """(owner id, callee id, node) for every call in fn; owner is fn or the
    lambda the call is written in"""
    out = []

    def visit(n, owner):
        if isinstance(n, list):
            for x in n:
                visit(x, owner)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "lambda":
            out.append((owner, n["id"], None))
            for c in n["caps"]:
                if "i" in c:
                    visit(c["i"], owner)
            visit(n["b"], n["id"])
            return
        if k in ("call", "ctor"):
            if n.get("id"):
                out.append((owner, n["id"], n))
            else:
                out.append((owner, "?", n))
            if n.get("f") in ("std::make_shared", "std::make_unique"):
                t = n.get("t", "")
                inner = t[t.find("<") + 1:].split(",")[0].rstrip(">").strip() if "<" in t else ""
                for m in db.records.get(inner, {"methods": ()})["methods"]:
                    if m.get("ctor"):
                        out.append((owner, m["id"], None))
        elif k == "ref" and n.get("d") == "func":
            out.append((owner, n["id"], None))
        elif k == "decl":
            for v in n["v"]:
                if v.get("dt"):
                    for d in dtor_ids(db, v["dt"]):
                        out.append((owner, d, None))
        elif k == "temp":
            for d in dtor_ids(db, n["dt"]):
                out.append((owner, d, None))
        elif k == "delete":
            for d in dtor_ids(db, n["t"]):
                out.append((owner, d, None))
        for key, v in n.items():
            if isinstance(v, (dict, list)) and key != "params":
                visit(v, owner)

    for i in fn.get("inits", ()):
        visit(i["e"], fn["id"])
    visit(fn["body"], fn["id"])
    if fn.get("dtor"):
        r = db.records.get(fn.get("cls"))
        if r:
            for f in r["fields"]:
                for d in dtor_ids(db, f["t"]):
                    out.append((fn["id"], d, None))
            for b in r["bases"]:
                for d in dtor_ids(db, b):
                    out.append((fn["id"], d, None))
    return out
