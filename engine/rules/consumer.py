"""A consumer that asks to stop is never called again, and the request to stop
reaches the caller."""
from rulebase import *

FT = "std::function<bool ("


def strip(n):
    while n is not None and n["k"] in ("full", "temp", "defarg", "icast", "cast"):
        n = n["e"]
    return n


class Consumer(Client):
    """automaton: go -> stop on a false return of the consumer"""

    def __init__(self, rep, root, syms, holders=(), reach=(), name=None):
        self.holders = holders
        self.reach = reach
        self.protocol = root["rt"] == "bool"
        self.rep = rep
        self.root = root
        self.syms = syms    # symbolic names of the consumer
        self.calls = 0
        self.fwd = 0
        self.holdvars = {}      # pointers to objects the consumer was handed to

    def assign(self, fl, st, loc, val, node):
        if isinstance(val, tuple) and val[0] == "s" and val[1].startswith("holder:"):
            self.holdvars[loc] = val
        return st

    def held(self, v):
        if v is None or v[0] != "s":
            return False
        return v[1].startswith("holder:") or v[1].split("'")[0] in self.holdvars

    def is_consumer(self, v):
        return v is not None and v[0] == "s" and v[1] in self.syms

    def carries(self, fl, v):
        """does this value deliver to the consumer?"""
        if self.is_consumer(v):
            return True
        if v is not None and v[0] == "l" and v[1] in fl.lambdas:
            return self.lambda_delivers(fl, v[1])
        return False

    def lambda_delivers(self, fl, lid):
        node, owner = fl.lambdas[lid]
        names = {s.split("#")[0].split(".")[-1] for s in self.syms}
        for x in walk(node["b"]):
            if x["k"] in ("call", "ctor"):
                cand = list(x["a"]) + [x.get("o")]
                for a in cand:
                    a = strip(a)
                    if a and a["k"] == "call" and (a.get("f") in ("std::move", "std::forward") or a.get("op") in ("->", "*")):
                        a = strip(a["a"][0] if a["a"] else a.get("o"))
                    if a and a["k"] in ("ref", "mem") and (a["n"] in names or holder_type(self.holders, a.get("t", ""))):
                        return True
        return False

    def holder_call(self, fl, st, ev):
        """a method of an object the consumer was handed to"""
        m = fl.db.method_of.get(ev.id)
        if m and m[1].get("const"):
            if ev.t == "bool":
                return [(st, ("c", 1 if st.auto == "stop" else 0))]
            return None
        if ev.id not in self.reach and ev.name != "perform":
            return None
        self.fwd += 1
        fl.throw(st, "any", ev.line)
        if ev.t == "bool":
            return self.deliver(fl, st, ev, "a call that delivers to the consumer")
        return [(st, ("void",)), (st.with_auto("stop", ev.where() + " the consumer, called here, returns false"), ("void",))]

    def deliver(self, fl, st, ev, what):
        if st.auto == "stop":
            self.rep.bad("called-after-stop", self.root["q"], ev.where(),
                         "%s is reached after the consumer returned false: %s" % (what, short(ev.f or "consumer")),
                         st.steps(), "")
        sym = ("s", "delivered@%s:%d" % (ev.where(), ev.line))
        note = "%s consumer called" % ev.where()
        t = st
        f = st.with_auto("stop", note + ", it returns false")
        return [(t, ("c", 1)), (f, ("c", 0))]

    def call(self, fl, st, ev):
        # the consumer itself
        if ev.name == "operator()" and self.is_consumer(ev.obj):
            self.calls += 1
            fl.throw(st, "any", ev.line)
            return self.deliver(fl, st, ev, "the consumer")
        if ev.kind == "call" and self.held(ev.obj):
            r = self.holder_call(fl, st, ev)
            if r is not None:
                return r
        carriers = [v for v in ev.args if self.carries(fl, v)]
        if not carriers:
            return None
        t = ev.t
        if ev.kind == "ctor" or t.startswith("std::function<"):
            if t.startswith("std::function<"):
                return [(st, carriers[0])]
            if ev.kind == "ctor" and t in self.holders:
                return [(st, ("s", "holder:%s@%d" % (t, ev.line)))]
            return None
        if ev.name in ("make_unique", "make_shared") and "<" in t:
            h = t[t.find("<") + 1:].split(",")[0].rstrip("> ")
            if h in self.holders:
                return [(st, ("s", "holder:%s@%d" % (h, ev.line)))]
        lam = [v for v in carriers if v[0] == "l"]
        if t == "bool":
            self.fwd += 1
            fl.throw(st, "any", ev.line)
            if not lam:
                return self.deliver(fl, st, ev, "a call that delivers to the consumer")
            # protocol: calls the closure until it returns false, returns
            # whether it never did
            if st.auto == "stop":
                self.rep.bad("called-after-stop", self.root["q"], ev.where(),
                             "a call that delivers to the consumer is reached after the consumer returned false",
                             st.steps(), "")
            node, owner = fl.lambdas[lam[0][1]]
            done, cur, seen = [], [st], set()
            true_states = [st]
            while cur:
                nxt = []
                for s in cur:
                    args = [("s", "larg%d@%d" % (i, ev.line)) for i in range(len(node["params"]))]
                    for s2, v in fl.inline_lambda(node, owner, lam[0], s, args, ev.node):
                        if v == ("c", 0):
                            done.append(s2)
                        elif v == ("c", 1):
                            nxt.append(s2)
                        else:
                            done.append(s2)
                            nxt.append(s2)
                cur = [s for s in nxt if s.key() not in seen]
                for s in cur:
                    seen.add(s.key())
                true_states += cur
            for s in true_states:
                if s.auto == "stop":
                    self.rep.bad("stop-swallowed", self.root["q"], ev.where(),
                                 "a closure goes on after the consumer it delivers to returned false",
                                 s.steps(), "closure")
            return [(s, ("c", 1)) for s in true_states if s.auto != "stop"] + [(s, ("c", 0)) for s in done]
        return None

    def on_return(self, fl, st, val, node):
        if self.protocol and node is not None:
            ln = node["l"]
            if st.auto == "stop" and val != ("c", 0):
                self.rep.bad("stop-swallowed", self.root["q"], where(self.root, ln),
                             "returns success although the consumer asked to stop", st.steps(), "")
            if st.auto == "go" and val == ("c", 0):
                self.rep.bad("stop-invented", self.root["q"], where(self.root, ln),
                             "returns false (stopped by the consumer) on a path where the consumer never returned false",
                             st.steps(), "")
        return st


def holder_type(holders, t):
    return any(h in t for h in holders)


# The stop request crosses the Python interpreter here: what the Python method
# returns is not visible to this analysis.
EXEMPT = {"arki::python::dataset::PyDatasetReader::impl_query_data"}


def field_holders(db):
    """classes that keep a consumer in a field, directly or inside a field"""
    direct = {}
    for r in db.records.values():
        for f in r["fields"]:
            # a function that takes a consumer is not a consumer
            if f["t"].startswith(FT) and not f["t"].startswith(FT + "std::function<"):
                direct.setdefault(r["name"], []).append(f["n"])
    holders = set(direct)
    grow = True
    while grow:
        grow = False
        for r in db.records.values():
            if r["name"] not in holders and any(f["t"] in holders for f in r["fields"]):
                holders.add(r["name"])
                grow = True
    return direct, holders


def check(db, rep):
    rep.rule("on every path of every function that delivers to a bool-returning consumer (parameter or member), after "
             "the consumer returned false it is not called again, and the function returns false exactly on those paths")
    direct, holders = field_holders(db)
    # holders relevant here: those delivering metadata
    reach = callgraph_reach(db, lambda n: n.get("f", "").endswith("operator()") and n.get("cls", "").startswith(FT))
    roots = []
    for fn in db.functions.values():
        if "/utils/tests" in fn["rel"] or fn["rel"].startswith("src/"):
            continue
        if fn["q"] in EXEMPT:
            rep.count("exempt functions")
            continue
        ps = [p for p in fn["params"] if p["t"].startswith(FT) and p["n"]]
        if ps and not fn.get("ctor"):
            roots.append((fn, ps))
    total_calls = 0
    for fn, ps in sorted(roots, key=lambda x: (x[0]["rel"], x[0]["line"], x[0]["id"])):
        syms = set()
        cl = Consumer(rep, fn, syms, holders, reach)
        fl = Flow(db, cl, interesting=set())
        fl.stack = [fn]
        for p in ps:
            syms.add(fl.vkey(p))
        fl.run(fn, "go")
        rep.count("functions taking a consumer", 1)
        total_calls += cl.calls + cl.fwd
        for u in fl.unsupported:
            rep.errors.append(u)
        rep.site("functions taking a consumer", "%s (%s): %d deliveries" % (short(fn["q"]), where(fn), cl.calls + cl.fwd))
        # closures that wrap the consumer for someone else to call
        for x in walk(fn["body"]):
            if x["k"] == "lambda" and x["rt"] == "bool":
                cl2 = Consumer(rep, fn, syms, holders, reach)
                fl2 = Flow(db, cl2, interesting=set())
                fl2.stack = [fn]
                lf = {"id": x["id"], "q": fn["q"], "rel": fn["rel"], "file": fn["file"], "tu": fn["tu"],
                      "params": x["params"], "body": x["b"], "line": x["l"], "end": x["b"].get("el", x["l"]), "rt": "bool"}
                if not any(y["k"] == "call" and y.get("f", "").endswith("operator()") and
                           (strip(y.get("o")) or {}).get("n") in {p["n"] for p in ps} for y in walk(x["b"])):
                    continue
                cl2.root = dict(fn, rt="bool")
                cl2.holdvars = cl.holdvars
                cl2.protocol = True
                cl2.lambda_root = True
                fl2.run(lf, "go")
                rep.count("closures wrapping a consumer", 1)
    # members
    for cname, fields in sorted(direct.items()):
        rec = db.records[cname]
        if "tests" in rec["rel"] or rec["rel"].startswith("arki/utils/files"):
            continue
        latch = None
        for m in rec["methods"]:
            f = db.functions.get(m["id"])
            if f and m.get("const") and f["rt"] == "bool" and not f["params"]:
                for x in walk(f["body"]):
                    if x["k"] == "ret" and strip(x.get("e")) and strip(x["e"])["k"] == "mem":
                        latch = strip(x["e"])["n"]
        for m in rec["methods"]:
            f = db.functions.get(m["id"])
            if not f or m.get("ctor") or m.get("dtor"):
                continue
            if f["id"] not in reach:
                continue
            syms = {"this." + x for x in fields}
            starts = [("go", {})]
            if latch:
                starts = [("go", {"this." + latch: ("c", 0)}), ("stop", {"this." + latch: ("c", 1)})]
            for auto, env in starts:
                cl = Consumer(rep, f, syms, holders, reach)
                if latch:
                    cl.protocol = False
                fl = Flow(db, cl, interesting=reach)
                out = fl.run(f, auto, env)
                total_calls += cl.calls
                if latch:
                    for s, v, ln in out.ret:
                        if s.auto == "stop" and s.env.get("this." + latch) != ("c", 1):
                            rep.bad("stop-forgotten", f["q"], where(f, ln),
                                    "the consumer returned false but '%s' is not set when the function returns" % latch,
                                    s.steps())
            rep.count("methods delivering to a stored consumer", 1)
            rep.site("methods delivering to a stored consumer", "%s (%s)%s" % (short(f["q"]), where(f), " latch " + latch if latch else ""))
    rep.count("delivery call sites analysed", total_calls)
    rep.need("functions taking a consumer", 60)
    rep.need("methods delivering to a stored consumer", 4)
    rep.need("delivery call sites analysed", 100)
    for q in ("arki::dataset::simple::Reader::impl_query_data", "arki::dataset::iseg::Reader::impl_query_data",
              "arki::dataset::merged::Reader::impl_query_data", "arki::metadata::sort::Stream::add",
              "arki::metadata::Stream::checkMetadata", "arki::metadata::Collection::move_to"):
        rep.anchor(fns(db, q), q)
