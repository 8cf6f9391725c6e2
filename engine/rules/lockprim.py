"""What the lock classes hold: derived by following their constructors and
destructors down to the fcntl call."""
from rulebase import *

L = "arki::core::lock::"
UNL = {2: "unlock", 0: "read", 1: "write"}     # F_RDLCK 0, F_WRLCK 1, F_UNLCK 2
SETLK, SETLKW = (6, 37), (7, 38)
INF = 1 << 62


class Locks(Client):
    """automaton: frozenset of (type, first, last) ranges held"""

    def __init__(self, rep, root, policy):
        self.rep, self.root, self.policy = rep, root, policy
        self.n = 0
        self.bad = []

    def inline_virtual(self, fl, st, ev, cands):
        if "lock::Policy" in ev.f or "lock::OFDPolicy" in ev.f:
            return [f for f in cands if f["q"].startswith(self.policy + "::")]
        return False

    def call(self, fl, st, ev):
        if ev.name == "shared_from_this" and ev.obj:
            return [(st, ev.obj)]
        if ev.name == "expired" and "weak_ptr" in ev.cls:
            return [(st, ("c", 1)), (st.with_auto(frozenset({("write", 0, 2)})), ("c", 0))]
        if ev.f != "fcntl":
            return None
        cmd = ev.args[1][1] if len(ev.args) > 1 and ev.args[1][0] == "c" else None
        if cmd not in SETLK + SETLKW:
            return None
        self.n += 1
        p = ev.args[2][1] if len(ev.args) > 2 and ev.args[2][0] == "s" else None
        vals = []
        for x in ("l_type", "l_whence", "l_start", "l_len"):
            v = st.env.get("%s.%s" % (p, x))
            vals.append(v[1] if v is not None and v[0] == "c" else None)
        if None in vals:
            self.bad.append((ev, "the range passed to the lock call is not known", st.steps()))
            return [(st, ("c", 0))]
        t, w, s, l = vals
        if w != 0:
            self.bad.append((ev, "the lock range is not relative to the start of the file", st.steps()))
        e = s + l if l else INF
        held = set()
        for ht, a, b in st.auto:
            # cut the range out
            if b <= s or a >= e:
                held.add((ht, a, b))
                continue
            if a < s:
                held.add((ht, a, s))
            if b > e:
                held.add((ht, e, b))
        if t != 2:
            held.add((UNL.get(t, "?"), s, e))
        ok = st.with_auto(frozenset(norm_ranges(held)), "%s %s bytes %d..%s" % (
            ev.where(), UNL.get(t, "?"), s, "end" if e == INF else e - 1))
        res = [(ok, ("c", 0))]
        if t != 2:
            res.append((st.drop_facts(lambda a: fl.mentions(a[0], "errno")), ("c", -1)))
        return res


def norm_ranges(h):
    out = []
    for t, a, b in sorted(h, key=lambda x: (x[0], x[1])):
        if out and out[-1][0] == t and out[-1][2] >= a:
            out[-1] = (t, out[-1][1], max(b, out[-1][2]))
        else:
            out.append((t, a, b))
    return out


def conflict(h1, h2):
    for t1, a1, b1 in h1:
        for t2, a2, b2 in h2:
            if "write" in (t1, t2) and a1 < b2 and a2 < b1:
                return True
    return False


def show(h):
    return ", ".join("%s lock on bytes %d..%s" % (t, a, "end" if b == INF else b - 1) for t, a, b in sorted(h)) or "nothing"


def follow(db, rep, fn, start, reach, params=None, env=None):
    cl = Locks(rep, fn, L + "OFDPolicy")
    fl = Flow(db, cl, interesting=reach, depth=14)
    out = fl.run(fn, frozenset(start), env, params=params)
    for ev, msg, steps in cl.bad:
        rep.bad("lock-range-unknown", fn["q"], ev.where(), msg, steps)
    rep.count("lock constructors, destructors and upgrades followed to fcntl")
    rep.count("fcntl lock calls reached", cl.n)
    for u in fl.unsupported:
        rep.errors.append(u)
    return out


def check(db, rep):
    rep.rule("following each lock constructor to fcntl, every normal return holds one and the same set of byte ranges; "
             "from those sets: readers conflict exactly with the write upgrade, appenders and checkers with each other and "
             "with the upgrade; dropping the upgrade leaves exactly the check lock; requesting it twice yields the one held")
    rep.assumptions.append("fcntl range locks of the kernel exclude conflicting ranges between open file descriptions")
    reach = callgraph_reach(db, lambda n: n.get("f") == "fcntl")
    held = {}
    fields = {}
    for name in ("FileReadLock", "FileAppendLock", "FileCheckLock"):
        q = "%s%s::%s" % (L, name, name)
        f = fns(db, q)
        if not rep.anchor(f, q):
            continue
        out = follow(db, rep, f[0], (), reach)
        sets = {s.auto for s, v, l in out.ret}
        for s, v, l in out.ret:
            if len(sets) > 1 or not s.auto:
                if not s.auto:
                    rep.bad("lock-not-held", q, where(f[0]), "the constructor can return holding %s" % show(s.auto), s.steps())
        if len(sets) > 1 and frozenset() not in sets:
            rep.bad("lock-not-held", q, where(f[0]), "the ranges held depend on the path: %s" % " / ".join(show(x) for x in sets), [])
        if name == "FileCheckLock":
            for s, v, l in out.ret:
                fields.update({k[4:]: v for k, v in s.env.items() if k.startswith("this.") and v[0] == "c" and ".l_" in k})
        if sets:
            held[name] = min(sets, key=lambda x: sum(b - a for _, a, b in x))
            rep.site("held after construction", "%s: %s" % (name, show(held[name])))
    # the write upgrade
    up = [r for r in subclasses(db, "arki::core::CheckWriteLock")]
    for r in up:
        for m in db.records[r]["methods"]:
            f = db.functions.get(m["id"])
            if not f:
                continue
            if m.get("ctor") and f["id"] in reach:
                par = {p["n"]: ("s", "PARENT") for p in f["params"]}
                out = follow(db, rep, f, held.get("FileCheckLock", ()), reach, params=par,
                             env={"PARENT" + k: v for k, v in fields.items()})
                for s, v, l in out.ret:
                    held.setdefault("upgrade", s.auto)
                    if not covers(s.auto, [("write", 0, 2)]):
                        rep.bad("upgrade-not-held", f["q"], where(f), "the write upgrade can return holding only %s" % show(s.auto), s.steps())
                rep.count("write upgrades")
            if m.get("dtor") and f["id"] in reach:
                out = follow(db, rep, f, [("write", 0, 2)], reach,
                             env={"this." + x["n"] + k: v for x in db.records[r]["fields"] for k, v in fields.items()})
                for s, v, l in out.ret:
                    if s.auto != held.get("FileCheckLock"):
                        rep.bad("upgrade-release", f["q"], where(f), "after the write upgrade is dropped the checker holds %s, before it held %s" % (
                            show(s.auto), show(held.get("FileCheckLock", ()))), s.steps())
                rep.count("write upgrades released")
    # conflicts
    want = {("FileReadLock", "FileReadLock"): False, ("FileReadLock", "FileAppendLock"): False, ("FileReadLock", "FileCheckLock"): False,
            ("FileReadLock", "upgrade"): True, ("FileAppendLock", "FileAppendLock"): True, ("FileAppendLock", "FileCheckLock"): True,
            ("FileAppendLock", "upgrade"): True, ("FileCheckLock", "FileCheckLock"): True, ("FileCheckLock", "upgrade"): True,
            ("upgrade", "upgrade"): True}
    for (a, b), w in sorted(want.items()):
        if a not in held or b not in held:
            rep.anchor(False, "ranges of %s and %s" % (a, b))
            continue
        c = conflict(held[a], held[b])
        rep.count("lock pairs compared")
        if c != w:
            rep.bad("conflict-matrix", L + a, where(fns(db, "%s%s::%s" % (L, a, a))[0]) if a != "upgrade" else "arki/core/lock.cc",
                    "%s (%s) and %s (%s) %s" % (a, show(held[a]), b, show(held[b]),
                                                "exclude each other" if c else "do not exclude each other"), [], a + "/" + b)
    # asking for the upgrade
    for f in fns(db, L + "FileCheckLock::write_lock"):
        out = follow(db, rep, f, held.get("FileCheckLock", ()), reach, env={"this" + k: v for k, v in fields.items()})
        n = 0
        for s, v, l in out.ret:
            n += 1
            if not covers(s.auto, [("write", 0, 2)]) or v == ("c", 0):
                # the new upgrade is taken in a constructor reached through the allocation
                rep.bad("upgrade-missing", f["q"], where(f, l), "returns without holding the write upgrade (%s)" % show(s.auto), s.steps())
            if s.env.get("this.current_write_lock") is None and s.trace is not None:
                rep.bad("upgrade-not-shared", f["q"], where(f, l),
                        "a new upgrade is handed out without being remembered: a second request would take and drop its own", s.steps())
        rep.count("outcomes of asking for the write upgrade", n)
    # paths
    paths(db, rep)
    policy(db, rep)
    rep.need("lock constructors, destructors and upgrades followed to fcntl", 5)
    rep.need("lock pairs compared", 10)
    rep.need("write upgrades", 1)
    rep.need("write upgrades released", 1)
    rep.need("lock paths compared", 6)


def covers(h, want):
    return all(any(t == wt and a <= wa and b >= wb for t, a, b in h) for wt, wa, wb in want)


class Base(Client):
    def __init__(self):
        self.got = []

    def call(self, fl, st, ev):
        if ev.kind == "ctor" and ev.f.startswith(L + "File") and len(ev.args) == 2:
            self.got.append((ev, [fl.vstr(a) for a in ev.args]))
            return [(st, ("void",))]
        return None


def paths(db, rep):
    """locks of the same thing are locks of the same file"""
    import re
    groups = {}
    for kind, names in (("Dataset", ("DatasetReadLock", "DatasetAppendLock", "DatasetCheckLock")),
                        ("Segment", ("SegmentReadLock", "SegmentAppendLock", "SegmentCheckLock"))):
        for n in names:
            q = "arki::dataset::%s::%s" % (n, n)
            f = fns(db, q)
            if not rep.anchor(f, q):
                continue
            cl = Base()
            Flow(db, cl, interesting=set()).run(f[0], (), params={p["n"]: ("s", "P%d" % i) for i, p in enumerate(f[0]["params"])})
            for ev, args in cl.got:
                args = [re.sub(r"#\d+\.\d+", "", a) for a in args]
                groups.setdefault(kind, {}).setdefault(tuple(args), []).append((n, f[0]))
                rep.count("lock paths compared")
                rep.site("lock paths", "%s: %s" % (n, args[0]))
    for kind, g in groups.items():
        if len(g) > 1:
            best = max(g.values(), key=len)
            for args, l in g.items():
                if l is best:
                    continue
                for n, f in l:
                    rep.bad("lock-path", f["q"], where(f), "locks %s while the other locks of the same %s use another file or policy" % (
                        args[0], kind.lower()), [str(x) for x in g])


class Pol(Client):
    def call(self, fl, st, ev):
        if ev.name == "value" and ev.cls.endswith("cfg::Section") and ev.args and ev.args[0][0] == "c":
            return [(st, ("s", "cfg[%s]" % ev.args[0][1]))]
        if ev.cls.startswith("std::basic_string"):
            return None
        return None


def policy(db, rep):
    """locking is only off where the configuration says so"""
    rep.rule("the policy that does not lock is chosen only under the configuration value locking=no")
    n = 0
    for fn in sorted(db.functions.values(), key=lambda f: f["id"]):
        if "tests" in fn["rel"] or not any(x["k"] == "ref" and x.get("q") == L + "policy_null" for x in fbody(fn)):
            continue
        if fn["rel"] == "arki/core/lock.cc":
            continue
        n += 1
        fl = Flow(db, Pol(), interesting=set())
        out = fl.run(fn, ())
        for s, v, l in out.ret:
            for k, val in s.env.items():
                if val == ("s", L + "policy_null"):
                    if s.facts.get(("cfg[locking]", "==", "no")) is not True:
                        rep.bad("locking-off", fn["q"], where(fn, l), "%s is set to the policy that does not lock on a path where the configuration does not say locking=no" % k, s.steps())
    rep.count("places that can turn locking off", n)
    rep.need("places that can turn locking off", 1)
