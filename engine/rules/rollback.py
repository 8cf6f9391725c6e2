"""What is not committed leaves no trace; what is committed is on disk and is
not undone."""
import re
from rulebase import *
from failures import norm

TR = "arki::core::Transaction"
PEND = "arki::core::Pending"
ONESHOT = "arki::utils::sqlite::OneShotQuery"
DW = "arki::segment::data::Writer"
WRITES = ("write_data", "write", "pwrite", "write_all_or_throw", "write_all_or_retry", "ftruncate", "write_file", "writev")


# neither can fail
NEVER = ("arki::nag::warning",)


def clean(v):
    if isinstance(v, tuple):
        v = v[1] if len(v) > 1 else "?"
    v = str(v)
    v = re.sub(r"@[0-9]+:[0-9]+", "", v)
    v = re.sub(r"\.(c_str|native|string)\(\)$", "", v)
    m = re.match(r"File\((.*),-?[0-9]+(,-?[0-9]+)?\)\.path\(\)$", v)
    if m:
        v = m.group(1)
    return v


def effect(ev, sql=None):
    """what a call does to the file system or the database, for undoing"""
    n = ev.name
    a = [clean(x) for x in ev.args]
    if ev.cls in ("arki::utils::sqlite::OneShotQuery",) and n in ("operator()", "nothrow"):
        return ("sql", (sql or {}).get(clean(ev.obj), "?"))
    if n in ("unlink", "remove", "rmtree", "remove_all", "unlink_ifexists", "rmtree_ifexists", "rmdir") and a:
        return ("remove", a[0])
    if n in ("rename", "rename_ifexists") and len(a) >= 2:
        return ("rename", a[0], a[1])
    if n in ("ftruncate", "fdtruncate_nothrow") and a:
        return ("truncate", a[-1] if n != "ftruncate" or len(a) == 1 else a[1])
    if n in ("fsync", "fdatasync"):
        return ("sync",)
    if n == "write_sequence":
        return ("sequence", a[0] if a else "?")
    if n == "set_source":
        return ("source", clean(ev.obj))
    if n == "operator()" and (ev.cls or "").startswith("std::function"):
        return ("call", clean(ev.obj)) + tuple(a)
    return None


class Tx(Client):
    """automaton: (effects in order, flag value None|0|1, why, extra marks)"""

    def __init__(self, db, rep, cls, flag=None, sql=None, leaf=None):
        self.db, self.rep, self.cls, self.flag, self.sql, self.leaf = db, rep, cls, flag, sql, leaf
        self.late = []

    def mine(self, fn):
        if not hasattr(self, "own"):
            self.own = {m["id"] for c in (self.cls, self.leaf) if c for m in self.db.records[c]["methods"]}
        return fn["id"] in self.own or (fn["id"] not in self.db.method_of and fn["rel"] in ("arki/segment/data/dir.cc", "arki/segment/data/fd.cc"))

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return None
        return True if self.mine(fn) else False

    def inline_virtual(self, fl, st, ev, cands):
        if self.leaf and ev.obj == ("s", "this"):
            own = {m["id"] for m in self.db.records[self.leaf]["methods"]}
            for c in cands:
                if c["id"] in own:
                    return [c]
        return [c for c in cands if self.mine(c)][:1] or False

    def call(self, fl, st, ev):
        e = effect(ev, self.sql)
        if e:
            eff, fv = st.auto
            if e not in eff:
                eff = eff + (e,)
            st = st.with_auto((eff, fv), "line %d: %s" % (ev.line, " ".join(e)))
            if fv == "set":
                self.late.append((ev, st))
            if not self.nothrow(ev) and not any("error_code" in str(a.get("t", "")) for a in ev.argn or () if isinstance(a, dict)):
                fl.throw(st, "any", ev.line)
            return [(st, ("s", "rc"))]
        return None

    def nothrow(self, ev):
        f = ev.f or ""
        return "::" not in f or "nothrow" in ev.name or ev.node.get("nt")

    def may_throw(self, fl, st, ev):
        return not (self.nothrow(ev) or ev.name.startswith("operator ") or ev.name == "path" or ev.f in NEVER)

    def assign(self, fl, st, loc, val, node):
        if self.flag and loc == self.flag and val[0] == "c":
            return st.with_auto((st.auto[0], "set" if val[1] else "clear"))
        return st

    def fact(self, fl, st, atom, truth, line):
        if self.flag and atom[0] == self.flag and atom[1] == "==" and atom[2] in (0, 1):
            done = truth == (atom[2] == 1)
            eff, fv = st.auto
            if fv in ("set", "clear"):
                return st if (fv == "set") == done else None
            if fv in ("done", "todo") and fv != ("done" if done else "todo"):
                return None
            return st.with_auto((eff, "done" if done else "todo"))
        return st


def run(db, rep, cls, fn, flag=None, sql=None, leaf=None):
    c = Tx(db, rep, cls, flag, sql, leaf)
    ids = {f["id"] for f in db.functions.values() if c.mine(f)}
    fl = Flow(db, c, interesting=ids)
    return c, fl, fl.run(fn, ((), None))


def find_flag(db, rep, cls, commit):
    """the field that commit sets to a constant on the path where it does something"""
    sets = {}

    class A(Tx):
        def assign(s, fl, st, loc, val, node):
            if loc.startswith("this.") and val[0] == "c" and val[1] == 1:
                sets[loc] = 1
            return st
    c = A(db, rep, cls)
    ids = {f["id"] for f in db.functions.values() if c.mine(f)}
    Flow(db, c, interesting=ids).run(commit, ((), None))
    return sorted(sets)


def undo_only(eff):
    return {e for e in eff if e[0] in ("remove", "rename", "truncate", "sql")}


def body_of(db, cls, name):
    for m in db.records[cls]["methods"]:
        if m.get("n") == name:
            f = db.functions.get(m["id"])
            if f and f.get("body"):
                return f
    return None


def sql_of(db, rep, cls):
    """fields of OneShotQuery type -> text of the statement, from the constructors"""
    out = {}

    class C(Client):
        def want_inline(s, fl, st, ev, fn):
            return True if ev.kind == "ctor" and "sqlite" in fn["q"] else False

        def assign(s, fl, st, loc, val, node):
            if loc.endswith(".m_query"):
                out[loc[:-len(".m_query")]] = str(val[1])
            return st

        def call(s, fl, st, ev):
            if ev.cls == ONESHOT and ev.name == "operator()":
                s.begun = True
            return None
    for fn in ctors(db, cls):
        c = C()
        c.begun = False
        Flow(db, c, interesting={f["id"] for f in db.functions.values() if "sqlite" in f["q"]}).run(fn, ())
        if not c.begun:
            rep.bad("not-opened", norm(cls), where(fn), "the transaction is never started in the database", [])
    return out


def ctors(db, cls):
    name = cls.rsplit("::", 1)[-1].split("<")[0]
    return [db.functions[m["id"]] for m in db.records[cls]["methods"]
            if m.get("n", "").split("<")[0] == name and not m.get("implicit") and db.functions.get(m["id"], {}).get("body")]


def check(db, rep):
    rep.rule("each kind of transaction does its work before marking itself done, undoes exactly what it did when it is not done, "
             "in rollback, in rollback_nothrow and in its destructor, and undoes nothing once it is done")
    rep.rule("data writers remember everything they append until it is flushed to disk and committed, and what a commit "
             "made permanent is not undone by a later rollback")
    rep.rule("whoever opens a transaction commits it, undoes it or hands it over on every path that ends normally; several changes of an "
             "index are made in one transaction")
    seen = set()
    for cls in sorted(subclasses(db, TR)):
        if cls not in db.records or "Test" in cls:
            continue
        commit = body_of(db, cls, "commit")
        if not commit or commit["id"] in seen:
            continue
        seen.add(commit["id"])
        transaction(db, rep, cls, commit)
    pending(db, rep)
    holders(db, rep)
    temporaries(db, rep)
    rep.need("temporary copies written", 5)
    rep.need("kinds of transaction", 6)
    rep.need("data writers", 4)
    rep.need("lists of pending work", 10)
    rep.need("transactions opened", 15)


def transaction(db, rep, cls, commit):
    rep.count("kinds of transaction")
    q = norm(cls)
    rb, rbn, dt = body_of(db, cls, "rollback"), body_of(db, cls, "rollback_nothrow"), body_of(db, cls, "~" + cls.rsplit("::", 1)[-1].split("<")[0])
    if dt is None:
        dt = next((db.functions[m["id"]] for m in db.records[cls]["methods"] if m.get("n", "").startswith("~") and db.functions.get(m["id"], {}).get("body")), None)
    if rb is None or rbn is None:
        return rep.bad("no-rollback", q, where(commit), "the transaction cannot be undone: rollback is not defined next to commit", [])
    sql = sql_of(db, rep, cls) if "sqlite" in cls.lower() else None
    flags = find_flag(db, rep, cls, commit)
    if len(flags) != 1:
        return rep.bad("no-done-mark", q, where(commit), "commit marks %s as done: what was committed cannot be told from what was not" % (
            "several fields" if flags else "nothing"), [])
    flag = flags[0]
    is_writer = DW in superclasses(db, cls)
    # commit
    c, fl, o = run(db, rep, cls, commit, flag, sql)
    for ev, st in c.late:
        rep.bad("done-before-done", q, ev.where(), "the transaction is marked as done before its work is finished: if this fails nothing is undone", st.steps())
    did = set()
    order = ()
    for st, v, line in o.ret:
        eff, fv = st.auto
        if fv == "done":
            if eff:
                rep.bad("commit-twice", q, where(commit, line), "commit works again on what is already done", st.steps())
            continue
        if fv != "set":
            rep.bad("not-marked", q, where(commit, line), "commit ends without marking the transaction as done: what was committed will be undone", st.steps())
        work = [e for e in eff if e[0] != "sync"]
        if not work and not is_writer:
            rep.bad("commit-nothing", q, where(commit, line), "commit ends without doing anything", st.steps())
        if len(eff) > len(order):
            order = eff
        did |= set(eff)
    # undo
    undo = {}
    for name, fn in (("rollback", rb), ("rollback_nothrow", rbn), ("destructor", dt)):
        if fn is None:
            rep.bad("no-destructor", q, where(commit), "a transaction that is dropped is not undone: no destructor does it", [])
            continue
        c, fl, o = run(db, rep, cls, fn, flag, sql)
        per = []
        for st, v, line in o.ret:
            eff, fv = st.auto
            u = undo_only(eff)
            if fv == "done":
                if u:
                    rep.bad("undo-done", q, where(fn, line), "%s undoes what is already done" % name, st.steps(), name)
                continue
            if fv in (None, "set", "clear") and u and not all(e[0] == "sql" for e in u) and not seen_todo(st):
                rep.bad("undo-done", q, where(fn, line), "%s undoes without checking that the transaction is not done" % name, st.steps(), name)
            per.append((u, st, line))
        if not per:
            rep.bad("undo-nothing", q, where(fn), "%s never undoes anything" % name, [], name)
            continue
        common = set.intersection(*[set(u) for u, _, _ in per])
        undo[name] = (common, per, fn)
        if name != "rollback":
            for st, t, line in o.thr:
                rep.bad("throws", q, where(fn, line), "%s can end with an exception, which ends the program" % name, st.steps(), name)
                break
    want = expected(db, rep, cls, order, is_writer, commit)
    for name, (common, per, fn) in sorted(undo.items()):
        allu = set().union(*[u for u, _, _ in per])
        for w in want:
            # a loop that undoes each element may run zero times
            have = allu if "[*]" in "".join(map(str, w)) else common
            if not any(match(w, e) for e in have):
                rep.bad("not-undone", q, where(fn), "%s does not undo everything: it must %s" % (name, " ".join(map(str, w))), per[0][1].steps(),
                        name + " " + w[0])
    if is_writer:
        writer(db, rep, cls, q, flag, order, undo)


def seen_todo(st):
    return st.auto[1] in ("todo",) or any("todo" in str(x) for x in st.auto[1:]) or st.auto[1] == "set"


def match(w, e):
    return w[0] == e[0] and all(a == "*" or a == b for a, b in zip(w[1:], e[1:]))


def expected(db, rep, cls, order, is_writer, commit):
    """what undoing means, from what commit does"""
    want = []
    ren = [e for e in order if e[0] == "rename"]
    for e in ren[:-1]:
        want.append(("rename", e[2], e[1]))
    if ren:
        want.append(("remove", ren[-1][1]))
    for e in order:
        if e[0] == "call":
            for a in e[2:]:
                if a.startswith("this."):
                    want.append(("remove", a + "[*]"))
        if e[0] == "sql":
            want.append(("sql", "ROLLBACK"))
            if e[1] != "COMMIT":
                rep.bad("commit-statement", norm(cls), where(commit), "commit runs %s" % e[1], [])
    if not want and not is_writer:
        rep.errors.append("what undoing means for %s is not known" % norm(cls))
    return want


class Emptied(Tx):
    """which lists of pending work are emptied"""

    def call(self, fl, st, ev):
        m, fv = st.auto
        if ev.name in ("clear", "swap") and (ev.cls or "").startswith("std::"):
            return [(st.with_auto((m | {clean(ev.obj)}, fv)), ("void",))]
        if ev.name in ("swap", "exchange", "move") and ev.args:
            st = st.with_auto((m | {clean(ev.args[0])}, fv))
            return [(st, ev.args[0])]
        if ev.name == "empty" and (ev.cls or "").startswith("std::"):
            return [(st.with_auto((m | {clean(ev.obj)}, fv)), ("c", 1)), (st, ("c", 0))]
        return None

    def may_throw(self, fl, st, ev):
        return False

    def assign(self, fl, st, loc, val, node):
        st = Tx.assign(self, fl, st, loc, val, node)
        return st.with_auto((st.auto[0] | {clean(loc)}, st.auto[1]))


class Append(Tx):
    """writer append: automaton (marks, flag) ; marks: W wrote, F flushed, tuples of created / kept / removed paths"""
    lists = frozenset()

    def call(self, fl, st, ev):
        m, fv = st.auto
        l = "line %d: " % ev.line
        if ev.kind == "ctor" and ev.name == "File" and len(ev.args) >= 2 and ev.args[1][0] == "c" and int(ev.args[1][1]) & 0o100:
            if fv != "clear":
                self.rep.bad("append-not-marked", norm(self.cls), ev.where(), "a file is created while the writer may be marked as done: it will not be undone", st.steps())
            if int(ev.args[1][1]) & 0o1000 or not int(ev.args[1][1]) & 0o200:
                self.rep.bad("append-overwrites", norm(self.cls), ev.where(), "the file for new data may be one that exists: its data is lost", st.steps())
            return [(st.with_auto((m | {("new", clean(ev.args[0]))}, fv), l + "file created"), ("s", "File(%s,0)" % clean(ev.args[0])))]
        if ev.name in ("push_back", "emplace_back", "insert", "emplace", "push_front") and (ev.cls or "").startswith("std::") and \
                clean(ev.obj).startswith("this.") and not (ev.args and ("new", clean(ev.args[0])) in m):
            self.lists |= {clean(ev.obj)}
        e = effect(ev)
        if e and e[0] == "remove":
            st = st.with_auto((frozenset(x for x in m if x != ("new", e[1])), fv), l + "file removed")
            if not self.nothrow(ev):
                fl.throw(st, "any", ev.line)
            return [(st, ("s", "rc"))]
        if ev.name in ("push_back", "emplace_back", "insert") and (ev.cls or "").startswith("std::") and ev.args and ("new", clean(ev.args[0])) in m:
            p = clean(ev.args[0])
            self.lists |= {clean(ev.obj)}
            return [(st.with_auto((m - {("new", p)} | {("kept", clean(ev.obj))}, fv), l + "file remembered"), ("void",))]
        if e and e[0] == "sync":
            fl.throw(st, "any", ev.line)
            return [(st.with_auto((m - {"W"} | {"F"}, fv), l + "flushed"), ("void",))]
        if ev.name in WRITES and not self.db.functions.get(ev.id, {}).get("q", "").startswith(self.cls) and \
                (ev.name != "write_file") and not (self.leaf and ev.name == "write_file"):
            if fv != "clear" and ("F" in m or True) and "Data" not in (ev.cls or "").split("::")[-1]:
                self.rep.bad("append-not-marked", norm(self.cls), ev.where(), "data is written while the writer may be marked as done: it will not be undone", st.steps())
            st = st.with_auto((m | {"W"}, fv), l + "data written")
            fl.throw(st, "any", ev.line)
            return [(st, ("s", "WRITTEN"))]
        if ev.name == "create_unlocked":
            for x in ev.args:
                if x[0] == "s" and x[1].startswith("this.") and "(" not in x[1]:
                    return [(st.with_auto((m | {("off", re.sub(r"'.*", "", x[1]), "W" in m)}, fv)), ("s", "BLOB"))]
        return None

    def compound(self, fl, st, loc, op, val, node):
        m, fv = st.auto
        if op in ("+=", "++", "=+") and loc.startswith("this."):
            return st.with_auto((m | {("adv", loc, "WRITTEN" in str(val))}, fv))
        return st

    def assign(self, fl, st, loc, val, node):
        st = Tx.assign(self, fl, st, loc, val, node)
        m, fv = st.auto
        if loc.startswith("this.") and loc != self.flag and val[0] != "c":
            return st.with_auto((m | {("adv", loc, "WRITTEN" in str(val))}, fv))
        return st

    def fact(self, fl, st, atom, truth, line):
        if "eatmydata" in str(atom[0]) and atom[1] == "==" and atom[2] == 0 and not truth:
            m, fv = st.auto
            st = st.with_auto((m | {"nosync"}, fv))
        return Tx.fact(self, fl, st, atom, truth, line)


HOLE = re.compile(r"Hole(File|Writer)")


def writer(db, rep, cls, q, flag, order, undo):
    append = body_of(db, cls, "append")
    if append is None:
        return rep.errors.append("append of %s not found" % q)
    leaves = [None]
    wf = []
    mine = {m["id"] for m in db.records[cls]["methods"]}
    for m in db.records[cls]["methods"]:
        if m.get("n") == "write_file":
            wf = [db.method_of[i][0] for i in sorted(all_overriders(db, m["id"])) if i not in mine and i in db.functions]
    if wf:
        leaves = wf
    trunc = {e[1] for name in undo for e in undo[name][0] if e[0] == "truncate"}
    removed = set()
    for name in undo:
        removed |= {e[1] for u, _, _ in undo[name][1] for e in u if e[0] == "remove"}
    for name in undo:
        if trunc and not any(e[0] == "truncate" for e in undo[name][0]):
            rep.bad("not-undone", q, where(undo[name][2]), "%s does not remove what was appended" % name, undo[name][1][0][1].steps(), name)
    for leaf in leaves:
        rep.count("data writers")
        ql = norm(leaf or cls)
        hole = bool(HOLE.search(leaf or cls))
        c = Append(db, rep, cls, flag, None, leaf)
        c.lists = set()
        ids = {f["id"] for f in db.functions.values() if c.mine(f)}
        o = Flow(db, c, interesting=ids).run(append, (frozenset(), None))
        offs, flushed = set(), True
        for st, v, line in o.ret:
            m, fv = st.auto
            if "W" in m and "F" not in m and "nosync" not in m:
                flushed = False
            if "W" in m and "F" in m and "nosync" not in m:
                flushed = False
            for x in m:
                if x[0] == "off":
                    offs.add((x[1], x[2]))
                if x[0] == "new":
                    rep.bad("not-remembered", ql, where(append, line), "the file that was created is not remembered: a rollback leaves it", st.steps())
            adv = {x[1] for x in m if x[0] == "adv"}
            for off in {x[1] for x in m if x[0] == "off"}:
                if off not in adv:
                    rep.bad("not-advanced", ql, where(append, line), "the position of the next data is not moved forward after an append", st.steps())
            kept = {x[1] for x in m if x[0] == "kept"}
            for k in kept:
                for name in undo:
                    if not any(e[0] == "remove" and e[1] == k + "[*]" for u, _, _ in undo[name][1] for e in u):
                        rep.bad("not-undone", ql, where(undo[name][2]), "%s does not remove the files that were created" % name, [], name)
            if not kept and not trunc:
                rep.bad("not-undone", ql, where(append, line), "neither the files created are remembered nor the file is truncated on rollback", st.steps())
        for st, t, line in o.thr:
            m, fv = st.auto
            for x in m:
                if x[0] == "new":
                    rep.bad("not-remembered", ql, where(append, line), "an append that fails leaves the file it created: it is neither remembered nor removed", st.steps())
        if not offs:
            rep.errors.append("position of the data appended by %s not found" % ql)
        # what waits for the end of the transaction doesn't outlive it
        for name, fn in [("commit", body_of(db, cls, "commit"))] + [(n, undo[n][2]) for n in ("rollback", "rollback_nothrow") if n in undo]:
            for st, v, line in Flow(db, Emptied(db, rep, cls, flag, None, leaf), interesting=ids).run(fn, (frozenset(), None)).ret:
                for k in sorted(c.lists):
                    rep.count("lists of pending work")
                    if st.auto[1] != "done" and k not in st.auto[0]:
                        rep.bad("undoes-committed" if name == "commit" else "left-pending", ql, where(fn, line),
                                "%s does not empty %s: a later commit or rollback acts again on what was appended before" % (
                                    name, k.replace("this.", "")), st.steps(), name + k)
        # flush before the sources are handed out
        commit = body_of(db, cls, "commit")
        cc = Append(db, rep, cls, flag, None, leaf)

        class Commit(Append):
            def call(s, fl, st, ev):
                m, fv = st.auto
                e = effect(ev)
                if e and e[0] == "sync":
                    return [(st.with_auto((m | {"F"}, fv), "line %d: flushed" % ev.line), ("void",))]
                if e and e[0] == "source":
                    if "F" not in m and "nosync" not in m and not flushed and not hole:
                        rep.bad("not-flushed", ql, ev.where(), "data is handed over as stored before it is flushed to disk", st.steps())
                    return [(st.with_auto((m | {"src"}, fv)), ("void",))]
                if e and e[0] == "sequence":
                    return [(st.with_auto((m | {"seq"}, fv)), ("void",))]
                return None
        cc = Commit(db, rep, cls, flag, None, leaf)
        o = Flow(db, cc, interesting=ids).run(commit, (frozenset(), None))
        src = any("src" in st.auto[0] for st, _, _ in o.ret)
        if not src:
            rep.bad("no-source", ql, where(commit), "commit never tells where the data was stored", [])
        for st, v, line in o.ret:
            m, fv = st.auto
            if fv == "done":
                continue
            for t in trunc:
                if not any(x[0] == "adv" and x[1] == t for x in m):
                    rep.bad("undoes-committed", ql, where(commit, line), "commit does not move forward the size a rollback truncates to: data committed now is lost "
                            "by a later rollback", st.steps())
                else:
                    val = st.env.get(t)
                    if val and not any(clean(val).split("'")[0] == off for off, _ in offs):
                        rep.bad("undoes-committed", ql, where(commit, line), "after a commit a rollback truncates to a size that is not the end of the data", st.steps())
            if removed and not trunc and "seq" not in m:
                rep.bad("sequence-not-written", ql, where(commit, line), "commit does not record the sequence number of the last file", st.steps())
        # a writer can be used again after a rollback
        rb = undo.get("rollback")
        if trunc and rb:
            for u, st, line in rb[1]:
                for off, _ in offs:
                    if u and not any(clean(st.env.get(off, ("s", "?"))) == t for t in trunc):
                        rep.bad("position-after-rollback", ql, where(rb[2], line), "after a rollback the next data is believed to go after the data that was undone", st.steps())
        # where the first rollback truncates to
        if trunc:
            for k in ctors(db, cls):
                class K(Client):
                    def want_inline(s, fl, st, ev, fn):
                        return False
                o = Flow(db, K(), interesting={k["id"]}).run(k, ())
                for st, v, line in o.ret:
                    for t in trunc | {x for x, _ in offs}:
                        val = clean(st.env.get(t, ("s", "?")))
                        if not re.search(r"lseek\(0,2\)|st_size|\.size\(|size\(", val):
                            rep.bad("start", ql, where(k, line), "%s does not start as the size of the file" % t, st.steps(), t)


class Pen(Client):
    def want_inline(self, fl, st, ev, fn):
        return True if cls_of(fn) == PEND else False

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def call(self, fl, st, ev):
        if ev.cls == TR and ev.name in ("commit", "rollback", "rollback_nothrow"):
            return [(st.with_auto(st.auto + ((ev.name, clean(ev.obj)),), "line %d: %s" % (ev.line, ev.name)), ("void",))]
        return None


def fact_is_null(st, path):
    return st.facts.get((path, "==", 0))


def pending(db, rep):
    def f(n, pred=lambda f: True):
        return [x for x in db.by_q.get(PEND + "::" + n, ()) if x.get("body") and pred(x)]
    ids = {x["id"] for x in db.functions.values() if cls_of(x) == PEND}
    for name, acts in (("~Pending", ("rollback_nothrow",)), ("commit", ("commit",)), ("rollback", ("rollback", "rollback_nothrow")),
                       ("rollback_nothrow", ("rollback_nothrow",))):
        got = f(name)
        if not rep.anchor(got, PEND + "::" + name):
            continue
        for fn in got:
            rep.count("functions of Pending")
            o = Flow(db, Pen(), interesting=ids).run(fn, ())
            for st, v, line in o.ret:
                null = st.facts.get(("this.trans", "==", 0))
                done = [a for a, p in st.auto]
                if null is True and not done:
                    continue
                if null is not True and not any(a in acts for a in done):
                    rep.bad("pending", norm(fn["q"]), where(fn, line), "the transaction is not %s" % ("committed" if name == "commit" else "undone"), st.steps())
                if any(a not in acts for a in done):
                    rep.bad("pending", norm(fn["q"]), where(fn, line), "%s is called on the transaction" % done[0], st.steps())
                if name != "~Pending" and null is False and done and st.env.get("this.trans") != ("c", 0):
                    rep.bad("pending", norm(fn["q"]), where(fn, line), "the transaction is kept after it ended: it is used again when the object is destroyed", st.steps())
    for fn in f("operator=") + [x for x in f("Pending") if "&&" in str([p.get("t") for p in x.get("params", ())])]:
        rep.count("functions of Pending")
        o = Flow(db, Pen(), interesting=ids).run(fn, ())
        for st, v, line in o.ret:
            src = next((k for k in st.env if k.endswith(".trans") and not k.startswith("this.")), None)
            took = st.env.get("this.trans")
            if took is None:
                continue
            if src is None or st.env.get(src) != ("c", 0):
                rep.bad("pending", norm(fn["q"]), where(fn, line), "after a move both objects own the transaction", st.steps())
            if method_name(fn) == "operator=" and st.facts.get(("this.trans", "==", 0)) is False and not st.auto and \
                    not any(k[1] == "==" and "$" in str(k[2]) and "trans" in str(k) and val for k, val in st.facts.items()):
                rep.bad("pending", norm(fn["q"]), where(fn, line), "the transaction that was owned before is forgotten without being undone", st.steps())


class Hold(Client):
    """automaton: frozenset of tokens of transactions still open"""

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.n = set()

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return None
        return False

    def call(self, fl, st, ev):
        if re.search(r"\b(arki::)?core::Pending$", ev.t or "") and ev.kind == "call" and "&" not in (ev.t or "") and ev.name != "operator=":
            tok = "PENDING#%d" % ev.line
            self.n.add(tok)
            return [(st.with_auto(st.auto | {tok}, "line %d: transaction opened" % ev.line), ("s", tok))]
        if ev.kind == "ctor" and ev.cls == PEND and ev.args and ev.args[0][0] == "s" and ev.args[0][1].startswith("PENDING#"):
            return [(st, ev.args[0])]
        if ev.kind == "ctor" and ev.cls == PEND and ev.args and ev.args[0] != ("c", 0) and ev.args[0][0] != "t":
            tok = "PENDING#%d" % ev.line
            self.n.add(tok)
            return [(st.with_auto(st.auto | {tok}, "line %d: transaction opened" % ev.line), ("s", tok))]
        if ev.cls == PEND and ev.name in ("commit", "rollback", "rollback_nothrow") and ev.obj and ev.obj[0] == "s":
            fl.throw(st, "any", ev.line)
            return [(st.with_auto(st.auto - {ev.obj[1]}, "line %d: %s" % (ev.line, ev.name)), ("void",))]
        if ev.name == "set_all_error":
            # what is dropped is reported as failed
            return [(st.with_auto(frozenset()), ("void",))]
        given = {v[1] for v in ev.args if v[0] == "s"} & st.auto
        if given and ev.name != "operator=" and not (ev.name == "move" and ev.f == "std::move"):
            # handed over
            return [(st.with_auto(st.auto - given), ("s", sorted(given)[0]))]
        return None


class Temp(Client):
    """automaton: (paths the transaction removes when undone, paths a creator writes to)"""

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.tx = {c for c in subclasses(db, TR)}
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        return False

    def call(self, fl, st, ev):
        cov, tmp = st.auto
        l = "line %d: " % ev.line
        if ev.kind == "ctor" and ev.cls in self.tx or ev.kind == "ctor" and "Rename" in (ev.cls or ""):
            return [(st.with_auto((cov | {clean(a) for a in ev.args[:1]}, tmp), l + "transaction opened"), ("s", "TX"))]
        if ev.name in ("push_back", "emplace_back") and (clean(ev.obj or "").endswith(".tmpfiles")):
            return [(st.with_auto((cov | {clean(ev.args[0])}, tmp), l + "temporary file registered"), ("void",))]
        if ev.kind == "ctor" and ev.name.endswith("Creator"):
            t = {clean(v) for v, a in zip(ev.args, ev.argn) if "path" in str(a.get("t", ""))}
            return [(st.with_auto((cov, tmp | t)), ("s", "CREATOR"))]
        if ev.obj == ("s", "CREATOR") and ev.name == "create":
            self.n += 1
            for t in sorted(tmp - cov):
                self.rep.bad("temporary-left", norm(self.root["q"]), ev.where(), "the temporary file %s is not removed if the operation fails or is undone" % t, st.steps(), "")
            fl.throw(st, "any", ev.line)
            return [(st, ("void",))]
        return None


def temporaries(db, rep):
    for fn in sorted(db.functions.values(), key=lambda f: (f["rel"], f["line"])):
        if not fn["rel"].startswith("arki/segment/data/") or not re.search(r"core::Pending$", fn.get("rt", "")) or not fn.get("body"):
            continue
        if "test" in fn["rel"]:
            continue
        c = Temp(db, rep, fn)
        Flow(db, c, interesting={fn["id"]}).run(fn, (frozenset(), frozenset()))
        rep.count("temporary copies written", c.n)


CHANGE = ("index", "replace", "remove", "reset", "reindex", "insert", "test_rename", "index_segment")
IDX = re.compile(r"arki::segment::iseg::\w*Index\b")


class Multi(Client):
    """automaton: (number of changes outside of a transaction, in transaction)"""

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.n = 0

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return None
        return True if cls_of(fn) == cls_of(self.root) and not IDX.match(ev.cls or "") else False

    def call(self, fl, st, ev):
        n, t = st.auto
        if IDX.match(ev.cls or "") and ev.name == "begin_transaction":
            return [(st.with_auto((n, True), "line %d: transaction opened" % ev.line), ("s", "PENDING#%d" % ev.line))]
        if ev.cls == PEND and ev.name in ("commit", "rollback"):
            return [(st.with_auto((n, False), "line %d: %s" % (ev.line, ev.name)), ("void",))]
        if IDX.match(ev.cls or "") and ev.name in CHANGE:
            self.n += 1
            if t:
                return None
            if n >= 1 or ev.name == "reindex":
                self.rep.bad("no-transaction", norm(self.root["q"]), ev.where(), "several changes are made to the index without a transaction: a failure leaves it half changed", st.steps())
            st2 = st.with_auto((1, t), "line %d: index changed" % ev.line)
            fl.throw(st2, "any", ev.line)
            return [(st2, ("s", "CHANGED"))]
        return None


def holders(db, rep):
    for fn in sorted(db.functions.values(), key=lambda f: (f["rel"], f["line"])):
        if not fn.get("body") or "test" in fn["rel"] or cls_of(fn) == PEND:
            continue
        has = False
        multi = False
        for n in fbody(fn):
            if re.search(r"core::Pending\b", str(n.get("t", ""))):
                has = True
            if n.get("f") and IDX.match(str(n.get("f"))):
                multi = True
        if has:
            c = Hold(db, rep, fn)
            o = Flow(db, c, interesting={fn["id"]}).run(fn, frozenset())
            if c.n:
                rep.funcs.add(fn["q"])
                rep.count("transactions opened", len(c.n))
            for st, v, line in o.ret:
                left = {t for t in st.auto if not (v and v[0] == "s" and v[1] == t)}
                if left:
                    rep.bad("dropped", norm(fn["q"]), where(fn, line), "the function ends normally and what it did in the transaction is undone: it is never committed", st.steps())
        if multi and not re.match(r"test_|~", method_name(fn)) and not IDX.match(cls_of(fn)):
            c = Multi(db, rep, fn)
            Flow(db, c, interesting={f["id"] for f in db.functions.values() if cls_of(f) == cls_of(fn)}).run(fn, (0, False))
            if c.n:
                rep.count("functions that change an index")
