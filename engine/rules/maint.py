"""What maintenance does with each segment: decision tables of the agents,
drivers, forwarding of operations to the archives, visits of all segments."""
from rulebase import *
from failures import norm, callers

SEG = "arki::dataset::segmented::CheckerSegment"
REP = "arki::dataset::Reporter"
STATE = "arki::segment::State"
ACTIONS = ("repack", "archive", "remove", "rescan", "tar", "zip", "compress", "index", "release", "remove_data", "unarchive", "reorder")
NAMES = ("DIRTY", "UNALIGNED", "MISSING", "DELETED", "CORRUPTED", "ARCHIVE_AGE", "DELETE_AGE")


def state_bits(db, rep):
    out = {}
    for k, v in db.vars.items():
        if v["t"] in ("const arki::segment::State", "arki::segment::State") and v.get("i"):
            vals = [x["cv"] for a in v["i"].get("a", ()) for x in walk(a) if "cv" in x]
            if vals:
                out[k.rsplit("SEGMENT_", 1)[-1]] = (k, vals[0])
    return out


def expected_repack(b):
    acts = []
    if b & 1 and not b & 64:
        acts.append("repack")
    if b & 32:
        acts.append("archive")
    if b & 64:
        acts.append("remove(with data)")
    if b & 8:
        acts.append("remove(with data)")
    if b & 4:
        acts.append("remove(index only)")
    return acts


def expected_check(b):
    acts = []
    if b & 2:
        acts.append("rescan")
    if b & 4:
        acts.append("remove(index only)")
    return acts


# what the reports announce, by action
ANNOUNCE = {"repack": "segment_repack", "archive": "segment_archive", "remove(with data)": "segment_remove",
            "remove(index only)": "segment_deindex", "rescan": "segment_rescan"}


class Agent(Client):
    """automaton: tuple of the actions and announcements so far"""

    def want_inline(self, fl, st, ev, fn):
        return ev.cls == STATE or fn["rel"].startswith(("arki/dataset/maintenance", "arki/segment/defs")) or None

    def call(self, fl, st, ev):
        if ev.kind != "call":
            return None
        if ev.cls in ([SEG] + self.subs) and ev.name in ACTIONS:
            a = ev.name
            if a == "remove":
                v = ev.args[0] if ev.args else ("t",)
                a = "remove(with data)" if v == ("c", 1) else "remove(index only)" if v == ("c", 0) else "remove(?)"
            return [(st.with_auto(st.auto + (a,), "line %d: %s" % (ev.line, a)), ("t",))]
        if ev.cls == REP and ev.name.startswith("segment_"):
            return [(st.with_auto(st.auto + (":" + ev.name,), "line %d: reports %s" % (ev.line, ev.name)), ("void",))]
        return None


def outcomes(db, rep, fn, bits, b, names):
    cl = Agent()
    cl.subs = subclasses(db, SEG)
    fl = Flow(db, cl, interesting=set(), inline_small=0)
    env = {q + ".value": ("c", v) for q, v in bits.values()}
    env["STATE.value"] = ("c", b)
    env["this.test_flags"] = ("c", 0)
    sp = [p for p in fn["params"] if "State" in p["t"]]
    if len(sp) != 1:
        rep.errors.append("anchor vanished: state parameter of " + fn["q"])
        return set()
    out = fl.run(fn, (), env=env, params={sp[0]["n"]: ("s", "STATE")})
    for u in fl.unsupported:
        rep.errors.append(u)
    return {(s.auto, tuple(s.steps())) for s, v, l in out.ret} | {(s.auto, tuple(s.steps())) for s in out.norm}


def text(b):
    return "+".join(n for i, n in enumerate(NAMES) if b & (1 << i)) or "OK"


def tables(db, rep):
    rep.rule("for each of the 128 combinations of segment states, the actions RealRepacker and RealFixer take and those "
             "MockRepacker and MockFixer announce are exactly those of the decision table; FailsafeRepacker takes none")
    bits = state_bits(db, rep)
    for i, n in enumerate(NAMES):
        if n not in bits:
            rep.errors.append("anchor vanished: SEGMENT_" + n)
            return
    vals = [bits[n][1] for n in NAMES]
    rep.count("segment states", len(vals))
    if len(set(vals)) != len(vals) or any(v <= 0 or v & (v - 1) for v in vals):
        rep.bad("state-values", "segment::State", "arki/segment/defs.h:1", "two segment states share bits: %s" % dict(zip(NAMES, vals)))
        return
    M = "arki::dataset::maintenance::"
    for agent, exp, real in (("RealRepacker", expected_repack, True), ("MockRepacker", expected_repack, False),
                             ("RealFixer", expected_check, True), ("MockFixer", expected_check, False),
                             ("FailsafeRepacker", lambda b: [], True)):
        f = fns(db, M + agent + "::operator()")
        if len(f) != 1:
            rep.errors.append("anchor vanished: " + agent)
            continue
        fn = f[0]
        for c in range(128):
            b = sum(v for i, v in enumerate(vals) if c & (1 << i))
            want = exp(c)
            outs = outcomes(db, rep, fn, bits, b, vals)
            rep.count("states decided by agents")
            if not outs:
                rep.errors.append("no outcome of %s for %s" % (agent, text(c)))
            for acts, steps in outs:
                did = [a for a in acts if not a.startswith(":")]
                said = [a[1:] for a in acts if a.startswith(":")]
                if real:
                    if sorted(did) != sorted(want):
                        rep.bad("decision", norm(fn["q"]), where(fn), "%s on a segment that is %s: does [%s], must do [%s]" % (
                            agent, text(c), ", ".join(did), ", ".join(want)), list(steps), agent)
                    # a segment already removed or moved away is not rewritten
                    for i, a in enumerate(did):
                        if a in ("repack", "rescan") and any(x in ("archive", "remove(with data)", "remove(index only)") for x in did[:i]):
                            rep.bad("decision-order", norm(fn["q"]), where(fn), "%s on a segment that is %s: %s after %s" % (
                                agent, text(c), a, did[:i]), list(steps), agent)
                else:
                    if did:
                        rep.bad("mock-acts", norm(fn["q"]), where(fn), "%s changes the dataset: %s" % (agent, ", ".join(did)), list(steps), agent)
                    miss = [a for a in want if ANNOUNCE[a] not in said]
                    if miss:
                        rep.bad("mock-silent", norm(fn["q"]), where(fn), "%s on a segment that is %s does not announce: %s" % (
                            agent, text(c), ", ".join(miss)), list(steps), agent)
                if c & 16 and agent.endswith("Fixer") and "segment_manual_intervention" not in said:
                    rep.bad("corrupted-silent", norm(fn["q"]), where(fn), "%s does not report a corrupted segment" % agent, list(steps), agent)
    rep.need("states decided by agents", 640)


# ------------------------------------------------------------------- drivers
class Driver(Client):
    """automaton: (agent, ran, flag)
    agent: none, mock, real;  flag: '', created, removed"""

    def __init__(self, db, rep, root, op):
        self.db, self.rep, self.root, self.op = db, rep, root, op
        self.subs = [SEG] + subclasses(db, SEG)
        self.agents = {"arki::dataset::maintenance::" + x for x in
                       ("MockRepacker", "MockFixer", "RealRepacker", "RealFixer", "FailsafeRepacker")}

    def want_inline(self, fl, st, ev, fn):
        return None

    def bad(self, rule, ev, msg, st, detail=""):
        self.rep.bad(rule, norm(self.root["q"]), ev.where(), msg, st.steps(), detail)

    def readonly(self, fl, st):
        for (x, o, c), t in st.facts.items():
            if x.endswith("opts.readonly") or x.endswith(".readonly") or "opts#" in x and x.endswith("readonly"):
                if o == "==" and c == 0:
                    return not t
        return None

    def call(self, fl, st, ev):
        agent, ran, flag = st.auto
        if ev.f == "arki::utils::files::createDontpackFlagfile" or ev.name == "createDontpackFlagfile":
            return [(st.with_auto((agent, ran, "created"), "line %d: marks the dataset as needing a check" % ev.line), ("void",))]
        if ev.name == "removeDontpackFlagfile":
            self.rep.count("flag removals")
            if agent != "real":
                self.bad("flag-removed", ev, "the mark that forbids repacking is removed without a fixing check", st)
            if ran != "ended":
                self.bad("flag-removed", ev, "the mark that forbids repacking is removed before the check is over", st)
            return [(st.with_auto((agent, ran, "removed"), "line %d: mark removed" % ev.line), ("void",))]
        if ev.name == "hasDontpackFlagfile":
            return [(st.with_auto((agent, ran, "marked"), "line %d: the dataset is marked" % ev.line), ("c", 1)),
                    (st.with_auto((agent, ran, "clean")), ("c", 0))]
        made = None
        if ev.kind == "ctor" and ev.cls in self.agents:
            made = ev.cls
        elif ev.kind == "call" and ev.name in ("make_unique", "make_shared"):
            for a in self.agents:
                if a.rsplit("::", 1)[-1] in (ev.t or ""):
                    made = a
        if made:
            made = made.rsplit("::", 1)[-1]
            kind = "mock" if made.startswith(("Mock", "Failsafe")) else "real"
            self.rep.count("agents created")
            ro = self.readonly(fl, st)
            if kind == "real" and ro is not False:
                self.bad("readonly", ev, "%s is used without knowing that changes are allowed" % made, st, made)
            if kind == "mock" and ro is not True:
                self.bad("readonly", ev, "%s is used when changes were asked for" % made, st, made)
            if self.op == "repack" and not made.endswith("Repacker") or self.op == "check" and not made.endswith("Fixer"):
                self.bad("wrong-agent", ev, "%s is used for %s" % (made, self.op), st, made)
            if self.op == "repack" and flag != "clean":
                self.bad("unchecked-repack", ev, "a repack starts without looking for the mark that forbids it", st, made)
            return [(st.with_auto((kind, ran, flag), "line %d: %s" % (ev.line, made)), ("s", "AGENT"))]
        if ev.name == "end" and ev.obj is not None and (ev.cls.startswith("arki::dataset::maintenance")):
            fl.throw(st, "any", ev.line)
            return [(st.with_auto((agent, "ended", flag)), ("void",))]
        if ev.name == "operator()" and ev.cls.startswith("arki::dataset::maintenance"):
            self.rep.count("states handed to agents")
            seg, state = (list(ev.args) + [None, None])[:2]
            fl.throw(st, "any", ev.line)
            sv = fl.vstr(state) if state else "?"
            gv = fl.vstr(seg) if seg else "?"
            if not sv.startswith("FSCK<%s>" % gv):
                self.bad("other-state", ev, "the agent is given a state that is not that of the segment (%s, %s)" % (gv, sv), st)
            return [(st.with_auto((agent, "visited", flag)), ("void",))]
        if ev.name == "fsck" and ev.cls in self.subs:
            fl.throw(st, "any", ev.line)
            return [(st, ("s", "FSCK<%s>" % fl.vstr(ev.obj)))]
        if ev.name == "segments" and ev.args and any(v[0] == "l" for v in ev.args):
            # an error while visiting (or before)
            fl.throw(st.with_auto((agent, "visiting", flag)), "any", ev.line)
            return None
        return None

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False


def drivers(db, rep):
    rep.rule("repack and check use the acting agent only when changes are allowed and the announcing one otherwise, hand to "
             "it each segment with the state found for it, stop before a repack when the dataset is marked as needing a check, "
             "mark it when maintenance fails, and remove the mark only after a successful fixing check")
    for op in ("repack", "check"):
        f = fns(db, "arki::dataset::segmented::Checker::" + op)
        if len(f) != 1:
            rep.errors.append("anchor vanished: segmented::Checker::" + op)
            continue
        fn = f[0]
        cl = Driver(db, rep, fn, op)
        lam = {x["id"] for x in fbody(fn) if x["k"] == "lambda"}
        helpers = {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"]}
        fl = Flow(db, cl, interesting=lam | helpers)
        out = fl.run(fn, ("none", "", ""))
        rep.count("drivers")
        acted = False
        for s, v, l in out.ret:
            agent, ran, flag = s.auto
            acted |= agent == "real"
            if agent == "none" and flag != "marked":
                rep.bad("nothing-done", norm(fn["q"]), where(fn, l), "%s ends without working on the dataset" % op, s.steps(), op)
            if flag == "marked" and agent != "none":
                rep.bad("marked-repack", norm(fn["q"]), where(fn, l), "a dataset marked as needing a check is repacked", s.steps(), op)
            if agent in ("mock", "real") and ran != "ended":
                rep.bad("not-ended", norm(fn["q"]), where(fn, l), "the agent is not told that the visit is over", s.steps(), op)
            if agent == "real" and op == "check" and flag != "removed":
                rep.bad("flag-kept", norm(fn["q"]), where(fn, l), "after a successful fixing check the mark that forbids repacking stays", s.steps(), op)
        if not acted:
            rep.bad("never-acts", norm(fn["q"]), where(fn), "%s never changes anything" % op, [], op)
        for s, t, l in out.thr:
            agent, ran, flag = s.auto
            if agent == "real" and ran in ("visiting", "visited") and flag != "created":
                rep.bad("failure-unmarked", norm(fn["q"]), where(fn, l), "%s fails half way and the dataset is not marked as needing a check" % op, s.steps(), op)
        for u in fl.unsupported:
            rep.errors.append(u)
    rep.need("drivers", 2)
    rep.need("agents created", 3)
    rep.need("states handed to agents", 2)
    rep.need("flag removals", 1)


# -------------------------------------------------- bulk operations, readonly
class Bulk(Client):
    """automaton: (actions done, what is known), of the segment being visited"""
    APPLIES = {"remove_old": "old", "tar": "allows_tar", "zip": "allows_zip", "compress": "allows_compress"}

    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.op = method_name(root)
        self.subs = [SEG] + subclasses(db, SEG)

    def want_inline(self, fl, st, ev, fn):
        return True if ev.cls == STATE else None

    def may_throw(self, fl, st, ev):
        return False

    def bad(self, rule, ev, msg, st):
        self.rep.bad(rule, norm(self.root["q"]), ev.where(), msg, st.steps(), self.op)

    def fact(self, fl, st, atom, truth, line):
        x, o, c = atom
        if o != "==" or c != 0:
            return st
        for k in ("readonly", "old", "allows_tar", "allows_zip", "allows_compress"):
            if x.endswith("." + k) or x == "IS<%s>" % k:
                acts, known = st.auto
                return st.with_auto((acts, tuple(sorted({y for y in known if y[0] != k} | {(k, not truth)}))))
        return st

    def call(self, fl, st, ev):
        acts, known = st.auto
        if ev.kind == "call" and ev.cls in self.subs and ev.name in ACTIONS:
            self.rep.count("actions of bulk operations")
            k = dict(known)
            want = "remove" if self.op.startswith("remove") else self.op
            if ev.name != want:
                self.bad("bulk-other", ev, "%s does %s" % (self.op, ev.name), st)
            if k.get("readonly") is not False:
                self.bad("bulk-readonly", ev, "%s acts without knowing that changes are allowed" % self.op, st)
            need = self.APPLIES.get(self.op)
            if need and k.get(need) is not True:
                self.bad("bulk-unfit", ev, "%s is done on a segment not known to be %s" % (
                    self.op, "old enough" if need == "old" else "fit for it"), st)
            return [(st.with_auto((acts + (ev.name,) if ev.name not in acts else acts, known)), ("t",))]
        if ev.kind == "call" and ev.name.startswith("allows_"):
            return [(st, ("s", "IS<%s>" % ev.name))]
        if ev.cls == STATE and ev.name in ("has", "has_any") and ev.args and fl.vstr(ev.args[0]).endswith("SEGMENT_DELETE_AGE"):
            return [(st, ("s", "IS<old>"))]
        return None

    def iter_begin(self, fl, st, what, node):
        # every visit is judged on its own
        return State(((), ()), st.env, {a: t for a, t in st.facts.items() if not a[0].endswith(".readonly") and not a[0].startswith("IS<")}, st.trace)

    def iter_end(self, fl, st, what, node, how, val=None):
        acts, known = st.auto
        k = dict(known)
        if isinstance(what, Event) and what.name.startswith("segments") and not acts:
            self.rep.count("segments left alone by bulk operations")
            need = self.APPLIES.get(self.op)
            if not (k.get("readonly") is True or need and k.get(need) is False):
                self.rep.bad("bulk-skips", norm(self.root["q"]), where(self.root, node.get("l")), "%s leaves a segment alone although it applies to it" % self.op,
                             st.steps(), self.op)
        return st


def bulk(db, rep):
    rep.rule("remove_old, remove_all, tar, zip and compress act on a segment only when changes are allowed (remove_old: only on "
             "segments old enough to be deleted), and then on each segment they apply to")
    n = 0
    for op in ("remove_old", "remove_all", "tar", "zip", "compress"):
        for fn in fns(db, "arki::dataset::segmented::Checker::" + op):
            lam = {x["id"] for x in fbody(fn) if x["k"] == "lambda"}
            helpers = {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"] and not g.get("virt")}
            fl = Flow(db, Bulk(db, rep, fn), interesting=lam | helpers)
            fl.run(fn, ((), ()))
            n += 1
    rep.count("bulk operations", n)
    rep.need("bulk operations", 5)
    rep.need("actions of bulk operations", 5)
    rep.need("segments left alone by bulk operations", 5)


# ------------------------------------------------------------- forwarding
OPS = ("repack", "check", "remove_old", "remove_all", "tar", "zip", "compress", "check_issue51", "state")


def forwarding(db, rep):
    rep.rule("each maintenance operation goes on to the archives and to the base class as the same operation, with the same options")
    base = "arki::dataset::Checker"
    classes = [c for c in subclasses(db, base)]
    for c in classes:
        for op in OPS:
            for fn in fns(db, c + "::" + op):
                if "test" in fn["rel"]:
                    continue
                for x in fbody(fn):
                    if x["k"] != "call" or not x.get("f"):
                        continue
                    cls, _, name = x["f"].rpartition("::")
                    if name in OPS and (cls == base or cls in classes):
                        rep.count("operations passed on")
                        if name != op:
                            rep.bad("other-operation", norm(fn["q"]), where(fn, x["l"]), "%s goes on as %s" % (op, name), [], name)
                        else:
                            want = [p["n"] for p in fn["params"]]
                            got = [peel(a).get("n") for a in x["a"]]
                            if want[:1] != got[:1] and x["a"]:
                                rep.bad("other-options", norm(fn["q"]), where(fn, x["l"]), "%s is passed on with other options" % op, [], name)
    rep.need("operations passed on", 25)
    # each operation of an on disk dataset reaches its archives
    for c in ("segmented", "simple", "iseg"):
        for op in OPS:
            for fn in fns(db, "arki::dataset::%s::Checker::%s" % (c, op)):
                fl = Flow(db, Reach(op), interesting=answers(db, fn), inline_small=0)
                out = fl.run(fn, ("no", ()))
                rep.count("operations followed to the archives")
                for s, v, l in out.ret:
                    if s.auto[0] == "no" and not other_side(s.auto[1]):
                        rep.bad("archive-skipped", norm(fn["q"]), where(fn, l), "%s ends without going on to the archives" % op, s.steps(), op)
    for op in OPS:
        for fn in fns(db, "arki::dataset::local::Checker::" + op):
            fl = Flow(db, Reach(op), interesting=answers(db, fn), inline_small=0)
            out = fl.run(fn, ("no", ()))
            rep.count("operations followed to the archives")
            for s, v, l in out.ret:
                k = dict(s.auto[1])
                off, has = k.get("opts.offline"), k.get("opts.hasArchive")
                if s.auto[0] == "no" and not (off is False or has is False):
                    rep.bad("archive-skipped", norm(fn["q"]), where(fn, l), "%s does not reach the archives" % op, s.steps(), op)
                if s.auto[0] == "yes" and off is not True:
                    rep.bad("archive-unasked", norm(fn["q"]), where(fn, l), "%s works on the archives when only online data was asked for" % op, s.steps(), op)
    rep.need("operations followed to the archives", 15)


def side(atom):
    """a condition on which side, online or offline, is asked for, or whether there are archives"""
    x, o, c = atom
    if o == "==" and c == 0:
        for n in ("hasArchive", "readonly", "online", "offline"):
            if x.endswith("." + n) or x.endswith(n + "()"):
                return ("dataset" if "dataset" in x and n != "hasArchive" else "opts") + "." + n
    return None


def answers(db, fn):
    """functions of the same file that answer a question"""
    return {g["id"] for g in db.functions.values() if g["rel"] == fn["rel"] and g.get("body") and g.get("rt") == "bool" and not g.get("virt") and
            not g.get("cls")}


class Reach(Client):
    """automaton: (reached, what is known of the sides)"""

    def __init__(self, op):
        self.op = op

    def may_throw(self, fl, st, ev):
        return False

    def fact(self, fl, st, atom, truth, line):
        k = side(atom)
        reached, known = st.auto
        if k:
            return st.with_auto((reached, tuple(sorted(set(known) | {(k, not truth)}))))
        if "format" in atom[0] and reached == "no":
            return st.with_auto(("other format", known))
        return st

    def call(self, fl, st, ev):
        if ev.kind == "call" and ev.name == "hasDontpackFlagfile":
            return [(st.with_auto(("marked", st.auto[1])), ("c", 1)), (st, ("c", 0))]
        if ev.kind == "call" and ev.name in OPS and ("Checker" in ev.cls) and ev.cls.startswith("arki::dataset::"):
            return [(st.with_auto(("yes", st.auto[1])), ("void",))]
        return None


def other_side(known):
    """left because the dataset is on the side (online or offline) that was not asked for"""
    k = dict(known)
    return k.get("opts.online") is False and k.get("dataset.offline") is False or k.get("opts.offline") is False and k.get("dataset.offline") is True


def peel(n):
    while n is not None and n["k"] in ("full", "temp", "icast", "cast", "defarg"):
        n = n["e"]
    return n


# ------------------------------------------------------- all segments visited
class Visit(Client):
    """automaton: tuple of open iterations: (level, delivered)"""

    def __init__(self, db, rep, root, dest):
        self.db, self.rep, self.root, self.dest = db, rep, root, dest
        self.n = 0

    def may_throw(self, fl, st, ev):
        return False

    @staticmethod
    def up(st):
        return 1 if st.auto == "x" else min(st.auto + 1, 2)

    def is_list(self, fl, what):
        if isinstance(what, Event):
            return what.name in ("list_segments", "scan_dir", "segments_tracked", "segments_untracked", "segments_tracked_filtered",
                                 "segments_untracked_filtered", "segments", "for_each") or what.name == "walk"
        return what[0] == "s" and ("file_list(" in what[1] or "seg_relpaths" in what[1] or "seglist" in what[1])

    def iter_begin(self, fl, st, what, node):
        if self.is_list(fl, what):
            return st.with_auto(0)
        return st

    def call(self, fl, st, ev):
        if ev.kind == "call" and ev.name == "segment" and "manifest" in ev.cls:
            return [(st, ("s", "TRACKED.segment()"))]
        if ev.obj is not None and ev.name == "operator()" and fl.vstr(ev.obj) == "DEST":
            self.n += 1
            return [(st.with_auto(self.up(st), "line %d: visited" % ev.line), ("void",))]
        # handed to another lister
        if any(v == ("s", "DEST") for v in ev.args) and ev.kind == "call":
            self.n += 1
            return [(st.with_auto(self.up(st), "line %d: passed to %s" % (ev.line, ev.name)), ("void",))]
        return None

    def want_inline(self, fl, st, ev, fn):
        return False if ev.name == "scan_dir" else None

    def fact(self, fl, st, atom, truth, line):
        x, o, c = atom
        if st.auto == 0 and o == "==" and c == 0:
            if ("has_data" in x or "pathMatches" in x) and truth or \
                    ("stat(" in x or ".segment(" in x or "exists(" in x) and not truth:
                return st.with_auto("x")
        return st

    def iter_end(self, fl, st, what, node, how, val=None):
        if not self.is_list(fl, what):
            return st
        self.rep.count("visits of a segment followed")
        q = norm(self.root["q"])
        if how in ("break", "return") and not isinstance(what, Event):
            self.rep.bad("visit-stopped", q, where(self.root, node.get("l")), "the visit of the segments is left before the end", st.steps(), "")
        if st.auto == 0:
            self.rep.bad("visit-skipped", q, where(self.root, node.get("l")), "a segment may be left out of the visit", st.steps(), "")
        elif st.auto == 2:
            self.rep.bad("visit-twice", q, where(self.root, node.get("l")), "a segment may be visited twice", st.steps(), "")
        return st.with_auto(1)


def visits(db, rep):
    rep.rule("every list of segments is visited to its end, and each segment is handed over exactly once unless it is already "
             "tracked, has no data, or does not match the filter")
    for c in ["arki::dataset::segmented::Checker"] + subclasses(db, "arki::dataset::segmented::Checker"):
        for m in ("segments_tracked", "segments_tracked_filtered", "segments_untracked", "segments_untracked_filtered", "segments_all", "segments",
                  "segments_recursive"):
            for fn in fns(db, c + "::" + m):
                dp = [p for p in fn["params"] if "std::function<" in p["t"]]
                if not dp or "test" in fn["rel"]:
                    continue
                cl = Visit(db, rep, fn, dp[0]["n"])
                lam = {x["id"] for x in fbody(fn) if x["k"] == "lambda"}
                fl = Flow(db, cl, interesting=lam, inline_small=0)
                out = fl.run(fn, 0, params={dp[0]["n"]: ("s", "DEST")})
                rep.count("visitors")
                if not cl.n:
                    rep.bad("visit-none", norm(fn["q"]), where(fn), "the segments are not visited", [], m)
                if m in ("segments_all", "segments"):
                    # both the tracked and the untracked ones, unless not asked for
                    fl = Flow(db, Halves(), interesting=set(), inline_small=0)
                    out = fl.run(fn, ((), (), "?"))
                    for s, v, l in out.ret:
                        halves, known, filt = s.auto
                        if other_side(known) and not halves:
                            continue
                        kinds = sorted(h.replace("_filtered", "") for h in halves)
                        if kinds != ["segments_tracked", "segments_untracked"]:
                            rep.bad("visit-half", norm(fn["q"]), where(fn, l), "only part of the segments is visited", s.steps(), m)
                        if m == "segments" and any(("_filtered" not in h) != (filt == "no filter") for h in halves):
                            rep.bad("visit-filter", norm(fn["q"]), where(fn, l), "the segment filter is not applied, or applied when there is none", s.steps(), m)
    rep.need("visitors", 11)
    rep.need("visits of a segment followed", 6)
    # issue51 looks at all the segments
    for c in ("simple", "iseg"):
        for fn in fns(db, "arki::dataset::%s::Checker::check_issue51" % c):
            cl = Look(db, rep, fn)
            lam = {x["id"] for x in fbody(fn) if x["k"] == "lambda"}
            Flow(db, cl, interesting=lam, inline_small=0).run(fn, ())
            rep.count("issue51 visits")
            if not cl.seen:
                rep.bad("visit-none", norm(fn["q"]), where(fn), "no segment is looked at", [], "check_issue51")
    rep.need("issue51 visits", 2)


class Halves(Client):
    """automaton: (lists visited, sides known, filter)"""

    def may_throw(self, fl, st, ev):
        return False

    def fact(self, fl, st, atom, truth, line):
        h, known, filt = st.auto
        k = side(atom)
        if k:
            return st.with_auto((h, tuple(sorted(set(known) | {(k, not truth)})), filt))
        if atom[0].endswith("segment_filter.empty()") and atom[1:] == ("==", 0):
            return st.with_auto((h, known, "filter" if truth else "no filter"))
        return st

    def call(self, fl, st, ev):
        if ev.kind == "call" and ev.name in ("segments_tracked", "segments_untracked", "segments_tracked_filtered", "segments_untracked_filtered"):
            h, known, filt = st.auto
            n = ev.name
            if n.endswith("_filtered") and not (ev.args and fl.vstr(ev.args[0]).endswith("segment_filter")):
                n += " with another filter"
            return [(st.with_auto((h + (n,), known, filt)), ("void",))]
        return None


class Look(Client):
    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.seen = False

    def may_throw(self, fl, st, ev):
        return False

    def want_inline(self, fl, st, ev, fn):
        return False if ev.name == "list_segments" else None

    def iter_end(self, fl, st, what, node, how, val=None):
        if isinstance(what, Event):
            self.seen |= what.name == "list_segments"
        elif what[0] == "s" and "file_list(" in what[1]:
            self.seen = True
            if how != "end":
                self.rep.bad("visit-stopped", norm(self.root["q"]), where(self.root, node.get("l")),
                             "the visit of the segments is left before the end", st.steps(), "")
        return st


def check(db, rep):
    tables(db, rep)
    drivers(db, rep)
    bulk(db, rep)
    forwarding(db, rep)
    visits(db, rep)
