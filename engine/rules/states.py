"""Checks report every anomaly, and maintenance does what the state of a
segment asks for and nothing else.

Functions that give the state of a segment are interpreted with the set of
bits and of states of the parts that make up their result; what a path knows
(facts of its branches) is compared with the result it gives."""
import re
from rulebase import *
from failures import norm

STATE = "arki::segment::State"
CONST = re.compile(r"(?:^|::)SEGMENT_([A-Z_]+)$")
GIVES = re.compile(r"arki::segment::State$|::FsckResult$|::SegmentState$")
REPORT = re.compile(r"::Reporter::(info|segment_(?!reporter)\w+|operation_\w+)$")

# what a fact says: (symbol, relation, constant) -> knowledge when true, when false
EVIDENCE = (
    (r"\.timestamp\(\)(\.has_value\(\))?$", "==", r"0$", "no data", "data there"),
    (r"(^|\.)timestamp\(.*\)(@\d+:\d+)?$", "==", r"0$", "not described", "described"),
    (r"(^|\.)timestamp\(.*\)(@\d+:\d+)?$", "<", r"\$.*timestamp\(\)", "older than data", "not older than data"),
    (r"(^|\.)is_empty\(\)$", "==", r"0$", None, "data empty"),
    (r"scan\(.*\)(@\d+:\d+)?\.empty\(\)$", "==", r"0$", "some elements", "no elements"),
    (r"expand_date_range\(.*\)$", "==", r"0$", "no interval", "has interval"),
    (r"path_timespan\(.*\)$", "==", r"0$", "outside the step", "fits the step"),
    (r"\.interval\.contains\(.*fsck\(.*\.interval\)$", "==", r"0$", "outside the interval", "inside the interval"),
    (r"(^|\.)segment\(.*\)(@\d+:\d+)?$", "==", r"0$", "not in the list", "in the list"),
    (r"\.mtime$", "==", r"\$.*mtime", "same mtime", None),
    (r"\.(interval|time)$", "==", r"\$.*\.(interval|time)$", "same interval", None),
    (r"(^|\.)stat\(.*\)(@\d+:\d+)?(\.get\(\))?$", "==", r"0$", "file gone", None),
    (r"open_ifexists\(.*\)$", "==", r"0$", "file gone", None),
    (r"\.filename$", "==", r"\$.*relpath\(\)", "same file", None),
    (r"find\(.*offset\)$", "==", r"\$.*end\(\)", "file not known", "file known"),
    (r"on_disk\.end\(\)$", "==", r"\$.*find\(.*offset\)", "file not known", "file known"),
    (r"\.size$", "==", r"\$.*second(\.size)?$", "same size", None),
    (r"second(\.size)?$", "==", r"\$.*\.size$", "same size", None),
    (r"\(\S*size\s*\+\s*1\)$|\(1\+.*\.size\)$", "==", r"\$.*second", "same size", None),
    (r"cur_sequence|read_sequence\(\)|open_ifexists|.*", "<", r"\$.*max_sequence", "sequence behind", "sequence not behind"),
    (r"max_sequence$", "<", r"1$", "sequence not behind", None),
    (r"on_disk\.empty\(\)$", "==", r"0$", "files left", "no files left"),
    (r"actual_start\(.*\)$", "<", r"\$.*(end_of_known_data|actual_end\()", "overlap", "no overlap"),
    (r"end_of_known_data$|actual_end\(.*\)$", "<", r"\$.*actual_start", "gap", "no gap"),
    (r"actual_start\(.*\)$", "==", r"\$.*(end_of_known_data|actual_end\()", "contiguous", None),
    (r"end_of_known_data$", "==", r"\$.*actual_start", "contiguous", None),
    (r"offset_end\(\)$", "<", r"\$.*end_of_known_data|\$.*actual_end", "truncated", "not truncated"),
    (r"end_of_known_data$|actual_end\(.*\)$", "<", r"\$.*offset_end\(\)", "trailing", "no trailing"),
    (r"offset_end\(\)$", "==", r"\$.*end_of_known_data", "end matches", None),
    (r"\.offset$", "<", r"\$.*back\(\)\.offset", "out of order", "in order"),
    (r"back\(\)\.offset$", "<", r"\$.*\.offset", "in order", "out of order"),
    (r"(spans|\w+)#\d+\.\d+\.empty\(\)$", "==", r"0$", None, "first"),
    (r"offset_end\(\)$", "<", r"\$.*actual_end\(.*source", "past the end", "not past the end"),
    (r"offset_end\(\)$", "<", r"\$.*actual_end\(", "past the end", "not past the end"),
    (r"accurate$", "==", r"0$", "quick", "accurate"),
    (r"mds\.empty\(\)$", "==", r"0$", None, "nothing to validate"),
    (r"compute_unindexed_space\(.*\)$", "==", r"0$", None, "estimate"),
    (r"compute_unindexed_space\(.*\)$", "<", r"1$", None, "estimate"),
    (r"age_threshold\(\S*delete_age\)$", "<", r"\$.*interval\.end", "not older than delete age", "older than delete age"),
    (r"age_threshold\(\S*archive_age\)$", "<", r"\$.*interval\.end", "not older than archive age", "older than archive age"),
    (r"delete_age$", "==", r"-1", "no delete age", None),
    (r"archive_age$", "==", r"-1", "no archive age", None),
)
EVIDENCE = [(re.compile(a), r, re.compile(c), t, f) for a, r, c, t, f in EVIDENCE]

# which knowledge justifies a state that makes maintenance drop something
NEEDS = {
    "DELETED": ("data empty", "no elements", "file gone"),
    "MISSING": ("no data",),
    "DELETE_AGE": ("older than delete age",),
    "ARCHIVE_AGE": ("older than archive age",),
}


def plain(v):
    """an object, also after it was given to someone"""
    return re.sub(r"'\d+", "", s(v) or "") or None


def s(v):
    return v[1] if isinstance(v, tuple) and len(v) > 1 and v[0] == "s" else None


class States(Client):
    def __init__(self, db, rep, fn, kind):
        self.db, self.rep, self.fn, self.kind = db, rep, fn, kind
        self.results = 0

    # what is followed: helpers extracted in the same class, or static functions, that don't give a state of their own
    def want_inline(self, fl, st, ev, fn):
        if GIVES.search(fn.get("rt") or "") or fn["rel"] != self.fn["rel"]:
            return "State::" not in fn["q"] and GIVES.search(fn.get("rt") or "") and fn["rel"] == self.fn["rel"] and cls_of(fn) == cls_of(self.fn) \
                and not fn.get("virt") and method_name(fn) not in NAMED
        return method_name(fn) not in ("scan", "actual_start", "actual_end", "offset_end", "compute_unindexed_space")

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def bits(self, st, v):
        """items of the state that a value is or contains"""
        out = set()
        for x in st.auto:
            if x[0] == "bit" and (x[1] == v or x[1] == v + ".state"):
                out.add(x[2])
        if any(x[0] == "set" and x[1] == v for x in st.auto):
            return out
        return out | self.base(v)

    def base(self, v):
        m = CONST.search(v)
        if m:
            return set() if m.group(1) == "OK" else {m.group(1)}
        if v.startswith("ST0") or re.match(r"(FsckResult|SegmentState)\(\)", v) or v.endswith(".state") and re.match(r"(FsckResult|SegmentState)\(\)", v):
            return set()
        return {v}

    def added(self, st, items, ev):
        for i in items:
            need = NEEDS.get(i)
            if need:
                self.rep.count("states that make maintenance drop something")
                self.rep.site("dropping", "%s: %s" % (ev.where(), i))
                if not any(("k", n) in st.auto for n in need):
                    self.rep.bad("state-without-cause", norm(self.fn["q"]), ev.where(),
                                 "the segment is %s without knowing that: %s" % (i, " or ".join(need)), st.steps(), i)

    def call(self, fl, st, ev):
        f = ev.f or ""
        n = f.rsplit("::", 1)[-1]
        if n == "empty" and ev.obj and s(ev.obj) and st.facts.get((s(ev.obj) + ".empty()", "==", 0)) is False:
            return [(st.with_auto(st.auto | {("k", "first")}), ("c", 1))]
        if ev.cls == STATE and ev.kind == "ctor":
            if not ev.args:
                return [(st, ("s", "ST0@%d" % ev.line))]
            v = s(ev.args[0])
            if v is not None:
                self.added(st, self.base(v) if CONST.search(v) else (), ev)
                return [(st, ev.args[0])]
            return None
        if ev.cls == STATE and n in ("operator=", "operator+=") and ev.args and s(ev.args[0]) and ev.obj and s(ev.obj):
            loc, v = s(ev.obj), s(ev.args[0])
            a = st.auto
            if n == "operator=":
                a = frozenset(x for x in a if not (x[0] == "bit" and x[1] == loc)) | {("set", loc)}
            items = self.bits(st, v)
            self.added(st, items, ev)
            return [(st.with_auto(a | {("bit", loc, i) for i in items}, "line %d: %s" % (ev.line, "|".join(sorted(x[:40] for x in items)) or "OK")), ev.obj)]
        if ev.cls == STATE and n in ("operator-=", "operator-"):
            self.rep.bad("state-removed", norm(self.fn["q"]), ev.where(), "an anomaly is taken away from a state", st.steps())
            return None
        if ev.cls == STATE and n == "operator+" and ev.args:
            v = "ST0sum@%d" % ev.line
            items = self.bits(st, s(ev.obj) or "?") | self.bits(st, s(ev.args[0]) or "?")
            return [(st.with_auto(st.auto | {("bit", v, i) for i in items}), ("s", v))]
        if REPORT.search(f) or "std::function<void (const std::basic_string" in f and n == "operator()":
            if ("k", "estimate") in st.auto:
                return [(st.with_auto(st.auto - {("k", "estimate")}), ("void",))]
            return [(st.with_auto(st.auto | {("rep",)}, "line %d: an anomaly is reported" % ev.line), ("void",))]
        if n == "check_age":
            st = st.with_auto(st.auto | {("k", "age checked")})
            return [(st, ("void",))]
        if n in ("validate", "validate_file", "validate_buf") and ev.virt:
            st = st.with_auto(st.auto | {("k", "validated")})
            return [(st, ("void",))] + self.threw(fl, st, ev)
        if ev.kind == "call" and GIVES.search((ev.t or "").replace("const ", "").strip(" &")) and ev.cls != STATE:
            callee = self.db.functions.get(ev.id)
            if callee and self.want_inline(fl, st, ev, callee):
                return None
            what = n
            tok = "%s(%s)@%d" % (n, ",".join((s(a) or "") if isinstance(a, tuple) else "" for a in ev.args), ev.line)
            t = tok if (ev.t or "").replace("const ", "").strip(" &") == STATE else tok + ".state"
            self.rep.count("states of parts")
            st = st.with_auto(frozenset(x for x in st.auto if not (len(x) > 1 and x[1] == t)) | {("tok", t), ("k", "calls " + what)}, "line %d: state of a part" % ev.line)
            fl.throw(st, "any", ev.line)
            return [(st, ("s", tok))]
        return None

    def threw(self, fl, st, ev):
        fl.throw(st, "any", ev.line)
        return []

    def fact(self, fl, st, atom, truth, line):
        a, r, c = str(atom[0]), atom[1], str(atom[2])
        add = set()
        m = re.match(r"(.*)\.is_ok\(\)$", a)
        if m and r == "==" and c == "0":
            add.add(("notok" if truth else "ok", m.group(1)))
        m = re.match(r"(.*)\.(has|has_any)\((.*)\)$", a)
        if m and r == "==" and c == "0" and not truth:
            items = self.bits(st, m.group(1))
            add.add(("notok", items.pop() if len(items) == 1 else m.group(1)))
            has = CONST.search(m.group(3))
            if has:
                add.add(("has", m.group(1), has.group(1)))
        # without an age there's no threshold, and with one there is
        if re.search(r"\.ye$", a) and r == "==" and c == "0" and truth != ("Time(0,0,0" in a):
            return None
        for p, rel, cc, t, f in EVIDENCE:
            if rel == r and cc.match(c) and p.search(a):
                k = t if truth else f
                if k:
                    add.add(("k", k))
        if add - st.auto:
            return st.with_auto(st.auto | add, "line %d: %s" % (line, ", ".join(sorted(x[1][:50] for x in add))))
        return st

    # each visit of a loop is judged alone
    PER_VISIT = {("k", k) for k in ("overlap", "no overlap", "gap", "no gap", "contiguous", "out of order", "in order", "first", "validated",
                                    "past the end", "not past the end", "calls check_source")}

    def iter_begin(self, fl, st, what, node):
        st = st.drop_facts(lambda f: "[*]" in str(f[0]) + str(f[2]) or "check_source(" in str(f[0]) or "sourceBlob(" in str(f[0]) + str(f[2]))
        return st.with_auto(frozenset(x for x in st.auto - self.PER_VISIT if not (x[0] in ("tok", "ok", "notok") and x[1].startswith("check_source("))))

    def iter_end(self, fl, st, what, node, how, val=None):
        if how in ("return", "throw"):
            return st
        k = {x[1] for x in st.auto if x[0] == "k"}
        w = s(what) or ""

        def bad(msg):
            self.rep.bad("anomaly-not-looked-for", norm(self.fn["q"]), where(self.fn, node.get("l") if isinstance(node, dict) else None),
                         "an element goes by without knowing that %s" % msg, st.steps(), msg)
        if self.kind == "contiguous":
            if re.search(r"(^|\.)mds$", w):
                toks = [x[1] for x in st.auto if x[0] == "tok" and x[1].startswith("check_source(")]
                if not toks or any(("ok", t) not in st.auto for t in toks):
                    bad("its data is where it should be")
                if not (k & {"in order", "first"} or ("rep",) in st.auto):
                    bad("it is in order")
                return st.with_auto(st.auto | {("k", "elements visited")})
            if k & {"overlap", "no overlap", "contiguous"} or "span" in w:
                if not k & {"no overlap", "contiguous"}:
                    bad("it doesn't overlap the one before")
                if not (k & {"no gap", "contiguous"} or ("rep",) in st.auto):
                    bad("there's no gap before it")
                return st.with_auto(st.auto | {("k", "spans visited")})
        if self.kind == "validate" and re.search(r"(^|\.)mds$", w):
            if "not past the end" not in k:
                bad("it's inside the segment")
            if "validated" not in k:
                bad("its data is valid")
            return st.with_auto(st.auto | {("k", "elements visited")})
        return st

    def on_return(self, fl, st, val, line):
        return st

    def judge(self, st, val, line):
        rep, fn = self.rep, self.fn
        self.results += 1
        rep.count("results")
        v = s(val)
        if v is None:
            rep.errors.append("%s: the result isn't understood" % where(fn, line))
            return
        items = self.bits(st, v)
        ok = {x[1] for x in st.auto if x[0] == "ok"}
        notok = {x[1] for x in st.auto if x[0] == "notok"}
        consts = {i for i in items if re.match(r"[A-Z_]+$", i)}
        toks = {i for i in items - consts if i not in ok}
        bad = bool(consts) or bool(toks & notok)
        k = {x[1] for x in st.auto if x[0] == "k"}
        if ("rep",) in st.auto and not bad:
            rep.bad("reported-but-ok", norm(fn["q"]), where(fn, line), "an anomaly is reported but isn't in the resulting state", st.steps())
        for x in st.auto:
            if x[0] == "tok" and x[1] not in ok and x[1] not in items and \
                    not (bad and (consts - WEAK or toks & notok or any(("has", y, c) in st.auto for c in consts for y in (x[1], x[1].rsplit("@", 1)[0])))):
                rep.bad("anomaly-lost", norm(fn["q"]), where(fn, line), "the state of a part (%s) isn't in the result" % x[1][:60], st.steps(), x[1].split("(")[0])
        if bad:
            return
        rep.count("results without anomalies judged")
        for alts in REQUIRED.get(self.kind, ()):
            if isinstance(alts, str):
                alts = (alts,)
            if not k & set(alts):
                rep.bad("ok-without-looking", norm(fn["q"]), where(fn, line), "no anomaly is found without knowing that: %s" % " or ".join(alts), st.steps(), alts[0])
        if self.kind == "segment":
            if not any(t.startswith("check(") for t in toks):
                rep.bad("ok-without-looking", norm(fn["q"]), where(fn, line), "no anomaly is found without checking the data", st.steps(), "data")
            if "scan" not in fn["q"].split("::")[-3]:
                for alts in (("described",), ("not older than data",)):
                    if not k & set(alts):
                        rep.bad("ok-without-looking", norm(fn["q"]), where(fn, line), "no anomaly is found without knowing that: %s" % " or ".join(alts), st.steps(), alts[0])
        if self.kind == "dataset" and "::simple::" in fn["q"]:
            for a in ("in the list", "same mtime", "same interval"):
                if a not in k:
                    rep.bad("ok-without-looking", norm(fn["q"]), where(fn, line), "no anomaly is found without knowing that: " + a, st.steps(), a)
        if self.kind == "backend" and "::dir::" in fn["q"]:
            for a in ("sequence not behind", "no files left"):
                if a not in k:
                    rep.bad("ok-without-looking", norm(fn["q"]), where(fn, line), "no anomaly is found without knowing that: " + a, st.steps(), a)
        if self.kind == "source" and "AppendCheckBackend" not in fn["q"]:
            for a in ("file known", "same size"):
                if a not in k:
                    rep.bad("ok-without-looking", norm(fn["q"]), where(fn, line), "no anomaly is found without knowing that: " + a, st.steps(), a)


# anomalies that are put right without looking at the data again: they can't stand for others
WEAK = {"DIRTY", "UNOPTIMIZED"}
NAMED = {"fsck", "check", "check_contiguous", "validate_data", "check_source", "check_age"}
REQUIRED = {
    "segment": (("data there",), ("some elements",), ("has interval",)),
    "dataset": (("fits the step",), ("inside the interval",), ("age checked",)),
    "contiguous": (("not truncated", "end matches"), ("no trailing", "end matches")),
    "validate": (),
    "append": (("calls check_contiguous",), ("calls validate_data", "quick")),
    "age": (("not older than delete age", "no delete age"), ("not older than archive age", "no archive age")),
    "checker": (("calls check",),),
    "backend": (("calls check",),),
    "source": (),
}


def kind_of(db, fn):
    n, c = method_name(fn), cls_of(fn)
    sup = superclasses(db, c)
    if n == "fsck":
        if "arki::segment::Checker" in sup:
            return "segment"
        if "arki::dataset::segmented::CheckerSegment" in sup:
            return "dataset"
    if n == "check_contiguous":
        return "contiguous"
    if n == "validate_data":
        return "validate"
    if n == "check_source":
        return "source"
    if n == "check":
        if c.endswith("::AppendCheckBackend"):
            return "append"
        if "arki::segment::data::Checker" in sup:
            return "checker"
        if "arki::segment::AppendCheckBackend" in sup:
            return "backend"
    return None


# ---- maintenance does what the state asks for

ACTIONS = ("repack", "archive", "unarchive", "remove", "rescan", "tar", "zip", "compress", "reorder", "remove_data", "index")


class Does(Client):
    """what is done to a segment, on the paths where its state is known"""

    def __init__(self, db, rep, fn, allowed, mock):
        self.db, self.rep, self.fn, self.allowed, self.mock = db, rep, fn, allowed, mock

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] and cls_of(fn) == cls_of(self.fn)

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def call(self, fl, st, ev):
        n = (ev.f or "").rsplit("::", 1)[-1]
        if ev.cls == STATE and n == "operator+=" and ev.args and CONST.search(s(ev.args[0]) or ""):
            # tests ask for more: what is added is in the state from then on
            return [(st.with_auto(st.auto | {("has", CONST.search(s(ev.args[0])).group(1))}), ev.obj)]
        if "arki::dataset::segmented::CheckerSegment" in [ev.cls or ""] + superclasses(self.db, ev.cls or "") and n in ACTIONS:
            a = n
            if n == "remove":
                a = "remove(%s)" % ("data" if ev.args and ev.args[0] == ("c", 1) else "description" if ev.args and ev.args[0] == ("c", 0) else "?")
            why = self.allowed.get(a)
            has = {x[1] for x in st.auto if x[0] == "has"}
            hasnt = {x[1] for x in st.auto if x[0] == "hasnt"}
            self.rep.count("actions on segments")
            self.rep.site("action", "%s: %s when %s" % (ev.where(), a, "|".join(sorted(has))))
            if why is None:
                self.rep.bad("unasked", norm(self.fn["q"]), ev.where(), "%s is never asked for by a state here" % a, st.steps(), a)
            elif not any(w in has for w in why[0]) or any(w not in hasnt for w in why[1]):
                self.rep.bad("unasked", norm(self.fn["q"]), ev.where(), "%s of a segment whose state isn't known to have %s%s" % (
                    a, " or ".join(why[0]), "".join(" and not " + w for w in why[1])), st.steps(), a)
            return [(st.with_auto(st.auto | {("did", a)}, "line %d: %s" % (ev.line, a)), ("t",))]
        if REPORT.search(ev.f or "") and self.mock:
            return [(st.with_auto(st.auto | {("did", n)}), ("void",))]
        return None

    def fact(self, fl, st, atom, truth, line):
        m = re.search(r"\.has\(.*SEGMENT_([A-Z_]+)\)$", str(atom[0]))
        if m and atom[1] == "==" and str(atom[2]) == "0":
            x = ("hasnt" if truth else "has", m.group(1))
            # a state that was added can't be missing, nor both
            if (("has" if truth else "hasnt"), m.group(1)) in st.auto:
                return None
            return st.with_auto(st.auto | {x}, "line %d: %s %s" % (line, *x))
        return st


AGENTS = {
    "RealRepacker": {"repack": (("DIRTY",), ("DELETE_AGE",)), "archive": (("ARCHIVE_AGE",), ()), "remove(data)": (("DELETED", "DELETE_AGE"), ()),
                     "remove(description)": (("MISSING",), ())},
    "RealFixer": {"rescan": (("UNALIGNED",), ()), "remove(description)": (("MISSING",), ())},
    "MockRepacker": {}, "MockFixer": {}, "FailsafeRepacker": {},
}
MUST = {
    "RealRepacker": {"DIRTY": ("repack",), "ARCHIVE_AGE": ("archive",), "DELETE_AGE": ("remove(data)",), "DELETED": ("remove(data)",), "MISSING": ("remove(description)",)},
    "RealFixer": {"UNALIGNED": ("rescan",), "MISSING": ("remove(description)",)},
    "MockRepacker": {"DIRTY": ("segment_repack",), "ARCHIVE_AGE": ("segment_archive",), "DELETE_AGE": ("segment_remove",), "DELETED": ("segment_remove",),
                     "MISSING": ("segment_deindex",)},
    "MockFixer": {"UNALIGNED": ("segment_rescan",), "MISSING": ("segment_deindex",), "CORRUPTED": ("segment_manual_intervention",)},
}


def agents(db, rep):
    for name, allowed in AGENTS.items():
        cls = "arki::dataset::maintenance::" + name
        got = fns(db, cls + "::operator()")
        rep.anchor(got, cls)
        for fn in got:
            rep.count("agents of maintenance")
            rep.funcs.add(fn["q"])
            fl = Flow(db, Does(db, rep, fn, allowed, name.startswith("Mock")), interesting=None, inline_small=0)
            out = fl.run(fn, frozenset())
            ends = [(st, None, fn["end"]) for st in out.norm] + list(out.ret)
            for st, val, line in ends:
                has = {x[1] for x in st.auto if x[0] == "has"}
                did = {x[1] for x in st.auto if x[0] == "did"}
                for x, acts in MUST.get(name, {}).items():
                    if x in has and not (x == "DIRTY" and "DELETE_AGE" in has) and not did & set(acts):
                        rep.bad("not-done", norm(fn["q"]), where(fn, line), "the segment is %s and nothing is done or said about it" % x, st.steps(), x)
                    if x not in has and ("hasnt", x) not in st.auto and not did & set(acts) and not (x == "DIRTY"):
                        rep.bad("not-done", norm(fn["q"]), where(fn, line), "whether the segment is %s isn't looked at" % x, st.steps(), x)


class Uses(Client):
    """operations on datasets that look at segments one by one"""

    def __init__(self, db, rep, fn, ops):
        self.db, self.rep, self.fn, self.ops = db, rep, fn, ops

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] and fn["id"] not in self.ops and cls_of(fn) == cls_of(self.fn)

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def call(self, fl, st, ev):
        db, rep = self.db, self.rep
        n = (ev.f or "").rsplit("::", 1)[-1]
        me = method_name(self.fn)
        if ev.id in self.ops:
            rep.count("operations passed on")
            if n != me:
                rep.bad("another-operation", norm(self.fn["q"]), ev.where(), "%s is passed on as %s" % (me, n), st.steps(), n)
            return None
        sup = [ev.cls or ""] + superclasses(db, ev.cls or "")
        if "arki::dataset::segmented::CheckerSegment" in sup:
            if n == "fsck":
                rep.count("checks of segments")
                v = "FSCK{%s}" % plain(ev.obj)
                st = st.drop_facts(lambda f: v in str(f[0])).with_auto(frozenset(x for x in st.auto if x[0] != "has" or x[2] != plain(ev.obj)))
                return [(st, ("s", v))]
            if n in ACTIONS:
                rep.count("actions on segments")
                if n not in ("tar", "zip", "compress", "remove", "rescan"):
                    rep.bad("unasked", norm(self.fn["q"]), ev.where(), "%s without an agent of maintenance" % n, st.steps(), n)
                elif n == "remove" and me != "remove_all" and ("has", "DELETE_AGE", plain(ev.obj)) not in st.auto:
                    rep.bad("unasked", norm(self.fn["q"]), ev.where(), "a segment not known to be older than the configured age is removed", st.steps(), n)
                elif n in ("tar", "zip", "compress") and n != me:
                    rep.bad("unasked", norm(self.fn["q"]), ev.where(), "%s is done as %s" % (me, n), st.steps(), n)
                return None
        if "arki::dataset::maintenance::Agent" in sup and n == "operator()":
            rep.count("segments given to agents")
            a = [plain(x) for x in ev.args]
            if len(a) < 2 or a[1] is None or not a[1].startswith("FSCK{%s}" % a[0]):
                rep.bad("another-state", norm(self.fn["q"]), ev.where(), "the state isn't the one found by checking the same segment", st.steps())
            return [(st, ("void",))]
        return None

    def fact(self, fl, st, atom, truth, line):
        m = re.search(r"FSCK\{(.*)\}\.state\.has\(.*SEGMENT_([A-Z_]+)\)$", str(atom[0]))
        if m and atom[1] == "==" and str(atom[2]) == "0" and not truth:
            return st.with_auto(st.auto | {("has", m.group(2), m.group(1))}, "line %d: %s" % (line, m.group(2)))
        return st

    def iter_begin(self, fl, st, what, node):
        return st.drop_facts(lambda f: "FSCK{" in str(f[0])).with_auto(frozenset(x for x in st.auto if x[0] != "has"))


def operations(db, rep):
    base = "arki::dataset::Checker"
    ops, roots = set(), []
    for c in [base] + [x for x in subclasses(db, base) if x != base]:
        for m in (db.records.get(c) or {}).get("methods", ()):
            if "CheckerConfig" in m["id"] and not m["n"].startswith(("segments", "test_")):
                ops.add(m["id"])
                f = db.functions.get(m["id"])
                if f and f.get("body"):
                    roots.append(f)
    for fn in roots:
        rep.count("maintenance operations")
        rep.funcs.add(fn["q"])
        Flow(db, Uses(db, rep, fn, ops), interesting=None, inline_small=0).run(fn, frozenset())


def check(db, rep):
    rep.rule("an anomaly that is reported, or that a part of the check found, is in the resulting state")
    rep.rule("a check finds nothing wrong only on paths that know what has to be right")
    rep.rule("states that make maintenance remove something are given only on paths that know their cause")
    rep.rule("agents of maintenance do to a segment what its state asks for and nothing else; the state is the one of that segment; "
             "operations are passed on to archives as themselves")
    for fn in sorted(db.functions.values(), key=lambda f: f["q"]):
        if not fn.get("body") or "test" in fn["rel"] or fn["rel"].startswith("arki/python"):
            continue
        if method_name(fn) == "check_age" and "SegmentState" in fn["q"]:
            kind = "age"
        elif GIVES.search(fn.get("rt") or "") and STATE + "::" not in fn["q"]:
            kind = kind_of(db, fn)
            if kind is None:
                continue
        else:
            continue
        rep.count("functions that give a state")
        rep.funcs.add(fn["q"])
        cl = States(db, rep, fn, kind)
        fl = Flow(db, cl, interesting=None, inline_small=0)
        out = fl.run(fn, frozenset())
        if kind == "age":
            for st, val, line in list(out.ret) + [(st, None, fn["end"]) for st in out.norm]:
                # early return: the segment is to be deleted anyway
                cl.judge(st, ("s", "this"), line)
        else:
            for st, val, line in out.ret:
                cl.judge(st, val, line)
        rep.anchor(cl.results, "results of " + fn["q"])
    agents(db, rep)
    operations(db, rep)
    rep.need("functions that give a state", 20)
    rep.need("states that make maintenance drop something", 8)
    rep.need("states of parts", 20)
    rep.need("actions on segments", 8)
    rep.need("segments given to agents", 3)
    rep.need("operations passed on", 15)
