"""Which locks are held while manifests are read or written, segments are
opened and data is rewritten."""
import re
from rulebase import *
from failures import norm, callers

LOCKT = re.compile(r"^(?:const )?std::shared_ptr<(?:const )?arki::core::(Read|Append|Check|CheckWrite)Lock>")
KIND = {"ReadLock": "read", "AppendLock": "append", "CheckLock": "check", "CheckWriteLock": "write"}
MAN = "arki::dataset::simple::manifest::"
# what each access needs
NEED_READ = {"read", "append", "check", "write"}
NEED_APPEND = {"append", "check", "write"}
# places that may work without locking, with the reason
NOLOCK = {
    "segment::Session::create_metadata": "creates a new segment",
    "segment::iseg::Session::create_iseg": "creates a new segment",
    "core::lock::NullCheckLock::write_lock": "the upgrade of a null lock",
    "dataset::file::SegmentDataset::scan": "a file given by the user, not in a dataset",
    "dataset::file::FdFile::ensure_data_is_accessible": "a file given by the user, not in a dataset",
}
DATA_MUTATORS = {"remove", "repack", "tar", "zip", "compress", "move", "test_truncate", "test_make_hole",
                 "test_make_overlap", "test_corrupt", "test_touch_contents"}


def lock_kind(t):
    m = LOCKT.match(t or "")
    return m and KIND[m.group(1) + "Lock"]


def tolerated(db, fn, seen=()):
    if norm(fn["q"]) in NOLOCK or "test" in fn["rel"]:
        return True
    cs = callers(db).get(fn["id"], ())
    if not cs or fn["id"] in seen:
        return False
    return all(tolerated(db, db.functions[c], seen + (fn["id"],)) for c in cs if c in db.functions)


SEEN = set()


class Use(Client):
    """automaton: frozenset of (kind, variable) of the locks alive"""

    def __init__(self, rep, root, ambient):
        self.rep, self.root, self.ambient = rep, root, ambient
        self.n = 0

    def cnt(self, name, ev):
        k = (name, ev.where(), ev.name)
        if k not in SEEN:
            SEEN.add(k)
            self.rep.count(name)

    def kinds(self, st, fl):
        out = {k for k, v in st.auto}
        for f in fl.stack:
            if f["id"] in fl.db.functions:
                out |= ambient(fl.db, f)
        return out

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def call(self, fl, st, ev):
        rep = self.rep
        k = lock_kind(ev.t)
        if ev.kind == "call" and k and ("_lock" in ev.name) and ev.name not in ("make_shared",):
            self.cnt("locks taken", ev)
            what = ",".join(fl.vstr(a) for a in ev.args) if ev.args else "dataset"
            if ev.name == "write_lock":
                what = fl.vstr(ev.obj) if ev.obj else "?"
            fl.throw(st, "any", ev.line)
            return [(st.with_auto(st.auto, None), ("s", "LOCK:%s:%s" % (k, what)))]
        if ev.name in ("segment_from_relpath", "segment_from_relpath_and_format") and ev.args:
            fl.throw(st, "any", ev.line)
            return [(st, ("s", "SEG<%s>" % fl.vstr(ev.args[0])))]
        if ev.name == "relpath" and ev.obj and ev.obj[0] == "s":
            m = re.match(r"SEG<(.*)>$", ev.obj[1])
            if m:
                return [(st, ("s", m.group(1)))]
        # manifest
        if ev.cls.startswith(MAN) and ev.name in ("reread", "file_list", "segment", "get_stored_time_interval", "set",
                                                  "set_mtime", "remove", "flush", "rename") and ev.kind == "call":
            need = NEED_READ if ev.name in ("reread", "file_list", "segment", "get_stored_time_interval") and \
                ev.cls == MAN + "Reader" else NEED_APPEND
            self.n += 1
            self.cnt("manifest accesses checked", ev)
            if not (self.kinds(st, fl) & need):
                rep.bad("manifest-unlocked", norm(self.root["q"]), ev.where(),
                        "the manifest is accessed (%s) with %s" % (
                            ev.name, "no lock held" if not self.kinds(st, fl) else "only %s held" % ", ".join(sorted(self.kinds(st, fl)))),
                        st.steps(), ev.name)
            return None
        # segments
        for i, v in enumerate(ev.args):
            an = strip(ev.argn[i]) if i < len(ev.argn) else None
            if an is None or not (lock_kind(an.get("t")) or v[0] == "s" and v[1].startswith("LOCK:")):
                continue
            if ev.f.startswith("std::") and not (ev.name == "make_shared" and "arki::" in (ev.t or "")):
                continue
            if v[0] != "s" and v != ("c", 0):
                continue
            need = {"reader": NEED_READ, "segment_reader": NEED_READ, "writer": NEED_APPEND, "segment_writer": NEED_APPEND,
                    "checker": {"check", "write"}, "segment_checker": {"check", "write"}}.get(ev.name)
            if v == ("c", 0):
                rep.bad("null-lock", norm(self.root["q"]), ev.where(), "a null lock is passed to %s" % short(ev.f), st.steps(), ev.name)
                continue
            m = re.match(r"LOCK:(\w+):(.*)$", v[1])
            if not m:
                continue
            self.n += 1
            self.cnt("locks handed over checked", ev)
            if need and m.group(1) not in need:
                rep.bad("lock-kind", norm(self.root["q"]), ev.where(), "%s is given a %s lock" % (short(ev.f), m.group(1)), st.steps(), ev.name)
            # the segment the lock is for is the one opened
            seg = None
            if ev.obj is not None and ev.obj[0] == "s" and ev.name in ("reader", "writer", "checker"):
                seg = ev.obj[1]
            else:
                for j, w in enumerate(ev.args):
                    if j != i and w[0] == "s" and "Segment>" in (ev.argn[j].get("t") or ""):
                        seg = w[1]
            if seg is not None and m.group(2) not in ("dataset", "?") and m.group(1) != "write":
                rel = re.match(r"SEG<(.*)>$", seg)
                rel = rel.group(1) if rel else seg + ".relpath()"
                if m.group(2) != rel:
                    rep.bad("lock-other-segment", norm(self.root["q"]), ev.where(),
                            "the lock is for %s, the segment opened is %s" % (m.group(2), rel), st.steps(), ev.name)
        # rewriting data in place
        if ev.kind == "ctor" and ev.f in ("arki::utils::sys::File::File", "arki::core::File::File") and len(ev.args) > 1 and \
                ev.args[1][0] == "c" and isinstance(ev.args[1][1], int) and (ev.args[1][1] & 3) and not (ev.args[1][1] & 0o100):
            self.n += 1
            self.cnt("files opened for rewriting by datasets", ev)
            if "write" not in self.kinds(st, fl):
                rep.bad("rewrite-unlocked", norm(self.root["q"]), ev.where(),
                        "a file is opened for rewriting in place without holding a write lock", st.steps(), "")
        return None

    def assign(self, fl, st, loc, val, node):
        if val and val[0] == "s" and val[1].startswith("LOCK:"):
            k = val[1].split(":")[1]
            st = st.with_auto(st.auto | {(k, loc)}, "line %s: %s lock in %s" % (node.get("l"), k, loc.split("#")[0]))
        elif any(v == loc for k, v in st.auto):
            st = st.with_auto(frozenset(x for x in st.auto if x[1] != loc), "line %s: %s no longer holds its lock" % (node.get("l"), loc.split("#")[0]))
        return st

    def dtor(self, fl, st, typ, loc, line):
        if any(v == loc for k, v in st.auto):
            return [st.with_auto(frozenset(x for x in st.auto if x[1] != loc), "line %d: lock %s released" % (line, loc.split("#")[0]))]
        return None


def cls_of(db, fn):
    m = db.method_of.get(fn["id"])
    return m[0] if m else None


def ambient(db, fn):
    """locks a function can count on: those handed to it and those its object keeps"""
    out = set()
    for p in fn["params"]:
        k = lock_kind(p["t"].rstrip("& "))
        if k:
            out.add(k)
    c = cls_of(db, fn)
    if c and not fn.get("ctor"):
        for x in [c] + superclasses(db, c):
            for f in (db.records.get(x) or {"fields": ()})["fields"]:
                k = lock_kind(f["t"])
                if k:
                    out.add(k)
    return out


def is_virtual(db, fn):
    m = db.method_of.get(fn["id"])
    return bool(m and (m[1].get("virt") or m[1].get("over")))


def strip(n):
    while n is not None and n["k"] in ("full", "temp", "defarg", "icast", "cast"):
        n = n["e"]
    return n


def check(db, rep):
    rep.rule("manifests are read and written, segments opened and data rewritten only while the lock the operation needs is "
             "alive: a local whose scope covers the access, a member kept for the life of the object, or a parameter; a lock "
             "for a segment is taken on the segment that is opened")
    rep.rule("methods that rewrite segment data are called by fixers only, and a fixer exists only with the write upgrade")
    rep.rule("locks that do not lock are created only in the listed places")
    todo = {}
    # functions of dataset code that touch locks, manifests or segments
    for fn in sorted(db.functions.values(), key=lambda f: (f["rel"], f["line"], f["id"])):
        if not fn["rel"].startswith(("arki/dataset/", "arki/segment/", "arki/segment.cc", "arki/core/lock")) or "test" in fn["rel"]:
            continue
        if method_name(fn).startswith("test_") or fn["rel"].startswith("arki/dataset/simple/manifest"):
            continue
        hit = False
        for x in fbody(fn):
            if x["k"] in ("call", "ctor"):
                f = x.get("f", "")
                if x.get("cls", "").startswith(MAN) or lock_kind(x.get("t")) or any(lock_kind(a.get("t")) for a in x["a"]) or \
                        (fn["rel"].startswith("arki/dataset/") and f == "arki::utils::sys::File::File"):
                    hit = True
                # null locks
                mm = re.search(r"arki::core::lock::Null\w*Lock", x.get("t", "") if f == "std::make_shared" else (f if x["k"] == "ctor" else ""))
                if mm and not fn["q"].startswith("arki::core::lock::Null"):
                    rep.count("locks that do not lock")
                    rep.site("locks that do not lock", "%s (%s)" % (short(fn["q"]), where(fn, x["l"])))
                    if not tolerated(db, fn):
                        rep.bad("unlocked-by-design", norm(fn["q"]), where(fn, x["l"]), "creates a lock that does not lock", [], mm.group(0))
            if x["k"] == "{}":
                for y in x["b"]:
                    z = strip(y)
                    if z and z["k"] == "call" and lock_kind(z.get("t")) and "_lock" in z.get("f", ""):
                        rep.bad("lock-dropped", norm(fn["q"]), where(fn, z["l"]), "the lock taken is not kept: it is released at once", [], "")
        if not hit:
            continue
        todo[fn["id"]] = fn
    # helpers are judged in the functions that call them, with what these hold
    roots = {}
    work = list(todo.values())
    inl = set(todo)
    while work:
        fn = work.pop()
        cs = [db.functions[c] for c in callers(db).get(fn["id"], ()) if c in db.functions]
        cs = [c for c in cs if "test" not in c["rel"]]
        if fn.get("virt") or fn.get("ctor") or fn.get("dtor") or not cs or ambient(db, fn) or \
                method_name(fn) in ("fixer", "segment_prelocked") or is_virtual(db, fn):
            roots[fn["id"]] = fn
            continue
        for c in cs:
            if c["id"] not in inl:
                inl.add(c["id"])
                if c["rel"].startswith(("arki/dataset/", "arki/segment")):
                    work.append(c)
                else:
                    roots[fn["id"]] = fn
            elif c["id"] == fn["id"]:
                roots[fn["id"]] = fn
    for fn in sorted(roots.values(), key=lambda f: (f["rel"], f["line"], f["id"])):
        amb = ambient(db, fn)
        cl = Use(rep, fn, amb)
        lam = {x["id"] for g in inl if g in db.functions for x in fbody(db.functions[g]) if x["k"] == "lambda"}
        fl = Flow(db, cl, interesting=lam | inl, inline_small=0)
        fl.run(fn, frozenset())
        if cl.n:
            rep.count("functions checked")
            rep.site("functions checked", "%s (%s)%s" % (short(fn["q"]), where(fn), " with " + ", ".join(sorted(amb)) if amb else ""))
        for u in fl.unsupported:
            rep.errors.append(u)
    # classes keep the lock they are given
    for q in ("arki::segment::Reader", "arki::segment::Writer", "arki::segment::Checker", "arki::segment::Fixer",
              "arki::dataset::segmented::CheckerSegment"):
        for fn in fns(db, q + "::" + q.rsplit("::", 1)[-1]):
            ps = [p for p in fn["params"] if lock_kind(p["t"])]
            if not ps or not fn.get("ctor"):
                continue
            out = Flow(db, Client(), interesting=set(), inline_small=0).run(fn, (), params={p["n"]: ("s", "GIVEN") for p in ps})
            fields = ["this." + f["n"] for f in db.records[q]["fields"] if lock_kind(f["t"])]
            rep.count("classes that keep their lock")
            for s, v, l in out.ret:
                if not any(s.env.get(f) == ("s", "GIVEN") for f in fields):
                    rep.bad("lock-not-kept", norm(fn["q"]), where(fn), "the lock given to the constructor is not kept by the object", [], q)
    # data is rewritten by fixers only
    fixers = set(["arki::segment::Fixer"] + subclasses(db, "arki::segment::Fixer"))
    base = "arki::segment::data::Checker"
    datacls = set([base] + subclasses(db, base))
    muts = set()
    for m in db.records[base]["methods"]:
        f = m["id"]
        if m["n"] in DATA_MUTATORS:
            muts |= all_overriders(db, f)

    def is_fixer(fn, seen=()):
        c = cls_of(db, fn)
        if c in fixers or c in datacls or "test" in fn["rel"]:
            return True
        cs = callers(db).get(fn["id"], ())
        if not cs or fn["id"] in seen:
            return False
        return all(is_fixer(db.functions[c], seen + (fn["id"],)) for c in cs if c in db.functions)
    for fn in db.functions.values():
        if "_edges" not in fn:
            fn["_edges"] = function_edges(db, fn)
        for o, callee, n in fn["_edges"]:
            if callee in muts and n is not None:
                rep.count("calls that rewrite segment data")
                if not is_fixer(fn):
                    rep.bad("rewrite-outside-fixer", norm(fn["q"]), where(fn, n["l"]), "%s is called by code that need not hold the write lock" % short(n["f"]), [], n["f"])
    # fixers get the upgrade
    for fn in db.functions.values():
        for x in fbody(fn):
            t = None
            if x["k"] == "call" and x.get("f") == "std::make_shared":
                mm = re.match(r"std::shared_ptr<(.*)>$", x.get("t", ""))
                t = mm and mm.group(1)
            elif x["k"] == "ctor" and not fn.get("ctor"):
                t = x["cls"]
            if t not in fixers or t == "arki::segment::Fixer" or "test" in fn["rel"]:
                continue
            if x["k"] == "ctor" and x.get("cm"):
                continue
            rep.count("fixers created")
            lk = [y for a in x["a"] for y in walk(a) if lock_kind(y.get("t")) == "write"]
            ok = bool(lk) and not any(y.get("f") == "std::make_shared" or "Null" in y.get("f", "") for y in lk)
            if not ok:
                rep.bad("fixer-unlocked", norm(fn["q"]), where(fn, x["l"]), "a fixer is created without the write upgrade of the checker's lock", [], t)
    rep.need("functions checked", 20)
    rep.need("manifest accesses checked", 20)
    rep.need("locks handed over checked", 8)
    rep.need("locks taken", 8)
    rep.need("classes that keep their lock", 5)
    rep.need("calls that rewrite segment data", 15)
    rep.need("fixers created", 3)
