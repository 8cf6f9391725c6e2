"""Files are replaced whole: what takes the place of a file was written
completely under another name."""
import re
from rulebase import *
from failures import norm, callers
from rollback import clean

O_CREAT, O_EXCL, O_TRUNC, O_WR = 0o100, 0o200, 0o1000, 0o3
CREATOR = "arki::segment::AppendCreator"
SYNC = ("fsync", "fdatasync")
QUIET = ("path", "is_open", "fstat", "fchmod", "futimens", "operator int", "operator bool", "get_format", "size", "empty", "c_str",
         "native", "string", "only_one_group", "throw_error", "throw_runtime_error", "lseek")


def ftype(t):
    t = (t or "").replace("const ", "").strip()
    m = re.match(r"std::shared_ptr<(.*)>$", t)
    if m:
        t = m.group(1).strip()
    return bool(re.search(r"(^|::)(File|HoleFile|NamedFileDescriptor|ManagedNamedFileDescriptor|FileDescriptor)$", t.rstrip(" &*")))


class Files(Client):
    """automaton: frozenset of (path, flags) and ('alias', loc, path)
    flags: t temporary chosen by the system, x O_EXCL, T truncated, D written since the last flush, S flushed, N flush disabled by the
    administrator, C closed, R renamed over another file, G gone"""

    def __init__(self, db, rep, root, need_sync, fields=()):
        self.db, self.rep, self.root, self.need_sync = db, rep, root, need_sync
        self.fields = fields
        self.seen = set()
        self.renames = 0

    def want_inline(self, fl, st, ev, fn):
        if "(lambda" in fn["q"]:
            return None
        return fn["rel"] == self.root["rel"] and not re.match(r"test_", method_name(fn)) and ev.name not in ("throw_error",)

    def inline_virtual(self, fl, st, ev, cands):
        return False

    # -- state
    @staticmethod
    def files(st):
        return {x[0]: x[1] for x in st.auto if x[0] != "alias" and len(x) == 2}

    def put(self, st, path, flags, note=None):
        a = frozenset(x for x in st.auto if not (len(x) == 2 and x[0] == path)) | {(path, flags)}
        return st.with_auto(a, note)

    def find(self, st, v):
        """the path of the file a value stands for"""
        if not isinstance(v, tuple) or v[0] != "s":
            return None
        v = v[1]
        m = re.match(r"FILE\{(.*)\}$", v)
        if m:
            return m.group(1)
        for x in st.auto:
            if len(x) == 3 and x[0] == "alias" and (v == x[1] or v.startswith(x[1] + "'")):
                return x[2]
        if v in self.fields:
            return v
        return None

    def bad(self, kind, ev, msg, st, detail=""):
        self.rep.bad(kind, norm(self.root["q"]), ev if isinstance(ev, str) else ev.where(), msg, st.steps(), detail)

    def create(self, st, ev, path, flags):
        fs = self.files(st)
        f = ""
        if flags & O_TRUNC:
            f += "T"
        if flags & O_EXCL:
            f += "x"
        self.seen.add(path)
        if "x" in f and "G" not in fs.get(path, ""):
            f += "b"
        return self.put(st, path, f, "line %d: %s opened for writing" % (ev.line, path))

    def call(self, fl, st, ev):
        l = "line %d: " % ev.line
        if ev.kind == "ctor" and ftype(ev.cls) and ev.args:
            path = clean(ev.args[0])
            fl.throw(st, "any", ev.line)
            if len(ev.args) > 1 and ev.args[1][0] == "c" and int(ev.args[1][1]) & O_CREAT and int(ev.args[1][1]) & O_WR:
                st = self.create(st, ev, path, int(ev.args[1][1]))
            return [(st, ("s", "FILE{%s}" % path))]
        if ev.name == "mkstemp" and (ev.cls or "").endswith("File"):
            path = "mkstemp(%s)" % clean(ev.args[0])
            fl.throw(st, "any", ev.line)
            self.seen.add(path)
            return [(self.put(st, path, "t", l + "temporary file created"), ("s", "FILE{%s}" % path))]
        n = ev.name
        if n in ("unlink", "remove", "unlink_ifexists", "rmtree_ifexists", "rmtree", "remove_all") and ev.args:
            p = clean(ev.args[0])
            p = self.find(st, ev.args[0]) or p
            fs = self.files(st)
            if "R" not in fs.get(p, ""):
                st = self.put(st, p, "G", l + "%s removed" % p)
            return [(st, ("s", "rc"))]
        if n in ("rename", "rename_ifexists") and len(ev.args) >= 2:
            return self.rename(fl, st, ev)
        obj = self.find(st, ev.obj)
        if obj is not None:
            if n == "path":
                return [(st, ("s", obj))]
            if n == "is_open" and obj in self.files(st):
                return [(st, ("c", 0 if "C" in self.files(st)[obj] else 1))]
            if n in ("operator int", "operator bool"):
                return [(st, ("s", "FILE{%s}" % obj))]
            if n in QUIET:
                return None
            fs = self.files(st)
            f = fs.get(obj)
            if n in ("open", "open_ifexists"):
                if ev.args and ev.args[0][0] == "c" and int(ev.args[0][1]) & O_CREAT and int(ev.args[0][1]) & O_WR:
                    fl.throw(st, "any", ev.line)
                    return [(self.create(st, ev, obj, int(ev.args[0][1])), ("s", "rc"))]
                return None
            if f is None:
                return None
            if n in SYNC:
                fl.throw(st, "any", ev.line)
                return [(self.put(st, obj, f.replace("D", "").replace("S", "") + "S", l + "flushed"), ("void",))]
            if n == "close":
                fl.throw(st, "any", ev.line)
                return [(self.put(st, obj, f.replace("C", "") + "C", l + "closed"), ("void",))]
            return self.write(fl, st, ev, [obj], l)
        # C library
        if ev.f in SYNC and ev.args and self.find(st, ev.args[0]):
            p = self.find(st, ev.args[0])
            f = self.files(st).get(p)
            if f is not None:
                return [(self.put(st, p, f.replace("D", "").replace("S", "") + "S", l + "flushed"), ("c", 0)), (st, ("c", -1))]
        given = [self.find(st, v) for v in ev.args]
        given = [p for p in given if p is not None and p in self.files(st)]
        if given and n not in QUIET and ev.kind == "call" and n not in ("move", "forward"):
            # inlined functions tell by themselves
            fn = self.db.functions.get(ev.id)
            if fn and fn.get("body") and fn["rel"] == self.root["rel"] and not ev.virt:
                return None
            return self.write(fl, st, ev, given, l)
        if ev.kind == "call" and (ev.obj or ("", ""))[0] == "s" and self.fields and self.writes_through(ev):
            return self.write(fl, st, ev, [p for p in self.fields if p in self.files(st)], l)
        return None

    def writes_through(self, ev):
        """a call on the same object, or on another field of it, that may write to its files"""
        if not str(ev.obj[1]).startswith("this"):
            return False
        m = self.db.method_of.get(ev.id)
        if ev.name in QUIET or (m and m[1].get("const")) or (ev.cls or "").startswith("std::"):
            return False
        fn = self.db.functions.get(ev.id)
        if ev.obj[1] == "this":
            return not (fn and fn["rel"] == self.root["rel"]) and ev.name != "segment"
        return True

    def write(self, fl, st, ev, paths, l):
        fs = self.files(st)
        for p in paths:
            f = fs[p]
            if "R" in f:
                self.bad("written-after", ev, "%s is written after it took the place of the old file: it can be seen half written" % p, st)
            st = self.put(st, p, f.replace("D", "").replace("S", "").replace("C", "") + "D", l + "written")
        fl.throw(st, "any", ev.line)
        return [(st, ("s", "rc@%d" % ev.line) if ev.t != "void" else ("void",))]

    def rename(self, fl, st, ev):
        l = "line %d: " % ev.line
        src, dst = clean(ev.args[0]), clean(ev.args[1])
        src = self.find(st, ev.args[0]) or src
        dst = next((x[2] + dst[len(x[1]):] for x in sorted(st.auto, key=lambda x: (-len(x[1]), x)) if len(x) == 3 and x[0] == "is" and (x[1] == dst or dst.startswith(x[1] + "."))), dst)
        fs = self.files(st)
        if src not in fs or "G" in fs[src]:
            return None
        f = fs[src]
        self.renames += 1
        if src == dst:
            self.bad("replaced-in-place", ev, "%s is written directly under its final name: a crash or an error leaves it half written" % src, st)
        if "b" in f and "t" not in f:
            self.bad("leftover-blocks", ev, "the temporary file is opened only if it does not exist: one left by a crash prevents replacing the file from then on", st)
        if "C" not in f and "S" not in f:
            self.bad("renamed-open", ev, "%s takes the place of the old file before it is closed: an error in writing it is found too late" % src, st)
        if self.need_sync and ("D" in f or "S" not in f) and "N" not in f:
            self.bad("renamed-unsynced", ev, "%s takes the place of the old file before it is flushed to disk: a crash can lose both" % src, st)
        fl.throw(st, "any", ev.line)
        st = self.put(st, src, f.replace("R", "") + "R", l + "renamed over the old file")
        if ev.f == "rename":
            return [(st, ("c", 0)), (self.put(st, src, f, l + "rename fails"), ("c", -1))]
        return [(st, ("void",))]

    def assign(self, fl, st, loc, val, node):
        if val[0] == "s":
            m = re.match(r"FILE\{(.*)\}$", val[1])
            if m:
                return st.with_auto(frozenset(x for x in st.auto if not (len(x) == 3 and x[1] == loc)) | {("alias", loc, m.group(1))})
            if "." in loc and val[1] != loc and len(val[1]) < 80:
                return st.with_auto(frozenset(x for x in st.auto if not (len(x) == 3 and x[1] == loc)) | {("is", loc, clean(val))})
        return st

    def fact(self, fl, st, atom, truth, line):
        if str(atom[0]).startswith("FILE{") and atom[1] == "==" and atom[2] == 0 and truth:
            return None
        if "eatmydata" in str(atom[0]) and atom[1] == "==" and atom[2] == 0 and not truth:
            for p, f in self.files(st).items():
                if "N" not in f:
                    st = self.put(st, p, f + "N")
        return st


# files that are opened for truncation and are not replacements: (function, reason)
NOT_REPLACED = (
    (r"arki::segment::data::.*Creator", "writes a new file: the callers are judged"),
    (r"arki::utils::sys::write_file$", "not used on files of datasets: judged by its callers"),
    (r".*::test_", "used by tests only"),
)


def in_scope(fn):
    r = fn["rel"]
    return fn.get("body") and r.startswith("arki/") and not r.startswith("arki/python/") and "test" not in r


def creates(fn):
    """does the body open a file for truncation or make a temporary?"""
    for n in fbody(fn):
        if n["k"] in ("ctor", "call") and (ftype(n.get("t")) and n["k"] == "ctor" or str(n.get("f", "")).endswith(("::open", "::open_ifexists")) or n["k"] == "ctor" and ftype(n.get("cls"))):
            for a in n.get("a", ()):
                v = const_of(a)
                if v is not None and v & O_TRUNC and v & O_WR:
                    return n
        if n["k"] == "call" and str(n.get("f", "")).endswith("File::mkstemp"):
            return n
        if n["k"] == "call" and n.get("f") in ("fopen", "creat") and "rb" not in str(n.get("a")):
            return n
        if n["k"] == "ctor" and str(n.get("cls", "")).startswith(("std::basic_ofstream", "std::basic_fstream")):
            return n
    return None


def const_of(a):
    while isinstance(a, dict):
        if a.get("cv") is not None:
            return int(a["cv"])
        if a.get("k") not in ("full", "temp", "defarg", "icast", "cast", "paren"):
            return None
        a = a.get("e")
    return None


def check(db, rep):
    rep.rule("a segment that is written anew is flushed to disk after its last byte, and closed, before it is reported as written")
    rep.rule("a file that replaces another is written under a name of its own, closed (and flushed: data, list of segments) and then renamed, "
             "and what an interrupted attempt left behind does not prevent the next one")
    rep.rule("the copy made by a conversion or by a repack replaces nothing before it is complete, and the original goes only afterwards")
    rep.rule("the metadata or index of a segment is out of the way, or in an open transaction, when the data it describes is replaced, and is written again afterwards")
    creators(db, rep)
    replacements(db, rep)
    copies(db, rep)
    conversions(db, rep)
    descriptions(db, rep)
    rep.need("kinds of segment written anew", 5)
    rep.need("replacements of a file", 6)
    rep.need("copies of segments", 8)
    rep.need("conversions", 3)
    rep.need("replacements of described data", 8)


# ---- creators

def creators(db, rep):
    for cls in sorted(subclasses(db, CREATOR)):
        if cls == CREATOR:
            continue
        rec = db.records[cls]
        fields = tuple("this." + f["n"] for f in rec["fields"] if ftype(f["t"]))
        done = False
        for m in rec["methods"]:
            fn = db.functions.get(m["id"])
            if not fn or not fn.get("body") or m["n"] not in ("create", "append_md", "append"):
                continue
            rep.funcs.add(fn["q"])
            if m["n"] != "create" and not creates_excl(fn):
                continue
            cl = Files(db, rep, fn, True, fields)
            auto = frozenset((f, "D") for f in fields) if m["n"] == "create" else frozenset()
            fl = Flow(db, cl, interesting=set(), inline_small=0)
            o = fl.run(fn, auto)
            for st, val, line in o.ret:
                for p, f in sorted(cl.files(st).items()):
                    if "N" in f or "G" in f:
                        continue
                    done = True
                    if "D" in f or "S" not in f:
                        cl.bad("written-unsynced", "%s:%d" % (fn["rel"], line), "%s is reported as written without being flushed to disk" % p, st, p)
        if done:
            rep.count("kinds of segment written anew")


def creates_excl(fn):
    for n in fbody(fn):
        if n["k"] == "ctor" and ftype(n.get("cls") or n.get("t")):
            for a in n.get("a", ()):
                v = const_of(a)
                if v is not None and v & O_CREAT and v & O_WR:
                    return True
    return False


# ---- files that take the place of another

def replacements(db, rep):
    creating = {}
    for fn in db.functions.values():
        if in_scope(fn) and not method_name(fn).startswith("test_"):
            n = creates(fn)
            if n:
                creating[fn["id"]] = fn
    creator_classes = subclasses(db, CREATOR)
    is_ctor = lambda f: f["id"] in db.method_of and method_name(f) == f["q"].rsplit("::", 2)[-2].split("<")[0]
    # structs that open the file in their constructor: their users are judged
    holders = {f["id"] for f in creating.values() if is_ctor(f) and db.method_of[f["id"]][0] not in creator_classes}
    again = True
    while again:
        again = False
        for f in db.functions.values():
            if in_scope(f) and f["id"] not in holders and f["id"] not in creating and is_ctor(f) and db.method_of[f["id"]][0] not in creator_classes:
                if any(n["k"] == "ctor" and n.get("id") in holders for n in fbody(f)):
                    holders.add(f["id"])
                    again = True
    roots = {}
    for fn in db.functions.values():
        if not in_scope(fn) or method_name(fn).startswith("test_"):
            continue
        c = db.method_of.get(fn["id"], ("",))[0]
        if c in creator_classes or re.search(r"::Creator(<|$)", c):
            continue
        if fn["id"] in creating and fn["id"] not in holders:
            roots[fn["id"]] = fn
        for n in fbody(fn):
            if n["k"] == "ctor" and n.get("id") in holders and not is_ctor(fn):
                roots[fn["id"]] = fn
    done = set()
    for i, fn in sorted(roots.items(), key=lambda x: (x[1]["rel"], x[1]["line"])):
        if (fn["rel"], fn["line"]) in done or "(lambda" in fn["q"]:
            continue
        done.add((fn["rel"], fn["line"]))
        if fn["q"] in ("arki::utils::sys::write_file",):
            used = [f for c in callers(db).get(i, ()) for f in [db.functions[c]] if in_scope(f) and not method_name(f).startswith("test_")
                    and f["q"] != "arki::utils::sys::write_file"]
            for f in used:
                rep.bad("replaced-in-place", norm(f["q"]), where(f), "writes a file directly under its final name: a crash or an error leaves it half written", [], "write_file")
            continue
        pending = "core::Pending" in (fn["rt"] or "")
        data = fn["rel"].startswith("arki/segment/data") or fn["rel"].endswith("manifest.cc")
        cl = Files(db, rep, fn, data)
        fl = Flow(db, cl, interesting={f for f in roots if db.functions[f]["rel"] == fn["rel"]} | {f for f in holders | set(creating) if db.functions[f]["rel"] == fn["rel"]}, inline_small=0)
        o = fl.run(fn, frozenset())
        rep.funcs.add(fn["q"])
        if not any("T" in f for s, v, l in o.ret for f in cl.files(s).values()) and not cl.renames:
            continue
        rep.count("replacements of a file")
        rep.site("replacement", where(fn))
        for st, val, line in o.ret:
            for p, f in sorted(cl.files(st).items()):
                if not set("RG") & set(f) and "T" in f:
                    if pending:
                        if ("D" in f or "S" not in f) and "N" not in f:
                            cl.bad("renamed-unsynced", "%s:%d" % (fn["rel"], line), "%s is ready to take the place of the old file without being flushed to disk" % p, st, p)
                    else:
                        cl.bad("replaced-in-place", "%s:%d" % (fn["rel"], line), "%s is written directly under its final name, or never renamed: a crash or an error leaves it half written" % p, st, p)


# ---- copies that replace a segment, or are its new form

TX = "arki::core::Transaction"


class Copies(Client):
    """automaton: frozenset of ('cov', n, path), ('made', path), ('ctx',), ('mv', src, dst), ('rm', path), ('done',)"""

    def __init__(self, db, rep, root, creators):
        self.db, self.rep, self.root, self.creators = db, rep, root, creators
        self.txs = subclasses(db, TX)

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.root["rel"] and (ev.cls or "") not in self.creators and (ev.cls or "") not in self.txs and "(lambda" not in fn["q"] \
            and any(n["k"] == "ctor" and (n.get("cls") in self.creators or n.get("cls") in self.txs) or n["k"] == "call" and str(n.get("f", "")).endswith("::push_back")
                    for n in fbody(fn))

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def add(self, st, x, note=None):
        return st.with_auto(st.auto | {x}, note)

    def pos(self, v, st):
        """elements of the list of temporary files"""
        m = re.match(r"TMPFILES\[(\d+)\]$", v)
        if m:
            for x in st.auto:
                if x[0] == "cov" and x[1] == int(m.group(1)):
                    return x[2]
        return v

    def call(self, fl, st, ev):
        l = "line %d: " % ev.line
        if ev.kind == "ctor" and ev.cls in self.creators and len(ev.args) >= 3:
            paths = [clean(v) for v in ev.args[2:] if v[0] == "s"][:2]
            if len(ev.args) < 4:
                paths = paths[:1]
            fl.throw(st, "any", ev.line)
            return [(self.add(st, ("copy",) + tuple(paths), l + "copy set up"), ("s", "CREATOR{%s}" % "|".join(paths)))]
        if ev.name == "create" and ev.obj and ev.obj[0] == "s" and ev.obj[1].startswith("CREATOR{"):
            fl.throw(st, "any", ev.line)
            return [(self.add(st, ("made", ev.obj[1][8:-1]), l + "copy complete"), ("void",))]
        if ev.kind == "ctor" and ev.cls in self.txs:
            n = len([x for x in st.auto if x[0] == "cov"])
            if len(ev.args) >= 2:
                st = self.add(st, ("cov", n, clean(ev.args[0])), l + "renamed on commit, removed on rollback")
                st = self.add(st, ("mv", clean(ev.args[0]), clean(ev.args[1])))
            return None if ev.obj else [(st, ("s", "TX@%d" % ev.line))]
        if ev.name == "push_back" and ev.obj and ev.obj[0] == "s" and ev.obj[1].endswith(".tmpfiles"):
            n = len([x for x in st.auto if x[0] == "cov"])
            return [(self.add(st, ("cov", n, clean(ev.args[0])), l + "removed on rollback"), ("void",))]
        if ev.name == "commit" and (ev.cls or "").endswith(("::Pending",)) or ev.name == "commit" and ev.cls in self.txs:
            for x in st.auto:
                if x[0] == "copy" and not any(y[0] == "made" and y[1] == "|".join(x[1:]) for y in st.auto):
                    self.bad("committed-early", ev.where(), "the copy takes the place of the segment before it is written", st)
            if not any(x[0] == "copy" for x in st.auto):
                self.bad("committed-early", ev.where(), "the transaction is committed before the copy is made", st)
            fl.throw(st, "any", ev.line)
            return [(self.add(st, ("done",), l + "committed"), ("void",))]
        if ev.name in ("rename", "rename_ifexists") and len(ev.args) == 2:
            return [(self.add(st, ("mv", self.pos(clean(ev.args[0]), st), self.pos(clean(ev.args[1]), st))), ("void",))]
        if ev.name in ("unlink", "remove", "unlink_ifexists", "rmtree_ifexists", "rmtree", "remove_all") and ev.args and ev.args[0][0] == "s" and "(lambda" not in str(ev.f):
            m = self.db.method_of.get(ev.id)
            if not m:
                return [(self.add(st, ("rm", clean(ev.args[0]), len([x for x in st.auto if x[0] == "mv"]))), ("s", "rc"))]
        return None

    def assign(self, fl, st, loc, val, node):
        if val[0] == "l" and loc.endswith(".on_commit") and val[1] in fl.lambdas:
            nd, owner = fl.lambdas[val[1]]
            for s, v in fl.inline_lambda(nd, owner, val, st, [("s", "TMPFILES")], node) or ():
                for x in s.auto:
                    if x not in st.auto and x[0] in ("mv", "rm"):
                        st = self.add(st, x)
        return st

    def bad(self, kind, w, msg, st, detail=""):
        self.rep.bad(kind, norm(self.root["q"]), w, msg, st.steps(), detail)


def removed_by(db, rep, fn):
    """the files that remove() of the same kind of segment removes"""
    cls = db.method_of.get(fn["id"], ("",))[0]
    for c in [cls] + [c for c in superclasses(db, cls) if c != cls]:
        for m in (db.records.get(c) or {}).get("methods", ()):
            f = db.functions.get(m["id"])
            if m["n"] == "remove" and f and f.get("body"):
                cl = Copies(db, rep, f, set())
                o = Flow(db, cl, interesting=set(), inline_small=0).run(f, frozenset())
                return {re.sub(r"^\((.*) / [^()]*\)$", r"\1", x[1]) for s, v, l in o.ret for x in s.auto if x[0] == "rm"}
    return set()


def copies(db, rep):
    cr = subclasses(db, CREATOR)
    done = set()
    for fn in sorted(db.functions.values(), key=lambda f: (f["rel"], f["line"])):
        if not in_scope(fn) or method_name(fn).startswith("test_") or "(lambda" in fn["q"]:
            continue
        if db.method_of.get(fn["id"], ("",))[0] in cr or not any(n["k"] == "ctor" and n.get("cls") in cr for n in fbody(fn)):
            continue
        # helpers that take the creator's path are judged where they are called
        key = (fn["rel"], fn["line"])
        if key in done:
            continue
        done.add(key)
        pending = "core::Pending" in (fn["rt"] or "")
        if not pending and method_name(fn) not in ("create",):
            if any(db.functions[c]["rel"] == fn["rel"] for c in callers(db).get(fn["id"], ()) if c in db.functions):
                continue
        cl = Copies(db, rep, fn, cr)
        fl = Flow(db, cl, interesting=set(), inline_small=0)
        o = fl.run(fn, frozenset())
        rep.funcs.add(fn["q"])
        rep.count("copies of segments")
        rep.site("copy", where(fn))
        gone = removed_by(db, rep, fn) if pending else set()
        for st, val, line in o.ret:
            w = "%s:%d" % (fn["rel"], line)
            cov = {x[2] for x in st.auto if x[0] == "cov"}
            for x in st.auto:
                if x[0] != "copy":
                    continue
                if ("made", "|".join(x[1:])) not in st.auto:
                    cl.bad("not-made", w, "the copy is never written", st)
                for p in x[1:]:
                    if p in cov:
                        continue
                    if not pending and re.match(r"[\w#.>]*segment[\w#.()]*\.abspath\(\)$", p) and not cov:
                        continue        # a new segment, under a name nothing else uses
                    cl.bad("copy-in-place", w, "the copy is written as %s, which no transaction renames or removes: an interruption leaves an incomplete segment" % p, st, "")
            if cov and not pending and ("done",) not in st.auto:
                cl.bad("uncommitted", w, "the copy is removed instead of taking the place of the segment", st)
            if pending and ("done",) in st.auto:
                cl.bad("committed-early", w, "the segment is replaced before the caller has prepared the metadata", st)
            if pending and gone:
                dst = {x[2] for x in st.auto if x[0] == "mv"}
                rm = {x[1] for x in st.auto if x[0] == "rm"}
                if not dst & gone:
                    cl.bad("wrong-target", w, "the new data is renamed to %s, and the segment consists of %s" % (sorted(dst), sorted(gone)), st)
                elif gone - dst - rm:
                    cl.bad("stale-part", w, "%s of the old segment stays next to the new data" % sorted(gone - dst - rm), st)


# ---- conversions: the new form first, the old one afterwards

class Conversion(Client):
    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.root["rel"] and ev.name not in ("create", "remove", "segment", "data")

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def call(self, fl, st, ev):
        if ev.name == "create" and "shared_ptr" in (ev.t or "") and not ev.obj:
            fl.throw(st, "any", ev.line)
            return [(st.with_auto(st.auto | {"new"}, "line %d: the new form is written" % ev.line), ("s", "NEW"))]
        if ev.name == "remove" and (ev.obj or ("", ""))[1] == "this":
            if "new" not in st.auto:
                self.rep.bad("removed-first", norm(self.root["q"]), ev.where(), "the segment is removed before its new form is written: an error or an interruption loses it", st.steps())
            fl.throw(st, "any", ev.line)
            return [(st.with_auto(st.auto | {"gone"}, "line %d: the old form is removed" % ev.line), ("s", "rc"))]
        return None


def conversions(db, rep):
    C = "arki::segment::data::Checker"
    for m in ("tar", "zip", "compress"):
        for fn in implementations(db, C, m):
            if fn["rel"].startswith("arki/python") or "test" in fn["rel"]:
                continue
            cl = Conversion(db, rep, fn)
            o = Flow(db, cl, interesting=set(), inline_small=0).run(fn, frozenset())
            rep.funcs.add(fn["q"])
            rep.count("conversions")
            for st, val, line in o.ret:
                if "gone" not in st.auto:
                    rep.bad("old-left", norm(fn["q"]), where(fn, line), "the old form of the segment is left in place, and it hides the new one", st.steps())


# ---- what describes the data

class Described(Client):
    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.replaced = 0

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.root["rel"] and "(lambda" not in fn["q"] and (ev.obj is None or ev.obj[1] == "this" or not ev.virt)

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def add(self, st, *xs, note=None, rm=()):
        return st.with_auto((st.auto - frozenset(rm)) | frozenset(xs), note)

    def replace(self, fl, st, ev):
        self.replaced += 1
        if "gone" not in st.auto and "tx" not in st.auto:
            self.rep.bad("described-wrongly", norm(self.root["q"]), ev.where(),
                         "the data is replaced while the metadata of the old data is still in place: an interruption leaves metadata that points at the wrong bytes", st.steps())
        fl.throw(st, "any", ev.line)
        return self.add(st, "replaced", note="line %d: data replaced" % ev.line, rm=("described",))

    def call(self, fl, st, ev):
        l = "line %d: " % ev.line
        if ev.name == "repack" and "Pending" in (ev.t or ""):
            fl.throw(st, "any", ev.line)
            return [(st, ("s", "REPACK"))]
        if "Pending" in (ev.t or "") and ev.kind == "call":
            fl.throw(st, "any", ev.line)
            return [(self.add(st, "tx", note=l + "index transaction opened"), ("s", "INDEXTX"))]
        if ev.name in ("tar", "zip", "compress") and re.search(r"::data::\w*Checker", ev.cls or ""):
            return [(self.replace(fl, st, ev), ("s", "NEWDATA"))]
        if ev.name == "commit" and (ev.cls or "").endswith("::Pending"):
            o = str((ev.obj or ("", ""))[1])
            if "REPACK" in o:
                return [(self.replace(fl, st, ev), ("void",))]
            fl.throw(st, "any", ev.line)
            if "INDEXTX" in o:
                n = ("described",) if "replaced" in st.auto and "indexed" in st.auto else ()
                return [(self.add(st, *n, note=l + "index committed", rm=("tx",)), ("void",))]
        if ev.name in ("reindex", "reset") and "tx" in st.auto and not (ev.cls or "").startswith("std::"):
            fl.throw(st, "any", ev.line)
            return [(self.add(st, "indexed", note=l + "index of the new data"), ("void",))]
        if ev.name in ("remove", "unlink", "unlink_ifexists", "remove_ifexists") and ev.args and "abspath_metadata()" in clean(ev.args[0]):
            return [(self.add(st, "gone", note=l + "old metadata removed", rm=("described",)), ("s", "rc"))]
        if ev.name in ("writeAtomically",) and ev.args and "abspath_metadata()" in clean(ev.args[0]) or ev.kind == "ctor" and "AtomicWriterWithSummary" in (ev.cls or ""):
            fl.throw(st, "any", ev.line)
            n = ("described",) if "replaced" in st.auto else ()
            return [(self.add(st, *n, note=l + "metadata written", rm=("gone",)), ("void",))]
        return None


def descriptions(db, rep):
    for m in ("reorder", "tar", "zip", "compress"):
        for fn in implementations(db, "arki::segment::Fixer", m):
            if fn["rel"].startswith("arki/python") or "test" in fn["rel"] or "::scan::" in fn["q"]:
                continue
            cl = Described(db, rep, fn)
            o = Flow(db, cl, interesting=set(), inline_small=0).run(fn, frozenset())
            rep.funcs.add(fn["q"])
            if cl.replaced:
                rep.count("replacements of described data")
                rep.site("described", where(fn))
            for st, val, line in o.ret:
                if "replaced" in st.auto and "described" not in st.auto:
                    rep.bad("undescribed", norm(fn["q"]), where(fn, line), "the data was replaced and its metadata is not written again", st.steps())
