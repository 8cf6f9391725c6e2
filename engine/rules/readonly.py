"""Queries, and checks that do not fix, change nothing.

Everything that can run in a query, or in a check without a request to fix,
is followed through the call graph (virtual calls, closures, constructors and
destructors included) down to the operations that change files or databases."""
import re
from rulebase import *
from failures import norm
from atomic import ftype, const_of
from rollback import clean

CHANGES = {f: "changes a file or a directory" for f in (
    "unlink rename rmdir mkdir mkdtemp mkstemp truncate ftruncate link symlink utimes futimes utimensat futimens utime posix_fallocate "
    "fallocate creat chmod fchmod unlinkat renameat linkat symlinkat mkdirat copy_file_range sendfile_").split()}
STDFS = re.compile(r"std::filesystem::(remove|rename|create_director\w+|remove_all|resize_file|copy\w*|create_\w+|last_write_time|permissions)$")
SQLW = re.compile(r"^\s*(INSERT|UPDATE|DELETE|DROP|CREATE|ALTER|REPLACE|VACUUM|ANALYZE)\b", re.I)
WRITE_FLAGS = 0o3103

# (function prefix, operation or '', reason): not changes of the data or of what describes it
ALLOWED = (
    ("arki::core::lock::", "", "lock files"),
    ("arki::nag::", "", "messages"),
    ("arki::iotrace::", "", "trace of accesses asked for by the administrator"),
    ("arki::utils::subprocess::", "", "child processes of filters"),
    ("arki::dataset::index::SummaryCache::open", "create_director", "directory of the cached summaries"),
    ("arki::utils::compress::TempUnzip", "mkstemp", "temporary copy under a name of its own"),
    ("arki::utils::compress::TempUnzip", "unlink", "temporary copy under a name of its own"),
    ("arki::utils::compress::TempUnzip", "utime", "temporary copy under a name of its own"),
    ("arki::segment::iseg::WIndex", "SQL CREATE", "tables of a new index: opening an index is judged where it's opened"),
    ("arki::segment::iseg::index::Aggregate::initDB", "SQL CREATE", "tables of a new index: opening an index is judged where it's opened"),
    ("arki::utils::sys::File::mkstemp", "mkstemp", "judged where it is called"),
    ("arki::utils::sys::rename", "", "judged where it is called"),
    ("arki::utils::sys::makedirs", "", "judged where it is called"),
)
# a cached summary is written: what is cached and when is judged by P16
CACHES = (
    (r"arki::dataset::simple::Reader::impl_query_summary", r"arki::Summary::writeAtomically"),
    (r"arki::dataset::index::SummaryCache::write", r"arki::Summary::writeAtomically"),
)
# datasets create their directory when they are opened
OPENING = re.compile(r"arki::dataset::(simple|iseg)::Reader::Reader$")


class Graph:
    def __init__(self, db):
        self.db = db
        self.fwd = {}
        for fid, fn in db.functions.items():
            if fn["rel"].startswith(("arki/python", "src/")) or "test" in fn["rel"]:
                continue
            edges = fn.get("_edges")
            if edges is None:
                edges = fn["_edges"] = function_edges(db, fn)
            for owner, callee, node in edges:
                self.fwd.setdefault(owner, []).append((callee, node))
        self.over = {}
        for r in db.records.values():
            for m in r["methods"]:
                for o in m.get("over", ()):
                    self.over.setdefault(o, set()).add(m["id"])
        self.lam = {}

    def overriders(self, i):
        out, todo = set(), [i]
        while todo:
            for y in self.over.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out


def literal(n):
    """the text of a string literal somewhere at the top of an argument"""
    while isinstance(n, dict):
        if n.get("k") == "str":
            return n.get("v", n.get("s"))
        nx = n.get("e")
        if nx is None and n.get("a"):
            nx = n["a"][0]
        if nx is None:
            nx = n.get("l") if isinstance(n.get("l"), dict) else n.get("x")
        n = nx
    return None


def change(n):
    """what the call or constructor changes, or None"""
    k = n["k"]
    f = n.get("f") or ""
    if k == "call":
        if f in CHANGES:
            return f
        if STDFS.match(f):
            return f.rsplit("::", 1)[-1]
        if f.endswith(("SQLiteDB::exec", "Query::compile", "OneShotQuery::OneShotQuery", "SQLiteDB::exec_nothrow")) and n.get("a"):
            t = literal(n["a"][0])
            if t and SQLW.match(t):
                return "SQL " + t.split()[0]
        if f in ("fopen", "fdopen") and len(n.get("a", ())) > 1:
            t = literal(n["a"][1])
            if t and re.search("[wa+]", t):
                return "fopen " + t
    flags = None
    if k == "ctor" and ftype(n.get("cls")):
        flags = n.get("a", ())[1:2]
    elif k == "call" and f.endswith(("::open", "::open_ifexists")) and ftype(f.rsplit("::", 1)[0]):
        flags = n.get("a", ())[:1]
    elif k == "call" and f in ("open", "open64"):
        flags = n.get("a", ())[1:2]
    elif k == "call" and f in ("openat", "openat64"):
        flags = n.get("a", ())[2:3]
    for a in flags or ():
        v = const_of(a)
        if v is not None and v & WRITE_FLAGS:
            return "open for writing"
    return None


def allowed(q, what):
    for p, w, why in ALLOWED:
        if q.startswith(p) and (not w or what.startswith(w)):
            return why
    if OPENING.match(q) and what.startswith("create_director"):
        return "directory of a new dataset"
    return None


def explore(db, g, roots, rep, kind):
    owner_q = {}
    seen = {r: (None, 0) for r in roots}
    todo = list(roots)
    n_calls = 0

    def name(i):
        f = db.functions.get(i)
        if f:
            return f["q"]
        return owner_q.get(i, i)

    while todo:
        x = todo.pop(0)
        xf = db.functions.get(x)
        xq = name(x)
        for callee, node in g.fwd.get(x, ()):
            n_calls += 1
            if node is not None:
                w = change(node)
                if w:
                    # the function, or the one it was extracted from
                    why = allowed(xq, w) or allowed(name(seen[x][0]) if seen[x][0] else "", w)
                    if why:
                        rep.count("changes allowed with a stated reason")
                        rep.site("allowed", "%s in %s: %s" % (w, short(xq), why))
                    else:
                        chain = []
                        y = x
                        while y is not None and len(chain) < 14:
                            p, l = seen[y]
                            chain.append("%s%s" % (short(name(y)), " called at line %d" % l if l else ""))
                            y = p
                        base = xf
                        rel = base["rel"] if base else next((db.functions[z]["rel"] for z in [x] if z in db.functions), None)
                        y = x
                        while rel is None and y is not None:
                            y = seen[y][0]
                            rel = db.functions[y]["rel"] if y in db.functions else None
                        rep.bad("changed-by-" + kind, norm(xq), "%s:%d" % (rel or "?", node["l"]), "%s can run in a %s" % (w, kind), list(reversed(chain)), w)
            dtor = "~" in (db.functions.get(callee, {}).get("q") or "").rsplit("::", 1)[-1]
            targets = [callee]
            if node is not None and not dtor:
                targets += sorted(g.overriders(callee))
            cq = db.functions.get(callee, {}).get("q") or (node or {}).get("f") or ""
            if any(re.match(a + "$", xq.split("::(lambda")[0]) and re.match(b + "$", cq) for a, b in CACHES):
                rep.count("changes allowed with a stated reason")
                rep.site("allowed", "%s in %s: cached summary" % (cq, short(xq)))
                continue
            for t in targets:
                if t in seen or t == "?":
                    continue
                tf = db.functions.get(t)
                if tf and (tf["rel"].startswith(("arki/python", "src/")) or "test" in tf["rel"] or method_name(tf).startswith("test_")):
                    continue
                if tf is None:
                    owner_q[t] = xq if "(lambda" in xq else xq + "::(lambda)"
                seen[t] = (x, node["l"] if node else 0)
                todo.append(t)
    rep.count("functions that can run in a " + kind, len(seen))
    rep.count("calls followed", n_calls)
    for i in seen:
        if i in db.functions:
            rep.funcs.add(db.functions[i]["q"])
    return seen


def roots_of(db, spec):
    out = []
    for base, names in spec:
        for c in [base] + [x for x in subclasses(db, base) if x != base]:
            for m in (db.records.get(c) or {}).get("methods", ()):
                if names is not None and m["n"] not in names or m["n"].startswith("test_") or m["n"].startswith("~"):
                    continue
                f = db.functions.get(m["id"])
                if f and f.get("body") and not f["rel"].startswith("arki/python") and "test" not in f["rel"] and m["id"] not in out:
                    out.append(m["id"])
    return out


# ---- databases are opened only if they exist

class Opened(Client):
    def __init__(self, db, rep, root):
        self.db, self.rep, self.root = db, rep, root
        self.opened = 0

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.root["rel"] and "(lambda" not in fn["q"] and not re.search(r"::(fsck|init_others|setup_pragmas|all_other_tables)$", fn["q"]) \
            and not re.match(r"has_|abspath", method_name(fn))

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def call(self, fl, st, ev):
        if ev.f and ev.f.endswith("SQLiteDB::open") or ev.kind == "ctor" and re.search(r"::iseg::(CIndex|AIndex|WIndex\b.*)$", ev.cls or "") and self.root["q"] != ev.f \
                or ev.name == "make_shared" and re.search(r"::iseg::(CIndex|AIndex)>", ev.t or ""):
            self.opened += 1
            if "exists" not in st.auto:
                self.rep.bad("database-created", norm(self.root["q"]), ev.where(),
                             "the index is opened without knowing that it exists: opening it creates an empty one", st.steps())
            return [(st, ("s", "DBOPEN"))]
        return None

    def fact(self, fl, st, atom, truth, line):
        a = str(atom[0])
        if re.search(r"(^|[^\w])(access|has_valid_iseg_index|exists|timestamp)\(", a) and atom[1] == "==" and str(atom[2]) in ("0", "$0") and not truth:
            return st.with_auto(st.auto | {"exists"}, "line %d: the index exists" % line)
        return st


def databases(db, rep):
    roots = [f for f in db.functions.values() if f.get("body") and f["rel"].startswith("arki/segment/iseg") and "test" not in f["rel"]
             and (re.search(r"::iseg::RIndex::RIndex$", f["q"]) or re.search(r"::iseg::Checker::(scan|fsck|has_data|timestamp)$", f["q"]))]
    for fn in roots:
        cl = Opened(db, rep, fn)
        Flow(db, cl, interesting=None, inline_small=0).run(fn, frozenset())
        if cl.opened:
            rep.count("openings of an index")
            rep.site("opened", where(fn))


# ---- maintenance without "fix"

# calls that change nothing there, and why
PRUNED = (
    # what can't have been changed isn't written: judged below
    (r".*", r"arki::dataset::simple::manifest::Writer::flush"),
    # a new, empty archive is initialised
    (r"arki::dataset::archive::\w+::rescan", r"arki::dataset::Checker::check"),
)


def changes_manifest(db, mid):
    """methods of the manifest which change what it contains"""
    cls, m = db.method_of.get(mid, (None, None))
    f = db.functions.get(mid)
    return bool(m and f and not m.get("const") and not m.get("ctor") and method_name(f) not in ("flush", "reread", "Writer", "~Writer", "segment"))


class Flush(Client):
    """the manifest is written only if it was changed"""

    def __init__(self, rep, fn):
        self.rep, self.fn = rep, fn

    def call(self, fl, st, ev):
        w = change(ev.node) if isinstance(ev.node, dict) else None
        if w:
            self.rep.count("writes of the manifest")
            if "dirty" not in st.auto:
                self.rep.bad("manifest-rewritten", norm(self.fn["q"]), ev.where(), "%s without knowing that the manifest was changed" % w, st.steps(), w)
        return None

    def fact(self, fl, st, atom, truth, line):
        if str(atom[0]).endswith("dirty") and atom[1] == "==" and str(atom[2]) == "0" and not truth:
            return st.with_auto(st.auto | {"dirty"})
        return st


def changers(db, g):
    """ids of the functions from which a change can be reached"""
    rev, seeds = {}, set()
    for o, edges in g.fwd.items():
        oq = db.functions.get(o, {}).get("q", "")
        for callee, node in edges:
            cq = db.functions.get(callee, {}).get("q") or (node or {}).get("f") or ""
            if any(re.match(a + "$", oq.split("::(lambda")[0]) and re.match(b + "$", cq) for a, b in CACHES + PRUNED):
                continue
            if node is not None:
                w = change(node)
                if w and not allowed(oq, w) and not w.startswith(("create_director", "mkdir")) and not oq.endswith("create" "Flagfile") \
                        or cq.startswith("arki::dataset::simple::manifest::Writer::") and changes_manifest(db, callee):
                    seeds.add(o)
            rev.setdefault(callee, set()).add(o)
            f = db.functions.get(callee)
            if node is not None and not (f and "~" in f["q"].rsplit("::", 1)[-1]):
                for y in g.overriders(callee):
                    rev.setdefault(y, set()).add(o)
    out, todo = set(seeds), list(seeds)
    while todo:
        for y in rev.get(todo.pop(), ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


class Guarded(Client):
    """operations that get a request with "readonly" in it"""

    def __init__(self, db, rep, g, reach, ops, root):
        self.db, self.rep, self.g, self.reach, self.ops, self.root = db, rep, g, reach, ops, root
        self.n = 0
        # the request, when it's an argument of its own
        self.flags = {p["n"] for p in root["params"] if p.get("t") == "bool"}

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.root["rel"] and fn["id"] not in self.ops and not method_name(fn).startswith("segments")

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def danger(self, fl, ev):
        db = self.db
        if ev.id in self.ops:
            return None
        if any(re.match(b + "$", ev.f or "") for a, b in PRUNED[:1]):
            return None
        c = ev.cls or ""
        if ev.kind == "ctor":
            if "arki::dataset::maintenance::Agent" in superclasses(db, c) or c == "arki::dataset::maintenance::Agent":
                for m in db.records[c]["methods"]:
                    if m["id"] in self.reach and not m["n"].startswith("~"):
                        return "%s, which changes the segments it is given," % short(c)
        elif c == "arki::dataset::maintenance::Agent" and ev.virt:
            return None
        w = change(ev.node) if isinstance(ev.node, dict) else None
        if w and not allowed(self.root["q"], w):
            return w
        ids = [ev.id] + (sorted(self.g.overriders(ev.id)) if ev.virt and ev.id else [])
        for i in ids:
            if i in self.reach and i not in self.ops:
                f = self.db.functions.get(i)
                if f and f["rel"] == self.root["rel"] and not ev.virt:
                    return None     # followed
                if f and (method_name(f) in ("segments", "segments_recursive", "segments_all") or "createDontpackFlagfile" in f["q"]):
                    continue
                return short(f["q"] if f else ev.f or "?")
        return None

    def call(self, fl, st, ev):
        what = self.danger(fl, ev)
        if what:
            self.n += 1
            self.rep.count("changing calls in maintenance")
            if "fix" not in st.auto:
                self.rep.bad("changed-without-fix", norm(self.root["q"]), ev.where(), "%s is used without knowing that changes are asked for" % what, st.steps(), what)
            self.rep.site("changing", "%s: %s" % (ev.where(), what))
        return None

    def fact(self, fl, st, atom, truth, line):
        if (str(atom[0]).endswith(".readonly") or str(atom[0]).split("#")[0] in self.flags) and atom[1] == "==" and str(atom[2]) == "0" and truth:
            return st.with_auto(st.auto | {"fix"}, "line %d: changes are asked for" % line)
        return st


def maintenance(db, g, rep):
    base = "arki::dataset::Checker"
    ops, roots = set(), []
    for c in [base] + [x for x in subclasses(db, base) if x != base]:
        for m in (db.records.get(c) or {}).get("methods", ()):
            if "CheckerConfig" in m["id"] and not m["n"].startswith(("segments", "test_")):
                ops.add(m["id"])
                f = db.functions.get(m["id"])
                if f and f.get("body"):
                    roots.append(f)
    reach = changers(db, g)
    for fn in roots:
        rep.count("maintenance operations")
        rep.funcs.add(fn["q"])
        Flow(db, Guarded(db, rep, g, reach, ops, fn), interesting=None, inline_small=0).run(fn, frozenset())
    for fn in fns(db, "arki::dataset::CheckPool::remove"):
        rep.count("maintenance operations")
        rep.funcs.add(fn["q"])
        cl = Guarded(db, rep, g, reach, ops, fn)
        rep.anchor(cl.flags, "the argument of CheckPool::remove that asks not to change anything")
        Flow(db, cl, interesting=None, inline_small=0).run(fn, frozenset())
        rep.anchor(cl.n, "the removal in CheckPool::remove")
    for fn in fns(db, "arki::dataset::simple::manifest::Writer::flush"):
        Flow(db, Flush(rep, fn), interesting=None, inline_small=0).run(fn, frozenset())


def check(db, rep):
    rep.rule("no operation that changes files, directories or databases can be reached from a reader of datasets, of segments or of data, "
             "nor from the parts of a check that only look, except lock files, temporary copies, cached summaries, messages")
    rep.rule("an index is opened for reading only where it is known to exist")
    rep.rule("the operations of maintenance use what changes segments, data or indexes only where the request says it isn't read only")
    g = Graph(db)
    readers = roots_of(db, (("arki::dataset::Reader", None), ("arki::segment::Reader", None), ("arki::segment::data::Reader", None)))
    rep.count("entry points of queries", len(readers))
    explore(db, g, readers, rep, "query")
    looks = roots_of(db, (
        ("arki::segment::Checker", ("has_data", "timestamp", "allows_tar", "allows_zip", "allows_compress", "scan", "fsck")),
        ("arki::segment::data::Checker", ("check", "validate", "data", "segment")),
        ("arki::dataset::segmented::CheckerSegment", ("fsck", "path_relative")),
        ("arki::segment::Data", ("timestamp", "exists_on_disk", "is_empty", "size", "single_file", "type", "reader", "checker", "next_offset")),
    ))
    rep.count("entry points of checks", len(looks))
    explore(db, g, looks, rep, "check that does not fix")
    databases(db, rep)
    maintenance(db, g, rep)
    rep.need("writes of the manifest", 2)
    rep.need("maintenance operations", 15)
    rep.need("changing calls in maintenance", 6)
    rep.need("entry points of queries", 60)
    rep.need("entry points of checks", 50)
    rep.need("functions that can run in a query", 800)
    rep.need("openings of an index", 2)
