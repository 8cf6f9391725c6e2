"""Program database: type-resolved AST of every translation unit of the build.

The database is always computed from the current contents of the source tree.
Dumps of single translation units are cached, keyed by the contents of every
file of the tree the unit read; a unit whose key differs is dumped again.
"""
import concurrent.futures
import hashlib
import json
import marshal
import os
import re
import shlex
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
TOOL = os.path.join(BUILD, "astdump")
TOOLSRC = os.path.join(HERE, "astdump.cc")

# Units of the tree the pinned build does not compile here (missing headers)
UNBUILT = {
    "arki/data/bufr.cc",
    "arki/data/vm2.cc",
    "arki/utils/vm2.cc",
    "arki/python/arki-bufr-prepare.cc",
    "arki/python/utils/dballe.cc",
}


class EngineError(Exception):
    """The analysis could not be carried out: neither pass nor violation."""


def sha(path):
    h = hashlib.sha1()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    want = sha(TOOLSRC)
    stamp = TOOL + ".stamp"
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
        return want
    tmp = TOOL + ".tmp%d" % os.getpid()
    cmd = [
        "g++", "-std=c++17", "-fno-rtti", "-O1", "-w",
        "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
        "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS", TOOLSRC, "-o", tmp,
        "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
        "/usr/lib/llvm-18/lib/libLLVM-18.so",
    ]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise EngineError("cannot build astdump: " + r.stderr[-2000:])
    os.rename(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(want)
    return want


def is_test(rel):
    b = os.path.basename(rel)
    return (
        "/tests" in rel
        or rel.startswith("tests")
        or b.endswith("-test.cc")
        or b.startswith("bench-")
        or b.startswith("test-")
        or b == "tests-main.cc"
        or "-tests" in b
    )


def compile_flags():
    """Flags of the real build for the library units, from its database."""
    ccj = os.path.join(REPO, "_build", "compile_commands.json")
    flags = {}
    lib = None
    pyfl = None
    if os.path.exists(ccj):
        for e in json.load(open(ccj)):
            d = e["directory"]
            f = os.path.normpath(os.path.join(d, e["file"]))
            rel = os.path.relpath(f, REPO)
            out = e.get("output", "")
            if is_test(rel):
                continue
            a = shlex.split(e["command"]) if "\\" in e["command"] or "'" in e["command"] or '"' in e["command"] else e["command"].split()
            fl = []
            i = 0
            while i < len(a):
                t = a[i]
                if t.startswith("-I") or t.startswith("-isystem"):
                    p = t[2:] if t.startswith("-I") else None
                    if p is None:
                        p = a[i + 1]
                        i += 1
                    fl.append("-I" + os.path.normpath(os.path.join(d, p)))
                elif t.startswith("-D"):
                    fl.append(t)
                i += 1
            if "libarkimet.so.p" in out and lib is None:
                lib = fl
            if "arki/python" in out and pyfl is None:
                pyfl = fl
            if rel not in flags or "libarkimet.so" in out:
                flags[rel] = fl
    if lib is None:
        raise EngineError("no compilation database in %s/_build: the tree must be built first" % REPO)
    return flags, lib, pyfl or lib


def units():
    flags, lib, pyfl = compile_flags()
    res = {}
    for top in ("arki", "src"):
        for at, dirs, files in os.walk(os.path.join(REPO, top)):
            for f in files:
                if not f.endswith(".cc"):
                    continue
                rel = os.path.relpath(os.path.join(at, f), REPO)
                if is_test(rel) or rel in UNBUILT:
                    continue
                if rel in flags:
                    res[rel] = flags[rel]
                elif rel.startswith("arki/python"):
                    res[rel] = pyfl
                else:
                    res[rel] = lib
    common = [
        "-include", os.path.join(REPO, "arki/pch/arkimet_pch.h"),
        "-std=c++17", "-fPIC", "-pthread", "-w", "-ferror-limit=5",
        "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
    ]
    out = {}
    for k, v in res.items():
        # bodies of templates included after they are instantiated: gcc
        # instantiates at the end of the unit, clang where it was asked to
        body = k[:-3] + ".tcc"
        first = ["-include", os.path.join(REPO, body)] if os.path.exists(os.path.join(REPO, body)) else []
        out[k] = v + common + first
    return out


class Hasher:
    def __init__(self):
        self.h = {}

    def __call__(self, p):
        r = self.h.get(p)
        if r is None:
            try:
                r = sha(p)
            except OSError:
                r = "missing"
            self.h[p] = r
        return r


def dump_unit(rel, flags):
    fd, out = tempfile.mkstemp(prefix="astdump", suffix=".json", dir=CACHE)
    os.close(fd)
    try:
        cmd = [TOOL, REPO, out, os.path.join(REPO, "_build"),
               os.path.join(REPO, rel), "--"] + flags
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.join(REPO, "_build"))
        if r.returncode != 0:
            return None, "%s does not parse: %s" % (rel, r.stderr[-600:])
        with open(out, "rb") as f:
            data = json.loads(f.read())
        if data["errors"]:
            return None, "%s has %d errors: %s" % (rel, data["errors"], r.stderr[-600:])
        return data, None
    finally:
        os.unlink(out)


def work(job):
    rel, flags, toolkey, ckey = job
    data, err = dump_unit(rel, flags)
    if err:
        return rel, None, err
    H = Hasher()
    data["dep_hash"] = {p: H(p) for p in data["deps"] if os.path.exists(p)}
    data["flags_key"] = ckey
    data["rel"] = rel
    path = os.path.join(CACHE, rel.replace("/", "__") + ".m")
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        marshal.dump({"dep_hash": data["dep_hash"], "flags_key": ckey}, f)
        marshal.dump(data, f)
    os.rename(tmp, path)
    return rel, path, None


class DB:
    pass


def unit_path(rel):
    return os.path.join(CACHE, rel.replace("/", "__") + ".m")


def flag_key(toolkey, fl):
    return hashlib.sha1((toolkey + "\0".join(fl)).encode()).hexdigest()


def merge_unit(functions, records, enums, vars_, rel, data):
    for fn in data["functions"]:
        k = fn["id"]
        if k in functions:
            continue
        fn["tu"] = rel
        fn["rel"] = os.path.relpath(fn["file"], REPO)
        functions[k] = fn
    for r in data["records"]:
        if r["name"] not in records:
            r["rel"] = os.path.relpath(r["file"], REPO)
            r["tu"] = rel
            records[r["name"]] = r
    for e in data["enums"]:
        if e["q"] not in enums:
            e["tu"] = rel
            enums[e["q"]] = e
    for v in data["vars"]:
        if v["q"] not in vars_:
            v["tu"] = rel
            vars_[v["q"]] = v


def load():
    """Bring the database up to date with the tree and return it.

    base.m holds the merged database of the last full merge together with the
    hash of every file each unit read.  Units whose files all have the same
    contents are taken from it; every other unit is parsed again now.
    """
    import gc
    t0 = time.time()
    gc.disable()
    toolkey = build_tool()
    U = units()
    H = Hasher()
    base_path = os.path.join(CACHE, "base.m")
    base = None
    if os.path.exists(base_path):
        try:
            with open(base_path, "rb") as f:
                base = marshal.load(f)
        except Exception:
            base = None
    db = DB()
    db.units = sorted(U)
    db.dumped = 0
    stale = []
    if base is not None:
        if set(base["units"]) != set(U):
            base = None
    if base is not None:
        for rel, fl in sorted(U.items()):
            info = base["units"][rel]
            if info["flags_key"] != flag_key(toolkey, fl) or any(
                    H(p) != h for p, h in info["dep_hash"].items()):
                stale.append(rel)
    if base is None or len(stale) > 60:
        base = None
        stale = sorted(U)

    jobs = []
    for rel in stale:
        ck = flag_key(toolkey, U[rel])
        path = unit_path(rel)
        ok = False
        if os.path.exists(path):
            try:
                with open(path, "rb") as f:
                    head = marshal.load(f)
                ok = head["flags_key"] == ck and all(
                    H(p) == h for p, h in head["dep_hash"].items())
            except Exception:
                ok = False
        if not ok:
            jobs.append((rel, U[rel], toolkey, ck))
    errors = []
    if jobs:
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for rel, path, err in ex.map(work, jobs):
                if err:
                    errors.append(err)
    if errors:
        raise EngineError("; ".join(errors))
    db.dumped = len(jobs)

    def read_unit(rel):
        with open(unit_path(rel), "rb") as f:
            marshal.load(f)
            return marshal.load(f)

    if base is not None and stale:
        datas = {rel: read_unit(rel) for rel in stale}
        # a unit that stopped reading a file may have been the holder of
        # something defined there: merge everything again
        if any(set(base["units"][r]["dep_hash"]) - set(datas[r]["dep_hash"]) for r in stale):
            base = None
            stale = sorted(U)
        else:
            ss = set(stale)
            for part in ("functions", "records", "enums", "vars"):
                base[part] = {k: v for k, v in base[part].items() if v["tu"] not in ss}
            for rel in stale:
                merge_unit(base["functions"], base["records"], base["enums"],
                           base["vars"], rel, datas[rel])
    if base is None:
        base = {"units": {}, "functions": {}, "records": {}, "enums": {}, "vars": {}}
        for rel in sorted(U):
            data = read_unit(rel)
            base["units"][rel] = {"dep_hash": data["dep_hash"], "flags_key": data["flags_key"]}
            merge_unit(base["functions"], base["records"], base["enums"], base["vars"], rel, data)
        if not os.environ.get("VP_NO_BASE") or not os.path.exists(base_path):
            tmp = base_path + ".tmp%d" % os.getpid()
            with open(tmp, "wb") as f:
                marshal.dump(base, f)
            os.rename(tmp, base_path)
    db.functions = base["functions"]
    db.records = base["records"]
    db.enums = base["enums"]
    db.vars = base["vars"]
    db.by_q = {}
    for fn in db.functions.values():
        db.by_q.setdefault(fn["q"], []).append(fn)
    index(db)
    gc.enable()
    gc.freeze()
    db.n_units = len(U)
    db.load_s = time.time() - t0
    return db


def index(db):
    # subclasses / overriders
    db.sub = {}
    for r in db.records.values():
        for b in r["bases"]:
            db.sub.setdefault(b, []).append(r["name"])
    db.overriders = {}
    for r in db.records.values():
        for m in r["methods"]:
            for o in m["over"]:
                db.overriders.setdefault(o, set()).add(m["id"])
    db.method_of = {}
    for r in db.records.values():
        for m in r["methods"]:
            db.method_of[m["id"]] = (r["name"], m)


def all_overriders(db, fid):
    """fid and every method that overrides it, transitively"""
    seen = set()
    todo = [fid]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo.extend(db.overriders.get(x, ()))
    return seen


def subclasses(db, name):
    seen = []
    todo = [name]
    while todo:
        x = todo.pop()
        for s in db.sub.get(x, ()):
            if s not in seen:
                seen.append(s)
                todo.append(s)
    return seen


def superclasses(db, name):
    seen = []
    todo = [name]
    while todo:
        x = todo.pop()
        r = db.records.get(x)
        if not r:
            continue
        for s in r["bases"]:
            if s not in seen:
                seen.append(s)
                todo.append(s)
    return seen


def walk(n):
    """every node (dict with 'k') below n, in source order, n included"""
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def fbody(fn):
    """nodes of a function: constructor initialisers, then body"""
    for i in fn.get("inits", ()):
        yield from walk(i["e"])
    yield from walk(fn["body"])


if __name__ == "__main__":
    db = load()
    print("units %d (dumped %d) functions %d records %d enums %d in %.1fs" % (
        len(db.units), db.dumped, len(db.functions), len(db.records), len(db.enums), db.load_s))
