"""A failed system call is never taken for a success."""
from rulebase import *

# C library functions by the value that means failure
MINUS1 = {
    "open", "openat", "close", "read", "pread", "write", "pwrite", "writev", "sendfile", "copy_file_range",
    "fstat", "stat", "lstat", "fstatat", "ftruncate", "truncate", "lseek", "rename", "unlink", "unlinkat",
    "rmdir", "mkdirat", "mkdir", "link", "symlinkat", "readlinkat", "dup", "dup2", "fcntl", "fork", "pipe", "pipe2",
    "fchmod", "futimens", "utimensat", "utime", "fsync", "fdatasync", "mkstemp", "access", "faccessat",
    "munmap", "mmap", "chdir", "chroot", "closedir", "getrlimit", "setrlimit", "clock_gettime", "kill",
    "waitpid", "setenv", "unsetenv", "setsid", "poll", "ppoll", "execvp", "execvpe", "raise", "gettimeofday",
    "nanosleep", "renameat", "gzread", "gzseek64", "gzwrite",
    "zip_close", "zip_delete", "zip_file_add", "zip_file_rename", "zip_fread", "zip_name_locate", "zip_stat_index",
    "zip_get_num_entries",
}
NULL = {"fopen", "fdopen", "fdopendir", "opendir", "mkdtemp", "readdir_", "gzdopen", "gzopen64", "getcwd",
        "zip_open", "zip_fdopen", "zip_fopen", "zip_fopen_index", "zip_source_buffer", "curl_easy_init",
        "curl_mime_init", "curl_mime_addpart", "archive_write_new", "archive_entry_new", "EVP_MD_CTX_new",
        "grib_handle_new_from_message", "grib_context_get_default", "GEOS_init_r", "mkdtemp"}
NONZERO = {"posix_fadvise", "posix_fallocate", "fclose", "regcomp", "gzclose", "zip_fclose",
           "archive_write_open", "archive_write_open_fd", "archive_write_close", "archive_write_header",
           "archive_write_add_filter_gzip", "archive_write_add_filter_lzma", "archive_write_set_format_gnutar",
           "archive_write_set_format_zip", "archive_write_set_bytes_in_last_block",
           "curl_easy_perform", "curl_easy_setopt", "curl_easy_getinfo", "curl_mime_data", "curl_mime_filedata", "curl_mime_name",
           "deflateInit2_", "deflateReset", "lzo1x_1_compress", "lzo1x_decompress_safe", "__lzo_init_v2",
           "grib_get_message", "grib_get_long", "grib_get_double", "grib_get_string", "grib_get_bytes", "grib_get_native_type",
           "sqlite3_bind_blob", "sqlite3_bind_double", "sqlite3_bind_int", "sqlite3_bind_int64", "sqlite3_bind_null",
           "sqlite3_bind_text", "sqlite3_busy_timeout", "sqlite3_close", "sqlite3_exec", "sqlite3_finalize",
           "sqlite3_open_v2", "sqlite3_prepare_v2", "sqlite3_reset", "sqlite3_step", "sqlite3_trace_v2",
           "sqlite3_wal_checkpoint_v2"}
# calls with several successful results
OKS = {"sqlite3_step": (100, 101)}

EXITS = {"exit", "_exit", "abort", "terminate"}


def convention(f):
    b = f[2:] if f.startswith("::") else f
    if b in MINUS1:
        return "m"
    if b in NULL:
        return "n"
    if b in NONZERO:
        return "z"
    return None


class Fail(Client):
    def __init__(self, rep, root):
        self.rep = rep
        self.root = root
        self.n = 0
        self.leaks = set()   # (call, errno)
        self.steps = {}

    def want_inline(self, fl, st, ev, fn):
        return None

    def call(self, fl, st, ev):
        f = ev.f or ""
        if f == "__errno_location":
            return [(st, ("s", "errno"))]
        if "::" in f or ev.id in fl.db.functions:
            return None
        c = convention(f)
        if c is None:
            return None
        if ev.node.get("t") == "void":
            return None
        if f == "fcntl":
            cmd = ev.args[1] if len(ev.args) > 1 else TOPV
        self.n += 1
        sym = "%s()@%s:%d" % (f, fl.tuidx(), ev.line)
        if f in ("execvp", "execvpe"):
            res = []
        else:
            ok = st.drop_facts(lambda a: fl.mentions(a[0], sym) or fl.mentions(a[2], sym))
            # a later success of the same call settles an earlier failure (retry)
            ok = ok.with_auto(tuple(x for x in ok.auto if x[0] != f))
            if c == "m":
                okv = ("s", sym)
                ok = ok.with_fact((sym, "==", -1), False).with_fact((sym, "<", 0), False)
            elif c == "n":
                okv = ("s", sym)
                ok = ok.with_fact((sym, "==", 0), False)
            else:
                okv = ("c", 0)
            res = [(ok, okv)] if f not in OKS else [(ok, ("c", x)) for x in OKS[f]]
        bad = st.drop_facts(lambda a: fl.mentions(a[0], "errno") or fl.mentions(a[2], "errno"))
        bad = bad.with_auto(tuple(sorted(set(x for x in bad.auto if x[0] != f) | {(f, ev.line, "*")})),
                            "%s %s fails" % (ev.where(), f))
        if c == "m":
            res.append((bad, ("c", -1)))
        elif c == "n":
            res.append((bad, ("c", 0)))
        else:
            s2 = "%s!" % sym
            for x in (0, 100, 101) if f.startswith("sqlite3_") else (0,):
                bad = bad.with_fact((s2, "==", x), False)
            res.append((bad, ("s", s2)))
        return res

    def may_throw(self, fl, st, ev):
        return True

    def fact(self, fl, st, atom, truth, line):
        if atom[0] == "errno" and atom[1] == "==" and truth and st.auto:
            return st.with_auto(tuple((f, l, atom[2]) for f, l, e in st.auto))
        return st

    def on_return(self, fl, st, val, node):
        if not st.auto:
            return st
        line = node["l"] if node is not None else self.root["end"]
        if val == ("c", -1):
            return st     # reports the failure in the same way
        for f, l, e in st.auto:
            if val[0] == "s" and val[1].startswith(f + "()@"):
                continue
            k = (f, e, val[1] if val[0] == "c" else "")
            self.leaks.add(k)
            self.steps.setdefault(k, (line, st.steps(), l))
        return st


TOPV = ("t",)


def analyse(db, fn, rep):
    cl = Fail(rep, fn)
    fl = Flow(db, cl, interesting=set(), inline_small=0)
    fl.run(fn, ())
    return cl, fl


def calls_direct(fn):
    for x in walk([fn["body"], [i["e"] for i in fn.get("inits", ())]]):
        if x["k"] == "call" and x.get("f") and "::" not in x["f"] and convention(x["f"]) and x.get("t") != "void":
            yield x


def roots(db):
    from db import is_test
    for fn in sorted(db.functions.values(), key=lambda f: (f["rel"], f["line"], f["id"])):
        if is_test(fn["rel"]) or "/utils/tests" in fn["rel"]:
            continue
        if any(True for _ in calls_direct(fn)):
            yield fn


def norm(q):
    """name without template arguments and signatures"""
    out = ""
    depth = 0
    for c in q:
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        elif depth == 0:
            out += c
    return out.replace("arki::", "")


CLEANUP = {"close", "fclose", "closedir", "munmap", "unlink", "gzclose", "zip_fclose", "zip_close", "sqlite3_close",
           "sqlite3_finalize", "futimens", "lseek", "ftruncate", "rename", "rmdir", "unsetenv", "setenv", "fcntl",
           "sqlite3_exec", "truncate"}

# the absence (or presence) of a name is an answer, not a failure
ANSWERS = {("stat", 2), ("fstatat", 2), ("unlink", 2), ("unlinkat", 2), ("mkdirat", 17), ("mkdir", 17)}

# (function, call): why going on after the failure is right
TOLERATED = {
    ("nag::debug_tty", "*"): "debug output only",
    ("python::arki_scan::DispatchResults::DispatchResults", "gettimeofday"): "statistics only",
    ("python::arki_scan::DispatchResults::end", "gettimeofday"): "statistics only",
    ("segment::data::dir::Reader::open_src", "posix_fadvise"): "advisory",
    ("segment::data::fd::Reader::read", "posix_fadvise"): "advisory",
    ("segment::data::tar::Reader::read", "posix_fadvise"): "advisory",
    ("segment::data::dir::BaseChecker::remove", "rmdir"): "the directory may hold other files",
    ("segment::data::dir::BaseChecker::repack::Rename::rollback", "rename"): "throws only if asked; see rollback rule",
    ("metadata::AtomicWriter::rollback", "unlink"): "cleanup of a temporary file",
    ("segment::metadata::AtomicWriterWithSummary::rollback", "unlink"): "cleanup of a temporary file",
    ("utils::compress::gunzip", "dup"): "gzdopen refuses the invalid descriptor",
    ("utils::compress::TempUnzip::TempUnzip", "utime"): "timestamp of a temporary file",
    ("utils::subprocess::Child::close_stdin", "close"): "closing a pipe end",
    ("utils::subprocess::Child::close_stdout", "close"): "closing a pipe end",
    ("utils::subprocess::Child::close_stderr", "close"): "closing a pipe end",
    ("utils::subprocess::Child::post_fork_child", "close"): "closing inherited descriptors that may not be open",
    ("utils::subprocess::Child::wait", "nanosleep"): "interrupted sleep is the wake up",
    ("utils::subprocess::Popen::main", "execvp"): "child process: the exit code reports it",
    ("utils::subprocess::Popen::main", "execvpe"): "child process: the exit code reports it",
    ("utils::sys::access", "access"): "a question: false is the answer",
    ("utils::sys::Path::faccessat", "faccessat"): "a question: false is the answer",
    ("utils::sys::FileDescriptor::ofd_setlk", "fcntl:11"): "lock busy: returns false",
    ("utils::sys::FileDescriptor::ofd_setlk", "fcntl:13"): "lock busy: returns false",
    ("utils::sys::FileDescriptor::ofd_setlkw", "fcntl:4"): "returns false when asked not to retry on signals",
    ("utils::sys::Path::iterator::operator++", "closedir"): "stream was read only",
    ("utils::sys::File::open_ifexists", "open:2"): "returns false",
    ("utils::sys::rename_ifexists", "rename:2"): "returns false",
    ("utils::sys::touch_ifexists", "utime:2"): "returns false",
    ("utils::sys::rmtree_ifexists", "open:2"): "returns false",
    ("utils::sys::breakpoint", "raise"): "debugging aid",
    ("data::grib::Scanner::scan_data", "grib_handle_new_from_message"): "checked through the handle wrapper",
    ("data::compute_hash", "EVP_MD_CTX_new"): "mock scanner used by tests",
    ("utils::geos::Context::Context", "GEOS_init_r"): "out of memory only; GEOS checks the handle",
    ("utils::sqlite::SQLiteDB::exec_nothrow", "sqlite3_exec"): "cleanup path, prints a warning",
}


def tolerated(name, call, errno):
    for c in (call, "*", "%s:%s" % (call, errno)):
        if (name, c) in TOLERATED:
            return True
    return False


def cleanup_fn(db, fn):
    """destructors and functions that promise not to throw"""
    if fn.get("dtor") or fn.get("noexcept") or fn.get("nt"):
        return True
    m = db.method_of.get(fn["id"])
    if m and m[1].get("nt"):
        return True
    return fn["q"].endswith("_nothrow") or fn["q"].endswith("::nothrow")


def callers(db):
    c = getattr(db, "_callers", None)
    if c is None:
        c = {}
        for fn in db.functions.values():
            edges = fn.get("_edges")
            if edges is None:
                edges = fn["_edges"] = function_edges(db, fn)
            for owner, callee, node in edges:
                c.setdefault(callee, set()).add(fn["id"])
        db._callers = c
    return c


def accepted(db, fn, call, errno, seen=()):
    if (call, errno) in ANSWERS:
        return True
    if call in CLEANUP and cleanup_fn(db, fn):
        return True
    if tolerated(norm(fn["q"]), call, errno):
        return True
    # a helper every caller of which is allowed to go on
    cs = callers(db).get(fn["id"], ())
    if not cs or fn["id"] in seen:
        return False
    return all(accepted(db, db.functions[c], call, errno, seen + (fn["id"],)) for c in cs if c in db.functions)


def run(db, rep, sel, minf, mins):
    for fn in roots(db):
        if fn["rel"].startswith("arki/python/scan/"):
            continue
        sites = [x for x in calls_direct(fn) if sel(x["f"])]
        if not sites:
            continue
        cl, fl = analyse(db, fn, rep)
        rep.count("functions making such calls", 1)
        rep.count("call sites followed into success and failure", len(sites))
        rep.site("functions making such calls", "%s (%s)" % (short(fn["q"]), where(fn)))
        for u in fl.unsupported:
            rep.errors.append(u)
        for k in sorted(cl.leaks, key=str):
            call, errno, val = k
            if not sel(call):
                continue
            if accepted(db, fn, call, errno):
                rep.count("failures tolerated with a stated reason")
                continue
            line, steps, l = cl.steps[k]
            rep.bad("failure-swallowed", norm(fn["q"]), where(fn, l),
                    "%s can fail%s and the function still returns normally%s" % (
                        call, "" if errno == "*" else " with errno %s" % errno,
                        "" if val == "" else " (returning %r)" % (val,)), steps,
                    "%s:%s:%s" % k)
    rep.need("functions making such calls", minf)
    rep.need("call sites followed into success and failure", mins)


def check(db, rep):
    rep.rule("for every call to a system or compression/archive/HTTP library function, the path on which the call fails "
             "ends in an exception or in the same failure result, never in a normal return; exceptions to this are listed "
             "one by one with their reason")
    rep.assumptions.append("The Python glue that hands errors to the interpreter (arki/python/scan) is not judged")
    run(db, rep, lambda f: not f.startswith("sqlite3_"), 120, 180)
