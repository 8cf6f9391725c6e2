"""A transfer that moved fewer bytes than asked is never taken for a complete one."""
import re
from rulebase import *
from failures import norm, callers

# methods and functions that report how much they moved, and the argument
# that says how much was asked
METHODS = {
    "arki::utils::sys::FileDescriptor::read": 1,
    "arki::utils::sys::FileDescriptor::write": 1,
    "arki::utils::sys::FileDescriptor::pread": 1,
    "arki::utils::sys::FileDescriptor::pwrite": 1,
    "arki::utils::sys::FileDescriptor::sendfile": 2,
    "arki::utils::gzip::File::read": 1,
    "arki::core::AbstractInputFile::read": 1,
    "read": 2, "pread": 2, "write": 2, "pwrite": 2, "writev": None, "sendfile": 3, "copy_file_range": 4,
    "gzread": 2, "zip_fread": 2,
}
READS = {"read", "pread", "gzread", "zip_fread"}


def base_method(db, n):
    f = n.get("f") or ""
    if f in METHODS:
        return f
    m = db.method_of.get(n.get("id"))
    if m:
        todo = list(m[1].get("over", ()))
        while todo:
            x = todo.pop()
            mm = db.method_of.get(x)
            if mm:
                q = mm[0] + "::" + mm[1]["n"] if isinstance(mm[0], str) else None
                if q in METHODS:
                    return q
                todo += mm[1].get("over", ())
    return None


class Short(Client):
    def __init__(self, rep, root):
        self.rep = rep
        self.root = root
        self.sites = set()
        self.leaks = {}
        self.sized = {}

    def use(self, st, v):
        """a value derived from a pending result is used"""
        if not st.auto or v is None or v[0] != "s":
            return st
        return st.with_auto(tuple(p for p in st.auto if p[0] == "part" or p[1] not in v[1]))

    def call(self, fl, st, ev):
        f = base_method(fl.db, ev.node)
        if ev.name == "resize" and ev.cls.startswith("std::") and ev.obj and ev.obj[0] == "s" and ev.args:
            self.sized.setdefault(ev.obj[1].split("'")[0], set()).add(ev.args[0])
        if f is None:
            if ev.f and (ev.cls.startswith("std::basic_stringstream") or ev.name in ("what", "throw_error", "throw_runtime_error",
                                                                                   "throw_system_error") or ev.f.endswith("operator<<") or ev.f.startswith("std::to_string")
                         or ev.f.startswith("arki::nag::")):
                return None
            for v in ev.args:
                st2 = self.use(st, v)
                if st2 is not st:
                    # the amount is handed on
                    return self.go(fl, st2, ev)
            return None
        if f in ("read", "write", "pread", "pwrite", "writev", "sendfile", "copy_file_range", "gzread", "zip_fread") and (
                ev.id in fl.db.functions or ev.node.get("cls")):
            return None
        idx = METHODS[f]
        want = ev.args[idx] if idx is not None and idx < len(ev.args) else ("t",)
        if want[0] == "s" and want[1].endswith(".size()"):
            # the size of a buffer is what it was made with
            of = want[1][:-7].split("'")[0]
            m = re.match(r"(?:vector|basic_string)\(([^,()]+)\)@[\d:]+$", of)
            if len(self.sized.get(of, ())) == 1:
                want = next(iter(self.sized[of]))
            elif m and of not in self.sized:
                want = ("s", m.group(1))
        self.sites.add(ev.where())
        sym = "%s#moved@%s:%d" % (ev.name, fl.tuidx(), ev.line)
        base = st.drop_facts(lambda a: fl.mentions(a[0], sym) or fl.mentions(a[2], sym))
        base = base.with_auto(tuple(p for p in base.auto if p[3] != ev.line))
        fl.throw(st, "any", ev.line)
        out = []
        if want[0] == "s" and want[1]:
            out.append((base, want))
        elif want[0] == "c":
            out.append((base, want))
        else:
            out.append((base.with_fact((sym, "<", 0), False), ("s", sym)))
        # fewer than asked
        s1 = base.with_auto(base.auto + (("short", sym, ev.name, ev.line),), "%s %s moves fewer bytes than asked" % (ev.where(), ev.name))
        s1 = s1.with_fact((sym, "==", 0), False).with_fact((sym, "<", 0), False)
        if want[0] == "s":
            s1 = s1.with_fact((sym, "<", "$" + want[1]), True)
        elif want[0] == "c" and isinstance(want[1], int):
            s1 = s1.with_fact((sym, "<", want[1]), True)
        if want != ("c", 1):
            out.append((s1, ("s", sym)))
        sz = sym + "0"
        s0 = base.with_auto(base.auto + (("none", sz, ev.name, ev.line),), "%s %s moves nothing" % (ev.where(), ev.name))
        out.append((s0, ("s", sz)))
        return out

    def go(self, fl, st, ev):
        """carry on with the ordinary treatment of the call"""
        n = ev.node
        fid = n.get("id")
        if fid in fl.db.functions and not n.get("virt"):
            fn = fl.db.functions[fid]
            if fl.should_inline(ev, fn, st):
                return fl.inline(fn, st, ev.obj, list(ev.args), n)
        return fl.opaque(n, st, ev)

    def fact(self, fl, st, atom, truth, line):
        for p in st.auto:
            if p[0] == "short" and p[1] in (atom[0], str(atom[2])[1:]) and atom[1] == "==" and truth and \
                    not isinstance(atom[2], int) and p[2] == "writev":
                return None
            if p[0] == "part" and (p[1] in str(atom[0]) or p[1] in str(atom[2])):
                st = st.with_auto(tuple(q for q in st.auto if not (q[0] == "part" and q[3] == p[3])))
                continue
            if p[0] != "none" or p[1] not in (str(atom[0]), str(atom[2])[1:]):
                continue
            x, op, c = atom
            if x == p[1] and isinstance(c, int):
                real = (0 == c) if op == "==" else (0 < c)
                if real != truth:
                    return None
            elif op == "==" and truth:
                return None    # asked for something
            elif op == "<" and x == p[1] and not truth:
                return None
            st = st.with_auto(tuple(q for q in st.auto if q[1] != p[1]))
        return st

    def assign(self, fl, st, loc, val, node):
        if node is not None and node.get("k") == "bin" and val[0] == "s" and any(val[1] == p[1] for p in st.auto):
            # plain assignment of the result to a local: not a use yet
            if "#" in loc:
                return st
        if node is not None and "n" in node and node.get("id") is not None and val[0] == "s" and any(val[1] == p[1] for p in st.auto):
            return st
        return self.use(st, val)

    def compound(self, fl, st, loc, op, val, node):
        if not st.auto or val[0] != "s":
            return st
        auto = set()
        for p in st.auto:
            sym = p[4] if p[0] == "part" else p[1]
            if sym in val[1]:
                # the position moved: it has to be looked at again
                if p[0] == "part":
                    auto.add(p)
                auto.add(("part", loc, p[2], p[3], sym))
            else:
                auto.add(p)
        auto = sorted(auto)
        return st.with_auto(tuple(auto))

    def on_return(self, fl, st, val, node):
        st = self.use(st, val)
        line = node["l"] if node is not None else self.root["end"]
        for kind, sym, name, l in {x[:4] for x in st.auto}:
            self.leaks.setdefault((kind, name, l), (line, st.steps()))
        return st


# reads that answer "not there" through their own result
TOLERATED = {
    ("dataset::simple::Checker::check_issue51", "pread", "short"): "reported to the user, segment left alone",
    ("dataset::iseg::Checker::check_issue51", "pread", "short"): "reported to the user, segment left alone",
    ("segment::SequenceFile::read_sequence", "pread", "short"): "a short sequence file is a new one",
    ("types::Bundle::read_header", "read", "short"): "end of file, returned as 0",
    ("segment::data::concat::File::test_add_padding", "write", "none"): "test support",
    ("segment::data::lines::File::test_add_padding", "write", "none"): "test support",
}


def check(db, rep):
    rep.rule("for every call that reports how many bytes it moved, on every path where that is fewer than asked (but not zero) the "
             "amount goes on into the position, length or result of the function, or the function throws; where it is zero the "
             "function at least looks at the result")
    from db import is_test
    for fn in sorted(db.functions.values(), key=lambda f: (f["rel"], f["line"], f["id"])):
        if is_test(fn["rel"]) or "/utils/tests" in fn["rel"] or fn["rel"].startswith("arki/python/scan/"):
            continue
        n = 0
        for x in walk([fn["body"], [i["e"] for i in fn.get("inits", ())]]):
            if x["k"] == "call" and base_method(db, x):
                n += 1
        if not n:
            continue
        cl = Short(rep, fn)
        fl = Flow(db, cl, interesting=set(), inline_small=0)
        fl.run(fn, ())
        rep.count("functions that move bytes")
        rep.count("transfer call sites", len(cl.sites))
        rep.site("functions that move bytes", "%s (%s)" % (short(fn["q"]), where(fn)))
        for u in fl.unsupported:
            rep.errors.append(u)
        for (kind, name, l), (line, steps) in sorted(cl.leaks.items()):
            if (norm(fn["q"]), name, kind) in TOLERATED:
                continue
            rep.bad("short-transfer", norm(fn["q"]), where(fn, l),
                    "%s can move %s and the function returns normally without accounting for it" % (
                        name, {"short": "fewer bytes than asked", "none": "nothing", "part": "only a part, which is counted but never compared with the whole,"}[kind]), steps, "%s:%s" % (name, kind))
    rep.need("functions that move bytes", 34)
    rep.need("transfer call sites", 40)
