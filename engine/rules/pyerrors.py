"""What Python calls: arguments are taken as their formats say, and errors always
become Python exceptions."""
import re
from rulebase import *
from failures import norm
from gil import API

PYEXC = "arki::python::PythonException"
STATUS = re.compile(r"_?Py(Dict_(SetItem(String)?|DelItem(String)?|Update|Merge|Contains)|List_(Append|SetItem|Insert|Sort|Reverse)|Set_(Add|Discard|Contains)|Module_Add\w+"
                    r"|Type_Ready|Object_(SetAttr(String)?|SetItem|DelItem|DelAttr(String)?)|Tuple_SetItem|Mapping_SetItemString|Sequence_(SetItem|DelItem)"
                    r"|Bytes_AsStringAndSize|Err_WarnEx|Err_WarnFormat|Err_CheckSignals|File_Write\w+|Object_AsFileDescriptor)$")
TRUTH = re.compile(r"Py(Object_(IsTrue|Not|IsInstance|IsSubclass|RichCompareBool)|Sequence_Contains|Set_Contains|Dict_Contains)$")
NUMBER = re.compile(r"Py(Long_As\w+|Float_AsDouble|Number_AsSsize_t)$")
SIZE = re.compile(r"Py(Dict|List|Tuple|Set|Sequence|Mapping|Object|Bytes|Unicode)_(Size|Length|GetLength)$")
PARSE = re.compile(r"_?PyArg_(Parse\w*|VaParse\w*|UnpackTuple)$")
SETS = re.compile(r"PyErr_(Set\w+|Format|FormatV|BadArgument|NoMemory|BadInternalCall)$")
QUIET = re.compile(r"(Py_(TYPE|INCREF|XINCREF|IS_TYPE|REFCNT|SIZE|NewRef|XNewRef|SET_\w+)|Py\w+_Check(Exact)?|PyObject_TypeCheck|PyType_(HasFeature|IsSubtype)|Py\w+_[GS]ET_\w+"
                   r"|PyGILState_\w+|PyEval_\w+|PyDict_Next|PyObject_HasAttr(String)?|PyMem_\w+|PyDict_GetItem(String)?|PyCallable_Check|Py_IsInitialized|Py_Is\w+)$")
FREES = re.compile(r"Py_(X?DECREF|CLEAR)$")


class Errors(Client):
    """automaton: is a Python error set?"""

    def __init__(self, sums, entry):
        self.sums, self.db, self.rep, self.entry = sums, sums.db, sums.rep, entry

    def want_inline(self, fl, st, ev, fn):
        c = fn.get("cls") or ""
        return bool(TINY.search(c + "::" if c else "") or TINY.search(fn["q"]))

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def may_throw(self, fl, st, ev):
        return False

    def bad(self, rule, st, ev_line, msg):
        self.rep.bad(rule, self.entry["q"], "%s:%s" % (self.entry["rel"], ev_line), msg, st.steps())

    def call(self, fl, st, ev):
        f = ev.f or ""
        err = st.auto
        if ev.kind == "call" and "::" not in f and API.match(f):
            return self.api(fl, st, ev, f, err)
        if not f and "_object *" in (ev.t or "") and any(x.get("k") == "ref" and API.match(x.get("n") or "") for x in walk(ev.node.get("fe") or ev.node.get("e") or {})):
            return self.api(fl, st, ev, "PyDateTimeAPI", err)
        fe = ev.node.get("fe") or {}
        if not f and "_c_api::" in (fe.get("q") or ""):
            # C API that another module exports in a capsule
            if err:
                self.bad("ignored", st, ev.line, "%s is called although an error was raised before, that nothing noticed" % fe["n"])
                return []
            t = (ev.t or "").rstrip()
            s = st.with_auto(1, "%s fails (%s)" % (fe["n"], ev.where()))
            if t.endswith("*"):
                sym = "%s@%s:%d" % (fe["n"], fl.tuidx(), ev.line)
                return [(x.with_fact((sym, "==", 0), False), v) for x, v in fl.opaque(ev.node, st, ev, ("s", sym))] + fl.opaque(ev.node, s, ev, ("c", 0))
            if t == "int":
                return fl.opaque(ev.node, st, ev, ("c", 0)) + fl.opaque(ev.node, s, ev, ("c", -1))
        if ev.kind == "lambda" or ev.kind == "ctor" and (ev.cls or "").startswith("std::"):
            return None
        fn = self.db.functions.get(ev.id)
        if fn is not None and fn.get("body") and self.want_inline(fl, st, ev, fn):
            return None
        if fn is not None and fn["id"] in self.sums.uses:
            if err:
                self.bad("ignored", st, ev.line, "%s is called although an error was raised before, that nothing noticed" % norm(f))
                return []
            for v, p in zip(ev.args, fn["params"]):
                if v == ("c", 0) and "_object *" in p["t"] and not self.sums.takes_null(fn, p):
                    self.bad("null", st, ev.line, "a null pointer is given to %s" % norm(f))
            out = []
            for kind, e, x in sorted(self.sums.of(fn), key=str):
                s = st.with_auto(e, e and "%s fails (%s)" % (norm(f), ev.where()))
                if kind == "throw":
                    fl.throw(s, x, ev.line)
                    continue
                sym = "%s@%s:%d" % (f, fl.tuidx(), ev.line)
                val = ("s", sym) if x in ("object", "?") else ("void",) if x == "void" else ("c", x)
                for s2, v in fl.opaque(ev.node, s, ev, val):
                    if x == "object":
                        s2 = s2.with_fact((sym, "==", 0), False)
                    out.append((s2, v))
            return out
        if ev.node.get("nr"):
            if f.startswith("arki::"):
                fl.throw(st, "std::runtime_error", ev.line)
            return []
        if ev.id in self.sums.throwing and not ev.node.get("nt"):
            fl.throw(st, "std::runtime_error", ev.line)
        return None

    def fact(self, fl, st, atom, truth, line):
        # nobody assigns objects to themselves
        if truth and atom[1] == "==" and fl.stack[-1]["q"].endswith("::operator=") and str(atom[2]).startswith("$"):
            return None
        return st

    def api(self, fl, st, ev, f, err):
        def res(newerr, val, note=None, facts=()):
            s = st.with_auto(newerr, note and "%s (%s)" % (note, ev.where()))
            out = fl.opaque(ev.node, s, ev, val)
            for a, t in facts:
                out = [(x.with_fact(a, t), v) for x, v in out]
            return out

        sym = "%s@%s:%d" % (f, fl.tuidx(), ev.line)
        some = ("s", sym)
        self.rep.count("calls of Python")
        if f == "PyErr_Occurred":
            return res(err, ("c", 1) if err else ("c", 0))
        if f in ("PyErr_Clear", "PyErr_Fetch", "PyErr_GetRaisedException", "PyErr_Print", "PyErr_PrintEx", "PyErr_WriteUnraisable"):
            return res(0, ("void",), "the error is cleared" if err else None)
        if f in ("PyErr_Restore", "PyErr_SetRaisedException"):
            return res(1, ("void",), "the error is restored")
        if SETS.match(f):
            return res(1, ("c", 0), "an error is set")
        if f.startswith("PyErr_") and f not in ("PyErr_NewException", "PyErr_NewExceptionWithDoc") and not STATUS.match(f):
            return res(err, some)
        if FREES.match(f) or QUIET.match(f):
            return res(err, None)
        if err:
            self.bad("ignored", st, ev.line, "%s is called although an error was raised before, that nothing noticed" % f)
            return []
        fail = "%s fails" % f
        if ev.args and ev.args[0] == ("c", 0) and re.match(r"Py(Object|List|Dict|Tuple|Set|Iter|Sequence|Mapping|Unicode_As|Long_As|Float_As|Bytes_As)", f) and not f.endswith("_New"):
            self.bad("null", st, ev.line, "a null pointer is given to %s" % f)
        if STATUS.match(f):
            return res(0, ("c", 0)) + res(1, ("c", -1), fail)
        if TRUTH.match(f):
            return res(0, ("c", 0)) + res(0, ("c", 1)) + res(1, ("c", -1), fail)
        if NUMBER.match(f):
            return res(0, some) + res(1, ("c", -1), fail)
        if SIZE.match(f) and f == "PyDict_Size":
            return res(0, some, None, [((sym, "<", 0), False), ((sym, "==", -1), False)])
        if SIZE.match(f):
            return res(0, some, None, [((sym, "<", 0), False), ((sym, "==", -1), False)]) + res(1, ("c", -1), fail)
        if PARSE.match(f):
            return res(0, ("c", 1)) + res(1, ("c", 0), fail)
        t = (ev.t or "").rstrip()
        if f == "PyIter_Next" or f == "PyImport_GetModule":
            return res(0, some, None, [((sym, "==", 0), False)]) + res(0, ("c", 0)) + res(1, ("c", 0), fail)
        if t.endswith("*"):
            return res(0, some, None, [((sym, "==", 0), False)]) + res(1, ("c", 0), fail)
        # nothing is known of the others: they neither set nor need an error
        self.rep.count("calls of Python that are not known")
        return res(err, some)

    def on_throw(self, fl, st, typ, line):
        if typ == PYEXC and st.auto == 0:
            self.bad("unset", st, line, "PythonException is thrown, but no Python error is set")
        return st


def value(st, v):
    """null, object, -1, other or unknown"""
    if v is None:
        return "?"
    if v[0] == "c":
        return v[1]
    if v[0] == "s":
        if re.match(r"&?_?Py_\w+$", v[1]):
            return "object"
        if st.facts.get((v[1], "==", 0)) is False:
            return "object"
        if st.facts.get((v[1], "==", 0)) is True:
            return 0
    return "?"


def users(db):
    """functions of arki/python that use Python, themselves or through one another"""
    direct, rev = set(), {}
    for fn in db.functions.values():
        if not fn.get("body") or not fn["rel"].startswith("arki/python/"):
            continue
        nodes = list(fbody(fn)) + [y for i in fn.get("inits") or () for y in walk(i.get("e") or {})]
        for x in nodes:
            if x.get("k") in ("call", "ctor"):
                f = x.get("f") or ""
                if "::" not in f and API.match(f) and not FREES.match(f) and not f.startswith("PyGILState") and not f.startswith("PyEval"):
                    direct.add(fn["id"])
                if x.get("id"):
                    rev.setdefault(x["id"], set()).add(fn["id"])
            if x.get("k") == "throw":
                if "PythonException" in (x.get("t") or ""):
                    direct.add(fn["id"])
    todo = list(direct)
    while todo:
        x = todo.pop()
        for y in rev.get(x, ()):
            if y not in direct:
                direct.add(y)
                todo.append(y)
    return direct


TINY = re.compile(r"py_unique_ptr<|::throw_ifnull\b|\bReleaseGIL::|\bAcquireGIL::")
SLOT = re.compile(r"(run|get|set|_init|_dealloc|_str|_repr|_iter|_iternext|_richcompare|_hash|_call|(sq|mp|nb|tp)_\w+)$")


def entries(db):
    out = []
    for cls, r in db.records.items():
        sup = [s if isinstance(s, str) else str(s) for s in superclasses(db, cls)]
        if not any(re.search(r"\b(BaseMethod|Getter|Type)<", s) for s in sup):
            continue
        for m in r["methods"]:
            fn = db.functions.get(m["id"])
            if fn and fn.get("body") and SLOT.match(m["n"]) and not m.get("virt"):
                out.append(fn)
    for fn in db.functions.values():
        if fn.get("body") and re.match(r"PyInit_\w+$", fn["q"]):
            out.append(fn)
    return out


THROWS = re.compile(r"std::(filesystem::(?!.*path)\w+|__cxx11::basic_string<.*>::(at|substr)|vector<.*>::at|(unordered_)?map<.*>::at|sto(i|l|ul|ll|ull|d|f)|stoi)$")


def throwing(db):
    """functions that may throw"""
    out, rev = set(), {}
    for fn in db.functions.values():
        if not fn.get("body"):
            continue
        nodes = list(fbody(fn)) + [y for i in fn.get("inits") or () for y in walk(i.get("e") or {})]
        for x in nodes:
            if x.get("k") == "throw":
                out.add(fn["id"])
            elif x.get("k") in ("call", "ctor"):
                if x.get("nr") and (x.get("f") or "").startswith("arki::"):
                    out.add(fn["id"])
                if THROWS.match(x.get("f") or ""):
                    out.add(fn["id"])
                if x.get("id"):
                    rev.setdefault(x["id"], set()).add(fn["id"])
                    if x.get("virt"):
                        for f in all_overriders(db, x["id"]):
                            rev.setdefault(f["id"] if isinstance(f, dict) else f, set()).add(fn["id"])
    todo = list(out)
    while todo:
        x = todo.pop()
        for y in rev.get(x, ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    # what is declared and not defined may throw
    return out


class Sums:
    """what each function that uses Python does: how it ends, with which value, and whether a Python error is set"""

    def __init__(self, db, rep, uses):
        self.db, self.rep, self.uses = db, rep, uses
        self.done, self.busy, self.outs = {}, set(), {}
        self.throwing = throwing(db)

    def takes_null(self, fn, p):
        """a function that looks whether there is something"""
        for x in fbody(fn):
            if x.get("k") == "tobool" and strip(x["e"]).get("v") == p["id"]:
                return True
            if x.get("k") == "bin" and x["op"] in ("==", "!=") and p["id"] in (strip(x["a"]).get("v"), strip(x["b"]).get("v")):
                return True
        return False

    def of(self, fn):
        if fn["id"] in self.done:
            return self.done[fn["id"]]
        if fn["id"] in self.busy:
            return {("norm", 0, "?"), ("throw", 1, PYEXC)}
        self.busy.add(fn["id"])
        cl = Errors(self, fn)
        fl = Flow(self.db, cl, interesting=set(), depth=5, cap=64, inline_small=0)
        out = fl.run(fn, 0)
        res = set()
        for st, typ, line in out.thr:
            res.add(("throw", st.auto, typ))
        for st, v, line in out.ret:
            res.add(("norm", st.auto, value(st, v)))
        for x in out.norm:
            st = x[0] if isinstance(x, tuple) else x
            res.add(("norm", st.auto, "void"))
        self.busy.discard(fn["id"])
        self.done[fn["id"]] = res
        self.outs[fn["id"]] = out
        return res


def protocol(db, rep, uses):
    sums = Sums(db, rep, uses)
    seen = set()
    for fn in entries(db):
        if fn["id"] in seen or not fn["rel"].startswith("arki/python/"):
            continue
        seen.add(fn["id"])
        rep.count("functions called by Python")
        sums.of(fn)
        out = sums.outs[fn["id"]]
        rt = (fn.get("rt") or "").rstrip()
        name = fn["q"].rsplit("::", 1)[-1]
        for st, typ, line in out.thr:
            if typ == "noreturn":
                continue
            rep.bad("escapes", fn["q"], "%s:%s" % (fn["rel"], line), "a C++ exception (%s) leaves a function called by Python" % typ, st.steps())
        for st, v, line in out.ret:
            x = value(st, v)
            at = "%s:%s" % (fn["rel"], line)
            bad = 0 if rt.endswith("*") else -1
            if rt == "void":
                continue
            if x == bad and st.auto == 0 and name != "_iternext":
                rep.bad("no error", fn["q"], at, "failure is returned, but no Python error is set", st.steps())
            elif x not in (bad, "?") and st.auto == 1:
                rep.bad("swallowed", fn["q"], at, "success is returned although a Python error is set", st.steps())
        for x in out.norm + out.ret if rt == "void" else ():
            st = x[0] if isinstance(x, tuple) else x
            if st.auto == 1:
                rep.bad("swallowed", fn["q"], where(fn), "a Python error is left set", st.steps())
    rep.need("functions called by Python", 150)
    rep.need("calls of Python", 1000)
    return sums


def lambdas_of(fn):
    for x in fbody(fn):
        if x.get("k") == "lambda":
            yield x


def uses_python(nodes, uses):
    for x in nodes:
        if x.get("k") in ("call", "ctor"):
            f = x.get("f") or ""
            if x.get("id") in uses or "::" not in f and API.match(f) and not FREES.match(f) and not QUIET.match(f):
                return True
    return False


def callbacks(db, rep, uses, sums):
    """what arkimet calls ends with an error set only by throwing PythonException"""
    todo = []
    for fn in list(db.functions.values()):
        if not fn.get("body") or not fn["rel"].startswith("arki/python/"):
            continue
        if fn["id"] in uses and not TINY.search(fn["q"]) and not TINY.search((fn.get("cls") or "") + "::"):
            made = any(m["id"] == fn["id"] and m.get("ctor") for m in (db.records.get(fn.get("cls") or "") or {"methods": ()})["methods"])
            if fn.get("over") or fn["q"].endswith("operator()") or made:
                todo.append(fn)
            else:
                sums.of(fn)
        for x in lambdas_of(fn):
            if uses_python(walk(x["b"]), uses):
                todo.append({"id": x["id"], "q": fn["q"] + "::(lambda)", "rel": fn["rel"], "file": fn["file"], "tu": fn["tu"], "params": x["params"],
                             "body": x["b"], "line": x["l"], "end": x["b"].get("el", x["l"]), "rt": "", "cls": fn.get("cls")})
    for fn in todo:
        rep.count("functions called by arkimet")
        rt = (fn.get("rt") or "").rstrip()
        for kind, err, x in sums.of(fn):
            if kind == "norm" and err and not (rt.endswith("*") and x == 0 or rt == "int" and x == -1):
                for st in [y[0] if isinstance(y, tuple) else y for y in sums.outs[fn["id"]].norm + sums.outs[fn["id"]].ret]:
                    if st.auto:
                        rep.bad("left", fn["q"], where(fn), "it returns with a Python error set", st.steps())
            elif kind == "throw" and err and x != PYEXC:
                rep.bad("left", fn["q"], where(fn), "it throws %s while a Python error is set" % x)
    rep.need("functions called by arkimet", 40)


INTS = {"p": "int", "i": "int", "I": "unsigned int", "l": "long", "k": "unsigned long", "L": "long long", "K": "unsigned long long", "n": "long",
        "d": "double", "f": "float", "b": "unsigned char", "B": "unsigned char", "h": "short", "H": "unsigned short", "C": "int", "c": "char"}


def units(fmt):
    """(unit, types of its arguments, optional) of a format of PyArg_Parse*"""
    out, i, opt = [], 0, False
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c in ":;":
            break
        if c == "|":
            opt = True
            continue
        if c in "$() ":
            continue
        if c in "szy":
            if fmt[i:i + 1] == "#":
                i += 1
                out.append((c + "#", ["const char *", "long"], opt))
            elif fmt[i:i + 1] == "*":
                i += 1
                out.append((c + "*", ["Py_buffer"], opt))
            else:
                out.append((c, ["const char *"], opt))
        elif c == "O":
            if fmt[i:i + 1] == "!":
                i += 1
                out.append(("O!", ["type", "any *"], opt))
            elif fmt[i:i + 1] == "&":
                i += 1
                out.append(("O&", ["any", "any"], opt))
            else:
                out.append(("O", ["_object *"], opt))
        elif c in "SUY":
            out.append((c, ["_object *"], opt))
        elif c in INTS:
            out.append((c, [INTS[c]], opt))
        else:
            return None
    return out


def strip(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "icast", "full", "temp", "tobool"):
        n = n["e"]
    return n


CANON = {"Py_ssize_t": "long", "ssize_t": "long", "PyObject *": "_object *", "char *": "const char *", "__ssize_t": "long"}


def formats(db, rep):
    """what is taken from the arguments is what the format and the list of keywords say, and it is used"""
    for fn in db.functions.values():
        if not fn.get("body") or not fn["rel"].startswith("arki/python/"):
            continue
        decls, reads = {}, {}
        for x in fbody(fn):
            if x.get("k") == "decl":
                for v in x["v"]:
                    decls[v["id"]] = v
            elif x.get("k") == "ref" and x.get("v") is not None:
                reads[x["v"]] = reads.get(x["v"], 0) + 1
        for x in fbody(fn):
            f = x.get("f") or ""
            if x.get("k") != "call" or not re.match(r"_?PyArg_ParseTuple(AndKeywords)?(_SizeT)?$", f):
                continue
            rep.count("formats")
            at = "%s:%s" % (fn["rel"], x["l"])
            kw = "AndKeywords" in f
            args = x["a"]
            fmt = strip(args[2 if kw else 1])
            if fmt.get("k") != "str":
                continue
            us = units(fmt["v"])
            if us is None:
                rep.count("formats that are not known")
                continue

            def bad(rule, msg):
                rep.bad(rule, fn["q"], at, msg)

            names = None
            if kw:
                k = strip(args[3])
                d = decls.get(k.get("v"))
                if d and (d.get("i") or {}).get("k") == "init":
                    items = [strip(i) for i in d["i"]["a"]]
                    names = [i.get("v") for i in items if i.get("k") == "str"]
                    if not items or items[-1].get("k") == "str" or len(names) != len(items) - 1:
                        bad("keywords", "the list of keywords does not end with a null pointer")
                    if len(names) != len(us):
                        bad("keywords", "%d keywords, and a format (%s) for %d" % (len(names), fmt["v"], len(us)))
                        continue
            rest = args[4 if kw else 2:]
            want = [(t, u, o) for u, ts, o in us for t in ts]
            if len(want) != len(rest):
                bad("format", "the format (%s) takes %d variables, but %d are given" % (fmt["v"], len(want), len(rest)))
                continue
            main, before = [], None
            for (t, u, o), a in zip(want, rest):
                rep.count("arguments")
                a = strip(a)
                if t in ("type", "any"):
                    continue
                if a.get("k") != "un" or a.get("op") != "&":
                    continue
                r = strip(a["e"])
                rt = (r.get("t") or "").strip()
                rt = CANON.get(rt, rt)
                if t == "any *":
                    if not rt.endswith("*"):
                        bad("format", "%s of the format (%s) is not for a variable of type %s" % (u, fmt["v"], rt))
                elif t != rt and not (t == "_object *" and rt.endswith("*") and "char" not in rt):
                    bad("format", "%s of the format (%s) is not for a variable of type %s" % (u, fmt["v"], rt))
                if r.get("k") != "ref":
                    continue
                d = decls.get(r.get("v"))
                if d is not None:
                    used = reads.get(r["v"], 0) > 1
                    if u.endswith("#") and t == "long" and before and not used:
                        bad("unused", "%s is taken from the arguments, and used without its size (%s)" % (before, d["n"]))
                    before = d["n"] if used else None
                    if o and not d.get("i") and not (u.endswith("#") and t == "long"):
                        bad("default", "%s is optional, but has no value if it is not given" % d["n"])
                if not (u.endswith("#") and t == "long"):
                    main.append(re.sub(r"^(py_|arg_|_)|_$", "", r["n"]))
            if names and len(main) == len(names):
                for i in range(len(names)):
                    for j in range(i):
                        if main[i] != main[j] and main[i] == names[j] and main[j] == names[i]:
                            bad("swapped", "the arguments %s and %s are swapped" % (names[j], names[i]))
    rep.need("formats", 90)
    rep.need("arguments", 150)


def check(db, rep):
    uses = users(db)
    rep.rule("functions called by Python: no C++ exception leaves them, and they return a failure if and only if a Python error is set; what arkimet calls leaves no error set unless it throws")
    rep.rule("a call of Python that fails is noticed before the next one; PythonException is only thrown with an error set")
    rep.rule("formats of arguments, keywords and variables agree; what is taken from the arguments is used, and what is optional has a default")
    sums = protocol(db, rep, uses)
    callbacks(db, rep, uses, sums)
    formats(db, rep)
