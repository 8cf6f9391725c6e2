"""Malformed data is refused: every read of a buffer of bytes that was stored
or received is preceded by a check of its size, and what is found in it is
checked before it is used as an index."""
import re
from rulebase import *
from db import is_test
from failures import norm, callers

DEC = "arki::core::BinaryDecoder"
ENCODED = "arki::types::Encoded"
INTS = re.compile(r"^(const )?(unsigned( (int|long))?|size_t|std::size_t|unsigned long long)$")
PTR = re.compile(r"^(const )?(unsigned char|uint8_t|char|void) ?\*( ?const)?$")
STORED = "stored@"


def buffers_of(db, fn):
    """parameters (pointer, size) of the function"""
    out = []
    ps = fn["params"]
    for a, b in zip(ps, ps[1:]):
        if PTR.match(a["t"]) and "const" in a["t"] and INTS.match(b["t"].replace("&", "").strip()) and "&" not in b["t"]:
            out.append((a, b))
    return out


def negatives(db):
    """names of functions that answer a negative number when there is no answer"""
    c = getattr(db, "_negatives", None)
    if c is None:
        c = set()
        for fn in db.functions.values():
            if fn.get("body") and fn.get("rt") in ("int", "long", "ssize_t") and fn["rel"].startswith(SCOPE):
                for n in fbody(fn):
                    if n.get("k") == "ret" and n.get("e") and isinstance(n["e"].get("cv"), int) and n["e"]["cv"] < 0:
                        c.add(method_name(fn))
        c -= {"compare"}
        db._negatives = c
    return c


def split(sym):
    """(a, b) for the symbol of a sum"""
    if not (sym.startswith("(") and sym.endswith(")")):
        return None
    d = 0
    for i, c in enumerate(sym[1:-1], 1):
        if c in "([":
            d += 1
        elif c in ")]":
            d -= 1
        elif c == "+" and d == 0:
            return sym[1:i], sym[i + 1:-1]
    return None


class Bounds(Client):
    all_loops = True
    fold_inc = 64
    built = False       # a decoder has the bytes that it says, from when it is made

    def __init__(self, db, fn, minimum, unsafe):
        self.db, self.fn, self.minimum, self.unsafe = db, fn, minimum, unsafe
        self.pairs = {}
        self.found = {}
        self.reads = set()
        self.indices = set()
        self.negative = negatives(db)
        self.indexed = set()        # parameters used as an index without a check
        self.made = []              # (class, least size) constructed from a decoder
        self.params = {}
        # functions that are given the bytes of an item are given as many as that has
        self.static = minimum is not None

    # -- buffers
    def bufname(self, fl, sym):
        """the buffer a symbol is, without its version"""
        if sym in self.pairs:
            return sym
        s = re.sub(r"'\d+$", "", sym)
        if s.endswith(".buf") or s.endswith(".data()"):
            return s
        if s == "this.data" and self.minimum is not None:
            return s
        return None

    def where_in(self, fl, st, sym):
        """(buffer, offset or None) of a pointer"""
        if self.bufname(fl, sym):
            return sym, ("c", 0)
        p = split(sym)
        if p:
            for a, b in (p, p[::-1]):
                if self.bufname(fl, a):
                    return a, (("c", int(b)) if b.isdigit() else ("s", b))
        return None, None

    def sizesyms(self, fl, st, b):
        """symbols of the size of buffer b as it is now"""
        if b in self.pairs:
            return [self.pairs[b]]
        n = self.bufname(fl, b)
        if n.endswith(".data()"):
            return [("s", n[:-7] + ".size()")]
        if n == "this.data":
            return [("s", "this.size")]
        # of a decoder: the symbol stands for the buffer as long as it is its value
        owners = [k for k, v in st.env.items() if k.endswith(".buf") and v == ("s", b)]
        if n not in owners and n == b and n not in st.env:
            owners.append(n)
        out = []
        for o in owners:
            loc = o[:-4] + ".size"
            out.append(st.env.get(loc, ("s", loc)))
        return out

    def atleast(self, fl, st, b, n):
        """buffer b has at least n bytes"""
        if n == ("c", 0):
            return True
        for x, k in st.auto:
            if x == b and (k == n or (n[0] == "c" and k[0] == "c" and isinstance(k[1], int) and k[1] >= n[1])):
                return True
        if (self.bufname(fl, b) == "this.data" or self.static and b in self.pairs) and n[0] == "c" and n[1] <= (self.minimum or 0):
            return True
        for s in self.sizesyms(fl, st, b):
            if s == n:
                return True
            m = re.match(r"^min\((.*)\)(@[\d:]+)?$", n[1]) if n[0] == "s" else None
            if m and s[0] == "s" and s[1] in m.group(1).split(","):
                return True
            if s[0] == "c" and n[0] == "c":
                return s[1] >= n[1]
            if n[0] == "c" and any(st.facts.get((s[1], "<", c)) is False for c in range(n[1], n[1] + 40)):
                return True
            if n[0] == "s" and s[0] == "s":
                if st.facts.get((s[1], "<", "$" + n[1])) is False or st.facts.get((n[1], "<", "$" + s[1])) is True:
                    return True
        return False

    def rest(self, fl, st, b, off, n):
        """n bytes from the offset are in the buffer"""
        if off == ("c", 0):
            return self.atleast(fl, st, b, n)
        if off[0] == "c" and n[0] == "c":
            return self.atleast(fl, st, b, ("c", off[1] + n[1]))
        for s in self.sizesyms(fl, st, b):
            if n[0] == "s" and s[0] == "s" and n[1] == "(%s-%s)" % (s[1], off[1]):
                return self.atleast(fl, st, b, off)
        return False

    def fact(self, fl, st, atom, truth, line):
        x, rel, c = atom
        val = None
        # a value that was compared stays compared
        if rel == "<" and not truth and c == 0:
            st = st.with_auto(frozenset(st.auto | {("nonneg", ("s", x))}))
        if rel == "<" and truth:
            st = st.with_auto(frozenset(st.auto | {("idx", ("s", x))}))
        if rel == "<" and not truth:
            val = ("s", c[1:]) if isinstance(c, str) and c.startswith("$") else ("c", c)
        elif rel == "<" and truth and isinstance(c, str) and c.startswith("$"):
            # x < size
            val, x = ("s", x), c[1:]
        elif rel == "==" and truth and isinstance(c, int):
            val = ("c", c)
        elif rel == "==" and c == 0 and not truth:
            val = ("c", 1)
        if rel in ("==", "<") and isinstance(c, int):
            kind = "version" if VERSION.search(x) else "style" if self.minimum is not None and STYLE.search(x) and (
                "#" not in x or any(x.startswith(k) for k in self.params.values())) else None
            if kind:
                st = st.with_auto(frozenset(st.auto | {("known" if truth and (rel == "==" or c == 1) else "tested", (kind, x))}))
        if val is None:
            return st
        add = set()
        s = re.sub(r"'\d+$", "", x)
        for p, n in self.pairs.items():
            if n == ("s", x):
                add.add((p, val))
        if s.endswith(".size()"):
            add.add((s[:-7] + ".data()", val))
        for k, v in list(st.env.items()):
            if k.endswith(".size") and v == ("s", x):
                bl = k[:-5] + ".buf"
                b = st.env.get(bl, ("s", bl))
                if b[0] == "s":
                    add.add((b[1], val))
        if x == s and s.endswith(".size") and s not in st.env:
            bl = s[:-5] + ".buf"
            b = st.env.get(bl, ("s", bl))
            if b[0] == "s":
                add.add((b[1], val))
            if s == "this.size":
                add.add(("this.data", val))
        if add:
            return st.with_auto(frozenset(st.auto | add))
        return st

    def assign(self, fl, st, loc, val, node):
        if loc.endswith(".buf"):
            n = "%s'%s" % (loc, node.get("l", 0) if node else 0)
            if any(b in (n, loc) for b, k in st.auto) and val[0] != "t":
                st = st.with_auto(frozenset((b, k) for b, k in st.auto if b not in (n, loc)))
            elif any(b == n for b, k in st.auto):
                st = st.with_auto(frozenset((b, k) for b, k in st.auto if b != n))
        elif loc.endswith(".size") and val[0] in "cs" and st.env.get(loc[:-5] + ".buf") is not None:
            # a decoder is made of these; it is known under its own name later on
            st = st.with_auto(frozenset(st.auto | {(loc[:-5] + ".buf", val)}))
        return st

    # -- reads
    def sub(self, fl, st, base, idx, node):
        if base is None:
            return
        b, off = self.where_in(fl, st, base)
        line = node.get("l", 0)
        fn = fl.stack[-1]
        if b is not None:
            self.reads.add((fn["q"], line))
            if idx[0] == "c" and isinstance(idx[1], int):
                ok = self.rest(fl, st, b, off, ("c", idx[1] + 1))
            else:
                ok = idx[0] == "s" and off == ("c", 0) and self.below(fl, st, idx[1], b)
            if not ok:
                self.bad(fl, st, line, "byte %s of a buffer is read and it may have less" % (self.show(idx)), "read")
            return
        # an index into something else
        t = (node.get("b") or {}).get("t", "")
        m = re.search(r"\[(\d+)\]$", t)
        if m and idx[0] == "c" and isinstance(idx[1], int):
            self.indices.add((fn["q"], line))
            if not 0 <= idx[1] < int(m.group(1)):
                self.bad(fl, st, line, "element %d of %s is used" % (idx[1], t), "index")
        if idx[0] == "s":
            self.index(fl, st, idx[1], line, "an array")

    def index(self, fl, st, sym, line, what):
        """use of a value as an index"""
        m = re.match(r"^([\w:~]+)\((.*)\)(@[\d:]+)?$", sym)
        if m and not m.group(2).isdigit() and m.group(1) in self.negative and not any(
                x == sym and (rel == "<" and c in (0, 1) and not t or rel == "==" and t) for (x, rel, c), t in st.facts.items()) \
                and ("nonneg", ("s", sym)) not in st.auto:
            self.bad(fl, st, line, "what %s answers is used as an index of %s and it may be negative" % (m.group(1), what), "index")
        # what a function answers is that function's responsibility
        for _ in range(6):
            sym2 = re.sub(r"[\w:]+\([^()]*\)(@[\d:]+)?", "", sym)
            if sym2 == sym:
                break
            sym = sym2
        if self.checked(st, sym):
            return
        fn = fl.stack[-1]
        if STORED in sym:
            self.indices.add((fn["q"], line))
            self.bad(fl, st, line, "a value found in the data is used as an index of %s without a check" % what, "index")
        elif len(fl.stack) == 1 and fl.stack[0] is self.fn or True:
            for i, p in enumerate(self.fn["params"]):
                k = self.params.get(i)
                if k and re.search(re.escape(k) + r"(?!\d)", sym):
                    self.indexed.add(i)

    def checked(self, st, sym):
        """known to be below something"""
        if ("idx", ("s", sym)) in st.auto:
            return True
        for (x, rel, c), t in st.facts.items():
            if x == sym and rel == "<" and t:
                return True
            if x == sym and rel == "==" and t:
                return True
        return False

    def below(self, fl, st, idx, b):
        sizes = self.sizesyms(fl, st, b)
        for (x, rel, c), t in st.facts.items():
            if x == idx and rel == "<" and t:
                if isinstance(c, int) and self.atleast(fl, st, b, ("c", c)):
                    return True
                if isinstance(c, str) and (("s", c[1:]) in sizes or self.atleast(fl, st, b, ("s", c[1:]))):
                    return True
        return False

    @staticmethod
    def show(v):
        return re.sub(r"#[\d.]+|'\d+", "", str(v[1])) if v[0] in "cs" else "?"

    def bad(self, fl, st, line, msg, kind):
        fn = fl.stack[-1]
        self.found.setdefault((fn["q"], kind, msg), (fn, line, st.steps()))

    def call(self, fl, st, ev):
        q = norm(ev.f)
        n = ev.name
        fn = fl.stack[-1]
        if q.startswith("core::BinaryDecoder::decode_"):
            want = None
            if n in ("decode_float", "decode_double"):
                want = ("c", 4 if n == "decode_float" else 8)
            elif n in ("decode_varint", "decode_uint", "decode_sint", "decode_ulint") and len(ev.args) > 1:
                want = ev.args[1]
                limit = 8 if n == "decode_ulint" else 4
                if n != "decode_varint" and want[0] == "c" and want[1] > limit:
                    self.bad(fl, st, ev.line, "%d bytes are read into a number of %d" % (want[1], limit), "width")
            self.pair(fl, st, ev, 0, want)
            val = ("s", "%s%s:%s" % (STORED, fn["tu"] if isinstance(fn.get("tu"), (int, str)) else "", ev.line))
            if n == "decode_varint" and len(ev.args) > 2 and ev.args[2][0] == "s":
                st2 = st.with_env(ev.args[2][1], ("s", "%s%d" % (STORED, ev.line)))
                return [(st2, ("s", "consumed@%d" % ev.line))]
            return [(st, val)]
        if n in ("throw_insufficient_size", "throw_parse_error"):
            fl.throw(st, "std::runtime_error", ev.line)
            return []
        if q == "core::BinaryDecoder::skip" and len(ev.args) == 1 and ev.obj and ev.obj[0] == "s":
            o = ev.obj[1]
            b = st.env.get(o + ".buf", ("s", o + ".buf"))
            v = ev.args[0]
            if b[0] == "s" and not (v[0] == "s" and v[1].startswith("consumed@")):
                self.reads.add((fn["q"], ev.line))
                if not self.atleast(fl, st, b[1], v):
                    self.bad(fl, st, ev.line, "%s bytes are skipped and there may be less" % self.show(v), "skip")
            return None
        if q == "core::BinaryDecoder::BinaryDecoder" and len(ev.args) == 2 and ev.kind == "ctor":
            self.pair(fl, st, ev, 0, ev.args[1])
            return None
        if not q.startswith("core::BinaryDecoder::"):
            for i, v in enumerate(ev.args):
                if v[0] == "s" and i + 1 < len(ev.args):
                    self.pair(fl, st, ev, i, ev.args[i + 1], strict=False)
        if ev.kind == "ctor" and ev.args and ev.args[0][0] == "s" and ev.cls in self.encoded:
            b = ev.args[0][1]
            if self.bufname(fl, b) and len(ev.args) > 1:
                self.made.append((ev.cls, self.least(fl, st, b)))
        for fid in fl.targets(ev) if hasattr(fl, "targets") else [ev.id]:
            for i in self.unsafe.get(fid, ()):
                if i < len(ev.args) and ev.args[i][0] == "s":
                    self.index(fl, st, ev.args[i][1], ev.line, "what %s looks up" % short(ev.f))
        if n == "operator[]" and ev.args and ev.args[-1][0] == "s" and re.search(r"\bstd::vector|\bstd::array", ev.cls or ""):
            self.index(fl, st, ev.args[-1][1], ev.line, "a list")
        return None

    def least(self, fl, st, b):
        best = 0
        for x, k in st.auto:
            if x == b and k[0] == "c" and isinstance(k[1], int):
                best = max(best, k[1])
        return best

    def text(self, fl, st, vals, node):
        a = node.get("a") or []
        if len(a) > 1 and a[0] and "*" in (a[0].get("t") or ""):
            ev = type("Ev", (), {"args": tuple(vals), "argn": a, "line": node.get("l", 0)})
            self.pair(fl, st, ev, 0, vals[1], strict=False)

    def pair(self, fl, st, ev, i, n, strict=True):
        v = ev.args[i]
        if v[0] != "s":
            return
        b, off = self.where_in(fl, st, v[1])
        if b is None or n is None:
            return
        fn = fl.stack[-1]
        # a range of pointers
        if n[0] == "s":
            e, eoff = self.where_in(fl, st, n[1])
            if e is not None:
                if e != b:
                    return
                self.reads.add((fn["q"], ev.line))
                if not self.atleast(fl, st, b, eoff):
                    self.bad(fl, st, ev.line, "%s bytes of a buffer are used and it may have less" % self.show(eoff), "read")
                return
        elif n[0] == "c" and not isinstance(n[1], int) or n[0] not in "cs":
            return
        if not strict and (not self.sized(ev, i) or self.bufname(fl, b).endswith(".data()")):
            return
        self.reads.add((fn["q"], ev.line))
        if not self.rest(fl, st, b, off, n):
            self.bad(fl, st, ev.line, "%s bytes of a buffer are used and it may have less" % self.show(n), "read")

    def sized(self, ev, i):
        """the argument after this one is a number of bytes"""
        a = (ev.argn or [])
        if i + 1 >= len(a) or a[i] is None or a[i + 1] is None or "*" not in (a[i].get("t") or ""):
            return False
        t = (a[i + 1].get("t") or "").replace("const ", "").strip()
        return bool(INTS.match(t))

    def want_inline(self, fl, st, ev, fn):
        q = norm(fn["q"])
        if q.startswith("core::BinaryDecoder::") and not any(x in q for x in ("throw_", "pop_line", "::decode_", "pop_metadata_bundle")):
            return True
        return False

    def may_throw(self, fl, st, ev):
        return False


SCOPE = ("arki/core/binary", "arki/types/", "arki/types.", "arki/summary", "arki/metadata", "arki/utils/compress", "arki/data/", "arki/structured")


def analyse(db, rep, fn, minimum, unsafe, encoded):
    cl = Bounds(db, fn, minimum, unsafe)
    cl.encoded = encoded
    fl = Flow(db, cl, interesting=None, cap=300)
    fl.stack = [fn]
    for a, b in buffers_of(db, fn):
        cl.pairs[fl.vkey(a)] = ("s", fl.vkey(b))
    cl.params = {i: fl.vkey(p) for i, p in enumerate(fn["params"])}
    fl.stack = []
    cl.out = fl.run(fn, frozenset())
    if fl.unsupported:
        rep.errors.extend("%s: %s" % (fn["q"], u) for u in fl.unsupported[:2])
    return cl


VERSION = re.compile(r"(^|\.)version(#[\d.]+)?$")
STYLE = re.compile(r"^(stored@.*|this\.data|dec#[\d.]+\.buf|data#[\d.]+)\[0\]$|^style\(.*\)(@[\d:]+)?$|^this\.style\(\)$")


def unknown(rep, fn, cl):
    """a version or style that isn't one of those known isn't taken for one of them"""
    for st, v, line in cl.out.ret:
        tested = {x for k, x in st.auto if k in ("known", "tested")}
        for kind, x in sorted(tested):
            rep.count("versions and styles")
            if ("known", (kind, x)) not in st.auto:
                x = Bounds.show(("s", x))
                rep.bad("unknown", fn["q"], where(fn, line or fn["line"]), "%s goes on with a %s that is none of those known" % (
                    short(fn["q"]), kind), st.steps(), "unknown|" + x)


def relevant(db, fn, encoded):
    """reads bytes, decodes, or takes a code as an index"""
    c = fn.get("cls")
    for n in fbody(fn):
        k = n.get("k")
        if k == "sub":
            return True
        if k == "mem" and n["n"] in ("buf", "data"):
            return True
        if k in ("call", "ctor") and ("BinaryDecoder" in (n.get("f") or "") or "BinaryDecoder" in (n.get("t") or "")):
            return True
    return bool(buffers_of(db, fn))


def check(db, rep, what="P17"):
    rep.rule("every read of bytes of a decoder, of an encoded item or of a (pointer, size) pair is preceded on its path by a "
             "check that there are as many; values decoded from data are compared with a limit before being an index")
    encoded = set()
    for c in [ENCODED] + subclasses(db, ENCODED):
        encoded |= {c, norm(c)}
    todo = [fn for fn in db.functions.values() if fn.get("body") and not is_test(fn["rel"]) and fn["rel"].startswith(SCOPE)
            and relevant(db, fn, encoded)]
    todo.sort(key=lambda f: (f["rel"], f["line"]))
    # what decode() makes sure of, class by class
    least = {}
    first = [f for f in todo if method_name(f) in ("decode", "decodeInner") and f.get("cls") in encoded]
    for fn in first:
        cl = analyse(db, rep, fn, 0, {}, encoded)
        for c, n in cl.made:
            c = norm(c)
            least[c] = min(least.get(c, 1 << 30), n)
    rep.count("classes with a least size", len(least))
    unsafe = {}
    results = {}
    call = callers(db)
    done = {f["id"] for f in todo}
    for rnd in range(6):
        changed = False
        if rnd:
            for i in list(unsafe):
                for owner in sorted(call.get(i, ())):
                    f = db.functions.get(owner)
                    if owner not in done and f and f.get("body") and not is_test(f["rel"]):
                        done.add(owner)
                        todo.append(f)
        for fn in todo:
            if rnd and fn["id"] in results and not (results[fn["id"]][1] & changedids):
                continue
            m = None
            if fn.get("cls") in encoded or norm(fn.get("cls") or "") in encoded:
                m = least.get(norm(fn["cls"]), None)
                if m is None:
                    ms = [least[norm(c)] for c in subclasses(db, fn["cls"]) if norm(c) in least]
                    m = min(ms) if ms else 0
            cl = analyse(db, rep, fn, m, unsafe, encoded)
            calls = {n.get("id") for n in fbody(fn) if n.get("k") in ("call", "ctor")}
            results[fn["id"]] = (cl, calls)
            if cl.indexed - set(unsafe.get(fn["id"], ())):
                unsafe.setdefault(fn["id"], set()).update(cl.indexed)
                changed = True
        if not changed:
            break
        changedids = set(unsafe)
    for fn in todo:
        cl = results[fn["id"]][0]
        rep.funcs.add(fn["q"])
        rep.count("functions")
        rep.count("reads", len(cl.reads))
        rep.count("indices", len(cl.indices))
        for (q, kind, msg), (f, line, steps) in cl.found.items():
            rep.bad(kind, q, where(f, line), "%s: %s" % (short(q), msg), steps, "%s|%s" % (kind, msg))
        unknown(rep, fn, cl)
    rep.count("functions that take an index", len(unsafe))
    rep.anchor(any(f["q"].startswith(DEC + "::pop_") for f in todo), "methods of BinaryDecoder")
    rep.need("reads", 150)
    rep.need("indices", 12)
    rep.need("versions and styles", 15)
    rep.need("classes with a least size", 12)
    return unsafe, least
