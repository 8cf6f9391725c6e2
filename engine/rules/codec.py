"""What is stored can be read back: the sequence of fields written by every
encoder is the one read by the decoders, field by field, and is the one
recorded for data already stored."""
import json
import os
import re
from rulebase import *
from failures import norm
from sumcache import resolve

ENC = "arki::core::BinaryEncoder"
DEC = "arki::core::BinaryDecoder"
ENCODED = "arki::types::Encoded"
READER = "arki::structured::Reader"
EMIT = "arki::structured::Emitter"


def tail(q):
    return q.rsplit("::", 1)[-1]


def in_tail(ops, op):
    """already among the loops at the end"""
    for o in reversed(ops):
        if o[0] != "loop":
            return False
        if o[:2] == op[:2]:
            return True
    return False


class A:
    """automaton: encoders, decoders, operations and what is emitted"""
    __slots__ = ("bufs", "encs", "decs", "dops", "emits", "pend", "style", "done", "loops", "known")

    def __init__(self, bufs=(), encs=(), decs=(), dops=(), emits=frozenset(), pend=None, style=None, done=None, loops=(), known=frozenset()):
        self.bufs, self.encs, self.decs, self.dops, self.emits = bufs, encs, decs, dops, emits
        self.pend, self.style, self.done, self.loops, self.known = pend, style, done, loops, known

    def key(self):
        return (self.bufs, self.encs, self.decs, self.dops, self.emits, self.pend, self.style, self.done, self.loops, self.known)

    def __eq__(self, o):
        return isinstance(o, A) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def w(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return A(**d)


def put(pairs, k, v):
    return tuple(sorted([(a, b) for a, b in pairs if a != k] + [(k, v)], key=lambda x: str(x[0])))


def get(pairs, k, dflt=None):
    for a, b in pairs:
        if a == k:
            return b
    return dflt


def base(sym):
    """offset and base of a pointer symbol"""
    off = 0
    while True:
        m = re.match(r"^\((\d+)\+(.*)\)$", sym)
        if m:
            off, sym = off + int(m.group(1)), m.group(2)
            continue
        m = re.match(r"^\((.*)\+(\d+)\)$", sym)
        if m:
            off, sym = off + int(m.group(2)), m.group(1)
            continue
        break
    return off, re.sub(r"'\d+", "", sym)


def lab(v):
    if v[0] == "c":
        return "=%s" % (v[1],)
    return v[1] if v[0] == "s" else "?"


class Codec(Client):
    fold_inc = 40
    all_loops = True
    self_cls = None
    watch = ()                  # what is known of these parameters tells paths apart

    def fact(self, fl, st, atom, truth, line):
        if atom[0] in self.watch and atom[1] == "==" and isinstance(atom[2], int):
            if (atom, not truth) in st.auto.known:
                return None
            return st.with_auto(st.auto.w(known=st.auto.known | {(atom, truth)}))
        return st

    def __init__(self, db):
        self.db = db
        self.out = []
        self.bad = []

    def want_inline(self, fl, st, ev, fn):
        if fn["rel"].endswith(("structured/reader.h", "structured/reader.cc", "structured/emitter.h", "structured/emitter.cc",
                               "core/binary.h", "core/binary.cc")):
            return False
        if fn["rel"].startswith(("arki/types/", "arki/types.")) and not fn["rel"].endswith(("values.cc", "values.h")):
            n = method_name(fn)
            return n.startswith(("get", "create", "style", "init", "decode", "serialise_local", "derived", "encodeWithout"))
        return False

    def inline_virtual(self, fl, st, ev, cands):
        if self.self_cls and ev.obj == ("s", "this"):
            f = resolve(self.db, self.self_cls, tail(norm(ev.f or "")), cands)
            return [f] if f else False
        return False

    def may_throw(self, fl, st, ev):
        return False

    # -- encoding
    def add(self, a, buf, op):
        ops = get(a.bufs, buf, ())
        if op[0] == "loop" and in_tail(ops, op):
            return a
        return a.w(bufs=put(a.bufs, buf, ops + (op,)))

    def at(self, a, buf, off, op):
        ops = get(a.bufs, buf, ())
        return a.w(bufs=put(a.bufs, buf, tuple(sorted([o for o in ops if o[0] != "@" or o[1] != off] + [("@", off, op)],
                                                      key=lambda o: o[1]))))

    def linear(self, ops):
        """operations at offsets, as a sequence"""
        if not ops or ops[0][0] != "@":
            return ops
        pos = 0
        out = []
        for _, off, op in ops:
            if off != pos:
                out.append(("gap", off - pos, "?"))
            out.append(op)
            w = {"u": op[1], "s": op[1], "double": 8, "float": 4, "time": 5, "raw": 0}.get(op[0], 0)
            pos = off + (w or 0)
        return tuple(out) + (("end", pos, "?"),)

    def rawkind(self, ops, l):
        for i, o in enumerate(ops):
            if o[2] == l + ".size()" or o[2] == l + ".native().size()":
                return ("raw", "@%d" % (i - len(ops)), l)
        return ("raw", "rest", l)

    def pop(self, fl, st, dsym, kind, width, cat="op"):
        a = st.auto
        cur = get(a.decs, dsym)
        if cur is None:
            return None
        op = (kind, width)
        pre = a.dops[:cur]
        if cur < len(a.dops):
            if a.dops[cur][:2] != op:
                self.bad.append((fl.stack[0] if isinstance(fl.stack[0], dict) else None,
                                 "field %d is read as %s and as %s" % (cur, a.dops[cur], op)))
            dops = a.dops
        else:
            dops = a.dops + (op,)
        st = st.with_auto(a.w(dops=dops, decs=put(a.decs, dsym, cur + 1)))
        return [(st, ("s", "op%d" % cur))]

    def call(self, fl, st, ev):
        a = st.auto
        f = ev.f or ""
        cls = norm(ev.cls or "")
        last = tail(norm(f))
        o = ev.obj[1] if ev.obj and ev.obj[0] == "s" else None
        if ev.kind == "ctor" and cls == "core::BinaryEncoder" and ev.args and ev.args[0][0] == "s":
            s = "enc:" + base(ev.args[0][1])[1]
            return [(st, ("s", s))]
        if cls == "core::BinaryEncoder":
            if last in ("set_unsigned", "set_signed", "set_double"):
                off, b = base(ev.args[0][1]) if ev.args[0][0] == "s" else (None, None)
                if b is None:
                    return None
                w = ev.args[2][1] if len(ev.args) > 2 and ev.args[2][0] == "c" else None
                op = {"set_unsigned": ("u", w), "set_signed": ("s", w), "set_double": ("double", None)}[last] + (lab(ev.args[1]),)
                return [(st.with_auto(self.at(a, b, off, op)), ("void",))]
            if o is None or last == "BinaryEncoder":
                return None
            b = re.sub(r"'\d+", "", o)[4:] if o.startswith("enc:") else re.sub(r"'\d+", "", o)
            w = ev.args[1][1] if len(ev.args) > 1 and ev.args[1][0] == "c" else None
            l = lab(ev.args[0]) if ev.args else "?"
            ops = get(a.bufs, b, ())
            if last == "add_unsigned":
                op = ("u", w, l)
            elif last == "add_signed":
                op = ("s", w, l)
            elif last == "add_byte":
                op = ("u", 1, l)
            elif last == "add_varint":
                op = ("varint", None, l)
            elif last == "add_float":
                op = ("float", None, l)
            elif last == "add_double":
                op = ("double", None, l)
            elif last in ("add_raw", "add_string") and get(a.bufs, re.sub(r"'\d+", "", l)):
                # a buffer that was itself built field by field
                for x in get(a.bufs, re.sub(r"'\d+", "", l)):
                    a = self.add(a, b, x)
                return [(st.with_auto(a), ("void",))]
            elif last in ("add_raw", "add_string"):
                op = self.rawkind(ops, re.sub(r"\.data\(\)$", "", l))
            else:
                return None
            return [(st.with_auto(self.add(a, b, op)), ("void",))]
        if last in ("encodeWithoutEnvelope", "encode", "encodeBinary") and ev.args and ev.args[0][0] == "s":
            b = re.sub(r"^enc:", "", re.sub(r"'\d+", "", ev.args[0][1]))
            if cls == "core::Time":
                return [(st.with_auto(self.add(a, b, ("time", None, o or "?"))), ("void",))]
            if cls == "types::ValueBag" or cls.endswith("ValueBag"):
                return [(st.with_auto(self.add(a, b, ("bag", None, o or "?"))), ("void",))]
            if last == "encodeBinary" and (ev.virt or cls in ("types::Type", "summary::Stats")):
                for op in (("varint", None, "code"), ("varint", None, "?"), ("raw", "@-1", o or "?")):
                    a = self.add(a, b, op)
                return [(st.with_auto(a), ("void",))]
        if last == "encode_binary" and cls == "core::Time" and ev.args[0][0] == "s":
            off, b = base(ev.args[0][1])
            return [(st.with_auto(self.at(a, b, off, ("time", None, o or "?"))), ("void",))]
        if f in ("memcpy", "std::memcpy", "::memcpy") and ev.args[0][0] == "s":
            off, b = base(ev.args[0][1])
            src = re.sub(r"\.data\(\)$|\.c_str\(\)$", "", lab(ev.args[1]))
            return [(st.with_auto(self.at(a, b, off, ("raw", "rest", src))), ("void",))]
        if ev.kind == "ctor" and ("arki::" + cls in self.encs_cls or cls in self.encs_cls) and ev.args and ev.args[0][0] == "s":
            off, b = base(ev.args[0][1])
            ops = get(a.bufs, b)
            if ops is not None:
                size = ev.args[1] if len(ev.args) > 1 else None
                lin = self.linear(ops)
                if lin and lin[-1][0] == "end":
                    if size and size[0] == "c" and int(size[1]) != lin[-1][1]:
                        self.bad.append((None, "%s: buffer of %s bytes holds %d bytes of fields" % (cls, size[1], lin[-1][1])))
                    lin = lin[:-1]
                return [(st.with_auto(a.w(done=(cls, lin))), ("s", "encoded:" + cls))]
        # -- decoding
        if ev.kind == "ctor" and cls == "core::BinaryDecoder" and ev.args and ev.args[0][0] == "s" and not ev.args[0][1].startswith("dec:") \
                and not (len(ev.args) == 1 and get(a.decs, re.sub(r"'\d+", "", ev.args[0][1])) is not None):
            off, b = base(ev.args[0][1])
            s = "dec:%d:%s" % (off, b)
            dops = a.dops
            if off == 1 and not dops:
                dops = (("u", 1),)
            cur = 0
            w = 0
            while w < off and cur < len(dops) and dops[cur][0] in ("u", "s"):
                w += int(dops[cur][1])
                cur += 1
            if w != off:
                self.bad.append((None, "decoder starts at offset %d, which is no field boundary of %s" % (off, dops)))
            return [(st.with_auto(a.w(dops=dops, decs=put(a.decs, s, cur))), ("s", s))]
        if cls == "core::BinaryDecoder" and o is not None:
            d = re.sub(r"'\d+", "", o)
            if last in ("pop_uint", "pop_ulint"):
                return self.pop(fl, st, d, "u", ev.args[0][1] if ev.args[0][0] == "c" else None)
            if last == "pop_sint":
                return self.pop(fl, st, d, "s", ev.args[0][1])
            if last == "pop_byte":
                return self.pop(fl, st, d, "u", 1)
            if last == "pop_varint":
                return self.pop(fl, st, d, "varint", None)
            if last in ("pop_float", "pop_double"):
                return self.pop(fl, st, d, last[4:], None)
            if last in ("pop_string", "pop_data", "pop_data_copy"):
                l = lab(ev.args[0])
                m = re.match(r"^op(\d+)$", l)
                return self.pop(fl, st, d, "raw", "@%d" % (int(m.group(1)) - get(a.decs, d, 0)) if m else "rest" if l.endswith(".size") else l)
            if "operator bool" in f or last == "operator bool":
                cur = get(a.decs, d)
                if cur is not None:
                    atom = ("more%d" % cur, "==", 0)
                    known = st.facts.get(atom)
                    return [(st.with_fact(atom, t), ("c", 0 if t else 1)) for t in (False, True) if known in (None, t)]
            if last == "pop_type_envelope":
                # the code and length of an item; what follows is inside it
                x = self.pop(fl, st, d, "varint", None)
                y = x and self.pop(fl, x[0][0], d, "varint", None)
                if not y:
                    return None
                st = y[0][0]
                out = ev.args[0][1] if ev.args and ev.args[0][0] == "s" else None
                if out:
                    st = st.with_env(out, x[0][1])
                return [(st, ("s", o))]
        if last.startswith("decode") and ev.args and ev.args[0][0] == "s" and \
                get(a.decs, re.sub(r"'\d+", "", ev.args[0][1])) is not None:
            d = re.sub(r"'\d+", "", ev.args[0][1])
            if cls in ("types::Type", "summary::Stats"):
                ops = [("varint", None), ("varint", None)] if cls == "types::Type" and last == "decode" else []
                out = [(st, None)]
                for op in ops + [("raw", "@-1")]:
                    out = self.pop(fl, out[0][0], d, *op) if out else out
                return out
            if cls == "core::Time":
                return self.pop(fl, st, d, "time", None)
            if cls.endswith("ValueBag"):
                return self.pop(fl, st, d, "bag", None)
        if cls == "core::Time" and ev.kind == "ctor" and len(ev.args) == 6 and a.decs:
            ctor = self.db.functions.get(ev.id)
            for p, v in zip(ctor["params"] if ctor else (), ev.args):
                st = st.with_auto(self.emit(st.auto, p["n"], v))
            return [(st, ("s", "Time()"))]
        if last == "ensure_size" and o is not None and ev.args[0][0] == "c":
            return [(st.with_auto(self.emit(a, "!size%d" % len(a.dops), ev.args[0])), ("void",))]
        # -- structured form
        if cls.startswith("structured::Reader"):
            if last == "sub" and len(ev.args) == 3 and ev.args[2][0] == "l":
                nd, owner = fl.lambdas[ev.args[2][1]]
                return [(s, ("void",)) for s, v in
                        fl.inline_lambda(nd, owner, ev.args[2], st, [("s", "key:" + self.keyname(ev.args[0]))], ev.node)]
            if ev.args and self.keyname(ev.args[0]) and last == "has_key":
                return [(st, ("s", "has:" + self.keyname(ev.args[0])))]
            if ev.args and self.keyname(ev.args[0]):
                return [(st, ("s", "key:" + self.keyname(ev.args[0])))]
            return None
        if cls.startswith("structured::Emitter") and last == "add":
            if len(ev.args) == 1:
                k = self.keyname(ev.args[0])
                if k:
                    return [(st.with_auto(a.w(pend=k)), ("void",))]
                if a.pend:
                    return [(st.with_auto(self.emit(a, a.pend, ev.args[0]).w(pend=None)), ("void",))]
                return [(st, ("void",))]
            k = self.keyname(ev.args[0])
            if k:
                return [(st.with_auto(self.emit(a, k, ev.args[1])), ("void",))]
            return [(st, ("void",))]
        if last == "serialise" and a.pend and o:
            return [(st.with_auto(self.emit(a, a.pend, ev.obj).w(pend=None)), ("void",))]
        if f.endswith("operator<<") and (len(ev.args) == 2 or ev.obj and ev.args):
            v = ev.args[-1]
            ops = re.findall(r"\bop\d+\b", lab(v)) if v[0] == "s" else []
            if ops:
                n = sum(1 for k, l in a.emits if k.startswith("!out"))
                if not any(k.startswith("!out") and l == ops[0] for k, l in a.emits):
                    a = a.w(emits=a.emits | {("!out%d" % n, ops[0])})
            return [(st.with_auto(a), ev.args[0] if len(ev.args) == 2 else ev.obj)]
        if last == "formatStyle" and ev.args:
            return [(st, ("s", "style:" + lab(ev.args[0])))]
        fn = self.db.functions.get(ev.id)
        if fn and not cls and not ev.obj and fn["rel"].startswith("arki/types/") and ev.t in (
                "int", "unsigned int", "bool", "unsigned long", "long") and not any(
                    p.get("ref") or p["t"].endswith(("*", "&")) for p in fn["params"]):
            # a function of its arguments
            return [(st, ("s", "%s(%s)" % (last, ",".join(lab(x) for x in ev.args))))]
        return None

    def keyname(self, v):
        if v[0] != "s":
            return ""
        m = re.match(r"^keys(?:#[\d.]+)?(?:'\d+)?\.(\w+)$", v[1])
        return m.group(1) if m else ""

    def emit(self, a, k, v):
        return a.w(emits=a.emits | {(k, lab(v))})

    def assign(self, fl, st, loc, val, node):
        n = re.match(r"^new\([\w:]+\)@\d+\.(\w+)$", str(loc))
        if n and st.auto.decs and re.search(r"\bop\d+\b", lab(val)):
            return st.with_auto(self.emit(st.auto, n.group(1), val))
        m = re.match(r"^(new\(unsigned char\)@\d+)\[(\d+)\]$", str(loc))
        if m:
            return st.with_auto(self.at(st.auto, m.group(1), int(m.group(2)), ("u", 1, lab(val))))
        return st

    def iter_begin(self, fl, st, what, node):
        a = st.auto
        return st.with_auto(a.w(loops=a.loops + ((tuple((b, len(o)) for b, o in a.bufs), len(a.dops), node["l"]),)))

    def iter_end(self, fl, st, what, node, how, val=None):
        a = st.auto
        if not a.loops:
            return st
        lens, nd, line = a.loops[-1]
        a = a.w(loops=a.loops[:-1])
        for b, ops in a.bufs:
            n = dict(lens).get(b, 0)
            if len(ops) > n:
                body = tuple(x[:2] for x in ops[n:])
                a = a.w(bufs=put(a.bufs, b, ops[:n]))
                a = self.add(a, b, ("loop", body, ""))
        if len(a.dops) > nd:
            body = tuple(x[:2] for x in a.dops[nd:])
            dops = a.dops[:nd]
            if not in_tail(dops, ("loop", body)):
                dops += (("loop", body),)
            a = a.w(dops=dops, decs=tuple((d, len(dops)) for d, c in a.decs))
        return st.with_auto(a)


# -- what was extracted

WIDTH = {"varint": 1, "double": 8, "float": 4, "time": 5}


def minbytes(ops):
    return sum(int(w or 0) if k in ("u", "s") else WIDTH.get(k, 0) for k, w in (o[:2] for o in ops))


def kinds(ops):
    return tuple(o[:2] for o in ops)


class Enc:
    def __init__(self, fn, cls, ops, facts, steps):
        self.fn, self.cls, self.ops, self.facts, self.steps = fn, cls, ops, facts, steps

    def value(self, i):
        """constant value of a field"""
        if i >= len(self.ops) or len(self.ops[i]) < 3:
            return None
        l = self.ops[i][2]
        if l.startswith("="):
            return l[1:]
        for (x, r, c), t in self.facts.items():
            if t and r == "==" and x == l:
                return str(c)
        return None

    def isnot(self, i, c):
        """a field known to differ from a constant"""
        l = self.ops[i][2] if i < len(self.ops) and len(self.ops[i]) > 2 else None
        v = self.value(i)
        if v is not None:
            return v != str(c)
        return any(not t and r == "==" and x == l and str(k) == str(c) for (x, r, k), t in self.facts.items())

    def translated(self):
        """facts about the fields, in terms of their positions"""
        out = {}
        for (x, r, c), t in self.facts.items():
            y = x
            for i, o in enumerate(self.ops):
                if len(o) > 2 and o[2] and not o[2].startswith("=") and o[2] in y:
                    y = y.replace(o[2], "op%d" % i)
                    break
            if y != x:
                out[(re.sub(r"@[\d:]+", "", y), r, str(c))] = t
        return out


class Dec:
    def __init__(self, fn, cls, ops, emits, facts, steps):
        self.fn, self.cls, self.ops, self.emits, self.facts, self.steps = fn, cls, ops, emits, facts, steps

    def accepts(self, e):
        """may this path be the one taken for what e wrote? None: no"""
        et = e.translated()
        for (x, r, c), t in self.facts.items():
            if x == "this.data[0]" or re.match(r"^dec#[\d.]+\.buf\[0\]$", x):
                x = "op0"
            m = re.match(r"^more(\d+)$", x)
            if m:
                more = len(e.ops) > int(m.group(1))
                if more == t:       # fact (moreN == 0)
                    return False
                continue
            m = re.match(r"^op(\d+)$", x)
            if m and r == "==" and not str(c).startswith("$"):
                i = int(m.group(1))
                v = e.value(i)
                if v is not None and (v == str(c)) != t:
                    return False
                if v is None and t and e.isnot(i, c):
                    return False
                continue
            if re.search(r"\.size$", x) and r == "<" and t and isinstance(c, int):
                if minbytes(e.ops[len(self.ops):]) >= c:
                    return False
                continue
            k = et.get((re.sub(r"@[\d:]+", "", x), r, str(c)))
            if k is not None and k != t:
                return False
            if k is None and r == "==" and t:
                # another value is known for the same thing
                if any(y == re.sub(r"@[\d:]+", "", x) and r2 == "==" and t2 and c2 != str(c) for (y, r2, c2), t2 in et.items()):
                    return False
        return True


def noloops(ops):
    return tuple(o[:2] for o in ops if o[0] != "loop")


def strip_bags(ops):
    """a trailing bag may be empty, that is, nothing at all"""
    while ops and ops[-1][0] == "bag":
        ops = ops[:-1]
    return ops


def same(e, d):
    ek, dk = strip_bags(kinds(e.ops)), strip_bags(tuple(d.ops))
    if ek == dk:
        return True
    n = len(dk)
    if ek[:n] == dk and all(e.value(i) is not None for i in range(n, len(ek))):
        return True     # what is not read says nothing
    le, ld = [o for o in e.ops if o[0] == "loop"], [o for o in d.ops if o[0] == "loop"]
    return (not le or not ld) and noloops(e.ops) == noloops(d.ops)


def show(ops):
    def one(o):
        if o[0] == "loop":
            return "{" + show(o[1]) + "}*"
        if o[0] in ("u", "s"):
            return "%s%s" % (o[0], o[1])
        if o[0] == "raw":
            return "bytes" if o[1] == "rest" else "bytes[%s]" % (o[1],)
        return o[0]
    return " ".join(one(o) for o in ops)


def fieldname(label):
    m = re.findall(r"\b(?:key:|this\.)(\w+)", label)
    return m


PAIRS = [
    ("source::Blob", "arki::types::source::Blob", "encodeWithoutEnvelope", "arki::types::Source::decodeRelative"),
    ("source::URL", "arki::types::source::URL", "encodeWithoutEnvelope", "arki::types::Source::decodeRelative"),
    ("source::Inline", "arki::types::source::Inline", "encodeWithoutEnvelope", "arki::types::Source::decodeRelative"),
    ("Value", "arki::types::Value", "encodeWithoutEnvelope", "arki::types::Value::decode"),
    ("summary::Stats", "arki::summary::Stats", "encodeWithoutEnvelope", "arki::summary::Stats::decode"),
    ("Time", "arki::core::Time", "encodeWithoutEnvelope", "arki::core::Time::decode"),
    ("Time", "arki::core::Time", "encode_binary", "arki::core::Time::decode"),
]


class Extract:
    """all encoders and decoders of the tree"""

    def __init__(self, db, rep):
        self.db, self.rep = db, rep
        self.encs_cls = set()
        for c in [ENCODED] + subclasses(db, ENCODED):
            self.encs_cls |= {c, norm(c)}
        self.enc = {}       # family -> [Enc]
        self.dec = {}       # class -> [Dec]
        self.text = {}      # class -> [Dec] of the text form
        self.disp = {}      # family -> [(Dec, constructed class)]
        self.bad = []
        self.families()

    def run(self, fn, cls=None, decs=None):
        cl = Codec(self.db)
        cl.encs_cls = self.encs_cls
        cl.self_cls = cls
        fl = Flow(self.db, cl, interesting=None, cap=400)
        fl.stack = [fn]
        if decs is None:
            decs = tuple((fl.vkey(p), 0) for p in fn["params"] if "BinaryDecoder" in p["t"])
        params = [fl.vkey(p) for p in fn["params"]]
        fl.stack = []
        if method_name(fn).startswith("create"):
            cl.watch = set(params)
        out = fl.run(fn, A(decs=decs))
        self.rep.count("functions")
        self.rep.funcs.add(fn["q"])
        for u in fl.unsupported[:3]:
            self.rep.errors.append("%s: %s" % (fn["q"], u))
        for _, m in cl.bad:
            self.bad.append((fn, m))
        return out, params

    def family(self, c):
        for x in [c] + superclasses(self.db, c):
            if ENCODED in [b if isinstance(b, str) else b.get("t", b.get("n")) for b in self.db.records[x]["bases"]]:
                return x
        return c

    def methods(self, c):
        for m in self.db.records[c]["methods"]:
            fn = self.db.functions.get(m["id"])
            if fn and fn.get("body"):
                yield m.get("n", ""), fn

    def families(self):
        for c in sorted(subclasses(self.db, ENCODED)):
            fam = self.family(c)
            for n, fn in self.methods(c):
                if n in ("decode_structure", "decodeString") or n.startswith("create"):
                    out, _ = self.run(fn)
                    for st, v, line in out.ret:
                        if st.auto.done:
                            cls, ops = st.auto.done
                            self.enc.setdefault(fam, []).append(
                                Enc(fn, "arki::" + cls if not cls.startswith("arki::") else cls, ops,
                                    dict(list(st.facts.items()) + list(st.auto.known)), st.steps()))
            for n, fn in self.methods(c):
                if n == "decode" and c == fam:
                    out, _ = self.run(fn)
                    for st, v, line in out.ret:
                        m = re.match(r"^new\(([\w:]+)\)", v[1]) if v[0] == "s" else None
                        self.disp.setdefault(fam, []).append(
                            (Dec(fn, fam, st.auto.dops, st.auto.emits, st.facts, st.steps()), m.group(1) if m else None))
        for fam, es in list(self.enc.items()):
            for cls in sorted({e.cls for e in es}):
                if cls not in self.db.records:
                    continue
                f = self.method(cls, "serialise_local")
                if not f:
                    continue
                out, _ = self.run(f, cls=cls)
                t = self.method(cls, "writeToOstream")
                if t:
                    out2, _ = self.run(t, cls=cls)
                    self.text[cls] = [Dec(t, cls, st.auto.dops, st.auto.emits, st.facts, st.steps()) for st, v, line in out2.ret]
                self.dec[cls] = [Dec(f, cls, st.auto.dops, st.auto.emits, st.facts, st.steps()) for st, v, line in out.ret]

    def method(self, cls, name):
        for c in [cls] + superclasses(self.db, cls):
            for n, fn in self.methods(c):
                if n == name:
                    return fn
        return None


def pairs(ex, db):
    for label, cls, mname, dq in PAIRS:
        es, ds = [], []
        for n, fn in ex.methods(cls) if cls in db.records else ():
            if n != mname:
                continue
            out, params = ex.run(fn, cls=cls)
            for st, v, line in out.ret:
                for b, ops in st.auto.bufs:
                    if b in params:
                        lin = [o for o in ops]
                        if lin and lin[0][0] == "@":
                            Cd = Codec(db)
                            lin = [o for o in Cd.linear(tuple(lin)) if o[0] != "end"]
                        es.append(Enc(fn, cls, tuple(lin), st.facts, st.steps()))
        for fn in fns(db, dq):
            if fn.get("body"):
                out, _ = ex.run(fn)
                ds += [Dec(fn, cls, st.auto.dops, st.auto.emits, st.facts, st.steps()) for st, v, line in out.ret if st.auto.dops]
        yield label, es, ds


def agree(rep, label, e, ds, keyed):
    """what is written is what is read"""
    rep.count("layouts written")
    ok = [d for d in ds if d.accepts(e)]
    w = where(e.fn)
    if not ok:
        rep.bad("written and read", e.fn["q"], w, "%s is written as [%s] and nothing reads that" % (label, show(e.ops)),
                e.steps, label + "|" + show(e.ops))
        return
    for d in ok:
        rep.count("layouts compared")
        if not same(e, d):
            rep.bad("written and read", e.fn["q"], w, "%s is written as [%s] and read by %s as [%s]" % (
                label, show(e.ops), d.fn["q"], show(d.ops)), e.steps, label + "|" + show(e.ops) + "|" + show(d.ops))
    if not keyed:
        return
    # the field that comes back under a name is the one stored under that name
    got = {}
    for d in ok:
        if not same(e, d):
            continue
        for k, l in d.emits:
            ids = set(re.findall(r"\bop(\d+)\b", l))
            if len(ids) == 1:
                got.setdefault(k, set()).add(int(ids.pop()))
    for i, o in enumerate(e.ops):
        if len(o) < 3 or o[0] == "loop" or o[2].endswith(".size()") or e.value(i) is not None:
            continue
        names = set(fieldname(o[2]))
        for n in names:
            rep.count("fields compared")
            if n in got and i not in got[n]:
                rep.bad("field by field", e.fn["q"], w, "%s: %s is written as field %d and read from field %s" % (
                    label, n, i, sorted(got[n])), e.steps, "%s|%s" % (label, n))
            elif n not in got and any(same(e, d) for d in ok):
                rep.bad("field by field", e.fn["q"], w, "%s: %s is written as field %d and read into nothing of that name" % (
                    label, n, i), e.steps, "%s|%s|lost" % (label, n))


# -- bits of a packed field

def parse_expr(s):
    """fully bracketed expressions, as the engine writes them"""
    pos = 0

    def atom():
        nonlocal pos
        if s[pos] == "(":
            pos += 1
            a = atom()
            m = re.compile(r"<<|>>|[&|+*/%-]").match(s, pos)
            if not m:
                raise ValueError(s)
            pos = m.end()
            b = atom()
            if pos >= len(s) or s[pos] != ")":
                raise ValueError(s)
            pos += 1
            return (m.group(0), a, b)
        m = re.compile(r"[\w.]+").match(s, pos)
        if not m:
            raise ValueError(s)
        pos = m.end()
        return m.group(0)
    e = atom()
    if pos != len(s):
        raise ValueError(s)
    return e


def bits(e, env, n=32):
    """which bit of which field each bit is; None when it is neither"""
    if isinstance(e, str):
        if e.isdigit():
            v = int(e)
            return [(v >> i) & 1 for i in range(n)]
        if e in env:
            return list(env[e])[:n] + [0] * max(0, n - len(env[e]))
        return [(e, i) for i in range(n)]
    op, a, b = e
    if op in ("<<", ">>"):
        if not (isinstance(b, str) and b.isdigit()):
            raise ValueError(op)
        x, k = bits(a, env, n), int(b)
        return ([0] * k + x)[:n] if op == "<<" else (x[k:] + [0] * k)[:n]
    x, y = bits(a, env, n), bits(b, env, n)
    out = []
    for p, q in zip(x, y):
        if op == "&":
            out.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None)
        elif op in ("|", "+"):
            out.append(p if q == 0 else q if p == 0 else None)
        else:
            raise ValueError(op)
    return out


NEED = {"ye": 14, "mo": 4, "da": 5, "ho": 5, "mi": 6, "se": 6}


def timebits(rep, e, ds, record):
    """the packed date and time comes back bit by bit"""
    env = {}
    try:
        for i, o in enumerate(e.ops):
            w = int(o[1]) * 8
            env["op%d" % i] = bits(parse_expr(o[2]), {}, w)
    except (ValueError, TypeError, IndexError):
        rep.bad("bits of a time", e.fn["q"], where(e.fn), "the fields of a packed time can't be told: %s" % (
            [o[2] for o in e.ops],), e.steps, "enc")
        return
    record.setdefault("bits", set()).add(" ".join(
        "%s%d" % (b[0].replace("this.", ""), b[1]) if isinstance(b, tuple) else str(b) for i in range(len(e.ops)) for b in env["op%d" % i]))
    for d in ds:
        seen = set()
        for k, l in sorted(d.emits):
            if k not in NEED:
                continue
            seen.add(k)
            rep.count("bit fields")
            try:
                r = bits(parse_expr(l), env)
            except ValueError:
                r = None
            want = NEED[k]
            if r is None or any(r[i] != ("this." + k, i) for i in range(want)) or any(
                    x not in (0, ("this." + k, i)) for i, x in enumerate(r)):
                rep.bad("bits of a time", d.fn["q"], where(d.fn), "%s is not read back from the bits it is written to" % k,
                        d.steps, k)
        for k in sorted(set(NEED) - seen):
            rep.bad("bits of a time", d.fn["q"], where(d.fn), "%s is not read back" % k, d.steps, k)


# -- names of styles

def styles(rep, ex, db):
    """the name of a style is read back as that style"""
    for c in sorted(db.records):
        if not c.startswith("arki::types::"):
            continue
        ms = dict()
        for n, fn in ex.methods(c):
            if n in ("formatStyle", "parseStyle"):
                ms[n] = fn
        if len(ms) < 2:
            continue
        rep.count("style names", 0)
        fo, po = ex.run(ms["formatStyle"])[0], ex.run(ms["parseStyle"])[0]
        read = {}
        for st, v, l in po.ret:
            for (x, r, k), t in st.facts.items():
                if t and r == "==" and v[0] == "c":
                    read[str(k)] = v[1]
        for st, v, l in fo.ret:
            for (x, r, k), t in st.facts.items():
                if t and r == "==" and v[0] == "c":
                    rep.count("style names")
                    if str(v[1]) in read and read[str(v[1])] == k:
                        continue
                    if str(v[1]) not in read and not any(e.value(0) == str(k) for e in ex.enc.get(c, ())) and c != "arki::types::Source":
                        continue        # a style nothing writes any more
                    rep.bad("style names", ms["formatStyle"]["q"], where(ms["formatStyle"], l), "style %s is named %s, which is read as %s" % (
                        k, v[1], read.get(str(v[1]), "nothing")), st.steps(), "%s|%s" % (c, k))


# -- headers of what is written to files and streams

HEAD_WRITERS = ["arki::Metadata::encodeBinary", "arki::Summary::encode", "arki::metadata::compressAndWrite"]
HEAD_READERS = ["arki::core::BinaryDecoder::pop_metadata_bundle", "arki::types::Bundle::read_header",
                "arki::metadata::Stream::checkMetadata"]
BODIES = {"SU": ["arki::summary::decode"], "MG": ["arki::metadata::reader::BaseBinaryReader::read_group"],
          "MD": ["arki::Metadata::read_binary_inner"]}


def flat(ops):
    out = []
    for o in ops:
        if o[0] == "raw" and re.match(r"^=\d+$", str(o[1])):
            out += [("u", 1)] * int(o[1][1:])
        else:
            out.append((o[0], int(o[1]) if o[0] in ("u", "s") and str(o[1]).isdigit() else o[1]))
    return tuple(out)


def headers(rep, ex, db):
    def named(q):
        return [f for f in db.functions.values() if f.get("body") and (f["q"] == q or "arki::" + norm(f["q"]) == q)]
    want = (("u", 1), ("u", 1), ("u", 2), ("u", 4))
    for q in HEAD_READERS:
        fs = named(q)
        rep.anchor(fs, q)
        for fn in fs:
            n = 0
            for st, v, l in ex.run(fn, decs=(("this", 0),) if "BinaryDecoder::" in q else None)[0].ret:
                if len(st.auto.dops) >= 3:
                    n += 1
                    rep.count("headers read")
                    if flat(st.auto.dops)[:4] != want:
                        rep.bad("headers", fn["q"], where(fn), "the header of a bundle is read as [%s]" % show(st.auto.dops),
                                st.steps(), "read")
            rep.anchor(n, "the header read by " + q)
    bodies = {}
    for sig, qs in BODIES.items():
        for q in qs:
            fs = named(q)
            rep.anchor(fs, q)
            for fn in fs:
                if sig == "MD":
                    continue
                for st, v, l in ex.run(fn)[0].ret:
                    ops = [o for o in st.auto.dops if o[0] != "loop"]
                    bodies.setdefault(sig, []).append(Dec(fn, q, tuple(ops), st.auto.emits, st.facts, st.steps()))
    for q in HEAD_WRITERS:
        fs = named(q)
        rep.anchor(fs, q)
        for fn in fs:
            for st, v, l in ex.run(fn)[0].ret:
                for b, ops in st.auto.bufs:
                    if not ops or ops[0][0] != "raw" or not re.match(r"^=\w\w$", ops[0][2]):
                        continue
                    rep.count("headers written")
                    sig = ops[0][2][1:]
                    w = where(fn)
                    if kinds(ops[1:3]) != (("u", "2"), ("u", "4")) and kinds(ops[1:3]) != (("u", 2), ("u", 4)):
                        rep.bad("headers", fn["q"], w, "the header of a bundle is written as [%s]" % show(ops), st.steps(), sig)
                        continue
                    rest = [o for o in ops[3:] if o[0] in ("u", "s")]
                    fixed = sum(int(o[1]) for o in rest)
                    body = [o for o in ops[3:] if o[0] == "raw"]
                    m = re.match(r"^(?:\((\d+)\+(.*)\.size\(\)\)|(.*)\.size\(\))$", ops[2][2])
                    ok = m and int(m.group(1) or 0) == fixed and (
                        not body or re.sub(r"'\d+", "", body[-1][2]) == re.sub(r"'\d+", "", m.group(2) or m.group(3)))
                    if not ok:
                        rep.bad("headers", fn["q"], w, "%s: the length written, %s, is not that of what follows: [%s]" % (
                            sig, ops[2][2], show(ops[3:])), st.steps(), sig + "|length")
                    e = Enc(fn, sig, tuple(ops[3:]), st.facts, st.steps())
                    version = Enc(fn, sig, tuple(ops), st.facts, None).value(1)
                    ds = []
                    for d in bodies.get(sig, ()):
                        if any(re.search(r"version(#[\d.]+)?$", x) and r == "==" and (str(c) == version) != t
                               for (x, r, c), t in d.facts.items()):
                            continue
                        if d.accepts(e) and d.ops:
                            ds.append(d)
                    if sig in bodies:
                        rep.count("bodies compared")
                        if not ds:
                            rep.bad("headers", fn["q"], w, "nothing reads version %s of %s bundles" % (version, sig), st.steps(), sig + "|version")
                        for d in ds:
                            if kinds(o for o in e.ops if o[0] not in ("raw", "loop")) != d.ops:
                                rep.bad("headers", fn["q"], w, "version %s of %s bundles is written as [%s] and read by %s as [%s]" % (
                                    version, sig, show(e.ops), d.fn["q"], show(d.ops)), st.steps(), sig + "|body")
    # the rows of a summary
    row = set()
    for fn in named("arki::summary::Format3Decoder::decode"):
        for st, v, l in ex.run(fn)[0].ret:
            for o in st.auto.dops:
                if o[0] == "loop":
                    row.add(o[1])
    for fn in named("arki::summary::EncodingVisitor::operator()"):
        for st, v, l in ex.run(fn)[0].ret:
            ops = max((ops for b, ops in st.auto.bufs), key=len, default=())
            if not ops:
                continue
            rep.count("rows written")
            e = Enc(fn, "row", ops, st.facts, st.steps())
            k = tuple(x for x in kinds(ops) if x != ("raw", "rest"))
            if row and k not in row:
                rep.bad("written and read", fn["q"], where(fn), "a row of a summary is written as [%s] and read as %s" % (
                    show(ops), " or ".join(sorted("[%s]" % show(r) for r in row))), st.steps(), "row|" + show(ops))
    rep.need("rows written", 4)
    rep.anchor(row, "the rows of a summary that are read")
    rep.need("headers read", 4)
    rep.need("headers written", 4)
    rep.need("bodies compared", 3)


# -- the text form

def textorder(rep, label, e, ds):
    """the n-th number of the text form is the one printed n-th"""
    at = {}
    for i, o in enumerate(e.ops):
        if len(o) < 3 or o[2].endswith(".size()"):
            continue
        m = re.findall(r"(?:vals\[|operator\[\]\()(\d+)[\])]", o[2])
        if len(m) == 1:
            at[int(m[0])] = i
    if len(at) < 2:
        return
    for d in ds:
        if not d.accepts(e) or not same(e, d):
            continue
        outs = [int(l[2:]) for k, l in sorted(((int(k[4:]), l) for k, l in d.emits if k.startswith("!out")))]
        if not outs:
            continue
        for n, i in sorted(at.items()):
            rep.count("text fields")
            if n < len(outs) and outs[n] != i:
                rep.bad("text form", e.fn["q"], where(e.fn), "%s: item %d of the text form is read into field %d, and %s prints field %d there" % (
                    label, n + 1, i, d.fn["q"], outs[n]), e.steps, "%s|%d" % (label, n))
                break


# -- layouts of data already stored

RECORD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "layouts.json")


def style_of(d):
    for k, l in d.emits:
        m = re.match(r"^style:=(\d+)$", l)
        if m:
            return m.group(1)
    for (x, r, c), t in d.facts.items():
        if t and r == "==" and x in ("this.data[0]",) or (x == "op0" and t and d.ops and d.ops[0] == ("u", 1)):
            return str(c)
    return "-"


def recorded(ex, paired, db):
    """what is written and what can be read, as plain data"""
    enc, dec = {}, {}
    for fam, es in ex.enc.items():
        for e in es:
            styled = e.ops and e.ops[0][:2] in (("u", 1), ("u", "1")) and len(e.ops[0]) > 2 and e.ops[0][2].startswith("=")
            k = "%s/%s" % (short(fam), e.value(0) if styled else "-")
            enc.setdefault(k, set()).add(show(e.ops))
            for d in ex.dec.get(e.cls, ()):
                if not d.accepts(e) or not same(e, d):
                    continue
                x = dec.setdefault(k, {}).setdefault(show(d.ops), {})
                for key, l in d.emits:
                    ids = set(re.findall(r"\bop(\d+)\b", l))
                    if len(ids) == 1:
                        x.setdefault(key, set()).add(int(ids.pop()))
    for label, es, ds in paired:
        for e in es:
            enc.setdefault(label, set()).add(show(e.ops))
            for d in ds:
                if d.accepts(e):
                    dec.setdefault(label, {}).setdefault(show(d.ops), {})
    codes = {x["n"].rsplit("::", 1)[-1]: int(x["v"]) for x in (db.enums.get("arki::TypeCode") or {}).get("c", ())
             if not x["n"].endswith("TYPE_MAXCODE")}
    return {"written": {k: sorted(v) for k, v in sorted(enc.items())},
            "read": {k: {l: {f: sorted(i) for f, i in sorted(x.items())} for l, x in sorted(v.items())} for k, v in sorted(dec.items())},
            "codes": codes}


def stable(rep, ex, paired, db):
    now = recorded(ex, paired, db)
    if os.environ.get("RECORD_LAYOUTS"):
        with open(RECORD, "w") as out:
            json.dump(now, out, indent=1, sort_keys=True)
            out.write("\n")
    with open(RECORD) as src:
        old = json.load(src)
    fam = {short(f): e for f, es in ex.enc.items() for e in es}
    for k, ls in old["written"].items():
        rep.count("layouts recorded", len(ls))
    for k, ls in now["written"].items():
        e = fam.get(k.split("/")[0])
        for l in ls:
            if l not in old["written"].get(k, ()):
                rep.bad("layout of stored data", e.fn["q"] if e else k, where(e.fn) if e else "arki", "%s is written as [%s]; in what is "
                        "stored it is %s" % (k, l, " or ".join("[%s]" % x for x in old["written"].get(k, ())) or "never written"),
                        e.steps if e else [], k + "|" + l)
    for k, ls in old["read"].items():
        e = fam.get(k.split("/")[0])
        w = where(e.fn) if e else "arki"
        for l, keys in ls.items():
            got = now["read"].get(k, {}).get(l)
            if got is None:
                rep.bad("layout of stored data", k, w, "%s stored as [%s] is no longer read that way" % (k, l), [], k + "|" + l)
                continue
            for key, ids in keys.items():
                rep.count("fields recorded")
                if sorted(got.get(key, [])) != ids:
                    rep.bad("layout of stored data", k, w, "%s: %s is field %s of what is stored, and field %s is read" % (
                        k, key, ids, sorted(got.get(key, []))), [], "%s|%s|%s" % (k, l, key))
    for n, v in old["codes"].items():
        rep.count("type codes")
        if now["codes"].get(n) != v:
            rep.bad("layout of stored data", "arki::TypeCode", "arki/defs.h", "items stored with code %d are %s; %s now has code %s" % (
                v, n, n, now["codes"].get(n)), [], n)


def lost(rep, label, e):
    """what is given and isn't the default is stored, unless a field that says
    that there is none (255, or a length of 0) stands for it"""
    if not tail(e.fn["q"]).startswith("create"):
        return
    text = str(e.ops)
    names = {x.split("#")[0] for x in re.findall(r"[\w]+#[\d.]+", text)}
    params = {p["n"] for p in e.fn["params"]}
    for (sym, rel, c), truth in e.facts.items():
        n = re.sub(r"#.*", "", sym)
        if rel != "==" or truth or n not in params or sym != n + sym[len(n):] or not re.match(r"^\w+#[\d.]+$", sym):
            continue
        rep.count("values that aren't the default")
        if n in names or any(r == "==" and t and k in (0, 255) and s.split("#")[0] != n for (s, r, k), t in e.facts.items()):
            continue
        rep.bad("written and read", e.fn["q"], where(e.fn), "%s: %s is given, it is not %s, and it is not written: [%s]" % (
            label, n, c, show(e.ops)), e.steps, "%s|%s" % (e.cls, n))


def check(db, rep, what="P18"):
    rep.rule("every layout an encoder writes is read, field by field in the same order and width, by every decoder path "
             "that takes it; a field is read back under the name it was stored under")
    ex = Extract(db, rep)
    for fn, m in ex.bad:
        rep.bad("layout", fn["q"], where(fn), m, [], m)
    for fam, es in sorted(ex.enc.items()):
        for e in es:
            ds = ex.dec.get(e.cls, [])
            if method_name(e.fn) == "decodeString":
                textorder(rep, short(e.cls), e, ex.text.get(e.cls, ()))
            agree(rep, short(e.cls), e, ds, method_name(e.fn) == "decode_structure")
            lost(rep, short(e.cls), e)
            # the class made for the style is the one it was written for
            for d, made in ex.disp.get(fam, ()):
                if made is None or not d.accepts(e):
                    continue
                rep.count("styles dispatched")
                if made != e.cls:
                    rep.bad("style", d.fn["q"], where(d.fn), "what %s writes is decoded as %s" % (short(e.cls), short(made)),
                            d.steps, "%s|%s" % (e.cls, made))
                for k, l in d.emits:
                    if k.startswith("!size") and int(l[1:]) > minbytes(e.ops):
                        rep.bad("size", d.fn["q"], where(d.fn), "at least %s bytes are asked for and %s writes [%s], which "
                                "can be %d" % (l[1:], short(e.cls), show(e.ops), minbytes(e.ops)), d.steps,
                                "%s|%s" % (e.cls, show(e.ops)))
            if not any(d.accepts(e) for d, made in ex.disp.get(fam, ())):
                rep.bad("style", e.fn["q"], where(e.fn), "no decoder of %s takes what is written: [%s]" % (
                    short(fam), show(e.ops)), e.steps, e.cls)
    paired = list(pairs(ex, db))
    stable(rep, ex, paired, db)
    for label, es, ds in paired:
        rep.anchor(es and ds, "encoder and decoder of " + label)
        for e in es:
            agree(rep, label, e, ds, label != "Time")
            if label == "Time":
                timebits(rep, e, ds, {})
    styles(rep, ex, db)
    headers(rep, ex, db)
    rep.need("layouts written", 200)
    rep.need("values that aren't the default", 4)
    rep.need("layouts compared", 200)
    rep.need("fields compared", 80)
    rep.need("styles dispatched", 60)
    rep.need("style names", 15)
    rep.need("bit fields", 6)
    rep.need("text fields", 12)
