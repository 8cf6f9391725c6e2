"""What is written in a row of an index is what is read back from it: the texts
of the statements are evaluated on every path, and each bound or fetched value
is followed to the column it belongs to."""
import re
from rulebase import *
from failures import norm

QUERY = re.compile(r"arki::utils::sqlite::\w*Query$")
STR = re.compile(r"^(const )?std::(__cxx11::)?(basic_string|string)\b")


def plain(v):
    return re.sub(r"'[0-9.]+", "", v[1]) if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str) else repr(v)


def text_of(v):
    """text of a string value, with what is not known in braces"""
    if v[0] == "c" and isinstance(v[1], str):
        return v[1]
    if v[0] == "s":
        s = v[1]
        return s[4:] if s.startswith("SQL:") else "{%s}" % re.sub(r"[#@'][0-9.:#]+", "", s)
    return "{?}"


def collapse(s):
    """what a loop appends is not repeated for ever"""
    return re.sub(r"(.{3,80}?)\1{8,}$", lambda m: m.group(1) * 8, s)


def value(text):
    return ("s", "SQL:" + text) if "{" in text else ("c", text)


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


def select_columns(sql):
    m = re.match(r"\s*SELECT\s+(.*?)\s+FROM\s", sql, re.I | re.S)
    return [re.sub(r"^m\.", "", c) for c in split(m.group(1))] if m else None


def placeholders(sql):
    """what each ? of a statement stands for"""
    m = re.match(r"\s*INSERT (OR \w+ )?INTO\s+(\S+)\s*\((.*?)\)\s*VALUES\s*\((.*)\)\s*$", sql, re.I | re.S)
    if m:
        cols, vals = split(m.group(3)), split(m.group(4))
        if len(cols) != len(vals):
            return None
        return [c for c, v in zip(cols, vals) if v == "?"]
    out = []
    for m in re.finditer(r"([\w.{}>()-]+)\s*(=|>=|<=|<|>|-|\+)\s*\?|\?", sql):
        op = m.group(2)
        out.append((m.group(1) or "?") + ("" if op in ("=", None) else op))
    return out


class Sql(Client):
    """automaton: frozenset of tuples; ("sql", query, text), ("bind", query,
    index, value), ("ran", text), ("used", column) ..."""

    def __init__(self, db, rep, fn):
        self.db, self.rep, self.fn = db, rep, fn
        self.seen = []

    fold_inc = 20

    def inline_virtual(self, fl, st, ev, cands):
        return False

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] or None

    def may_throw(self, fl, st, ev):
        return False

    def put(self, st, add=(), rem=(), note=None):
        return st.with_auto(frozenset((st.auto - set(rem)) | set(add)), note)

    def bad(self, kind, line, msg, st):
        self.rep.bad(kind, norm(self.fn["q"]), "%s:%s" % (self.fn["rel"], line), msg, st.steps())

    # -- strings
    def concat(self, fl, st, op, parts):
        if op in ("+", "operator+=", "append", "push_back") and len(parts) == 2:
            parts = [("c", chr(v[1])) if v[0] == "c" and isinstance(v[1], int) else v for v in parts]
            return value(collapse("".join(text_of(v) for v in parts)))
        if op == "clear":
            return ("c", "")
        return None

    def strings(self, fl, st, ev):
        if ev.name == "join" and len(ev.args) >= 2 and ev.args[0][0] == "c":
            return [(st, ("s", "SQL:{join %s %s}" % (ev.args[0][1], re.sub(r"\.(begin|end)\(\)", "", text_of(ev.args[1]).strip("{}")))))]
        if ev.name == "empty" and ev.obj and (ev.obj[0] == "c" and isinstance(ev.obj[1], str) or ev.obj[1].startswith("SQL:")):
            return [(st, ("c", int(ev.obj == ("c", ""))))]
        if ev.kind == "ctor" and STR.match(ev.cls or "") and not ev.args:
            return [(st, ("c", ""))]
        return None

    def call(self, fl, st, ev):
        r = self.strings(fl, st, ev)
        if r is not None:
            return r
        if QUERY.match(ev.cls or "") and ev.kind == "call":
            return self.query(fl, st, ev, plain(ev.obj))
        return self.other(fl, st, ev)

    def other(self, fl, st, ev):
        return None

    def sql(self, st, q):
        for x in st.auto:
            if x[0] == "sql" and x[1] == q:
                return x[2]
        return None

    def query(self, fl, st, ev, q):
        ln = "line %d: " % ev.line
        if ev.name == "compiled":
            return [(st, ("c", int(self.sql(st, q) is not None)))]
        if ev.name == "compile":
            t = text_of(ev.args[0])
            self.seen.append(t)
            st = self.put(st, [("sql", q, t)], [x for x in st.auto if x[0] in ("sql", "bind") and x[1] == q], ln + t[:150])
            return [(st, ("void",))]
        if ev.name == "reset":
            return [(self.put(st, (), [x for x in st.auto if x[0] == "bind" and x[1] == q]), ("void",))]
        if ev.name in ("bind", "bindNull", "bindTransient", "bindBlob", "bindBlobTransient", "bindType"):
            i = ev.args[0]
            i = i[1] if i[0] == "c" else "?"
            if any(x[0] == "bind" and x[1] == q and x[2] == i and i != "?" for x in st.auto):
                self.bad("bind", ev.line, "value %s is bound twice" % i, st)
            v = "null" if ev.name == "bindNull" else plain(ev.args[1])
            return [(self.put(st, [("bind", q, i, v)], (), ln + "value %s is %s" % (i, re.sub(r"[#@'][0-9.:#]+", "", v))), ("void",))]
        if ev.name in ("run", "bind_all"):
            st = self.put(st, [("bind", q, i + 1, plain(v)) for i, v in enumerate(ev.args)])
            if ev.name == "bind_all":
                return [(st, ("void",))]
            return self.stepped(fl, st, ev, q)
        if ev.name == "step":
            return self.stepped(fl, st, ev, q)
        if ev.name in ("fetch", "fetchString", "fetchBlob", "fetchBytes", "isNULL"):
            return self.fetch(fl, st, ev, q)
        return None

    def stepped(self, fl, st, ev, q):
        t = self.sql(st, q)
        if t is None:
            return None
        ph = placeholders(t)
        binds = {x[2]: x[3] for x in st.auto if x[0] == "bind" and x[1] == q}
        if ph is None:
            self.bad("bind", ev.line, "columns and values of the statement differ in number: %s" % t, st)
        elif "?" not in binds and "{join" not in t:
            if sorted(binds) != list(range(1, len(ph) + 1)):
                self.bad("bind", ev.line, "%d values are bound of the %d of the statement" % (len(binds), len(ph)), st)
            else:
                for i, c in enumerate(ph):
                    self.bound(st, ev, t, c, binds[i + 1])
        if re.match(r"\s*SELECT", t, re.I):
            more = self.put(st, [("row", q)] + [("found", q)] * self.remember, [x for x in st.auto if x[0] in ("used", "null")])
            return [(more, ("c", 1)), (self.put(st, [("asked", t)], [("row", q)]), ("c", 0))]
        return [(self.put(st, [("ran", t)]), ("c", 0))]

    def bound(self, st, ev, sql, column, val):
        pass

    def fetch(self, fl, st, ev, q):
        t = self.sql(st, q)
        if t is None:
            return None
        cols = select_columns(t)
        i = ev.args[0]
        if not cols or i[0] != "c" or "{" in (t.split(" FROM ")[0]) and not self.loose:
            return [(st, ("s", "COL:?"))]
        if i[1] >= len(cols):
            self.bad("fetch", ev.line, "column %d is read, and the query gives %d" % (i[1], len(cols)), st)
            return [(st, ("s", "COL:?"))]
        c = cols[i[1]]
        if ev.name == "isNULL":
            return [(st, ("c", 0)), (self.put(st, [("null", c)], (), "line %d: %s is not set" % (ev.line, c)), ("c", 1))]
        return [(st, ("s", "COL:" + c))]

    loose = False
    remember = False        # that a row was found


# -- rows of elements --------------------------------------------------------
def col(v):
    m = re.search(r"COL:([^'\"]+?)(@|'|$)", plain(v)) if isinstance(v, tuple) else None
    return m.group(1) if m else None


class Reader(Sql):
    wide = 40
    fold_inc = 20
    """each row that is read becomes an element with the values of the row"""
    rows = 0

    def used(self, st, ev, what, val, want):
        c = col(val)
        if c is None:
            return st
        if not (re.match(want, c)):
            self.bad("column", ev.line, "%s is read from column %s" % (what, c), st)
        return self.put(st, [("used", c)])

    def other(self, fl, st, ev):
        if ev.name in ("createBlobUnlocked", "create_unlocked") and len(ev.args) >= 5:
            st = self.used(st, ev, "the offset", ev.args[3], "offset$")
            return [(self.used(st, ev, "the size", ev.args[4], "size$"), ("s", "BLOB"))]
        if ev.name == "set_notes_encoded":
            return [(self.used(st, ev, "the list of notes", ev.args[0], "notes$"), ("void",))]
        if ev.name == "createPosition" and ev.args:
            return [(self.used(st, ev, "the reference time", ev.args[0], "reftime$"), ("s", "RT"))]
        if ev.name in ("create_sql", "set_sql") and ev.args:
            if ev.name == "create_sql":
                return [(st, ev.args[-1])]
            o = plain(ev.obj)
            c = col(ev.args[0])
            if c and o.endswith((".begin", ".end")):
                want = "MIN" if o.endswith(".begin") else "MAX"
                if not c.startswith(want):
                    self.bad("column", ev.line, "the %s of an interval is read from %s" % (o.rsplit(".", 1)[-1], c), st)
                st = self.put(st, [("used", c)])
            return [(st, ("void",))]
        if ev.name == "read" and "Aggregate" in (ev.cls or ""):
            want = "uniq$" if plain(ev.obj).endswith("m_uniques") else "other$" if plain(ev.obj).endswith("m_others") else ".*"
            return [(self.used(st, ev, "what %s gives" % plain(ev.obj).split(".")[-1], ev.args[0], want), ("void",))]
        if ev.name == "create" and "Value" in (ev.cls or "") + ev.f:
            return [(self.used(st, ev, "the data", ev.args[0], "data$"), ("s", "VALUE"))]
        if ev.name == "add_joins_and_constraints":
            return None
        return None

    def assign(self, fl, st, loc, val, node):
        m = re.search(r"\.(count|size|begin|end)$", loc)
        c = col(val) if val[0] == "s" else None
        if m and c:
            want = {"count": "COUNT", "size": r"SUM\(size\)", "begin": r"MIN\(reftime\)", "end": r"MAX\(reftime\)"}[m.group(1)]
            if not re.match(want, c):
                self.bad("column", node.get("l"), "the %s of a summary is read from %s" % (m.group(1), c), st)
            st = self.put(st, [("used", c)])
        return st

    def row_ends(self, st, line):
        qs = [x[1] for x in st.auto if x[0] == "row"]
        for q in qs:
            t = self.sql(st, q)
            cols = select_columns(t) or []
            self.rows += 1
            got = {x[1] for x in st.auto if x[0] in ("used", "null")}
            for c in cols:
                if c not in got:
                    self.bad("unused", line, "column %s of a row is not given back" % c, st)

    all_loops = True

    def iter_end(self, fl, st, what, node, how, val=None):
        if any(x[0] == "row" for x in st.auto) and how in ("end", "return"):
            self.row_ends(st, node.get("l"))
            return self.put(st, (), [x for x in st.auto if x[0] in ("row", "used", "null")])
        return st


PARTS = (("uniq", "m_uniques"), ("other", "m_others"), ("data", "smallfiles"))


def has(st, what):
    """is an optional part there on this path? None if not tested"""
    for (x, o, c), t in st.facts.items():
        if isinstance(x, str) and re.sub(r"\(\)|@[0-9:]+|'[0-9.]+", "", x).endswith(what) and o == "==" and c in (0, 1):
            return (not t) if c == 0 else t
    for x in st.auto:
        if x[0] == "part" and x[1] == what:
            return x[2]
    return None


class Element(Reader):
    """the optional columns are asked for exactly when they are there"""

    def query(self, fl, st, ev, q):
        if ev.name == "compile":
            t = text_of(ev.args[0])
            cols = select_columns(t)
            if cols and " FROM md" in t and ("offset" in cols or any(c.startswith("COUNT") for c in cols)):
                for c, what in PARTS:
                    h = has(st, what)
                    if h is True and c not in cols and not (c == "data" and "offset" not in cols):
                        self.bad("column", ev.line, "%s is not read although the index has it" % c, st)
                    if h is None and c in cols or h is False and c in cols:
                        self.bad("column", ev.line, "%s is read without knowing that the index has it" % c, st)
                self.selects = getattr(self, "selects", 0) + 1
                if "offset" in cols and not re.search(r" ORDER BY (m\.)?(reftime|\{[\w.]+\})", t):
                    self.bad("order", ev.line, "elements are not asked for in the order of their times", st)
                m = re.search(r" GROUP BY (.*?)( ORDER BY|$)", t)
                group = sorted(split(m.group(1))) if m else []
                keys = sorted(c for c in cols if c in ("uniq", "other"))
                if cols[0].startswith("COUNT") and group != keys:
                    self.bad("group", ev.line, "rows are counted together by %s, not by %s" % (", ".join(group) or "nothing", ", ".join(keys) or "nothing"), st)
        return Reader.query(self, fl, st, ev, q)


INDEX = re.compile(r"arki::segment::iseg::W?Index(<|$)")


class Insert(Sql):
    """values bound to the columns of an element"""
    remember = True
    wide = 40

    def __init__(self, db, rep, fn):
        Sql.__init__(self, db, rep, fn)
        self.binds = 0

    def want_inline(self, fl, st, ev, fn):
        return fn["rel"] == self.fn["rel"] or method_name(fn) in ("has_uniques", "has_others", "uniques", "others", "session") and fn["rel"].startswith("arki/segment/iseg") or None

    def other(self, fl, st, ev):
        if ev.name == "obtain":
            o = plain(ev.obj)
            fl.throw(st, "any", ev.line)
            v = "ID:" + ("uniq" if o.endswith("m_uniques") else "other" if o.endswith("m_others") else o)
            return [(st.with_fact((v, "==", -1), False), ("s", v))]
        if ev.name == "snprintf" and ev.args and ev.args[0][0] == "s":
            return [(self.put(st, [("time", ev.args[0][1])]).with_fact(("LEN", "==", 0), False), ("s", "LEN"))]
        if ev.name == "data_size":
            return [(st, ("s", "SIZE"))]
        if ev.name == "encode_notes":
            return [(self.put(st, [("notes",)]), ("void",))]
        if ev.name == "get" and "Value" in (ev.node.get("t") or "") + (ev.t or ""):
            return [(st.with_fact(("VALUE", "==", 0), False), ("s", "VALUE")), (self.put(st, [("novalue",)]), ("c", 0))]
        if ev.name == "get" and "reftime" in (ev.node.get("t") or "").lower() + (ev.t or "").lower():
            return [(st.with_fact(("REFTIME", "==", 0), False), ("s", "REFTIME")), (self.put(st, [("notime",)]), ("c", 0))]
        return None

    def query(self, fl, st, ev, q):
        # prepared before this call
        if ev.name == "compiled":
            return [(st, ("c", int(self.sql(st, q) is not None)))]
        return Sql.query(self, fl, st, ev, q)

    def bound(self, st, ev, sql, column, val):
        self.binds += 1
        v = re.sub(r"[#@'][0-9.:#]+", "", val)
        a = st.auto
        c = column.split(".")[-1]
        if c == "offset":
            ok = v in [p["n"] for p in self.fn["params"]] or "offset" in v
        elif c == "size":
            ok = v == "SIZE"
        elif c == "notes":
            ok = "buf" in v or ("notes",) in a and v not in ("SIZE", "null") and not v.startswith("ID:")
        elif c == "reftime":
            ok = v == "null" if ("notime",) in a else "time" in v and v != "null" and not v.startswith("ID:")
        elif c in ("uniq", "other"):
            ok = v == "ID:" + c
        elif c == "data":
            ok = v == "null" if ("novalue",) in a else v.startswith("VALUE")
        else:
            ok = True
        if not ok:
            self.bad("column", ev.line, "column %s is given the value of %s" % (c, {"SIZE": "the size", "null": "nothing"}.get(v, v)), st)

    def columns(self, st, t, line):
        """every part that the index has is among the columns"""
        m = re.match(r"\s*INSERT (OR \w+ )?INTO\s+md\s*\((.*?)\)", t, re.I)
        if not m:
            return
        cols = split(m.group(2))
        for c in ("offset", "size", "notes", "reftime"):
            if c not in cols:
                self.bad("column", line, "column %s is not written" % c, st)
        for c, what in PARTS:
            h = has(st, what)
            if h is True and c not in cols or h is not True and c in cols:
                self.bad("column", line, "column %s is %s" % (c, "not written although the index has it" if h else "written although the index does not have it"), st)


def statements(db, rep):
    names = {"index": 0, "replace": 0, "remove": 0}
    for fn in db.functions.values():
        if not fn.get("body") or not re.match(r"arki::segment::iseg::WIndex(<|$)", cls_of(fn) or "") or method_name(fn) not in names:
            continue
        name = method_name(fn)
        cl = Insert(db, rep, fn)
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.funcs.add(fn["q"])
        for u in fl.unsupported:
            rep.errors.append(u)
        names[name] += 1
        rep.count("values bound", cl.binds)
        if not cl.binds:
            rep.errors.append("%s: no statement understood" % fn["q"])
        for st, v, line in out.ret:
            ran = [x[1] for x in st.auto if x[0] == "ran"]
            for t in ran:
                cl.columns(st, t, line)
            if name == "replace" and not any(re.match(r"\s*INSERT OR REPLACE INTO md\b", t, re.I) for t in ran):
                cl.bad("replace", line, "the row is not replaced: %s" % "; ".join(ran), st)
            if name == "remove" and not any(re.match(r"\s*DELETE FROM md WHERE offset\s*=\s*\?", t, re.I) for t in ran):
                cl.bad("remove", line, "the row at the offset is not removed: %s" % "; ".join(ran), st)
            if name == "index":
                asked = [x[1] for x in st.auto if x[0] == "asked" or x[0] == "sql" and x[2].startswith("SELECT")]
                asked = [x[2] for x in st.auto if x[0] == "sql" and re.match(r"\s*SELECT", x[2], re.I)]
                if any(x[0] == "found" for x in st.auto):
                    if ran:
                        cl.bad("insert", line, "an element is added although it was found", st)
                    if v in (("c", 0), ("void",)):
                        cl.bad("insert", line, "an element that was found is not given back", st)
                for t in ran:
                    if re.search(r"OR (REPLACE|IGNORE)", t, re.I):
                        cl.bad("insert", line, "an element that is there would be overwritten or skipped: %s" % t, st)
                for t in asked:
                    key = sorted(re.sub(r".*\.", "", c) for c in placeholders(t) or [])
                    want = sorted(["reftime"] + (["uniq"] if has(st, "m_uniques") else []))
                    if key != want:
                        cl.bad("lookup", line, "an element is looked for by %s, not by %s" % (", ".join(key), ", ".join(want)), st)
                if not asked:
                    cl.bad("lookup", line, "an element is not looked for", st)
    for n, c in names.items():
        if not c:
            rep.errors.append("anchor vanished: WIndex::%s" % n)
    rep.need("values bound", 20)


class Tables(Sql):
    wide = 40

    def other(self, fl, st, ev):
        if ev.name == "exec" and "sqlite" in (ev.cls or "").lower() and ev.args:
            t = text_of(ev.args[0])
            self.seen.append(t)
            return [(self.put(st, [("ran", t)]), ("void",))]
        return None


def tables(db, rep):
    """the table has the columns that are written, and its key"""
    n = 0
    for fn in db.functions.values():
        if not fn.get("body") or not INDEX.match(cls_of(fn) or "") or not any(
                x.get("k") == "str" and re.match(r"CREATE TABLE (IF NOT EXISTS )?md\b", str(x.get("v"))) for x in fbody(fn)):
            continue
        cl = Tables(db, rep, fn)
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.funcs.add(fn["q"])
        for st, v, line in out.ret:
            for x in st.auto:
                m = re.match(r"CREATE TABLE (?:IF NOT EXISTS )?md\s*\((.*)\)\s*$", x[1]) if x[0] == "ran" else None
                if not m:
                    continue
                n += 1
                parts = split(m.group(1))
                cols = {p.split()[0]: p for p in parts if not p.upper().startswith("UNIQUE")}
                uniq = [sorted(split(re.search(r"\((.*)\)", p).group(1))) for p in parts if p.upper().startswith("UNIQUE")]
                want = sorted(["reftime"] + (["uniq"] if has(st, "m_uniques") else []))
                if uniq != [want]:
                    cl.bad("key", line, "elements with the same %s are not told from each other" % " and ".join(want) if not uniq else
                           "the key of the table is %s, not %s" % (uniq, want), st)
                for c in ("offset", "size", "notes", "reftime"):
                    if c not in cols:
                        cl.bad("column", line, "the table has no column %s" % c, st)
                for c, what in PARTS:
                    if (c in cols) != (has(st, what) is True):
                        cl.bad("column", line, "the table has %s column %s" % ("a" if c in cols else "no", c), st)
                if "PRIMARY KEY" not in cols.get("offset", ""):
                    cl.bad("key", line, "offset is not the key of the table", st)
    rep.count("tables", n)
    rep.need("tables", 4)


def deletes(db, rep):
    """what is cleared away of the tables of attributes is not in use: the rows
    whose number no element has in the column of that table"""
    n = 0
    for fn in db.functions.values():
        if not fn.get("body") or not INDEX.match(cls_of(fn) or "") or "(lambda" in fn["q"] or not any(
                x.get("k") == "str" and re.match(r"(?i)\s*delete\s+from", str(x.get("v"))) for x in fbody(fn)):
            continue
        cl = Tables(db, rep, fn)
        Flow(db, cl).run(fn, frozenset())
        rep.funcs.add(fn["q"])
        for t in sorted(set(cl.seen)):
            m = re.match(r"(?i)\s*delete\s+from\s+md(\w+)\s*(?:where\s+(.*?))?\s*;?\s*$", t)
            if not m:
                continue
            n += 1
            w = re.match(r"(?i)(?:md%s\.)?id\s+(not\s+)?in\s*\(\s*select\s+(?:distinct\s+)?(?:(?:md|m)\.)?(\w+)\s+from\s+(\w+)\b" % m.group(1), m.group(2) or "")
            if "{" in t or m.group(2) and not w:
                continue        # not understood
            if not w or not w.group(1) or w.group(2).lower() != m.group(1).lower() or w.group(3).lower() != "md":
                rep.bad("delete", norm(fn["q"]), where(fn, fn.get("l")), "rows of md%s that elements refer to are deleted: %s" % (m.group(1), t), detail=m.group(1))
    rep.count("statements that delete", n)


def readers(db, rep):
    n = 0
    for fn in db.functions.values():
        if not fn.get("body") or not INDEX.match(cls_of(fn) or "") or "(lambda" in fn["q"] or method_name(fn).startswith("test_"):
            continue
        if not any(x.get("k") == "str" and re.match(r"\s*SELECT .*(offset|MIN|MAX|COUNT)", str(x.get("v"))) for x in fbody(fn)) or method_name(fn) == "compile_insert":
            continue
        cl = Element(db, rep, fn)
        fl = Flow(db, cl)
        fl.run(fn, frozenset())
        rep.funcs.add(fn["q"])
        for u in fl.unsupported:
            rep.errors.append(u)
        n += 1
        rep.count("rows read", cl.rows)
        rep.count("queries evaluated", len(set(cl.seen)))
        if not cl.rows and not fn.get("acc") == "private" and not any("{" in t for t in cl.seen):
            rep.errors.append("%s: no row understood" % fn["q"])
    rep.need("rows read", 20)
    rep.need("queries evaluated", 30)


# -- attributes ----------------------------------------------------------------
class Attr(Sql):
    """the table of the values of an attribute: what is asked for, and what is
    made of the rows"""
    wide = 40

    def fact(self, fl, st, atom, truth, line):
        # a query that was prepared before is the one that is prepared here
        if isinstance(atom[0], str) and re.search(r"this\.m_(select\w*|insert)('\d+)?$", atom[0]) and atom[1] == "==" and atom[2] == 0 and not truth:
            return None
        return st

    def stepped(self, fl, st, ev, q):
        if self.sql(st, q) is None:
            return []
        return Sql.stepped(self, fl, st, ev, q)

    def other(self, fl, st, ev):
        if ev.name == "get" and ev.cls and ev.cls.endswith("Metadata"):
            return [(st.with_fact(("ITEM", "==", 0), False), ("s", "ITEM")), (self.put(st, [("noitem",)], (), "line %d: the item is not there" % ev.line), ("c", 0))]
        if ev.kind == "ctor" and (ev.cls or "").endswith("BinaryEncoder") and ev.args:
            return [(self.put(st, [("encoder", plain(ev.args[0]))]), ("s", "ENC"))]
        if ev.name == "encode_for_indexing":
            o = plain(ev.obj)
            if ev.obj == ("c", 0):
                return []
            if o != "ITEM" and not o.startswith("item") and "DECODED<" not in o:
                self.bad("item", ev.line, "what is encoded is not the item of this attribute", st)
            return [(self.put(st, [("encoded", x[1]) for x in st.auto if x[0] == "encoder"]), ("void",))]
        if ev.name in ("clone", "cloneType") and ev.obj:
            # no row has the id: the tables do not belong together
            return [(st, ev.obj)] if ev.obj != ("c", 0) else []
        if ev.name == "lastInsertID":
            ran = [x[1] for x in st.auto if x[0] == "ran"]
            if not any(t.startswith("INSERT INTO") for t in ran):
                self.bad("row", ev.line, "the number of the last row is used without a row that was added", st)
            return [(st, ("s", "LAST"))]
        if ev.name in ("throwException", "throw_error"):
            return []
        if ev.name == "find" and ev.args and ev.obj:
            return [(st, ("s", "CACHED<%s>" % plain(ev.args[0])))]
        if ev.name == "decodeInner" or ev.name == "decode":
            if ev.name == "decodeInner" and len(ev.args) > 1 and plain(ev.args[0]) != "this.code":
                self.bad("item", ev.line, "a value is not decoded as one of this attribute", st)
            return [(st, ("s", "DECODED<%s>" % ",".join(plain(a) for a in ev.args)))]
        if ev.name == "match_buffer":
            a = [col(v) for v in ev.args[1:]]
            if a != ["data", "data"]:
                self.bad("column", ev.line, "what is matched is read from %s, not from the data of the row" % a, st)
            m = self.put(st, [("matched",)])
            return [(m, ("c", 1)), (self.put(st, [("rejected",)]), ("c", 0))]
        if ev.name == "push_back" and ev.args and col(ev.args[0]):
            if col(ev.args[0]) != "id":
                self.bad("column", ev.line, "column %s of a row is given for its id" % col(ev.args[0]), st)
            if ("rejected",) in st.auto:
                self.bad("match", ev.line, "a value that does not match is selected", st)
            return [(self.put(st, [("kept",)]), ("void",))]
        if ev.name == "set" and (ev.cls or "").endswith("Metadata") and ev.args:
            return [(self.put(st, [("set", plain(ev.args[0]))]), ("void",))]
        return None

    def want_inline(self, fl, st, ev, fn):
        return method_name(fn) not in ("encode_for_indexing", "decodeInner", "lastInsertID") and fn["rel"].startswith("arki/segment/iseg/") or None

    def bound(self, st, ev, sql, column, val):
        self.n = getattr(self, "n", 0) + 1
        c = column.split(".")[-1]
        if c not in ("data", "id"):
            self.bad("column", ev.line, "a row is asked for by %s" % c, st)
        if c == "data" and ("encoded", val) not in st.auto and not re.match(r"(blob|encoded|buf|data)\b", val) and self.fn["params"] and not val.startswith(self.fn["params"][0]["n"]):
            self.bad("column", ev.line, "the data of a row is not the encoded item", st)
        if c == "id" and not any(val.startswith(p["n"]) for p in self.fn["params"] if p["t"] == "int"):
            self.bad("column", ev.line, "a row is asked for by something that is not its id", st)

    all_loops = True

    def iter_begin(self, fl, st, what, node):
        return self.put(st, (), [x for x in st.auto if x[0] in ("matched", "rejected", "kept")])

    def iter_end(self, fl, st, what, node, how, val=None):
        if ("matched",) in st.auto and ("kept",) not in st.auto:
            self.bad("match", node.get("l"), "a value that matches is not selected", st)
        return self.put(st, (), [x for x in st.auto if x[0] in ("matched", "rejected", "kept")])


def attributes(db, rep):
    n = 0
    for fn in sorted(db.functions.values(), key=lambda f: f["q"]):
        if not fn.get("body") or not re.match(r"arki::segment::iseg::index::AttrSubIndex$", fn.get("cls") or "") or fn["q"].endswith("::~AttrSubIndex"):
            continue
        cl = Attr(db, rep, fn)
        fl = Flow(db, cl)
        out = fl.run(fn, frozenset())
        rep.funcs.add(fn["q"])
        n += getattr(cl, "n", 0)
        for u in fl.unsupported:
            rep.errors.append(u)
        for st, v, line in out.ret:
            if method_name(fn) in ("id", "insert"):
                p = plain(v)
                enc = [x[1] for x in st.auto if x[0] == "encoded"]
                if ("noitem",) in st.auto:
                    ok = v == ("c", -1)
                else:
                    ok = col(v) == "id" or p == "LAST" or p.startswith("CACHED<") and any("CACHED<%s>" % e in p for e in enc) and "second" in p
                if not ok:
                    cl.bad("id", line, "the id of a value is %s" % re.sub(r"[#@'][0-9.:#]+", "", p), st)
            if method_name(fn) == "read":
                got = [x[1] for x in st.auto if x[0] == "set"]
                key = [p["n"] for p in fn["params"] if p["t"] == "int"]
                if len(got) != 1 or not re.search(r"CACHED<%s[#\w.]*>.*second|DECODED<" % key[0], got[0]):
                    cl.bad("item", line, "what is set is not the value with that id: %s" % ", ".join(got), st)
    rep.count("values of attributes", n)
    rep.need("values of attributes", 4)


def check(db, rep):
    rep.rule("in every statement, the number of values bound is that of the values asked for, and each is the value of its column")
    rep.rule("each value of a row that is read goes where it came from, and each column is used; optional columns are there exactly when the index has them")
    rep.rule("the key of the table of elements is the reference time and the unique attributes, and elements are looked for by that")
    rep.rule("the id of the value of an attribute is that of the row with its encoding, and the value of an id is decoded from the row that has it")
    statements(db, rep)
    attributes(db, rep)
    tables(db, rep)
    deletes(db, rep)
    readers(db, rep)
