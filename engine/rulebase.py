"""Reporting helpers shared by all rules."""
import json
import os
from db import EngineError, walk, fbody, subclasses, superclasses, all_overriders
from flow import Flow, Client, callgraph_reach, function_edges, Event, State


class Report:
    def __init__(self, db, prop):
        self.db = db
        self.prop = prop
        self.violations = []   # dict(key, where, rule, msg, steps)
        self.counts = {}
        self.rules = []
        self.sites = {}
        self.errors = []
        self.assumptions = []
        self.funcs = set()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def site(self, kind, where):
        self.sites.setdefault(kind, [])
        if where not in self.sites[kind]:
            self.sites[kind].append(where)

    def bad(self, rule, func, where, msg, steps=None, detail=""):
        """func: qualified name; key is stable against line changes"""
        key = "%s|%s|%s" % (rule, func, detail)
        for v in self.violations:
            if v["key"] == key and v["where"] == where:
                return
        self.violations.append({"key": key, "rule": rule, "function": func, "where": where,
                                "message": msg, "steps": steps or []})

    def need(self, name, minimum):
        """fewer instances than confirmed by reading the code: the analysis
        lost its anchors and says nothing"""
        if self.counts.get(name, 0) < minimum:
            self.errors.append("rule instances lost: %s = %d, at least %d confirmed on the reference tree" % (
                name, self.counts.get(name, 0), minimum))

    def anchor(self, cond, what):
        if not cond:
            self.errors.append("anchor vanished: " + what)
        return cond


def short(q):
    return q.replace("arki::", "")


def where(fn, line=None):
    return "%s:%d" % (fn["rel"], line or fn["line"])


def fns(db, q):
    """functions by qualified name"""
    return db.by_q.get(q, [])


def fns_suffix(db, suffix, cls_prefix=None):
    return [f for f in db.functions.values() if f["q"].endswith(suffix)]


def is_py(fn):
    return fn["rel"].startswith("arki/python") or fn["rel"].startswith("src/")


def method_name(fn):
    return fn["q"].rsplit("::", 1)[-1]


def implementations(db, cls, name):
    """functions with a body that are or override the method of cls"""
    r = db.records.get(cls)
    out = []
    for m in (r or {}).get("methods", ()):
        if m.get("n") == name:
            for i in sorted(all_overriders(db, m["id"])):
                f = db.functions.get(i)
                if f and f.get("body") and f not in out:
                    out.append(f)
    return out


def enum_value(db, name, item):
    e = db.enums.get(name)
    for x in (e or {}).get("c", ()):
        if x["n"].rsplit("::", 1)[-1] == item:
            return int(x["v"])
    return None


def cls_of(fn):
    return fn["q"].rsplit("::", 1)[0]
