#!/usr/bin/env python3
"""Decide one property: check.py <property id> [--tier quick|thorough]

exit 0  the rule holds on every instance found in the current source
exit 1  with VIOLATION lines, one per broken rule instance
exit 2  the analysis could not be carried out
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)
try:
    import db as dbmod
    from rulebase import Report
except Exception:
    traceback.print_exc()
    sys.exit(2)

VERIF = os.path.dirname(HERE)

from catalogue import RULES


def known(prop):
    """findings listed for this property: key -> text"""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            head, _, text = line[7:].partition(" -- ")
            f = dict(x.split("=", 1) for x in head.split(" ", 1))
            if f.get("property") == prop:
                out[f["key"]] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    os.environ["VP_TIER"] = tier
    modules = RULES[a.property]["modules"]
    try:
        db = dbmod.load()
        rep = Report(db, a.property)
        rep.tier = tier
        for name in modules:
            importlib.import_module(name).check(db, rep)
    except dbmod.EngineError as e:
        print("ERROR property=%s %s" % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s analysis failed" % a.property)
        return 2
    kf = known(a.property)
    unknown = []
    used = set()
    for v in rep.violations:
        if v["key"] in kf:
            if v["key"] not in used:
                print("KNOWN-FINDING: property=%s %s [%s]" % (a.property, kf[v["key"]], v["where"]))
            used.add(v["key"])
        else:
            unknown.append(v)
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": a.property,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": RULES[a.property].get("level", "other"),
        "coverage": {
            "explanation": "Static analysis of the resolved syntax trees of the current source of %s. Rule: %s" % (
                dbmod.REPO, " / ".join(rep.rules)),
            "units_analysed": db.n_units,
            "functions_in_program_database": len(db.functions),
            "classes_in_program_database": len(db.records),
            "rule_instances": rep.counts,
            "instances": {k: v[:60] for k, v in rep.sites.items()},
            "known_findings_matched": sorted(used),
            "analysis_errors": rep.errors,
        },
        "assumptions": rep.assumptions + [
            "Code the build does not compile here is not seen: " + ", ".join(sorted(dbmod.UNBUILT)),
            "Library code (libc, libstdc++, sqlite, libarchive, libzip, curl, Python) behaves as documented",
        ],
        "wall_s": round(wall, 2),
        "violations": [dict(v) for v in unknown],
    }
    evpath = os.path.join(VERIF, "evidence", a.property + ".json")
    with open(evpath, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s: %d functions in %d units; %s; %.1fs" % (
        a.property, len(db.functions), db.n_units,
        ", ".join("%s %d" % kv for kv in sorted(rep.counts.items())), wall))
    if unknown:
        rdir = os.path.join(VERIF, "build", "reports")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(unknown):
            path = os.path.join(rdir, "%s-%d.json" % (a.property, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("%s: %s: %s: %s" % (v["where"], v["function"], v["rule"], v["message"]))
            for s in v["steps"]:
                print("    %s" % s)
            print("VIOLATION property=%s replay=%s" % (a.property, path))
        for e in rep.errors:
            print("note: " + e)
        return 1
    if rep.errors:
        for e in rep.errors:
            print("ERROR property=%s %s" % (a.property, e))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException as e:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
