"""A failed database operation is never taken for a success."""
import failures
from rulebase import *


def check(db, rep):
    rep.rule("for every call to the database library, the path on which the call does not report success ends in an "
             "exception (or, in cleanup code that may not throw, in a warning), never in a normal return")
    failures.run(db, rep, lambda f: f.startswith("sqlite3_"), 20, 30)
