"""Helpers of the checks that compare executions of related requests."""
import collections
import datetime as dt
import re

from .drive import compile_, execute
from .rich import *
from .sqlparse_ import SqlError
from .values import key

NOW = TS(2025, 1, 1)


def clip(w):
    return (w.base - dt.timedelta(40), w.base + dt.timedelta(w.span + 60))


def ex(w, sql, tables=None, dialect=None):
    """(columns, rows) of a compiled query on the world's data or on other tables."""
    cols, rows, _ = execute(w, sql, now=NOW, clip=clip(w), tables=tables, dialect=dialect)
    return [c.lower() for c in cols], rows


def bag(rows):
    return collections.Counter(tuple(key(x) for x in row) for row in rows)


def used_views(w, req):
    """Views whose fields a request uses, directly or through its metrics' definitions."""
    text = repr(req)
    out = {v for v in w.views if re.search(r"\b%s\." % v, text)}
    for s in w.specials.values():
        if s.id in text and s.sk == "merged":
            out |= {x.view for x in s.refs}
    if "'funnel'" in text:
        out.add(w.link.split(".")[0])
    return out


def tables_with(w, changed):
    """The world's tables with some views' rows replaced: {view: rows}."""
    t = w.tables()
    for name, rows in changed.items():
        v = w.views[name]
        t[v.table] = ([c for c, _ in v.cols], [tuple(r[c] for c, _ in v.cols) for r in rows])
    return t
