"""Compile with the code under test, execute with the reference engine, judge with the reference evaluator."""
import copy

from .sqlengine import Engine
from .sqlparse_ import SqlError
from . import ref
from .values import and3, or3, same
from .world import TSQL


class Refused(Exception):
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


def compile_(conn, dialect, req):
    return conn.get_sql_query(query_type=dialect, **copy.deepcopy(req))


def engine(w, now=None, clip=None, tables=None, dialect=None):
    return Engine(dialect or w.dialect, tables or w.tables(), now=now, spine_clip=clip)


def execute(w, sql, **kw):
    e = engine(w, **kw)
    cols, rows = e.run(sql)
    return cols, rows, e


def gen_having(r, metrics, vals=(0, 1, 2, 5, 10, 20)):
    def one():
        m = r.choice(metrics)
        n = r.choice(vals)
        mid = m.id
        ops = [("greater_than", lambda x: x > n), ("less_than", lambda x: x < n), ("equal_to", lambda x: x == n),
               ("greater_or_equal_than", lambda x: x >= n), ("less_or_equal_than", lambda x: x <= n),
               ("not_equal_to", lambda x: x != n), ("is_null", None), ("is_not_null", None),
               ("isin", lambda x: x in (n, n + 1)), ("isnotin", lambda x: x not in (n, n + 1))]
        op, fn = r.choice(ops)
        if op == "is_null":
            return {"field": mid, "expression": op, "value": None}, lambda v: v[mid] is None, [m]
        if op == "is_not_null":
            return {"field": mid, "expression": op, "value": None}, lambda v: v[mid] is not None, [m]
        val = [n, n + 1] if op in ("isin", "isnotin") else n
        return {"field": mid, "expression": op, "value": val}, lambda v: None if v[mid] is None else fn(v[mid]), [m]
    fl, preds, ms = [], [], []
    for _ in range(r.choice([1, 1, 2])):
        if r.random() < 0.3:
            cs = [one() for _ in range(r.choice([2, 2, 3]))]
            op = r.choice(["AND", "OR", "OR"])
            fl.append({"conditions": [c[0] for c in cs], "logical_operator": op})
            f = or3 if op == "OR" else and3
            preds.append((lambda f, ps: lambda v: f(p(v) for p in ps))(f, [c[1] for c in cs]))
            for c in cs:
                ms.extend(c[2])
        else:
            a, p, m = one()
            fl.append(a)
            preds.append(p)
            ms.extend(m)
    uniq = []
    for m in ms:
        if m not in uniq:
            uniq.append(m)
    return fl, {"metrics": uniq, "pred": lambda v: and3(p(v) for p in preds)}


def gen_order(r, items, as_string=None):
    """items: requested dims/metrics in select order. Returns (order_by argument, [(index, desc)])."""
    idx = r.sample(range(len(items)), min(len(items), r.choice([1, 1, 2, 3])))
    spec = [(i, r.random() < 0.5) for i in idx]
    if as_string if as_string is not None else r.random() < 0.4:
        parts = []
        for i, desc in spec:
            n = items[i].id
            parts.append(n + r.choice([" desc", " DESC", " desc nulls last"] if desc else ["", " asc", " ASC"]))
        return ", ".join(parts), spec
    out = []
    for i, desc in spec:
        d = {"field": items[i].id}
        if desc:
            d["sort"] = r.choice(["desc", "DESC"])
        elif r.random() < 0.5:
            d["sort"] = r.choice(["asc", "ASC"])
        out.append(d)
    return out, spec


def aliases(items):
    return [(i.view + "_" + i.name) for i in items]


def default_order(dialect, dims, metrics):
    if dialect in ("SNOWFLAKE", "REDSHIFT", "DUCK_DB"):
        if metrics:
            return [(len(dims), True)]
        if dims:
            return [(0, False)]
    return None


def check_cols(cols, dims, metrics):
    want = [a.lower() for a in aliases(list(dims) + list(metrics))]
    if [c.lower() for c in cols] != want:
        return "columns %r, expected %r" % (cols, want)
    return None


def judge(w, expected, cols, rows, dims, metrics, limit=None, order=None):
    d = check_cols(cols, dims, metrics)
    if d:
        return d
    d = ref.compare(expected, rows, len(dims), limit)
    if d:
        return d
    spec = order if order is not None else default_order(w.dialect, dims, metrics)
    if spec:
        d = ref.check_order(rows, spec, w.dialect) or ref.top_ok(expected, rows, len(dims), spec, w.dialect, limit)
    return d


# ------------------------------------------------------------------ FROM clause of compiled SQL

def flatten_from(f):
    """[(alias, table or None)], [(kind, alias)] in order."""
    out = []

    def go(x):
        if x[0] == "join":
            go(x[2])
            out.append((x[1], leaf(x[3]), x[4]))
        else:
            out.append((None, leaf(x), None))

    def leaf(x):
        if x[0] == "table":
            return (x[2] or x[1].split(".")[-1], x[1])
        return (x[-1], None)
    go(f)
    return out


def main_select(sql, dialect):
    from .sqlparse_ import parse
    ast, _ = parse(sql, dialect)
    return ast


def join_sequence(w, sql, ctes=False):
    """The views the outer FROM reads, in order: [view names]. CTE joins are left out."""
    ast = main_select(sql, w.dialect)
    body = ast[2]
    seq = [(k, a, t) for k, (a, t), on in flatten_from(body[4])]
    tabs = {v.table.lower(): n for n, v in w.views.items()}
    out = []
    for k, a, t in seq:
        if a in w.views:
            out.append((a, a, k))
        elif t is not None and t.lower() in tabs:
            out.append((a, tabs[t.lower()], k))
    return out


def plan_joins(w, seq):
    """Match the sequence of joined views to declared joins. Returns (base, joins, problem)."""
    if not seq:
        return None, [], "no table read"
    base = seq[0][1]
    have = [base]
    joins = []
    for alias, view, kind in seq[1:]:
        if view in have:
            return base, joins, "view %s is joined twice" % view
        cands = [w.dedges[(x, view)] for x in have if (x, view) in w.dedges]
        if not cands:
            return base, joins, "no declared join from %r to %s" % (have, view)
        want = {"LEFT": "left_outer", "INNER": "inner", "JOIN": "inner", "FULL": "full_outer", "CROSS": "cross",
                None: "inner"}.get(kind, kind)
        pick = [e for e in cands if e.jtype == want] or cands
        e = pick[0]
        if e.jtype != want:
            return base, joins, "join to %s is %s, declared %s" % (view, want, e.jtype)
        joins.append(e)
        have.append(view)
    return base, joins, None
