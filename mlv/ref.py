"""Reference evaluator: what a request over a World must return, computed without any SQL."""
import datetime as dt
import itertools

from .values import and3, in_set, key, norm, same

TSQL = ("SQL_SERVER", "AZURE_SYNAPSE")


def single_rows(w, view):
    return [{view: r} for r in w.views[view].rows]


def join_rows(w, base, joins):
    """joins: [(view, jtype, on(ctx) -> bool|None)] applied in order. Declared left/inner/full/cross joins."""
    ctxs = single_rows(w, base)
    for view, jt, on in joins:
        out = []
        used = set()
        rows = w.views[view].rows
        for c in ctxs:
            hit = False
            for i, r in enumerate(rows):
                c2 = dict(c)
                c2[view] = r
                if jt == "cross" or on(c2) is True:
                    out.append(c2)
                    used.add(i)
                    hit = True
            if not hit and jt in ("left_outer", "full_outer"):
                c2 = dict(c)
                c2[view] = None
                out.append(c2)
        if jt == "full_outer":
            for i, r in enumerate(rows):
                if i not in used:
                    c2 = {k: None for k in (ctxs[0] if ctxs else [base])}
                    c2[view] = r
                    out.append(c2)
        ctxs = out
    return ctxs


def own_rows(w, view, ctxs):
    """The distinct rows of a view among joined rows."""
    seen, out = set(), []
    for c in ctxs:
        r = c.get(view)
        if r is None:
            continue
        k = id(r)
        if k in seen:
            continue
        seen.add(k)
        out.append(c)
    return out


def cmpkey(v):
    v = norm(v)
    return v


def metric(w, m, ctxs, strict=True):
    """Acceptable values of a metric over joined rows. strict: a sum over nothing is NULL and a count 0; otherwise
    NULL and 0 are interchangeable for sums and counts over nothing."""
    if m.agg == "number":
        a, b = m.refs
        va = metric(w, a, ctxs, strict)
        vb = metric(w, b, ctxs, strict)
        out = []
        for x in va:
            for y in vb:
                z = m.formula(x, y)
                if not in_set(z, out):
                    out.append(z)
        return out
    rows = own_rows(w, m.view, ctxs)
    rows = [c for c in rows if and3(p(c) for p in m.filters) is True]
    vals = [m.ev(c) for c in rows]
    if m.agg in ("sum_distinct", "average_distinct"):
        ks, s, n = set(), 0, set()
        for c, x in zip(rows, vals):
            k = m.dkey(c)
            if k is None:
                continue
            if x is not None:
                n.add(key(k))
            if key(k) in ks:
                continue
            ks.add(key(k))
            s += x if x is not None else 0
        if m.agg == "sum_distinct":
            return [s] if n else [0, None]
        return [s / len(n)] if n else [None]
    vals = [x for x in vals if x is not None]
    if m.agg == "count":
        return [len(vals)] if vals or strict else [0, None]
    if m.agg == "count_distinct":
        return [len({key(x) for x in vals})]
    if not vals:
        if m.agg == "sum" and not strict:
            return [None, 0]
        return [None]
    if m.agg == "sum":
        return [sum(vals)]
    if m.agg == "average":
        return [sum(vals) / len(vals)]
    if m.agg == "min":
        return [min(vals)]
    if m.agg == "max":
        return [max(vals)]
    if m.agg == "median":
        s = sorted(vals)
        n = len(s)
        return [s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2]
    raise KeyError(m.agg)


class Row:
    __slots__ = ("dims", "metrics", "must")

    def __init__(self, dims, metrics, must=True):
        self.dims, self.metrics, self.must = dims, metrics, must

    def __repr__(self):
        return "Row(%r, %r%s)" % (self.dims, self.metrics, "" if self.must else ", may")


def grouped(w, ctxs, dims, metrics, having=None, strict=True):
    """Expected rows of an aggregate query. having: fn({metric id: value}) -> True/False/None."""
    groups = {}
    for c in ctxs:
        vals = [q.ev(c) for q in dims]
        groups.setdefault(tuple(key(v) for v in vals), (vals, []))[1].append(c)
    if not dims:
        groups = {(): ([], ctxs)}
    out = []
    for k, (vals, cs) in groups.items():
        accs = [metric(w, m, cs, strict) for m in metrics]
        must = True
        if having is not None:
            hm = having["metrics"]
            haccs = [metric(w, m, cs, strict) for m in hm]
            results = {having["pred"](dict(zip([m.id for m in hm], combo))) is True
                       for combo in itertools.product(*haccs)}
            if results == {False}:
                continue
            must = results == {True}
        out.append(Row(vals, accs, must))
    return out


def compare(expected, got_rows, ndims, limit=None):
    """got_rows: tuples (dims..., metrics...). Returns None or a description of the first difference."""
    exp = {}
    for r in expected:
        exp[tuple(key(v) for v in r.dims)] = r
    seen = set()
    for g in got_rows:
        k = tuple(key(v) for v in g[:ndims])
        if k not in exp:
            return "unexpected row %r" % (g,)
        if k in seen:
            return "duplicate row for %r" % (g[:ndims],)
        seen.add(k)
        e = exp[k]
        for i, (acc, v) in enumerate(zip(e.metrics, g[ndims:])):
            if not in_set(v, acc):
                return "row %r metric %d is %r, expected %r" % (g[:ndims], i, v, acc)
    must = [k for k, r in exp.items() if r.must]
    if limit is None:
        for k in must:
            if k not in seen:
                return "missing row %r (%r)" % (exp[k].dims, exp[k].metrics)
    else:
        if len(got_rows) > limit:
            return "%d rows with limit %d" % (len(got_rows), limit)
        if len(got_rows) < min(limit, len(must)):
            return "only %d rows with limit %d and %d candidates" % (len(got_rows), limit, len(must))
    return None


def order_value(v, desc, nulls_last=True):
    v = norm(v)
    if v is None:
        return (1 if nulls_last else 0, 0)
    if isinstance(v, bool):
        v = int(v)
    return (0 if nulls_last else 1, v)


def check_order(got_rows, idx_desc, dialect):
    """Are the returned rows in the requested order? idx_desc: [(column index, desc)]"""
    nulls = dialect not in TSQL and dialect != "DRUID"
    for a, b in zip(got_rows, got_rows[1:]):
        for i, desc in idx_desc:
            x, y = norm(a[i]), norm(b[i])
            if same(x, y):
                continue
            if x is None or y is None:
                if not nulls:
                    break
                if x is None:
                    return "NULL sorted before %r in column %d" % (y, i)
                break
            if isinstance(x, bool):
                x, y = int(x), int(y)
            if (x > y) != desc:
                return "rows out of order on column %d: %r then %r (%s)" % (i, x, y, "desc" if desc else "asc")
            break
    return None


def top_ok(expected, got_rows, ndims, idx_desc, dialect, limit):
    """With a limit and an order: no omitted row may sort strictly before a returned one."""
    if limit is None or not got_rows or len(got_rows) < limit:
        return None
    if any(not r.must or any(len(a) > 1 for a in r.metrics) for r in expected):
        return None
    if dialect in TSQL or dialect == "DRUID":
        rows = [r.dims + [a[0] for a in r.metrics] for r in expected]
        if any(r[i] is None for r in rows for i, _ in idx_desc):
            return None
    have = {tuple(key(v) for v in g[:ndims]) for g in got_rows}
    last = got_rows[-1]
    for r in expected:
        if tuple(key(v) for v in r.dims) in have:
            continue
        full = list(r.dims) + [a[0] for a in r.metrics]
        for i, desc in idx_desc:
            x, y = norm(full[i]), norm(last[i])
            if same(x, y):
                continue
            if x is None:
                break
            if y is None:
                return "omitted row %r sorts before returned row %r" % (full, last)
            if isinstance(x, bool):
                x, y = int(x), int(y)
            if (x < y) != desc:
                return "omitted row %r sorts before returned row %r" % (full, last)
            break
    return None
