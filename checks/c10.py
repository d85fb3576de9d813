import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import copy, re
from mlv.common import Check, main
from mlv.meta import *
from mlv.values import and3, or3, same, norm
from metrics_layer.core.exceptions import QueryError

HUB = {"orders", "visits", "customers"}
KIND = {"orders": "orders.kind", "visits": "visits.kind", "spend": "spend.kind"}


def canon_of(w, m):
    return "%s.%s" % (m.view, m.canon if getattr(m, "canon", None) else w.views[m.view].extra["default_date"])


def translate(group, fid, canons, fan=False):
    """The field a sub query of the group (view, canonical date) uses for a requested dimension, or None."""
    view, canon = group
    if "." not in fid:
        if fid == "kindly":
            return KIND.get(view)
        return canon + "_" + fid
    v = fid.split(".")[0]
    for c in canons:
        if fid.startswith(c + "_") and "_" not in fid[len(c) + 1:]:
            return canon + fid[len(c):]
    if v == view:
        return fid
    if fan and v == "orders" and view in HUB:
        return fid
    if v == "customers" and view in HUB:
        return fid
    if fid in KIND.values():
        return KIND.get(view)
    return None


def map_filters(fl, fn):
    out = []
    for f in fl:
        if "conditions" in f:
            out.append(dict(f, conditions=map_filters(f["conditions"], fn)))
        else:
            t = fn(f["field"])
            if t is None:
                return None
            out.append(dict(f, field=t))
    return None if any(x is None or ("conditions" in x and x["conditions"] is None) for x in out) else out


def chain(parts, null_safe):
    """What full outer joins of the parts on the first part's keys give: [(key, {metric: value})]."""
    rows = [(k, k, dict(v)) for k, v in parts[0]]  # (key of the first part, shown key, values)
    for part in parts[1:]:
        out, used = [], set()
        for fk, k, v in rows:
            hit = False
            for j, (pk, pv) in enumerate(part):
                if fk is not None and fk == pk and (null_safe or not any(x == ("0",) for x in pk)):
                    out.append((fk, k, dict(v, **pv)))
                    used.add(j)
                    hit = True
            if not hit:
                out.append((fk, k, v))
        out += [(None, pk, dict(pv)) for j, (pk, pv) in enumerate(part) if j not in used]
        rows = out
    return [(k, v) for _, k, v in rows]


def body(ck):
    def merged(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        fan = r.random() < 0.3
        w = rich_world(r, dialect, fan=fan and dialect in SYMMETRIC, week=True, nonadd=False, cumulative=False, empty=0.08)
        w.fan = fan and dialect in SYMMETRIC
        if r.random() < 0.5:  # no missing key values
            for v in w.views.values():
                for row in v.rows:
                    for cname, t in v.cols:
                        if row[cname] is None and t in ("str", "ts"):
                            row[cname] = "c" if t == "str" else w.base
        if r.random() < 0.4:
            w.model["mappings"] = {"kindly": {"group_by": "dimensions", "fields": r.sample(list(KIND.values()), 3)}}
        c = w.connection()
        for _ in range(6):
            one(r, w, c, dialect)

    def one(r, w, c, dialect):
        shape = r.choice(["hub", "hub", "any", "any", "canon", "formula", "formula"])
        views = {"hub": ["orders", "visits"] + (["customers"] if r.random() < 0.3 else []), "any": r.sample(["orders", "visits", "spend", "customers"], r.choice([2, 2, 3])),
                 "canon": ["orders"], "formula": []}[shape]
        ms = []
        for v in views:
            pool = [m for m in plain_metrics(w, v) if m.name != "paid_amt"]
            ms += r.sample(pool, r.choice([1, 1, 2]))
        if shape == "canon":
            ms.append(w.views["orders"].fields["paid_amt"])
            if r.random() < 0.4:
                ms.append(w.views["visits"].fields["visit_count"])
        formulas = []
        if shape == "formula" or r.random() < 0.1:
            formulas = r.sample([s for s in w.specials.values() if s.sk == "merged"], r.choice([1, 1, 2]))
        r.shuffle(ms)
        having, hp, extra = [], None, []
        parts_of = ms + [x for s in formulas for x in s.refs]
        groups = []
        for m in parts_of:
            g = (m.view, canon_of(w, m))
            if g not in groups:
                groups.append(g)
        gviews = {g[0] for g in groups}
        canons = [g[1] for g in groups]
        dims = []
        first = r.choice(canons)
        forms = []
        if r.random() < 0.7:
            tf = r.choice(["date", "week", "month", "quarter", "year", "raw"])
            forms.append(tf if tf != "raw" and r.random() < 0.3 and ms and not formulas else first + "_" + tf)
            if r.random() < 0.15:
                forms.append(first + "_" + r.choice([t for t in ("date", "month", "year") if t != tf]))
                forms = [f for f in forms if "." in f] if len({("." in f) for f in forms}) > 1 else forms
        if gviews <= HUB and r.random() < 0.6:
            forms.append(r.choice(["customers.region", "customers.seg", "customers.score"]))
        if gviews <= set(KIND) and not w.fan and r.random() < 0.5:
            forms.append("kindly" if r.random() < 0.4 and ms and not formulas else KIND[r.choice(sorted(gviews))])
        dims = r.sample(forms, len(forms))
        req = {"metrics": [x.id for x in r.sample(ms + formulas, len(ms) + len(formulas))], "dimensions": dims}
        if shape == "canon" or r.random() < 0.05:
            req["merged_result"] = True
        if r.random() < 0.5:
            cand = []
            if gviews <= HUB:
                cand += qd(w, "customers", ())
            cand += [q for v in gviews for q in qd(w, v, ("date", "month", "raw")) if q.tf and q.id.rsplit("_", 1)[0] in canons]
            if gviews <= set(KIND) and not w.fan:
                cand += [q for v in sorted(gviews) for q in qd(w, v, ()) if q.id == KIND[v]]
            if cand:
                req["where"] = where_clause(r, sorted(cand, key=lambda q: q.id), r.choice([1, 1, 2]), nest=0.3)[0]
        if r.random() < 0.4:
            numeric = [x for x in ms + formulas if not (getattr(x, "agg", "") in ("min", "max") and "ts" in x.name)]
            if numeric and r.random() < 0.15:
                more = [m for v in gviews for m in plain_metrics(w, v) if m not in ms and "ts" not in m.name and canon_of(w, m) in canons]
                if more and not formulas:
                    extra = [r.choice(more)]
                    numeric = extra
            if numeric:
                hs = []
                for _ in range(r.choice([1, 1, 2])):
                    m = r.choice(numeric)
                    n = r.choice([0, 1, 2, 5])
                    op, fn = r.choice([("greater_than", lambda x, n=n: x > n), ("less_or_equal_than", lambda x, n=n: x <= n),
                                       ("not_equal_to", lambda x, n=n: x != n), ("is_null", None), ("is_not_null", None)])
                    hs.append(({"field": m.id, "expression": op, "value": n if fn else None},
                               (lambda v, m=m, fn=fn: None if v[m.id] is None else fn(v[m.id])) if fn else
                               (lambda v, m=m, op=op: (v[m.id] is None) == (op == "is_null"))))
                having = [h[0] for h in hs]
                if len(hs) == 2 and r.random() < 0.5:
                    op = r.choice(["AND", "OR"])
                    having = [{"conditions": having, "logical_operator": op}]
                    hp = (lambda v: or3(h[1](v) for h in hs)) if op == "OR" else (lambda v: and3(h[1](v) for h in hs))
                else:
                    hp = lambda v: and3(h[1](v) for h in hs)
                req["having"] = having
        info = {"dialect": dialect, "request": req}
        try:
            sql = compile_(c, dialect, req)
        except QueryError as e:
            ck.counts["refused"] += 1
            # every dimension and filter was chosen so that each metric's side has a counterpart
            info["error"] = str(e)
            return refused(r, w, c, dialect, req, groups, canons, info)
        if "__cte_subquery_" not in sql:
            ck.counts["not_merged"] += 1
            return
        try:
            cols, rows = ex(w, sql)
        except SqlError as e:
            ck.bad("invalid-sql", "the merged query does not run", dict(info, sql=sql, problem=repr(e)))
            return
        # the order of the sub queries
        order = sorted(set(re.findall(r"(\w+)__cte_subquery_\d+ ?AS ?\(", sql)), key=lambda n: sql.index(n + "__cte_subquery"))
        names = sorted(set(re.findall(r"\w+__cte_subquery_\d+", sql)))
        # each side on its own
        alone = {}
        for g in groups:
            mine = [m for m in parts_of + extra if (m.view, canon_of(w, m)) == g]
            mine = [m for j, m in enumerate(mine) if m not in mine[:j]]
            ds = [translate(g, d, canons, w.fan) for d in dims]
            sub = {"metrics": [m.id for m in mine], "dimensions": ds, "single_query": True}
            if req.get("where"):
                sub["where"] = map_filters(req["where"], lambda f: translate(g, f, canons, w.fan))
            if None in ds or ("where" in sub and sub["where"] is None):
                ck.counts["unmapped_but_answered"] += 1
                ck.bad("unmapped", "a merged query was answered although a dimension or filter has no counterpart for one metric", dict(info, sql=sql, group=g))
                return
            s2 = compile_(c, dialect, sub)
            c2, rows2 = ex(w, s2)
            n = len(ds)
            alone[g] = [(tuple(key(x) for x in row[:n]), dict(zip([m.id for m in mine], row[n:]))) for row in rows2]
        metrics = [m for m in parts_of + extra]
        ids = list(dict.fromkeys(m.id for m in metrics))

        def finish(merged_rows):
            out = []
            for k, v in merged_rows:
                full = {x: v.get(x) for x in ids}
                for s in formulas:
                    full[s.id] = s.formula(*[full[x.id] for x in s.refs])
                if hp is None or hp(full) is True:
                    out.append((k, full))
            return out
        allk = list(dict.fromkeys(k for g in groups for k, _ in alone[g]))
        strict = []
        for k in allk:
            v = {}
            for g in groups:
                for k2, vals in alone[g]:
                    if k2 == k:
                        v.update(vals)
            strict.append((k, v))
        strict = finish(strict)

        def render(items):
            return collections.Counter((k, tuple(key(v[x]) for x in [m for m in req["metrics"]])) for k, v in items)
        # observed
        want_metrics = [x.replace(".", "_") for x in req["metrics"]]
        got_dims = []
        for d in dims:
            if "." in d:
                got_dims.append(d.replace(".", "_"))
            else:
                cand = [translate(g, d, canons, w.fan).replace(".", "_") for g in groups]
                # a mapped name appears under the columns of the fields it stands for
                got_dims.append(next((x for x in cand if x in cols), cand[0]))
        missing = [x for x in want_metrics + got_dims if x not in cols]
        if missing:
            ck.bad("columns", "requested columns are missing", dict(info, sql=sql, missing=missing, columns=cols))
            return
        if len(set(cols)) != len(cols):
            ck.bad("columns", "a column appears twice", dict(info, sql=sql, columns=cols))
            return
        di, mi = [cols.index(x) for x in got_dims], [cols.index(x) for x in want_metrics]
        got = collections.Counter((tuple(key(row[j]) for j in di), tuple(key(row[j]) for j in mi)) for row in rows)
        # a mapped dimension whose column exists in several sub queries is shown from one of them only
        shaky = [x for x, d in enumerate(dims) if len({translate(g, d, canons, w.fan) for g in groups}) > 1
                 and len({translate(g, d, canons, w.fan) for g in groups}) < len(groups)]

        def without(counter):
            return collections.Counter((tuple(x for i, x in enumerate(k) if i not in shaky), v) for k, v in counter.elements())
        # every column standing for the same dimension shows the same value
        for d, j in zip(dims, di):
            for g in groups:
                a = translate(g, d, canons, w.fan).replace(".", "_")
                if a in cols and a not in got_dims:
                    for row in rows:
                        if not same(row[cols.index(a)], row[j]):
                            ck.bad("repeated-column" if shaky else "mapped-column", "two columns of one shared dimension differ", dict(info, sql=sql, columns=[a, cols[j]], row=row))
                            return
        ck.counts["merged"] += 1
        ck.counts["rows"] += len(rows)
        ck.seen("dialect", dialect), ck.seen("sides", len(groups)), ck.seen("dims", len(dims))
        partial = len({frozenset(k for k, _ in alone[g]) for g in groups}) > 1
        ck.counts["partly_disjoint"] += partial
        ck.case((dialect, repr(req), len(rows)), {"request": req, "sql": sql, "rows": len(rows)}, nontrivial=len(rows) > 0)
        want = render(strict)
        if close(got, want):
            return
        info.update(sql=sql, expected=sorted(map(str, (want - got).elements()))[:6], got=sorted(map(str, (got - want).elements()))[:6],
                    sides={str(g): [str(x) for x in alone[g][:10]] for g in groups})
        if dims:
            seq = []
            for n in names_in_order(sql, names):
                g = [g for g in groups if n.startswith(g[1].replace(".", "_") + "__")]
                if len(g) != 1:
                    seq = None
                    break
                seq.append(alone[g[0]])
            if seq and len(seq) == len(groups):
                for narrow in ((lambda x: x), without) if shaky else (lambda x: x,):
                    if not close(narrow(got), narrow(render(finish(chain(seq, False))))):
                        continue
                    if close(narrow(got), narrow(want)):
                        mech = "repeated-column"
                    else:
                        mech = "null-keys" if close(render(finish(chain(seq, True))), want) else "third-part"
                    ck.bad(mech, "a dimension combination appears in several rows", info)
                    return
        ck.bad("merged", "the merged result differs from the metrics asked for alone", info)

    def names_in_order(sql, names):
        """The sub queries in the order of the FROM clause."""
        tail = sql[sql.rindex(" FROM "):]
        out = []
        for n in re.findall(r"\w+__cte_subquery_\d+", tail):
            if n not in out:
                out.append(n)
        return out

    def close(a, b):
        if a == b:
            return True
        x, y = list((a - b).elements()), list((b - a).elements())
        if len(x) != len(y):
            return False
        for k, v in x:
            for j, (k2, v2) in enumerate(y):
                if k == k2 and all(p == q or (p[0] == q[0] == "n" and abs(p[1] - q[1]) <= 1e-4 * max(1, abs(p[1]))) for p, q in zip(v, v2)):
                    del y[j]
                    break
            else:
                return False
        return True

    def refused(r, w, c, dialect, req, groups, canons, info):
        for g in groups:
            if any(translate(g, d, canons, w.fan) is None for d in req["dimensions"]):
                return
        if any("." not in d for d in req["dimensions"]):
            ck.counts["mapped_name_refused"] += 1  # which field a mapped name stands for is judged by C17
            return
        if any(s.id in req["metrics"] for s in w.specials.values()) :
            ck.counts["formula_refused"] += 1  # the dimension must also be shared by the merged metric's own views
            return
        ck.bad("refused", "metrics with a shared dimension cannot be merged", info)

    ck.run("merged", ck.pick(320, 8000), merged)


ck = Check("C10", "random metrics of related and unrelated views and of several canonical dates with shared, mapped and date dimensions, filters and having; "
           "the executed merged result is compared with the outer combination of each metric's own result; non-trivial cases return rows")
main(ck, body, need=[("merged", 1000), ("partly_disjoint", 500)])
