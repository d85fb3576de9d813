import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from mlv.meta import *
from mlv.rich import Special
from mlv import drive, ref
from mlv.values import and3
from mlv.world import TSQL, eq_on

AGGS = ["sum", "sum", "sum", "count", "count_distinct", "average", "max", "min"]


def evaluator(w, ref_name, view):
    """ref_name: 'made_raw', 'customers.region' ... -> Q"""
    v, n = ref_name.split(".") if "." in ref_name else (view, ref_name)
    f = w.views[v].fields.get(n)
    if f is not None:
        return Q(f)
    g, tf = n.rsplit("_", 1)
    return Q(w.views[v].fields[g], tf)


def more(r, w):
    """Random non-additive metrics, and number metrics over them."""
    out = []
    for v, cols, own, times in (("orders", ["amt", "qty", "id", "customers_id"], ["kind", "chan", "customers_id", "paid_month", "made_month"], ["made", "paid"]),
                                ("visits", ["pages", "id"], ["kind", "customers_id", "seen_month"], ["seen"])):
        for i in range(r.choice([2, 3])):
            agg = r.choice(AGGS)
            c = r.choice([x for x in cols if (x in ("amt", "qty", "pages")) == (agg in ("sum", "average", "max", "min"))])
            dim = r.choice(times) + "_" + r.choice(["raw", "raw", "date", "month"])
            if r.random() < 0.1:
                dim = "customers.joined_" + r.choice(["raw", "date"])
            how = r.choice(["max", "min"])
            grouping = r.sample(own, r.choice([0, 0, 1, 1, 2]))
            if r.random() < 0.15:
                grouping.append("customers.region")
            nd = {"name": r.choice([dim, dim if "." in dim else v + "." + dim]), "window_choice": how}
            if grouping:
                nd["window_groupings"] = [r.choice([g, g if "." in g else v + "." + g]) for g in grouping]
            aware = r.random() < 0.65
            if not aware or r.random() < 0.2:
                nd["window_aware_of_query_dimensions"] = aware
            nulls = r.random() < 0.3
            if nulls:
                nd["nulls_are_equal"] = True
            d = {"name": "na%d" % i, "field_type": "measure", "type": agg, "sql": "${TABLE}." + c, "non_additive_dimension": nd}
            preds = []
            if r.random() < 0.25:
                kd = w.views[v].fields["kind"]
                d["filters"] = [{"field": "kind", "value": "a"}]
                preds = [lambda ctx, kd=kd: None if kd.ev(ctx) is None else kd.ev(ctx) == "a"]
            f = Special(v, "na%d" % i, d, sk="nonadd", agg=agg, ev=col(v, c), dim=dim, how=how, grouping=grouping, aware=aware,
                        nulls=nulls, filters=preds)
            w.views[v].add(f)
            w.specials[v + "." + f.name] = f
        here = [s for s in w.specials.values() if s.view == v and s.sk == "nonadd"]
        if here and r.random() < 0.7:
            a = r.choice(here)
            b = r.choice([s for s in here if s is not a and s.agg != "max"] + [m for m in plain_metrics(w, v) if m.agg in ("sum", "count", "average") and "ts" not in m.name and m.name != "paid_amt"])
            d = {"name": "ratio", "field_type": "measure", "type": "number", "sql": "1.0 * ${%s} / nullif(${%s}, 0)" % (r.choice([a.name, a.id]), b.name)}
            f = Special(v, "ratio", d, sk="ratio", refs=[a, b], formula=DIV)
            w.views[v].add(f)
            w.specials[v + ".ratio"] = f


def acceptable(w, m, group, ctxs, dims):
    """Values of a metric for one group of the joined, filtered rows."""
    if getattr(m, "sk", None) == "ratio":
        out = []
        for x in acceptable(w, m.refs[0], group, ctxs, dims):
            for y in acceptable(w, m.refs[1], group, ctxs, dims):
                out.append(m.formula(x, y))
        return out
    if getattr(m, "sk", None) != "nonadd":
        return ref.metric(w, m, group, strict=False)
    d = evaluator(w, m.dim, m.view)
    keys = [evaluator(w, g, m.view) for g in m.grouping]
    if m.aware:
        keys += list(dims)
    else:
        keys += [q for q in dims if q.f is d.f]
    at = lambda c: tuple(key(q.ev(c)) for q in keys)
    pick = max if m.how == "max" else min
    best = {}
    for c in ctxs:
        t = d.ev(c)
        if t is None:
            continue
        k = at(c)
        best[k] = t if k not in best else pick(best[k], t)
    inside = []
    for c in ctxs if not dims else group:
        if not getattr(m, "nulls", False) and any(q.ev(c) is None for q in keys):
            continue
        k = at(c)
        if k in best and d.ev(c) is not None and same(d.ev(c), best[k]) and and3(p(c) for p in m.filters) is True:
            inside.append(c)
    rows = ref.own_rows(w, m.view, inside)
    vals = [x for x in (m.ev(c) for c in rows) if x is not None]
    if m.agg == "count":
        return [len(vals)] if vals else [0, None]
    if m.agg == "count_distinct":
        return [len({key(x) for x in vals})]
    if not vals:
        return [None, 0] if m.agg == "sum" else [None]
    return [{"sum": sum, "max": max, "min": min, "average": lambda v: sum(v) / len(v)}[m.agg](vals)]


def body(ck):
    def worlds(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = rich_world(r, dialect, rows=(8, 14, 20), fan=False, cumulative=False, spend=False, merged=False, empty=0.03, span=r.choice([3, 10, 40]))
        more(r, w)
        for v, t in (("orders", "made"), ("orders", "paid"), ("visits", "seen"), ("customers", "joined")):
            for row in w.views[v].rows:  # many ties
                if r.random() < 0.5:
                    row[t] = w.base + dt.timedelta(r.choice([0, 1, 2]))
        c = w.connection()
        for _ in range(5):
            one(r, w, c, dialect)
        merged(r, w, c, dialect)

    def merged(r, w, c, dialect):
        """Together with a metric of another date: the same values as on its own."""
        m = r.choice([s for s in w.specials.values() if s.view == "orders" and s.sk == "nonadd"])
        other = r.choice(["visits.visit_count", "orders.paid_amt"])
        dims = r.sample(["customers.region", "customers.seg"], r.choice([0, 1, 1, 2]))
        alone = {"metrics": [m.id], "dimensions": dims}
        if r.random() < 0.5:
            alone["where"] = where_clause(r, qd(w, "customers", ()), 1, nest=r.choice([0, 1]))[0]
        both = dict(alone, metrics=r.choice([[m.id, other], [other, m.id]]))
        sql = [compile_(c, dialect, q) for q in (alone, both)]
        try:
            a, b = ex(w, sql[0]), ex(w, sql[1])
        except SqlError as e:
            ck.bad("invalid-sql", "the query does not run", {"dialect": dialect, "request": both, "sql": sql[1], "problem": repr(e)})
            return
        at = lambda cols: [cols.index(x.replace(".", "_")) for x in dims]
        table = lambda res: {tuple(key(row[j]) for j in at(res[0])): row[res[0].index(m.alias)] for row in res[1]}
        own, joint = table(a), table(b)
        ck.counts["merged"] += 1
        ck.case(("merged", dialect, repr(both)), {"request": both}, nontrivial=any(own.values()))
        for k in set(own) | set(joint):
            if key(None) in k:
                continue  # C10 null-keys
            x, y = own.get(k), joint.get(k)
            if not (same(x, y) or not (x or y)):
                ck.bad("merged", "a non-additive metric changes when a metric of another date is requested with it",
                       {"dialect": dialect, "request": both, "metric": m.defn, "group": repr(k), "alone": x, "together": y, "sql": sql[1]})
                return

    def one(r, w, c, dialect):
        v = r.choice(["orders", "orders", "visits"])
        sp = [s for s in w.specials.values() if s.view == v and s.sk in ("nonadd", "ratio")]
        mets = r.sample(sp, min(len(sp), r.choice([1, 1, 2, 3])))
        mets += r.sample([m for m in plain_metrics(w, v) if m.name != "paid_amt"], r.choice([0, 0, 1]))
        if dialect in SYMMETRIC and r.random() < 0.1:
            mets.append(w.views["customers"].fields["customer_count"])
        r.shuffle(mets)
        dq = r.sample(qd(w, v, ("date", "month")) + qd(w, "customers", ("month",)), r.choice([0, 0, 1, 1, 2, 3]))
        req = {"metrics": [m.id for m in mets], "dimensions": [q.id for q in dq]}
        wp = lambda ctx: True
        if r.random() < 0.45:
            fl, wp = where_clause(r, qd(w, v, ("date",)) + qd(w, "customers", ()), r.choice([1, 1, 2]), nest=r.choice([0, 1]))
            req["where"] = fl
        hv = None
        if r.random() < 0.2:
            pool = [m for m in mets if m.view == v and getattr(m, "agg", "") in ("sum", "count")] or [m for m in sp if m.sk == "nonadd" and m.agg == "sum"]
            if pool:
                hv = (r.choice(pool), r.choice([0, 1, 3]))
                req["having"] = [{"field": hv[0].id, "expression": "greater_than", "value": hv[1]}]
        info = {"dialect": dialect, "request": req, "metrics": [m.defn for m in mets]}
        sql = compile_(c, dialect, req)
        try:
            cols, rows = ex(w, sql)
        except SqlError as e:
            ck.bad("invalid-sql", "the query does not run", dict(info, sql=sql, problem=repr(e)))
            return
        on = eq_on(v, "customers_id", "customers", "id")
        ctxs = [x for x in ref.join_rows(w, v, [("customers", "left_outer", on)]) if wp(x) is True]
        groups = {}
        for x in ctxs:
            vals = [q.ev(x) for q in dq]
            groups.setdefault(tuple(key(y) for y in vals), (vals, []))[1].append(x)
        if not dq:
            groups = {(): ([], ctxs)}
        exp = []
        for k, (vals, cs) in groups.items():
            must = True
            if hv:
                res = {x is not None and x > hv[1] for x in acceptable(w, hv[0], cs, ctxs, dq)}
                if res == {False}:
                    continue
                must = res == {True}
            exp.append(ref.Row(vals, [acceptable(w, m, cs, ctxs, dq) for m in mets], must))
        want = [q.alias for q in dq] + [m.view + "_" + m.name for m in mets]
        problem = None if cols == [x.lower() for x in want] else "columns %r" % (cols,)
        problem = problem or ref.compare(exp, rows, len(dq))
        ck.counts["queries"] += 1
        ck.counts["with_where"] += "where" in req
        ck.counts["with_having"] += hv is not None
        ck.seen("dialect", dialect)
        for m in mets:
            if getattr(m, "sk", "") == "nonadd":
                ck.seen("kind of window", (m.how, bool(m.grouping), m.aware, getattr(m, "nulls", False), "." in m.dim))
        ck.case((dialect, repr(req)), {"request": req, "sql": sql, "rows": rows[:6]}, nontrivial=len(ctxs) > 3 and any(getattr(m, "sk", "") for m in mets))
        if problem:
            ck.bad("non-additive", "the result is not the one over the window's rows", dict(info, sql=sql, problem=problem, rows=rows[:8]))

    ck.run("worlds", ck.pick(300, 6000), worlds)


ck = Check("C13", "random non-additive metrics (aggregates, window choices, groupings, awareness, equal nulls, filters, other views' dates) over data with many ties and nulls, alone, together, inside number "
           "metrics, with dimensions, where and having, in ten dialects; compared with aggregates over the window's rows; non-trivial cases read more than three rows")
main(ck, body, need=[("queries", 1200), ("with_where", 400), ("with_having", 150), ("merged", 250)])
