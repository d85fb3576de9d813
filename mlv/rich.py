"""A richer random project: customers, orders and visits (related through customers), spend (unrelated), with mapped
fields, merged, cumulative and non-additive metrics, funnels, sets, grants ... and request generators per query kind."""
import copy

from .world import *
from .values import and3


def _dim(v, name, c, typ, vt, **extra):
    d = {"name": name, "field_type": "dimension", "type": typ, "sql": "${TABLE}." + c}
    d.update(extra)
    return v.add(F(v.name, name, "dim", typ, vt, d, col(v.name, c), pk=bool(extra.get("primary_key"))))


def _time(v, name, c, frames, week_start=0):
    d = {"name": name, "field_type": "dimension_group", "type": "time", "sql": "${TABLE}." + c, "timeframes": list(frames)}
    f = v.add(F(v.name, name, "time", "time", "ts", d, col(v.name, c), frames=list(frames)))
    f.week_start = week_start
    return f


def _m(v, name, agg, c=None, ev=None, sql=None, filters=(), preds=(), **extra):
    d = {"name": name, "field_type": "measure", "type": agg}
    if c or sql:
        d["sql"] = sql or "${TABLE}." + c
    if filters:
        d["filters"] = list(filters)
    canon = extra.pop("canon_date", None)
    if canon:
        d["canon_date"] = canon
    d.update(extra)
    return v.add(F(v.name, name, "measure", agg, "num", d, ev or col(v.name, c or v.pkcol), agg=agg, filters=list(preds),
                   canon=canon))


def _n(v, name, sql, a, b, formula, **extra):
    d = {"name": name, "field_type": "measure", "type": "number", "sql": sql}
    d.update(extra)
    return v.add(F(v.name, name, "measure", "number", "num", d, agg="number", refs=[a, b], formula=formula,
                   views=a.views_needed | b.views_needed))


class Special:
    """A metric that is not a plain aggregate: kept out of the ordinary measure list."""

    def __init__(self, view, name, defn, **kw):
        self.view, self.name, self.defn = view, name, defn
        self.kind, self.vt = "special", "num"
        self.id = view + "." + name
        self.alias = view + "_" + name
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s>" % self.id


DIV = lambda x, y: None if x is None or not y else x / y
FRAMES = ["raw", "date", "month", "quarter", "year"]


def rich_world(r, dialect, rows=(6, 10, 14), extra_dims=1, extra_measures=2, span=70, spend=True, frames=None,
               cumulative=None, nonadd=True, fan=True, median=False, merged=True, empty=0.04, week=False):
    w = World(dialect)
    w.dedges = {}
    frames = list(frames or FRAMES) + (["week"] if week else [])
    yes = dialect not in TSQL
    cumulative = dialect in CUMULATIVE if cumulative is None else cumulative
    size = lambda: 0 if r.random() < empty else r.choice(list(rows))
    pkt = r.choice(["int", "str"])
    link = r.choice(["customers", "orders"])
    w.link = "customers.id" if link == "customers" else "orders.customers_id"
    base = TS(2024, r.randint(1, 10), r.randint(1, 28))
    w.base, w.span = base, span

    def mk(name, cols, default):
        v = V(name, "db." + name + "_t", [c for c in cols if yes or c[1] != "bool"], "id")
        n = size()
        v.rows = []
        fill(r, v, n, pkt)
        for row in v.rows:
            for c, t in v.cols:
                if t == "ts":
                    row[c] = None if r.random() < 0.05 else rand_ts(r, base, span)
        v.extra["default_date"] = default
        w.views[name] = v
        _dim(v, "id", "id", "string", "pk", primary_key=True, **({"tags": ["customer"]} if name == "customers" and link == "customers" else {}))
        return v

    c = mk("customers", [("id", "pk"), ("region", "str"), ("seg", "str"), ("score", "int"), ("joined", "ts")], "joined")
    _dim(c, "region", "region", "string", "str")
    _dim(c, "seg", "seg", "string", "str")
    _dim(c, "score", "score", "number", "num")
    _time(c, "joined", "joined", frames)
    _m(c, "customer_count", "count")
    _m(c, "total_score", "sum", "score")
    rg = c.fields["region"]
    _m(c, "region_a_score", "sum", "score", filters=[{"field": "region", "value": "a"}],
       preds=[lambda ctx: None if rg.ev(ctx) is None else rg.ev(ctx) == "a"])

    o = mk("orders", [("id", "pk"), ("customers_id", "fk"), ("kind", "str"), ("chan", "str"), ("amt", "float"), ("qty", "int"),
                      ("made", "ts"), ("paid", "ts")], "made")
    _dim(o, "customers_id", "customers_id", "string", "key", **({} if link == "customers" else {"tags": ["customer"]}))
    _dim(o, "kind", "kind", "string", "str")
    _dim(o, "chan", "chan", "string", "str")
    _dim(o, "amt", "amt", "number", "num")
    _dim(o, "qty", "qty", "number", "num")
    _time(o, "made", "made", frames)
    _time(o, "paid", "paid", frames)
    if yes:
        am = o.fields["amt"]
        o.add(F("orders", "big", "dim", "yesno", "bool",
                {"name": "big", "field_type": "dimension", "type": "yesno", "sql": "${amt} > 5"},
                lambda ctx: None if am.ev(ctx) is None else am.ev(ctx) > 5))
    cnt = _m(o, "order_count", "count")
    tot = _m(o, "total_amt", "sum", "amt")
    _m(o, "avg_amt", "average", "amt")
    _m(o, "max_amt", "max", "amt")
    _m(o, "total_qty", "sum", "qty")
    _m(o, "buyers", "count_distinct", "customers_id")
    _m(o, "paid_amt", "sum", "amt", canon_date="paid")
    kd = o.fields["kind"]
    _m(o, "kind_a_amt", "sum", "amt", filters=[{"field": "kind", "value": "a"}],
       preds=[lambda ctx: None if kd.ev(ctx) is None else kd.ev(ctx) == "a"])
    _n(o, "aov", "1.0 * ${total_amt} / nullif(${order_count}, 0)", tot, cnt, DIV)

    s = mk("visits", [("id", "pk"), ("customers_id", "fk"), ("kind", "str"), ("pages", "int"), ("seen", "ts")], "seen")
    _dim(s, "customers_id", "customers_id", "string", "key")
    _dim(s, "kind", "kind", "string", "str")
    _dim(s, "pages", "pages", "number", "num")
    _time(s, "seen", "seen", frames)
    vc = _m(s, "visit_count", "count")
    _m(s, "total_pages", "sum", "pages")
    _m(s, "max_pages", "max", "pages")

    if spend:
        p = mk("spend", [("id", "pk"), ("kind", "str"), ("cost", "float"), ("spent", "ts")], "spent")
        _dim(p, "kind", "kind", "string", "str")
        _dim(p, "cost", "cost", "number", "num")
        _time(p, "spent", "spent", frames)
        pc = _m(p, "total_cost", "sum", "cost")
        _m(p, "spend_count", "count")
        w.model["mappings"] = {"kindly": {"group_by": "dimensions", "fields": ["orders.kind", "visits.kind", "spend.kind"]}}
    else:
        w.model["mappings"] = {"kindly": {"group_by": "dimensions", "fields": ["orders.kind", "visits.kind"]}}
    for v in w.views.values():
        add_derived_dims(r, v, extra_dims, yesno=yes)
        add_measures(r, v, dialect, extra_measures, number=False, median=median)
    w.specials = {}

    def special(v, name, defn, **kw):
        d = dict({"name": name, "field_type": "measure"}, **defn)
        f = Special(v.name, name, d, **kw)
        v.add(f)
        w.specials[name] = f
        return f
    if merged:
        special(o, "amt_per_visit", {"type": "number", "is_merged_result": True,
                                     "sql": "1.0 * ${orders.total_amt} / nullif(${visits.visit_count}, 0)"},
                sk="merged", refs=[tot, vc], formula=DIV)
        if spend:
            special(o, "roi", {"type": "number", "is_merged_result": True,
                               "sql": "${total_amt} - ${spend.total_cost}"},
                    sk="merged", refs=[tot, pc], formula=lambda x, y: None if x is None or y is None else x - y)
    if cumulative:
        special(o, "running_amt", {"type": "cumulative", "measure": "total_amt"}, sk="cumulative", base=tot)
        special(o, "running_count", {"type": "cumulative", "measure": "order_count"}, sk="cumulative", base=cnt)
        special(o, "running_aov", {"type": "cumulative", "measure": "aov"}, sk="cumulative", base=o.fields["aov"])
        special(o, "running_share", {"type": "number", "sql": "1.0 * ${running_amt} / nullif(${running_count}, 0)"},
                sk="cumulative_number", refs=["running_amt", "running_count"], formula=DIV)
    if nonadd:
        def na(name, agg, c, dim, how="max", grouping=(), agg_fields=None, aware=True, filters=(), preds=()):
            nd = {"name": dim, "window_choice": how}
            if grouping:
                nd["window_groupings"] = list(grouping)
            if not aware:
                nd["window_aware_of_query_dimensions"] = False
            d = {"type": agg, "sql": "${TABLE}." + c, "non_additive_dimension": nd}
            if filters:
                d["filters"] = list(filters)
            return special(o, name, d, sk="nonadd", agg=agg, ev=col("orders", c), dim=dim, how=how,
                           grouping=list(grouping), aware=aware, filters=list(preds))
        na("last_qty", "sum", "qty", "made_raw")
        na("first_amt", "sum", "amt", "made_raw", "min")
        na("last_qty_cust", "sum", "qty", "made_raw", "max", ["customers_id"])
        na("last_day_amt_kind", "sum", "amt", "made_date", "max", ["kind"])
        na("first_qty_kind_fixed", "sum", "qty", "made_raw", "min", ["kind"], aware=False)
        na("last_qty_fixed", "sum", "qty", "made_raw", "max", aware=False)
        na("last_count_a", "sum", "amt", "made_month", "max", filters=[{"field": "kind", "value": "a"}],
           preds=[lambda ctx: None if kd.ev(ctx) is None else kd.ev(ctx) == "a"])
        na("last_avg", "average", "amt", "made_date", "max", ["chan"])
    # relationships
    ident = {"name": "customer_key", "type": "primary", "sql": "${id}"}
    c.identifiers.append(ident)
    for v in (o, s):
        v.identifiers.append({"name": "customer_key", "type": "foreign", "sql": "${customers_id}"})
        on = eq_on(v.name, "customers_id", "customers", "id")
        add_edge(w, Edge(v.name, "customers", "many_to_one", "left_outer", on))
        if fan and v is o:
            ident["allowed_fanouts"] = ["orders"]
            add_edge(w, Edge("customers", "orders", "one_to_many", "left_outer", on))
    fill_keys(r, w)
    return w


def qd(w, view, tf=("date", "month", "year")):
    """Requestable dimensions of a view (no primary key, only coarse timeframes)."""
    return [q for q in w.views[view].dims() if not q.pk and (q.tf is None or q.tf in tf)]


def scope(w, kind):
    """Views over which a single query may run, for a metric view."""
    return {"orders": ["orders", "customers"], "visits": ["visits", "customers"], "customers": ["customers"],
            "spend": ["spend"]}[kind]


def plain_metrics(w, view):
    return [m for m in w.views[view].measures()]


def order_of(r, names):
    return [{"field": n, "sort": r.choice(["asc", "desc"])} for n in r.sample(names, min(len(names), r.choice([1, 2])))]


KINDS = ["single", "joined", "fanned", "merged", "merged_metric", "mapped", "cumulative", "funnel", "groupby", "raw",
         "arbitrary", "nonadd", "mql", "literal", "dims_only"]


def request(r, w, kind, where=0.5, having=0.2, order=0.3, limit=0.15):
    """A random request of a kind: (method, kwargs). Views used can be derived with used_views()."""
    d = w.dialect
    wh = lambda views, **k: where_clause(r, [q for v in views for q in qd(w, v)], **k)[0]
    req = {}

    def tail(views, metrics, dims, allow_having=True, allow_order=True):
        if r.random() < where:
            req["where"] = wh(views)
        if allow_having and metrics and r.random() < having:
            req["having"] = [{"field": r.choice([m for m in metrics if "min_ts" not in m] or ["orders.total_amt" if "orders" in views else metrics[0]]), "expression": r.choice(["greater_than", "is_not_null", "less_than"] if any("min_ts" not in m for m in metrics) or "orders" in views else ["is_not_null"]),
                              "value": r.choice([0, 2, 5])}]
        if allow_order and r.random() < order and metrics + dims:
            req["order_by"] = order_of(r, metrics + dims)
        if r.random() < limit:
            req["limit"] = r.choice([1, 2, 5])

    def names(xs):
        return [x.id for x in xs]

    if kind == "single":
        v = r.choice(list(w.views))
        ms = names(r.sample(plain_metrics(w, v), r.choice([1, 1, 2])))
        ds = names(r.sample(qd(w, v), r.choice([0, 1, 2])))
        req.update(metrics=ms, dimensions=ds)
        tail([v], ms, ds)
    elif kind == "joined":
        v = r.choice(["orders", "visits"])
        ms = names(r.sample(plain_metrics(w, v), r.choice([1, 2])))
        ds = names([r.choice(qd(w, "customers"))] + r.sample(qd(w, v), r.choice([0, 1])))
        req.update(metrics=ms, dimensions=ds)
        tail([v, "customers"], ms, ds)
    elif kind == "fanned":
        ms = names([r.choice(plain_metrics(w, "customers"))] + r.sample(plain_metrics(w, "orders"), r.choice([0, 1])))
        ds = names([r.choice(qd(w, "orders"))] + r.sample(qd(w, "customers"), r.choice([0, 1])))
        req.update(metrics=ms, dimensions=ds)
        tail(["orders", "customers"], ms, ds)
    elif kind == "merged":
        vs = r.choice([["orders", "visits"], ["orders", "visits"]])
        ms = [r.choice(plain_metrics(w, v)).id for v in vs]
        ds = names(r.sample(qd(w, "customers", ()), r.choice([0, 1, 2])))
        t = r.choice(["date", "month", "year"])
        if r.random() < 0.5:
            ds.append("orders.made_" + t)
        req.update(metrics=ms, dimensions=ds)
        if r.random() < where:
            req["where"] = where_clause(r, qd(w, "customers", ()))[0]
        if r.random() < having:
            req["having"] = [{"field": r.choice(ms), "expression": r.choice(["greater_than", "is_not_null"]), "value": 1}]
    elif kind == "merged_metric":
        ms = [r.choice([x.id for x in w.specials.values() if x.sk == "merged"])]
        ds = []
        if r.random() < 0.6:
            ds.append("orders.made_" + r.choice(["date", "month", "year"]))
        if "amt_per_visit" in ms[0] and r.random() < 0.5:
            ds.append("customers.region")
        req.update(metrics=ms, dimensions=ds)
        if r.random() < where and "amt_per_visit" in ms[0]:
            req["where"] = where_clause(r, qd(w, "customers", ()))[0]
    elif kind == "mapped":
        ms = names([r.choice(plain_metrics(w, v)) for v in r.sample(["orders", "visits", "spend"] if "spend" in w.views else ["orders", "visits"], r.choice([1, 1, 2]))])
        ds = [r.choice(["kindly", "date", "month"])]
        req.update(metrics=ms, dimensions=ds)
        if r.random() < where:
            req["where"] = [{"field": r.choice([ds[0], "kindly"]), "expression": "is_not_null", "value": None}]
    elif kind == "cumulative":
        sp = [x.id for x in w.specials.values() if x.sk.startswith("cumulative")]
        ms = r.sample(sp, r.choice([1, 1, 2])) + names(r.sample(plain_metrics(w, "orders"), r.choice([0, 1])))
        ds = ["orders.made_" + r.choice(["date", "month"])] + r.sample(["orders.kind", "customers.region", "orders.chan"], r.choice([0, 1]))
        req.update(metrics=ms, dimensions=ds)
        if r.random() < where:
            req["where"] = where_clause(r, [q for q in qd(w, "orders", ()) + qd(w, "customers", ())], nest=0)[0]
    elif kind == "funnel":
        step = lambda: where_clause(r, qd(w, "orders", ()) + qd(w, "customers", ()), r.choice([1, 1, 2]), nest=0)[0]
        m = r.choice(["orders.order_count", "orders.buyers", "orders.total_amt"])
        steps = [step() for _ in range(r.choice([2, 2, 3]))]
        req.update(metrics=[m], dimensions=r.sample(["orders.kind", "customers.region"], r.choice([0, 0, 1])),
                   funnel={"steps": steps, "within": {"value": r.choice([5, 20, 60]), "unit": "days"}})
        if r.random() < where:
            req["where"] = where_clause(r, qd(w, "customers", ()), 1, nest=0)[0]
    elif kind == "groupby":
        gb = r.choice(["customers.id", "orders.customers_id"])
        inner = {"field": r.choice(["orders.order_count", "orders.total_amt"]), "expression": r.choice(["greater_than", "less_than"]),
                 "value": r.choice([0, 1, 2, 8]), "group_by": gb}
        ms = names(r.sample(plain_metrics(w, "orders"), r.choice([1, 2])))
        ds = names(r.sample(qd(w, "orders") + qd(w, "customers"), r.choice([0, 1])))
        req.update(metrics=ms, dimensions=ds, where=[inner])
        if r.random() < where:
            req["where"] += where_clause(r, qd(w, "orders"), 1)[0]
    elif kind == "raw":
        v = r.choice(["orders", "visits"])
        vs = [v] + (["customers"] if r.random() < 0.5 else [])
        ms = names(r.sample([m for m in plain_metrics(w, v) if m.agg in ("sum", "max", "average")] or plain_metrics(w, v)[:1], 1))
        ds = [v + ".id"] + names(r.sample([q for x in vs for q in qd(w, x)], r.choice([1, 2])))
        req.update(metrics=ms, dimensions=ds)
        if r.random() < where:
            req["where"] = wh(vs)
    elif kind == "nonadd":
        sp = [x.id for x in w.specials.values() if x.sk == "nonadd"]
        ms = r.sample(sp, r.choice([1, 1, 2])) + names(r.sample(plain_metrics(w, "orders"), r.choice([0, 1])))
        ds = names(r.sample(qd(w, "orders", ("date", "month")) + qd(w, "customers", ()), r.choice([0, 1, 2])))
        req.update(metrics=ms, dimensions=ds)
        if r.random() < where:
            req["where"] = wh(["orders", "customers"], nest=0)
    elif kind == "arbitrary":
        a = request(r, w, "single", where=0.5, having=0.2, order=0, limit=0)[1]
        parts = []
        for v in r.sample(["orders", "visits", "customers"], 2):
            k = {"orders": "orders.kind", "visits": "visits.kind", "customers": "customers.region"}[v]
            q = {"metrics": names(r.sample(plain_metrics(w, v), 1)), "dimensions": [k]}
            if r.random() < 0.5:
                q["where"] = wh([v])
            if parts:
                q["join_fields"] = [{"field": k, "source_field": parts[0]["dimensions"][0]}]
                q["join_type"] = r.choice(["left_outer", "inner", "full_outer"])
            parts.append(q)
        req.update(merged_queries=parts)
        if r.random() < 0.3:
            req["where"] = [{"field": parts[0]["dimensions"][0], "expression": "is_not_null", "value": None}]
    elif kind == "mql":
        v = "orders"
        ms = names(r.sample(plain_metrics(w, v), 1))
        ds = names(r.sample(qd(w, v) + qd(w, "customers"), r.choice([1, 2])))
        txt = "SELECT * FROM MQL(%s BY %s%s) AS mq" % (", ".join(ms), ", ".join(ds),
                                                r.choice(["", " WHERE ${orders.qty} > 1", " WHERE ${orders.kind} = 'a' OR ${orders.qty} > 0", " WHERE ${customers.region} <> 'b'"]))
        return kind, {"sql": txt}
    elif kind == "literal":
        v = r.choice(["orders", "visits"])
        ms = names(r.sample(plain_metrics(w, v), r.choice([1, 2])))
        ds = names(r.sample(qd(w, v) + qd(w, "customers"), r.choice([0, 1])))
        num = "${%s}" % {"orders": "orders.qty", "visits": "visits.pages"}[v]
        lits = ["%s > 1" % num, "%s > 1 or 1 = 1" % num, "${%s.kind} = 'a' OR %s IS NULL" % (v, num),
                "${customers.region} = 'a' or %s < 3" % num, "%s >= 0 OR TRUE" % num if w.dialect not in TSQL else "%s >= 0 OR 1=1" % num]
        req.update(metrics=ms, dimensions=ds, where=r.choice(lits))
    elif kind == "dims_only":
        v = r.choice(["orders", "visits"])
        ds = names(r.sample(qd(w, v) + qd(w, "customers"), r.choice([1, 2])))
        req.update(metrics=[], dimensions=ds)
        tail([v, "customers"], [], ds, allow_having=False)
    else:
        raise KeyError(kind)
    return kind, req


def usable_kinds(w):
    ks = [k for k in KINDS]
    if w.dialect not in CUMULATIVE:
        ks.remove("cumulative")
    if w.dialect not in SYMMETRIC:
        ks.remove("fanned")
    return ks
