import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from mlv.meta import *
from mlv import ref
from mlv.dur import difference, postgres_age
from mlv.values import and3, in_set, same
from mlv.world import TSQL, eq_on
from metrics_layer.core.exceptions import QueryError

LITERALS = {
    "orders": [("${orders.qty} > 1", lambda q: None if q["qty"] is None else q["qty"] > 1),
               ("${orders.kind} = 'a' or ${orders.qty} < 2", lambda q: ref3(q))],
}


def ref3(q):
    a = None if q["kind"] is None else q["kind"] == "a"
    b = None if q["qty"] is None else q["qty"] < 2
    return True if a or b else (None if a is None or b is None else False)


def repeated_metric(m, ctxs):
    """The plain aggregate over rows that may be repeated."""
    rows = [c for c in ctxs if c.get(m.view) is not None and and3(p(c) for p in m.filters) is True]
    vals = [m.ev(c) for c in rows]
    vals = [x for x in vals if x is not None]
    if m.agg == "count":
        return [len(vals)]
    if m.agg == "count_distinct":
        return [len({key(x) for x in vals})]
    if not vals:
        return [None]
    return [{"sum": sum, "max": max, "min": min, "average": lambda v: sum(v) / len(v)}[m.agg](vals)]


def body(ck):
    def worlds(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = rich_world(r, dialect, rows=(10, 16, 24), fan=False, nonadd=False, cumulative=False, spend=False, merged=False, empty=0.03, span=r.choice([4, 8, 20, 60]))
        # several events per customer
        ids = [row["id"] for row in w.views["customers"].rows]
        few = r.sample(ids, min(len(ids), r.choice([2, 3, 5])))
        for v in ("orders", "visits"):
            for row in w.views[v].rows:
                if few and r.random() < 0.85:
                    row["customers_id"] = r.choice(few)
                if r.random() < 0.1:
                    row[{"orders": "made", "visits": "seen"}[v]] = w.base + dt.timedelta(1)  # equal times
        c = w.connection()
        for _ in range(6):
            one(r, w, c, dialect)

    def one(r, w, c, dialect):
        link_view, link_col = w.link.split(".")
        v = r.choice(["orders", "orders", "visits"]) if link_view == "customers" else "orders"
        ev = w.views[v]
        time_col = {"orders": "made", "visits": "seen"}[v]
        pool = [m for m in plain_metrics(w, v) if m.name != "paid_amt" and m.agg in ("sum", "count", "count_distinct", "max", "min", "average") and "ts" not in m.name]
        n = r.choice([1, 1, 1, 2])
        mets = r.sample(pool, n)
        dq = r.sample([q for q in qd(w, v, ("month", "date")) + qd(w, "customers", ("month",))], r.choice([0, 0, 1, 1, 2]))
        steps, preds, text = [], [], False
        for _ in range(r.choice([1, 2, 2, 2, 3, 3, 4])):
            k = r.random()
            if k < 0.04 and v in LITERALS:
                text_step, p = r.choice(LITERALS[v])
                steps.append(text_step)
                preds.append(lambda ctx, p=p, v=v: p(ctx[v]))
                text = True
            elif k < 0.3 and dialect not in TSQL:
                steps.append([{"value": "true", "expression": "equal_to"}])
                preds.append(lambda ctx: True)
            else:
                cand = qd(w, v, ("date",)) + qd(w, "customers", ())
                fl, p = where_clause(r, cand, r.choice([1, 1, 1, 2]), nest=r.choice([0, 0, 1]))
                steps.append(fl)
                preds.append(p)
        unit = r.choice(["seconds", "minutes", "hours", "hours", "days", "days", "days", "weeks", "months"])
        if dialect in TSQL and unit == "seconds":
            unit = "hours"
        value = r.choice({"seconds": [3600, 86400, 400000], "minutes": [60, 1440, 5000], "hours": [1, 24, 48, 100], "days": [0, 1, 2, 5, 30], "weeks": [0, 1, 3], "months": [0, 1]}[unit])
        funnel = {"steps": steps, "within": {"value": value, "unit": r.choice([unit, unit[:-1]])}}
        if n > 1 or r.random() < 0.3:
            funnel["view_name"] = v
        req = {"metrics": [m.id for m in mets], "dimensions": [q.id for q in dq], "funnel": funnel}
        wp = lambda ctx: True
        if r.random() < 0.4:
            fl, wp = where_clause(r, qd(w, v, ("date",)) + qd(w, "customers", ()), r.choice([1, 1, 2]), nest=r.choice([0, 0, 1]))
            req["where"] = fl
        hv = None
        if r.random() < 0.25:
            h = r.choice(mets)
            hv = (mets.index(h), r.choice([0, 1, 3]))
            req["having"] = [{"field": h.id, "expression": "greater_than", "value": hv[1]}]
        as_filter = r.random() < 0.2 and len(steps) > 1
        info = {"dialect": dialect, "request": req}
        if as_filter:
            req.pop("having", None)
            hv = None
            a = r.randrange(1, len(steps))
            b = r.randrange(a + 1, len(steps) + 1)
            how = r.choice(["converted", "dropped_off"])
            cond = {"funnel": funnel, "field": w.link, "expression": how, "from": a, "to": b}
            req["where"] = req.get("where", []) + [cond]
            del req["funnel"]
        sql = compile_(c, dialect, req)
        try:
            cols, rows = ex(w, sql)
        except SqlError as e:
            ck.bad("text-step" if text else "invalid-sql", "the funnel query does not run", dict(info, sql=sql, problem=repr(e)))
            return
        on = eq_on(v, "customers_id", "customers", "id")
        ctxs = ref.join_rows(w, v, [("customers", "left_outer", on)])
        ctxs = [x for x in ctxs if wp(x) is True]
        linkof = lambda x: None if x[link_view] is None else x[link_view][link_col]
        timeof = lambda x: x[v][time_col]
        u = unit[:-1]

        def chain(diff):
            out = [[(x, timeof(x)) for x in ctxs if preds[0](x) is True]]
            for p in preds[1:]:
                nxt = []
                for x in ctxs:
                    if p(x) is not True or timeof(x) is None or linkof(x) is None:
                        continue
                    for y, t1 in out[-1]:
                        if linkof(y) == linkof(x) and timeof(y) is not None and timeof(y) < timeof(x) and diff(t1, timeof(x)) <= value:
                            nxt.append((x, t1))
                out.append(nxt)
            return out
        ways = [chain(lambda a, b: difference(dialect, a, b, u))]
        if dialect == "POSTGRES":
            ways.append(chain(lambda a, b: postgres_age(a, b, u)))
        ck.counts["filters" if as_filter else "queries"] += 1
        ck.seen("dialect", dialect), ck.seen("steps", len(steps)), ck.seen("unit", unit)
        ck.counts["reached_last"] += bool(ways[0][-1]) and len(steps) > 1
        ck.case((dialect, repr(req)), {"request": req, "sql": sql, "rows": rows[:6]}, nontrivial=len(steps) > 1 and len(ways[0][1]) > 0)
        if as_filter:
            problems = []
            for levels in ways:
                inside = lambda k: {key(linkof(x)) for x, _ in levels[k - 1] if linkof(x) is not None}
                left = inside(a) & inside(b) if how == "converted" else inside(a) - inside(b)
                kept = [x for x in ctxs if linkof(x) is not None and key(linkof(x)) in left]
                exp = ref.grouped(w, kept, dq, mets)
                problems.append(drive.judge(w, exp, cols, rows, dq, mets))
            if all(problems):
                ck.bad("text-step" if text else "funnel-filter", "a funnel filter keeps other entities", dict(info, sql=sql, problem=problems[0]))
            return
        want = ["step", "step_order"] + [m.id.replace(".", "_") for m in mets] + [q.alias for q in dq]
        if cols != [x.lower() for x in want]:
            ck.bad("columns", "columns of a funnel", dict(info, sql=sql, columns=cols, expected=want))
            return
        nm = len(mets)

        def expected(levels, fn):
            out = {}
            for s, level in enumerate(levels, 1):
                groups = {(): []} if not dq else {}
                for x, _ in level:
                    groups.setdefault(tuple(key(q.ev(x)) for q in dq), []).append(x)
                for k, xs in groups.items():
                    out[(s, k)] = [fn(m, xs) for m in mets]
            return out

        def differs(exp):
            seen = set()
            for row in rows:
                k = (row[1], tuple(key(x) for x in row[2 + nm:]))
                if row[0] != "Step %s" % row[1] or k not in exp or k in seen:
                    return "row %r" % (row,)
                seen.add(k)
                if not all(in_set(x, acc) for x, acc in zip(row[2:2 + nm], exp[k])):
                    return "row %r, expected %r" % (row, exp[k])
                if hv and not any(x is not None and x > hv[1] for x in exp[k][hv[0]]):
                    return "row %r does not satisfy the having condition" % (row,)
            for k, accs in exp.items():
                if k not in seen and not (hv and any(x is None or not x > hv[1] for x in accs[hv[0]])):
                    return "missing %r %r" % (k, accs)
            order = [row[1] for row in rows]
            if order != sorted(order):
                return "step order %r" % order
            return None
        problems = [differs(expected(levels, lambda m, xs: ref.metric(w, m, xs, strict=False) + ([None] if m.agg == "count" and not xs else []))) for levels in ways]
        if not all(problems):
            return
        mech = "text-step" if text else "funnel"
        if dialect not in SYMMETRIC and not all(differs(expected(levels, repeated_metric)) for levels in ways):
            mech = "repeated-events"
        ck.bad(mech, "the funnel differs from the entities and events of each step", dict(info, sql=sql, problem=problems[0]))

    ck.run("worlds", ck.pick(600, 8000), worlds)


from mlv import drive
ck = Check("C12", "random event data with repeated and simultaneous events, funnels of one to four steps in ten dialects, as queries and as filters, with dimensions, where and having; "
           "compared with chains of events built from the rows; non-trivial cases have a second step some entity reaches")
main(ck, body, need=[("queries", 900), ("filters", 150), ("reached_last", 300)])
