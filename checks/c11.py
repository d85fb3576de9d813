import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import copy
from mlv.common import Check, main
from mlv.meta import *
from mlv.rich import Special, DIV
from mlv.values import same
from mlv.world import CUMULATIVE

PERIODS = ["date", "week", "month", "quarter", "year"]


WS = [0]


def start(t, tf):
    """The start of the period containing a timestamp, from the calendar."""
    d = t.date() if isinstance(t, dt.datetime) else t
    if tf == "week":
        d -= dt.timedelta((d.weekday() - WS[0]) % 7)
    elif tf == "month":
        d = d.replace(day=1)
    elif tf == "quarter":
        d = d.replace(month=3 * ((d.month - 1) // 3) + 1, day=1)
    elif tf == "year":
        d = d.replace(month=1, day=1)
    return d


def ex(w, sql, tables=None):
    """As meta.ex, with the date spine from the period the data starts in until a few days after now."""
    cols, rows, _ = execute(w, sql, now=w.now, clip=(w.lo, w.now + dt.timedelta(5)), tables=tables)
    return [c.lower() for c in cols], rows


def week_start(w, c, dialect):
    """The day the compiled weeks start on (which day it should be is the matter of C09)."""
    rows = []
    for d in ("orders.made_week", "customers.joined_week"):
        rows += ex(w, compile_(c, dialect, {"metrics": [], "dimensions": [d]}))[1]
    return next((day(x[0]).weekday() for x in rows if x[0] is not None), 0)


def day(x):
    return x.date() if isinstance(x, dt.datetime) else x


FINER = {"date": 0, "week": 1, "month": 2, "quarter": 3, "year": 4}


def body(ck):
    def one_world(r, i):
        dialect = sorted(CUMULATIVE)[i % len(CUMULATIVE)]
        w = make(r, dialect)
        c = w.connection()
        WS[0] = week_start(w, c, dialect)
        for _ in range(6):
            one(r, w, c, dialect)

    def make(r, dialect, mixed=False):
        w = rich_world(r, dialect, rows=(8, 14, 20), fan=False, week=True, nonadd=False, spend=False, merged=False, cumulative=True, empty=0.05, span=r.choice([20, 70, 150]))
        w.now = w.base + dt.timedelta(r.randint(w.span // 2, w.span + 30), r.randint(0, 86399))
        w.lo = TS(w.base.year, 1, 1)
        o, cu = w.views["orders"], w.views["customers"]

        def special(name, defn, **kw):
            f = Special("orders", name, dict({"name": name, "field_type": "measure"}, **defn), **kw)
            o.add(f)
            w.specials[name] = f
            return f
        f = o.fields
        special("running_buyers", {"type": "cumulative", "measure": "buyers"}, sk="cumulative", base=f["buyers"])
        special("running_avg", {"type": "cumulative", "measure": "avg_amt"}, sk="cumulative", base=f["avg_amt"])
        special("running_max", {"type": "cumulative", "measure": "max_amt"}, sk="cumulative", base=f["max_amt"])
        special("running_a", {"type": "cumulative", "measure": "kind_a_amt"}, sk="cumulative", base=f["kind_a_amt"])
        op = r.choice(["<", "<=", ">"])
        special("running_paid", {"type": "cumulative", "measure": "total_amt", "cumulative_where": "${orders.paid_date} %s ${cumulative_date}" % op},
                sk="cumulative", base=f["total_amt"], cw=("paid", op, True))
        special("running_paid_day", {"type": "cumulative", "measure": "order_count", "update_where_timeframe": False,
                                     "cumulative_where": "${orders.paid_date} %s ${cumulative_date}" % op},
                sk="cumulative", base=f["order_count"], cw=("paid", op, False))
        special("running_customers", {"type": "cumulative", "measure": "customers.customer_count"}, sk="cumulative", base=cu.fields["customer_count"])
        if mixed:
            special("paid_gap", {"type": "number", "sql": "${running_amt} - ${total_amt}"}, sk="cumulative_number", refs=["running_amt", "total_amt"],
                formula=lambda x, y: None if x is None or y is None else x - y)
        return w

    def one(r, w, c, dialect):
        o = w.views["orders"]
        base_view = "customers" if r.random() < 0.12 else "orders"
        sp = [s for s in w.specials.values()]
        if base_view == "customers":
            asked = [w.specials["running_customers"]]
            plain = r.sample(plain_metrics(w, "customers"), r.choice([0, 1]))
            dname = "customers.joined"
            pool = ["customers.region", "customers.seg"]
        else:
            asked = r.sample([s for s in sp if s.name != "running_customers"], r.choice([1, 1, 1, 2, 3]))
            plain = r.sample(plain_metrics(w, "orders"), r.choice([0, 0, 1, 2]))
            dname = "orders.made"
            pool = ["orders.kind", "orders.chan", "customers.region", "customers.seg"]
        P = r.choice(PERIODS)
        first_day = w.base - dt.timedelta(2)
        w.lo = TS(*start(first_day, P).timetuple()[:3])
        others = r.sample(pool, r.choice([0, 0, 1, 1, 2]))
        dims = [dname + "_" + P] + others
        r.shuffle(dims)
        mets = asked + plain
        r.shuffle(mets)
        asked, plain = [m for m in mets if m in asked], [m for m in mets if m in plain]
        req = {"metrics": [m.id for m in mets], "dimensions": dims}
        where = []
        if r.random() < 0.5:
            views = ["customers"] if base_view == "customers" else ["orders", "customers"]
            cand = [q for v in views for q in qd(w, v, ("date", "month")) if not (q.tf and q.id.rsplit("_", 1)[0] == dname)]
            where = where_clause(r, cand, r.choice([1, 1, 2]), nest=0.3)[0]
        dfilter = None
        if r.random() < 0.4:
            tf = r.choice([x for x in PERIODS if FINER[x] >= FINER[P] and (P != "week" or x == "week") and (x != "week" or P in ("date", "week"))])
            at = w.base + dt.timedelta(r.randint(-5, w.span))
            at = dt.datetime.combine(start(at, tf), dt.time())
            opn, fn = r.choice([("greater_or_equal_than", lambda a, b: a >= b), ("less_than", lambda a, b: a < b), ("greater_than", lambda a, b: a > b),
                                ("less_or_equal_than", lambda a, b: a <= b), ("equal_to", lambda a, b: a == b), ("not_equal_to", lambda a, b: a != b)])
            tests = [({"field": dname + "_" + tf, "expression": opn, "value": at}, lambda d, fn=fn, at=at, tf=tf: fn(start(d, tf), at.date()))]
            if r.random() < 0.4:
                at2 = dt.datetime.combine(start(at + dt.timedelta(r.randint(0, 40)), tf), dt.time())
                tests.append(({"field": dname + "_" + tf, "expression": "less_or_equal_than", "value": at2}, lambda d, at=at2, tf=tf: start(d, tf) <= at.date()))
            if len(tests) == 2 and r.random() < 0.5:
                op = r.choice(["AND", "OR"])
                where = where + [{"conditions": [t[0] for t in tests], "logical_operator": op}]
                dfilter = (lambda d: any(t[1](d) for t in tests)) if op == "OR" else (lambda d: all(t[1](d) for t in tests))
            else:
                where = where + [t[0] for t in tests]
                dfilter = lambda d: all(t[1](d) for t in tests)
            r.shuffle(where)
        if where:
            req["where"] = where
        hv = None
        if r.random() < 0.25:
            h = r.choice(mets)
            if getattr(h, "sk", "") != "cumulative_number":
                n = r.choice([0, 1, 3, 10])
                if not (getattr(h, "agg", "") in ("min", "max") and "ts" in h.name):
                    req["having"] = [{"field": h.id, "expression": "greater_than", "value": n}]
                    hv = (h, n)
        info = {"dialect": dialect, "request": req}
        sql = compile_(c, dialect, req)
        try:
            cols, rows = ex(w, sql)
        except SqlError as e:
            ck.bad("invalid-sql", "the cumulative query does not run", dict(info, sql=sql, problem=repr(e)))
            return
        want_cols = [d.replace(".", "_") for d in dims] + [m.id.replace(".", "_") for m in mets]
        if cols != want_cols:
            ck.bad("columns", "columns", dict(info, sql=sql, columns=cols))
            return
        # ---- what each part is on its own
        is_date = lambda f: "field" in f and f["field"].startswith(dname + "_") or "conditions" in f and all(is_date(x) for x in f["conditions"])
        row_where = [f for f in where if not is_date(f)]
        cums, more = [], []
        for s in asked:
            if s.sk == "cumulative":
                cums.append(s)
            else:
                for x in s.refs:
                    (cums if x in w.specials else more).append(w.specials.get(x) or o.fields[x])
        cums = [x for j, x in enumerate(cums) if x not in cums[:j]]
        non = [x for j, x in enumerate(plain + more) if x not in (plain + more)[:j]]
        kdims = others

        def alone(metric_ids, ds, wh, tables=None):
            q = {"metrics": metric_ids, "dimensions": ds}
            if wh:
                q["where"] = wh
            s2 = compile_(c, dialect, q)
            return ex(w, s2, tables=tables)[1]
        cache = {}
        src = w.views[base_view]

        def rows_until(s, P0):
            out = []
            for row in src.rows:
                if base_view == "customers":
                    t = row["joined"]
                else:
                    t = row["made"]
                if t is None or start(t, P) > P0:
                    continue
                if getattr(s, "cw", None):
                    cname, op, upd = s.cw
                    x = row[cname]
                    if x is None:
                        continue
                    x = start(x, P if upd else "date")
                    if not (x < P0 if op == "<" else x <= P0 if op == "<=" else x > P0):
                        continue
                out.append(row)
            return out

        def value(s, P0):
            """{combination: value of the base metric over the rows up to the period}"""
            k = (s.name, P0)
            if k not in cache:
                t = tables_with(w, {base_view: rows_until(s, P0)})
                cache[k] = {tuple(key(x) for x in row[:len(kdims)]): row[-1] for row in alone([s.base.id], kdims, row_where, t)}
                if not kdims and not rows_until(s, P0):
                    cache[k] = {}  # no row at all: no row in the result
            return cache[k]
        # with no other dimension the result of an aggregate query always has a row: tell "no row" from "NULL"

        def has_rows(s, P0):
            k = ("n", s.name, P0)
            if k not in cache:
                pk = base_view + ".id"
                t = tables_with(w, {base_view: rows_until(s, P0)})
                q = {"metrics": [], "dimensions": [pk]}
                if row_where:
                    q["where"] = row_where
                cache[k] = bool(ex(w, compile_(c, dialect, q), tables=t)[1])
            return cache[k]

        def shown(P0):
            return P0 <= w.now.date() and (dfilter is None or dfilter(P0))

        def cell(s, P0, K):
            if P0 is None or not shown(P0) or (not kdims and not has_rows(s, P0)):
                return None
            return value(s, P0).get(K)
        di = dims.index(dname + "_" + P)
        oi = [dims.index(d) for d in others]
        nd = len(dims)
        got = {}
        for row in rows:
            P0 = None if row[di] is None else day(row[di])
            K = tuple(key(row[j]) for j in oi)
            if (P0, K) in got:
                ck.bad("repeated", "a period and combination appears twice", dict(info, sql=sql, row=row))
                return
            got[(P0, K)] = dict(zip([m.id for m in mets], row[nd:]))
        ck.counts["queries"] += 1
        ck.seen("dialect", dialect), ck.seen("period", P), ck.seen("dims", len(dims)), ck.seen("metrics", (len(cums), len(non)))
        ck.case((dialect, repr(req), len(rows)), {"request": req, "sql": sql, "rows": len(rows)}, nontrivial=len(rows) > 1)
        # ---- expected
        expected = {}
        nulls = set()
        if non:
            for row in alone([m.id for m in non], dims, where):
                P0 = None if row[di] is None else day(row[di])
                K = tuple(key(row[j]) for j in oi)
                expected[(P0, K)] = dict(zip([m.id for m in non], row[nd:]))
        else:
            d = day(w.lo)
            periods = []
            while d <= w.now.date():
                if start(d, P) not in periods[-1:]:
                    periods.append(start(d, P))
                d += dt.timedelta(1)
            first = cums[0]
            # rows of the first metric; others only with the same rows (without their own condition)
            for P0 in periods:
                if shown(P0):
                    for K in value(first, P0):
                        if kdims or has_rows(first, P0):
                            expected[(P0, K)] = {}
        sample = sorted(expected, key=str)
        if len(sample) > 14:
            sample = r.sample(sample, 14)
        if hv is None:
            if set(got) != set(expected) :
                miss, extra = set(expected) - set(got), set(got) - set(expected)
                ck.bad("rows", "periods or combinations are missing or added", dict(info, sql=sql, missing=sorted(map(str, miss))[:6], extra=sorted(map(str, extra))[:6]))
                return
        elif set(got) - set(expected):
            ck.bad("rows", "rows the metrics alone do not have", dict(info, sql=sql, extra=sorted(map(str, set(got) - set(expected)))[:6]))
            return
        for (P0, K) in sample:
            vals = dict(expected[(P0, K)])
            lost = {}
            for j, s in enumerate(cums):
                vals[s.id] = cell(s, P0, K)
                joined = non or j > 0
                lost[s.id] = None if joined and ("0",) in K else vals[s.id]
            low = dict(vals, **lost)
            full = []
            for vv in (vals, low):
                vv = dict(vv)
                for s in asked:
                    if s.sk == "cumulative_number":
                        vv[s.id] = s.formula(*[vv["orders." + x] for x in s.refs])
                full.append(vv)
            g = got.get((P0, K))
            ok = []
            for vv in full:
                if hv and not (vv[hv[0].id] is not None and vv[hv[0].id] > hv[1]):
                    ok.append(g is None)
                else:
                    ok.append(g is not None and all(same(g[m.id], vv[m.id]) for m in mets))
            ck.counts["cells"] += len(mets)
            if ok[0]:
                continue
            bad = dict(info, sql=sql, period=str(P0), combination=K, expected={m.id: full[0][m.id] for m in mets}, got=g)
            ck.bad("null-combination" if ok[1] else "value", "a cumulative value is not the aggregate of the rows up to its date", bad)
            return

    def no_date(r, i):
        """Without a date dimension."""
        dialect = sorted(CUMULATIVE)[i % len(CUMULATIVE)]
        w = rich_world(r, dialect, rows=(8,), span=20, fan=False, nonadd=False, spend=False, merged=False, cumulative=True, empty=0)
        for row in w.views["orders"].rows:
            row["made"], row["amt"] = row["made"] or w.base, row["amt"] or 1.0
        w.lo, w.now = w.base, w.base + dt.timedelta(w.span + 5)
        c = w.connection()
        req = {"metrics": ["orders.running_count"], "dimensions": []}
        sql = compile_(c, dialect, req)
        cols, rows = ex(w, sql)
        ck.case((dialect, "nodate", i), {"request": req, "sql": sql, "rows": rows})
        if len(rows) != 1 or rows[0][0] != len(w.views["orders"].rows):
            ck.bad("no-date", "a cumulative metric without a date dimension is not the total to date", {"request": req, "sql": sql, "got": rows[:3], "expected": len(w.views["orders"].rows)})

    def mixed(r, i):
        """A number metric over a cumulative and an ordinary metric."""
        dialect = sorted(CUMULATIVE)[i % len(CUMULATIVE)]
        w = make(r, dialect, mixed=True)
        req = {"metrics": ["orders.paid_gap"], "dimensions": ["orders.made_month"]}
        sql = compile_(w.connection(), dialect, req)
        ck.case((dialect, "mixed", i), {"request": req, "sql": sql})
        try:
            ex(w, sql)
        except SqlError as e:
            ck.bad("mixed-number", "a metric over a cumulative and an ordinary metric does not run", {"request": req, "sql": sql, "problem": repr(e)})

    def cross_view(r, i):
        """Cumulative metrics of two views by the date of one of them: each accumulates by its own view's date."""
        dialect = sorted(CUMULATIVE)[i % len(CUMULATIVE)]
        w = make(r, dialect)
        o, cu = w.views["orders"], w.views["customers"]
        if not o.rows or not cu.rows:
            return
        same_name = r.random() < 0.5
        cdate = "joined"
        if same_name:
            f = cu.fields.pop("joined")
            f.name = f.defn["name"] = cdate = "made"
            cu.add(f)
            cu.extra["default_date"] = "made"
        # every customer has an order, so no customer is missing from the joined rows
        for j, x in enumerate(cu.rows):
            if not any(y["customers_id"] is not None and key(y["customers_id"]) == key(x["id"]) for y in o.rows):
                o.rows.append(dict(r.choice(o.rows), id=9000 + j if isinstance(x["id"], int) else "z%03d" % j, customers_id=x["id"]))
        cu.add(F("customers", "best", "measure", "max", "num", {"name": "best", "field_type": "measure", "type": "max", "sql": "${TABLE}.score"},
                 col("customers", "score"), agg="max"))
        cu.add(F("customers", "people", "measure", "count_distinct", "num", {"name": "people", "field_type": "measure", "type": "count_distinct", "sql": "${TABLE}.id"},
                 col("customers", "id"), agg="count_distinct"))
        for v, n, m in ((cu, "running_best", "best"), (cu, "running_people", "people"), (o, "running_top", "max_amt"), (cu, "running_sum", "total_score")):
            v.add(Special(v.name, n, {"name": n, "field_type": "measure", "type": "cumulative", "measure": m}))
        c = w.connection()
        WS[0] = week_start(w, c, dialect) if not same_name else 0
        P = r.choice([p for p in PERIODS if p != "week"])
        summed = r.random() < 0.2
        mets = ["orders.running_top", "customers.running_sum" if summed else r.choice(["customers.running_best", "customers.running_people"])]
        r.shuffle(mets)
        req = {"metrics": mets, "dimensions": ["orders.made_" + P]}
        w.lo = TS(*start(w.base - dt.timedelta(2), P).timetuple()[:3])
        sql = compile_(c, dialect, req)
        try:
            cols, rows = ex(w, sql)
        except SqlError as e:
            ck.bad("invalid-sql", "the cumulative query does not run", {"request": req, "sql": sql, "problem": repr(e)})
            return
        ck.counts["cross_view"] += 1
        ck.case((dialect, "cross", i), {"request": req, "sql": sql, "rows": rows[:3]}, nontrivial=len(rows) > 1)

        def value(m, P0):
            if m == "orders.running_top":
                vals = [x["amt"] for x in o.rows if x["made"] is not None and start(x["made"], P) <= P0 and x["amt"] is not None]
                return max(vals) if vals else None
            mine = [x for x in cu.rows if x["joined"] is not None and start(x["joined"], P) <= P0]
            if m == "customers.running_people":
                return len(mine)
            vals = [x["score"] for x in mine if x["score"] is not None]
            if m == "customers.running_sum":
                return sum(vals) if vals else None
            return max(vals) if vals else None
        for row in rows:
            P0 = day(row[0])
            for m, got in zip(mets, row[1:]):
                want = value(m, P0)
                if not same(got, want) and not (got in (0, None) and want in (0, None)):
                    ck.bad("cross-view-sum" if m == "customers.running_sum" else "cross-view", "a cumulative metric of another view does not accumulate by its own date",
                           {"dialect": dialect, "request": req, "sql": sql, "period": str(P0), "metric": m, "expected": want, "got": got, "same_date_name": same_name})
                    return

    ck.run("mixed", 4, mixed)
    ck.run("cross_view", ck.pick(60, 1200), cross_view)
    ck.run("worlds", ck.pick(105, 3000), one_world)
    ck.run("no_date", 4, no_date)


ck = Check("C11", "random cumulative metrics (over sums, counts, averages, ratios, with conditions on another date), periods, dimensions, filters and having; sampled cells compared "
           "with the base metric executed on the rows up to the period; non-trivial cases return several rows")
main(ck, body, need=[("queries", 500), ("cells", 2500), ("cross_view", 40)])
