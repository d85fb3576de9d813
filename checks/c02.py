import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from metrics_layer.core.utils import flatten_filters
from mlv import ref
from mlv.drive import *
from mlv.sqlparse_ import SqlError
from mlv.world import *
from metrics_layer.core.exceptions import JoinError, QueryError


def body(ck):
    def one(r, i):
        dialect = SYMMETRIC[i % len(SYMMETRIC)] if i % 8 else r.choice(["DATABRICKS", "TRINO", "SQL_SERVER", "DRUID"])
        w = tree_world(r, dialect, median=False, fan=0.8)
        conn = w.connection()
        dims_all = [q for v in w.views.values() for q in v.dims()]
        ms_all = [m for v in w.views.values() for m in v.measures()]
        for _ in range(6):
            metrics = r.sample(ms_all, min(len(ms_all), r.choice([1, 1, 2, 3])))
            dims = [q for q in r.sample(dims_all, r.choice([0, 1, 1, 2])) if not q.pk]
            used = {x.view for x in metrics + dims}
            if len(used) < 2 and r.random() < 0.8:
                other = [q for q in dims_all if q.view not in used and not q.pk]
                if other:
                    dims.append(r.choice(other))
            req = {"metrics": [m.id for m in metrics], "dimensions": [q.id for q in dims]}
            pred = None
            if r.random() < 0.4:
                req["where"], pred = where_clause(r, [q for q in dims_all if q.view in used or r.random() < 0.15])
            having, used_metrics = None, list(metrics)
            hm = [m for m in ms_all if m.vt == "num" and m.view in used]
            if hm and r.random() < 0.25:
                req["having"], having = gen_having(r, hm)
                used_metrics += [m for m in hm if any(h["field"] == m.id for h in flatten_filters(req["having"]))]
            info = {"dialect": dialect, "request": req, "edges": [repr(e) for e in w.dedges.values()]}
            try:
                sql = compile_(conn, dialect, req)
            except (JoinError, QueryError) as e:
                ck.counts["refused"] += 1
                continue
            info["sql"] = sql
            try:
                cols, rows, eng = execute(w, sql)
            except SqlError as e:
                info["tables"] = w.tables()
                ck.bad("sql-error:" + type(e).__name__, "compiled SQL does not run: %s" % e, info)
                continue
            base, joins, problem = plan_joins(w, join_sequence(w, sql))
            if problem:
                ck.counts["join_problem_left_to_C03"] += 1
                continue
            ctxs = ref.join_rows(w, base, [(e.b, e.jtype, e.on) for e in joins])
            if pred:
                ctxs = [c for c in ctxs if pred(c) is True]
            repeated = [v for v in w.views if len([c for c in ctxs if c.get(v)]) != len(ref.own_rows(w, v, ctxs))]
            inflate = any(m.view in repeated or any(x.view in repeated for x in m.refs) for m in used_metrics)
            if dialect not in SYMMETRIC and inflate:
                # plain aggregation is wrong here; C02 says such a warehouse may only aggregate plainly when the join
                # cannot repeat rows, which depends on the declared relationships, not on this data
                ck.counts["unsupported_warehouse_fanout"] += 1
                rels = {e.rel for e in joins}
                m0 = metrics[0]
                if any(_additive(m) for m in used_metrics):
                    ck.bad("no-symmetric-aggregates", "a warehouse without symmetric aggregates answered a request whose join repeats the metric's rows", info)
                continue
            if dialect not in SYMMETRIC:
                strict = False
            ck.seen("dialect", dialect)
            ck.seen("joins", "+".join(sorted(e.rel for e in joins)))
            for m in metrics:
                ck.seen("aggregate", m.agg)
            ck.counts["joined" if joins else "single"] += 1
            ck.counts["fanned_out"] += inflate
            ck.counts["rows_out"] += len(rows)
            ck.case((dialect, req, len(ctxs), [repr(e) for e in joins]),
                    {"dialect": dialect, "request": req, "sql": sql, "joins": [repr(e) for e in joins], "rows": rows[:3]},
                    nontrivial=bool(rows) and inflate)
            exp = ref.grouped(w, ctxs, dims, metrics, having, strict=False)
            diff = judge(w, exp, cols, rows, dims, metrics)
            if diff:
                info["joins"] = [repr(e) for e in joins]
                info["tables"] = w.tables()
                ck.bad("wrong-result", diff, info)

    def _additive(m):
        if m.agg == "number":
            return any(_additive(x) for x in m.refs)
        return m.agg in ("sum", "count", "average")

    ck.run("join", ck.pick(700, 8000), one)


ck = Check("C02", "random trees of 2-4 views joined by foreign keys, one-to-one keys and custom joins, with unmatched, "
           "repeated and NULL keys; non-trivial = the join repeated rows of a requested metric's view and rows came back")
main(ck, body, need=[("fanned_out", 150), ("joined", 300), ("rows_out", 500)])
