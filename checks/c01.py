import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from mlv import ref
from mlv.drive import *
from mlv.sqlparse_ import SqlError
from mlv.values import key
from mlv.world import *


def raw_expected(w, ctxs, dims, metrics):
    items = []
    for m in metrics:
        leaves = [m]
        while any(x.agg == "number" for x in leaves):
            leaves = [y for x in leaves for y in (x.refs if x.agg == "number" else [x])]
        items.extend(x for x in sorted(leaves, key=lambda x: x.id) if x not in items)
    cols = ["%s_%s" % (q.view, q.name) for q in dims] + ["%s_%s" % (m.view, m.name) for m in items]
    out = []
    for c in ctxs:
        out.append([q.ev(c) for q in dims] + [m.ev(c) if all(p(c) is True for p in m.filters) else None for m in items])
    return cols, out


def body(ck):
    def one(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = World(dialect)
        v = basic_view(r, w, r.choice(["orders", "ev", "t1"]))
        conn = w.connection()
        dims_all, ms_all = v.dims(), v.measures()
        for _ in range(8):
            raw = r.random() < 0.15
            metrics = r.sample(ms_all, min(len(ms_all), r.choice([0, 1, 1, 2, 3])))
            pool = [q for q in dims_all if not q.pk]
            dims = r.sample(pool, r.choice([0, 1, 1, 2, 3]))
            if raw:
                if not metrics:
                    continue
                dims = [q for q in dims_all if q.pk] + dims
                r.shuffle(dims)
            if not dims and not metrics:
                continue
            req = {"metrics": [m.id if r.random() < .7 else m.name for m in metrics],
                   "dimensions": [q.id if r.random() < .7 else q.name for q in dims]}
            pred = None
            if r.random() < 0.6:
                req["where"], pred = where_clause(r, dims_all)
            having = None
            hm = [m for m in ms_all if m.vt == "num"]
            if not raw and metrics and hm and r.random() < 0.35:
                req["having"], having = gen_having(r, hm)
            order = limit = None
            if not raw and r.random() < 0.4:
                req["order_by"], order = gen_order(r, list(dims) + list(metrics))
            if r.random() < 0.3:
                limit = req["limit"] = r.choice([1, 2, 5, 100])
            info = {"dialect": dialect, "request": req}
            try:
                sql = compile_(conn, dialect, req)
            except Exception as e:
                ck.bad("refused:" + type(e).__name__, "a well-formed request was refused: %r" % e, info)
                continue
            info["sql"] = sql
            try:
                cols, rows, eng = execute(w, sql)
            except SqlError as e:
                info["tables"] = w.tables()
                ck.bad("sql-error:" + type(e).__name__, "compiled SQL does not run: %s" % e, info)
                continue
            ctxs = [c for c in ref.single_rows(w, v.name) if pred is None or pred(c) is True]
            ck.seen("dialect", dialect)
            ck.counts["rows_in"] += len(ctxs)
            ck.counts["rows_out"] += len(rows)
            ck.counts["raw" if raw else "grouped"] += 1
            for m in metrics:
                ck.seen("aggregate", m.agg + ("+filter" if m.filters else ""))
            ck.case((dialect, req, len(ctxs)), {"dialect": dialect, "request": req, "sql": sql, "rows": rows[:3]},
                    nontrivial=len(rows) > 0)
            if raw:
                wc, exp = raw_expected(w, ctxs, dims, metrics)
                a = sorted([tuple(key(x) for x in e) for e in exp])
                b = sorted([tuple(key(x) for x in e) for e in rows])
                if [c.lower() for c in cols] != [c.lower() for c in wc]:
                    diff = "raw columns %r, expected %r" % (cols, wc)
                elif limit is not None:
                    pool_ = list(a)
                    diff = None if len(b) == min(limit, len(a)) else "raw row count %d" % len(b)
                    for x in b:
                        if x in pool_:
                            pool_.remove(x)
                        else:
                            diff = "unexpected raw row %r" % (x,)
                else:
                    diff = None if a == b else "raw rows differ: got %r expected %r" % (b, a)
            else:
                exp = ref.grouped(w, ctxs, dims, metrics, having)
                diff = judge(w, exp, cols, rows, dims, metrics, limit, order)
            if diff:
                info["tables"] = w.tables()
                info["fields"] = [f.defn for f in v.fields.values()]
                ck.bad("wrong-result", diff, info)
    ck.run("single", ck.pick(500, 6000), one)


ck = Check("C01", "random single view (columns, derived dimensions, tiers, cases, filtered metrics, metrics over metrics), "
           "random rows, random request; non-trivial = the query returned rows; distinct by warehouse, request, input size")
ck.assumptions = ["the reference SQL engine in mlv/sqlengine.py implements each warehouse's documented semantics"]
main(ck, body, need=[("grouped", 200), ("raw", 20), ("rows_out", 500)])
