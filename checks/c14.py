import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from mlv.meta import *
from mlv import drive, ref
from mlv.values import and3
from mlv.world import TSQL, query_filter
from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError, JoinError


class Out:
    """A column of the merged result, as something to put conditions on."""

    def __init__(self, alias, fid, vt, tf=None, f=None):
        self.alias, self.id, self.vt, self.tf, self.f = alias, fid, vt, tf, f

    def ev(self, row):
        return row[self.alias]


def field_of(w, fid):
    v, n = fid.split(".")
    for q in w.views[v].dims():
        if q.name == n:
            return q
    for m in list(w.specials.values()) + w.views[v].measures():
        if m.name == n and m.view == v:
            return m
    raise KeyError(fid)


STR = {"orders": ["kind", "chan"], "visits": ["kind"], "customers": ["region", "seg"], "spend": ["kind"]}
TIME = {"orders": ["made", "paid"], "visits": ["seen"], "customers": ["joined"], "spend": ["spent"]}


def body(ck):
    def worlds(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = rich_world(r, dialect, rows=(5, 9, 14), fan=False, nonadd=r.random() < 0.3, cumulative=False, empty=0.05, span=r.choice([10, 40, 70]))
        c = w.connection()
        for _ in range(5):
            one(r, w, c, dialect)
        refused(r, w, c, dialect)

    def part(r, w, first, used):
        """A sub query and the fields it can be joined on: [(own field, source field)]."""
        v = r.choice(list(w.views))
        pool = [m for m in plain_metrics(w, v) if "ts" not in m.name and (m.id not in used or r.random() < 0.1)] or plain_metrics(w, v)
        ms = [m.id for m in r.sample(pool, r.choice([1, 1, 2]) if len(pool) > 1 else 1)]
        if r.random() < 0.1 and v == "orders" and w.specials:
            ms.append(r.choice([s.id for s in w.specials.values() if s.view == "orders" and s.sk in ("nonadd", "merged") and s.name != "roi"]))
        merged = any("amt_per_visit" in m for m in ms) or "orders.paid_amt" in ms and len(ms) > 1
        home = ["customers"] if merged or (v in ("orders", "visits") and r.random() < 0.4) else [v]
        dims, joins = [], []
        if first is None:
            for x in r.sample(STR[home[0]], r.choice([1, 1, len(STR[home[0]])])):
                dims.append(home[0] + "." + x)
            if not merged and r.random() < 0.5:
                dims.append(v + "." + r.choice(TIME[v]) + "_" + r.choice(["date", "month"]))
            if not merged and r.random() < 0.2:
                dims.append(r.choice([q.id for q in qd(w, v, ()) if q.id not in dims]))
        else:
            strs = [d for d in first["dimensions"] if field_of(w, d).vt == "str"]
            for s in r.sample(strs, min(len(strs), r.choice([1, 1, 2]))):
                d = home[0] + "." + r.choice(STR[home[0]])
                if d not in dims:
                    dims.append(d)
                    joins.append((d, s))
            ts = [d for d in first["dimensions"] if field_of(w, d).vt == "ts"]
            if ts and not merged and (r.random() < 0.7 or not joins):
                s = r.choice(ts)
                d = v + "." + r.choice(TIME[v]) + "_" + s.rsplit("_", 1)[1]
                dims.append(d)
                joins.append((d, s))
            if not merged and r.random() < 0.25:
                extra = r.choice([q.id for q in qd(w, v, ("month",))])
                if extra not in dims and extra not in used:
                    dims.append(extra)
        q = {"metrics": ms, "dimensions": dims}
        views = home if merged else {v, home[0]}
        if r.random() < 0.35:
            q["where"] = where_clause(r, [x for y in views for x in qd(w, y, ("date",))], r.choice([1, 1, 2]))[0]
        plain = [m for m in ms if m.split(".")[1] not in w.specials]
        if r.random() < 0.2 and plain and not merged:
            q["having"] = [{"field": r.choice(plain), "expression": "greater_than", "value": r.choice([0, 1, 2])}]
        if r.random() < 0.15 and not merged and w.dialect not in TSQL:
            q["order_by"] = [{"field": x, "sort": r.choice(["asc", "desc"])} for x in [ms[0]] + dims]
            q["limit"] = r.choice([1, 2, 4])
        if joins:
            q["join_fields"] = [{"field": a, "source_field": b} for a, b in joins]
            jt = r.choice([None, "left_outer", "inner", "full_outer"])
            if jt:
                q["join_type"] = jt
        return q

    def one(r, w, c, dialect):
        parts, used = [], set()
        for k in range(r.choice([2, 2, 2, 3])):
            for _ in range(20):
                q = part(r, w, parts[0] if parts else None, used)
                if not parts or "join_fields" in q:
                    break
            else:
                return
            parts.append(q)
            used |= set(q["metrics"] + q["dimensions"])
        req = {"merged_queries": parts}
        mapped = r.random() < 0.15
        if mapped:
            for q in parts:  # the mapped name stands for the view's own field, also as a join field
                if q["metrics"][0].split(".")[0] != "customers" and len({m.split(".")[0] for m in q["metrics"]}) == 1:
                    own = q["metrics"][0].split(".")[0] + ".kind"
                    if own in q["dimensions"] and not any("merged" in getattr(w.specials.get(m.split(".")[1]), "sk", "") for m in q["metrics"]):
                        q["mapped"] = own
        texts = []
        for q in parts:
            own = {k: v for k, v in q.items() if k in ("metrics", "dimensions", "where", "having", "order_by", "limit")}
            texts.append(compile_(c, dialect, own))
        results = []
        for t in texts:
            try:
                results.append(ex(w, t))
            except SqlError as e:
                ck.counts["part_not_run"] += 1
                return
        # the join of the parts' own results
        cols, rows = results[0]
        merged = [dict((("0", a), v) for a, v in zip(cols, row)) for row in rows]
        asked = lambda q: [x.replace(".", "_") for x in q["metrics"] + q["dimensions"]]
        shown = {a: ("0", a) for a in cols if a in asked(parts[0])}
        hidden = set()
        for k, (q, (cols, rows)) in enumerate(list(zip(parts, results))[1:], 1):
            on = [(j["field"].replace(".", "_"), j["source_field"].replace(".", "_")) for j in q["join_fields"]]
            hidden |= {a for a, _ in on}
            jt = q.get("join_type", "left_outer")
            right = [dict(((str(k), a), v) for a, v in zip(cols, row)) for row in rows]
            out, matched = [], set()
            for left in merged:
                hit = False
                for n, x in enumerate(right):
                    if all(left.get(("0", s)) is not None and x[(str(k), f)] is not None and same(left[("0", s)], x[(str(k), f)]) for f, s in on):
                        out.append({**left, **x})
                        matched.add(n)
                        hit = True
                if not hit and jt != "inner":
                    out.append(dict(left))
            if jt == "full_outer":
                out += [dict(x) for n, x in enumerate(right) if n not in matched]
            merged = out
            for a in cols:
                if a not in {f for f, _ in on} and a not in shown and a not in hidden and a in asked(q):
                    shown[a] = (str(k), a)
        outs = []
        for a in shown:
            fid = next(f for q in parts for f in q["metrics"] + q["dimensions"] if f.replace(".", "_") == a) if any(f.replace(".", "_") == a for q in parts for f in q["metrics"] + q["dimensions"]) else None
            if fid is None:
                continue
            fo = field_of(w, fid)
            outs.append(Out(a, fid, getattr(fo, "vt", "num"), getattr(fo, "tf", None), getattr(fo, "f", None)))
        exp = [{a: row.get(src) for a, src in shown.items()} for row in merged]
        nums = [o for o in outs if o.vt == "num"]
        plain = [o for o in outs if o.vt in ("str", "ts", "key", "bool")]
        pred = lambda row: True
        if r.random() < 0.35 and plain:
            fl, p1 = where_clause(r, plain, r.choice([1, 1, 2]), nest=0.25)
            req["where"] = fl
            pred = p1
        if r.random() < 0.3 and nums:
            fl, p2 = where_clause(r, nums, r.choice([1, 1, 2]), nest=0.25)
            req["having"] = fl
            before = pred
            pred = lambda row: and3([before(row), p2(row)])
        exp = [row for row in exp if pred(row) is True]
        spec = None
        if r.random() < 0.35 and outs:
            spec = [(o, r.random() < 0.5) for o in r.sample(outs, min(len(outs), r.choice([1, 2])))]
            req["order_by"] = [dict({"field": o.id}, **({"sort": "desc"} if d else r.choice([{}, {"sort": "asc"}]))) for o, d in spec]
        limit = None
        if r.random() < 0.2 and (dialect not in TSQL or not spec):
            limit = req["limit"] = r.choice([1, 2, 5])
        send = copy.deepcopy(req)
        for q, s in zip(parts, send["merged_queries"]):
            if s.pop("mapped", None):
                s["dimensions"] = ["kindly" if d == q["mapped"] else d for d in s["dimensions"]]
                for j in s.get("join_fields", []):
                    if j["field"] == q["mapped"] and r.random() < 0.5:
                        j["field"] = "kindly"
        info = {"dialect": dialect, "request": send}
        try:
            sql = compile_(c, dialect, send)
        except QueryError as e:
            if mapped and any("kindly" in repr(s) for s in send["merged_queries"]):
                ck.counts["mapped_refused"] += 1
                return
            ck.bad("refused", "a merge of answerable queries on their own columns is refused", dict(info, problem=repr(e)))
            return
        try:
            cols, rows = ex(w, sql)
        except SqlError as e:
            ck.bad("invalid-sql", "the merged query does not run", dict(info, sql=sql, problem=repr(e)))
            return
        ck.counts["queries"] += 1
        ck.counts["mapped"] += "kindly" in repr(send)
        ck.counts["conditions"] += "where" in req or "having" in req
        ck.seen("dialect", dialect), ck.seen("parts", len(parts))
        for q in parts[1:]:
            ck.seen("join", (q.get("join_type"), len(q["join_fields"])))
        ck.case((dialect, repr(send)), {"request": send, "sql": sql, "rows": rows[:5]}, nontrivial=len(exp) > 1)
        detail = dict(info, sql=sql, rows=rows[:6], parts=[x[1][:5] for x in results])
        if sorted(cols) != sorted(shown):
            ck.bad("columns", "columns of a merge", dict(detail, columns=cols, expected=sorted(shown)))
            return
        order = list(shown)
        got = bag([[row[cols.index(a)] for a in order] for row in rows])
        want = bag([[row[a] for a in order] for row in exp])
        if limit is None:
            if got != want:
                ck.bad("rows", "the merge differs from the join of its parts' results", dict(detail, missing=repr(list((want - got).items())[:4]), extra=repr(list((got - want).items())[:4])))
                return
        elif got - want or sum(got.values()) != min(limit, len(exp)):
            ck.bad("limit", "a limited merge is not that many of the joined rows", dict(detail, extra=repr(list((got - want).items())[:4])))
            return
        if spec:
            problem = ref.check_order(rows, [(cols.index(o.alias), d) for o, d in spec], dialect)
            if problem:
                ck.bad("order", "the merged rows are not in the order asked for", dict(detail, problem=problem))

    def refused(r, w, c, dialect):
        """Conditions, orders and joins on columns that are not there."""
        a = {"metrics": ["orders.total_amt"], "dimensions": ["orders.kind"]}
        b = {"metrics": ["visits.visit_count"], "dimensions": ["visits.kind"], "join_fields": [{"field": "visits.kind", "source_field": "orders.kind"}]}
        how = r.randrange(6)
        req = {"merged_queries": [a, b]}
        if how == 0:
            b["join_fields"] = [{"field": "visits.pages", "source_field": "orders.kind"}]
        elif how == 1:
            b["join_fields"] = [{"field": "visits.kind", "source_field": r.choice(["orders.chan", "customers.region", "visits.kind", "orders.nothing"])}]
        elif how == 2:
            req["where"] = [{"field": r.choice(["orders.chan", "customers.region", "visits.kind"]), "expression": "is_not_null", "value": None}]
        elif how == 3:
            req["having"] = [{"field": r.choice(["orders.total_qty", "visits.total_pages"]), "expression": "greater_than", "value": 1}]
        elif how == 4:
            req["order_by"] = [{"field": r.choice(["orders.total_qty", "orders.chan", "visits.kind"])}]
        else:
            del b["join_fields"]
        try:
            sql = compile_(c, dialect, req)
        except (QueryError, AccessDeniedOrDoesNotExistException) as e:
            ck.counts["refused"] += 1
            ck.seen("refusal", (how, type(e).__name__))
            return
        ck.bad("accepted", "a merge on a column that is not there is not refused", {"dialect": dialect, "request": req, "sql": sql})

    ck.run("worlds", ck.pick(220, 6000), worlds)


ck = Check("C14", "random merges of two or three sub queries (own where, having, order, limit; merged, non-additive and mapped fields) with random join fields and types, outer conditions, order and limit, in ten "
           "dialects; compared with the join of the parts' separately executed results; non-trivial cases have more than one merged row")
main(ck, body, need=[("queries", 600), ("conditions", 250), ("refused", 150), ("mapped", 10)])
