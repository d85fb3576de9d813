import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from mlv.meta import *
from mlv.world import looker_filter

NONNULL = [0, 1, 2, 3]
SQLISH = ["o'brien", "a' or '1'='1", "a') or (1=1", "x' union select 1 --", "a; drop table t", 'say "hi"', "a -- b", "/* a */", "50%", "\\", "\\' or 1=1 --", "a\\' or 1=1 or '", "\\\\' or 1=1 --", "x\ny", "${orders.kind}"]


def restrict(r, w, fan):
    """Declare access filters on some views: (user, {view: predicate on a context})."""
    user, preds, used = {}, {}, {}
    names = list(w.views)
    for view in r.sample(names, r.randint(1, len(names))):
        v = w.views[view]
        afs, ps = [], []
        for _ in range(r.choice([1, 1, 1, 2])):
            other = view in ("orders", "visits") and r.random() < 0.25
            fv = "customers" if other else view
            pool = [f for f in w.views[fv].fields.values() if f.kind == "dim" and f.vt in ("str", "num", "bool") and f.strict]
            f = r.choice(pool)
            attr = "attr_%s_%d" % (view, len(afs))
            old = [a for a, (vt, _) in used.items() if vt == f.vt]
            if old and r.random() < 0.5:
                attr = r.choice(old)  # several filters with one attribute
                fl, p = looker_filter(random.Random(used[attr][1]), f, qualified=True)
            while attr not in used:
                seed = r.randrange(10 ** 9)
                fl, p = looker_filter(random.Random(seed), f, qualified=True)
                if fl["value"] and "NULL" not in str(fl["value"]):
                    used[attr] = (f.vt, seed)
            assert user.get(attr, fl["value"]) == fl["value"]
            user[attr] = fl["value"]
            afs.append({"field": f.id, "user_attribute": attr})
            ps.append(p)
        v.extra["access_filters"] = afs
        preds[view] = ps
    if r.random() < 0.3:
        user["unrelated"] = "a"
    return user, preds


def context(w, view, row):
    c = {view: row}
    if view in ("orders", "visits"):
        c["customers"] = next((x for x in w.views["customers"].rows if row["customers_id"] is not None and key(x["id"]) == key(row["customers_id"])), None)
    return c


def excluded(w, view, ps):
    return [row for row in w.views[view].rows if not all(p(context(w, view, row)) is True for p in ps)]


def variants(r, w, views, preds):
    """Data that differs only in excluded rows of the given views."""
    from mlv.world import rand_value
    out = []
    ex_ = {v: excluded(w, v, preds[v]) for v in views}
    if any(a["field"].startswith("customers.") for v in ("orders", "visits") for a in w.views[v].extra.get("access_filters") or []):
        # another view's access filter reads these rows: deleting one decides about the other view's rows
        ex_["customers"] = []
        views = [v for v in views if v != "customers"]
    if any(ex_.values()):
        out.append(("deleted", {v: [x for x in w.views[v].rows if not any(x is e for e in ex_[v])] for v in views}))
        # scrambled: every value not read by a filter or a key changes, the row stays excluded
        ch = {}
        for v in views:
            rows = []
            for x in w.views[v].rows:
                if any(x is e for e in ex_[v]):
                    for _ in range(20):
                        y = dict(x)
                        for c, t in w.views[v].cols:
                            if t not in ("pk",) and not t.startswith("fk"):
                                y[c] = rand_ts(r, w.base, w.span) if t == "ts" else rand_value(r, t)
                        if v == "customers":
                            # other views' filters may read this row
                            y.update({k: x[k] for k in ("region", "seg", "score")})
                        if not all(p(context(w, v, y)) is True for p in preds[v]):
                            rows.append(y)
                            break
                    else:
                        rows.append(x)
                else:
                    rows.append(x)
            ch[v] = rows
        out.append(("scrambled", ch))
        ch = {}
        for v in views:
            rows = list(w.views[v].rows)
            for k, e in enumerate(ex_[v] * 2):
                y = dict(e)
                y["id"] = 7000 + k if isinstance(e["id"], int) else "q%03d" % k
                rows.append(y)
            ch[v] = rows
        out.append(("added", ch))
    return out


def hostile(r, w, views):
    """Conditions a caller could add, hoping to see more rows: (argument, is text)."""
    v = r.choice(sorted(views & {"orders", "visits"}) or ["customers"])
    num = "${%s}" % {"orders": "orders.qty", "visits": "visits.pages", "customers": "customers.score"}[v]
    st = {"orders": "orders.kind", "visits": "visits.kind", "customers": "customers.region"}[v]
    lit = r.choice([
        "%s > 1 or 1=1" % num, "1=1 or %s > 1" % num, "%s > 1) or (1=1" % num, "1=1) or (%s is not null" % num,
        "%s is not null or %s is null" % (num, num), "%s > 1 or 1=1 --" % num, "%s > 1 or 1=1 /*" % num, "%s > 1) or 1=1 --" % num,
        "%s > 1 or 1=1; select 1" % num, "not (%s > 1) or 1=1" % num, "(%s > 1) or (1=1)" % num,
        "%s in (1) or ')' = ')'" % num, "'(' = '(') or (1=1", "%s = 1 or '\\' = ') or (1=1 or 1=' '" % num, "'\\' ) or (1=1 or 'x' = '" , "'a\\'' = 'x' ) or (1=1 or '' = '", "$$'$$ = 'a' ) or (1=1 or $$'$$ = ''",
        "1=1 # (\n) or (1=1 # )\n", "1=1 // (\n) or (1=1 // )\n", "%s > 1 OR\n1 = 1" % num,
        "%s > 1 or exists (select 1)" % num, "case when 1=1 then 1 else 0 end = 1 or %s = 0" % num,
        "%s = 'a' or 'x' = 'x'" % ("${%s}" % st)])
    k = r.random()
    if k < 0.5:
        return lit, "text"
    if k < 0.6:
        return [{"literal": lit}], "text item"
    if k < 0.68:
        t = {"orders": "orders.made_date", "visits": "visits.seen_date", "customers": "customers.joined_date"}[v]
        return [{"field": t, "expression": "matches", "value": r.choice(SQLISH)}], "structured"
    cond = {"field": st, "expression": r.choice(["equal_to", "not_equal_to", "contains", "starts_with"]), "value": r.choice(SQLISH)}
    cond2 = {"field": num[2:-1], "expression": "is_not_null", "value": None}
    cond3 = {"field": num[2:-1], "expression": "is_null", "value": None}
    return [{"conditions": [cond, cond2, cond3], "logical_operator": "OR"}], "structured"


def body(ck):
    def one(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        fan = dialect in SYMMETRIC and r.random() < 0.5
        w = rich_world(r, dialect, fan=fan, nonadd=True)
        user, preds = restrict(r, w, fan)
        conn = w.connection()
        conn.project.set_user(user)
        # the unrestricted user has no attributes
        free = w.connection()
        if r.random() < 0.3:
            free.project.set_user(None)
        kinds = usable_kinds(w)
        if not fan and "fanned" in kinds:
            kinds.remove("fanned")
        for kind in r.sample(kinds, ck.pick(5, 7)):
            kind, req = request(r, w, kind, limit=0)
            views = used_views(w, req)
            how = "plain"
            if kind not in ("mql", "mapped", "merged_metric", "arbitrary") and r.random() < 0.45:
                h, how = hostile(r, w, views if kind not in ("merged", "cumulative") else {"customers"})
                if isinstance(h, list) and isinstance(req.get("where"), list):
                    h = req["where"] + h
                req["where"] = h
            elif kind == "mql" and r.random() < 0.5:
                req["sql"] = req["sql"].split(" WHERE ")[0].replace(") AS mq", "") + " WHERE %s) AS mq" % r.choice(
                    ["${orders.qty} > 1 OR 1=1", "1=1 or ${orders.kind} = 'a'", "${orders.qty} > 1) or (1=1"])
                how = "text"
            views = used_views(w, req)
            info = {"dialect": dialect, "kind": kind, "request": req, "user": user,
                    "access_filters": {v: w.views[v].extra.get("access_filters") for v in w.views}}
            try:
                sql = compile_(conn, dialect, req)
            except Exception as e:
                ck.counts["refused_" + how] += 1
                ck.seen("refusal", type(e).__name__)
                if how == "plain":
                    ck.counts["refused_plain_" + kind] += 1
                continue
            info["sql"] = sql
            try:
                cols, rows = ex(w, sql)
            except SqlError as e:
                ck.counts["invalid_" + how] += 1
                continue
            try:
                fsql = compile_(free, dialect, req)
                restricts = bag(ex(w, fsql)[1]) != bag(rows)
            except Exception:
                restricts = False
            sens = sorted(v for v in views if v in preds)
            ck.counts[how] += 1
            ck.counts["restricting"] += restricts
            if restricts:
                ck.counts["restricting_" + kind] += 1
                ck.counts["restricting_with_" + how] += 1
            ck.seen("dialect", dialect)
            for name, ch in variants(r, w, sens, preds):
                ck.counts["variant_" + name] += 1
                ck.case((dialect, kind, req, user, name), {"request": req, "user": user, "sql": sql, "variant": name, "rows": rows[:3]},
                        nontrivial=restricts)
                try:
                    _, rows2 = ex(w, sql, tables=tables_with(w, ch))
                except SqlError as e:
                    ck.counts["data_dependent_error"] += 1
                    break
                if bag(rows) != bag(rows2):
                    info["variant"] = name
                    info["rows"], info["rows_after"] = rows, rows2
                    ck.bad("leak", "rows the access filter excludes influence the result (%s rows %s)" % (name, sens), info)
                    break
    ck.run("noninterference", ck.pick(260, 4000), one)


ck = Check("C04", "rich random projects (orders, visits, customers, spend) with 1-2 access filters on random views, a user with "
           "the attributes, fifteen request kinds, ordinary and hostile extra conditions, executed on data differing only in "
           "excluded rows; non-trivial = the filters change the result of that request for an unrestricted user")
ck.assumptions = ["excluded rows of a view that a query uses only as an intermediate join are out of scope",
                  "access filters on NULL values are not generated"]
main(ck, body, need=[("restricting", 150), ("variant_scrambled", 150), ("restricting_with_text", 20)])
