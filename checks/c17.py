import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
from mlv.common import Check, main
from mlv.meta import *
from mlv.world import CATS
from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError

MAPS = {"kindly": ["orders.kind", "visits.kind", "spend.kind"], "category": ["customers.seg", "orders.chan"],
        "size": ["orders.amt", "visits.pages", "spend.cost"], "grade": ["customers.score", "orders.qty"], "place": ["customers.region"]}
NUMERIC = {"size", "grade"}
TFS = ["date", "month", "year", "quarter"]


def world(r, d):
    fan = d in SYMMETRIC and r.random() < 0.2
    w = rich_world(r, d, fan=fan, empty=0, spend=r.random() < 0.75, cumulative=False, nonadd=False)
    maps = {}
    for n in r.sample(list(MAPS), r.choice([1, 2, 3, 4])):
        fs = [f for f in MAPS[n] if f.split(".")[0] in w.views]
        r.shuffle(fs)
        fs = fs[:r.choice([1, 2, 3, 3])]
        maps[r.choice([n, n, n + "_x"])] = {"fields": fs}
    w.model["mappings"] = maps
    w.fan = fan
    return w


def canon(w, m):
    """The date of a metric: its own canonical date or its view's default date."""
    f = w.views[m.split(".")[0]].fields[m.split(".")[1]]
    c = getattr(f, "canon", None) or w.views[f.view].extra["default_date"]
    return c if "." in c else f.view + "." + c


def candidates(w, name, metrics):
    if name in TFS:
        if metrics:
            return [canon(w, metrics[0]) + "_" + name]
        return ["%s_%s" % (c, name) for c in ("orders.made", "orders.paid", "visits.seen", "customers.joined", "spend.spent") if c.split(".")[0] in w.views]
    return w.model["mappings"][name]["fields"]


def base(name):
    name = name.lower()
    return name[:-2] if name.endswith("_x") else name


def other_capitals(r, n):
    return r.choice([n.upper(), n.capitalize(), n])


def ask(r, w):
    """A request using mapped names: metrics, dimensions, where, having, order_by."""
    mv = r.choice([[], ["orders"], ["orders"], ["visits"], ["customers"], ["orders", "visits"], ["orders", "spend"]])
    mv = [v for v in mv if v in w.views]
    ms = [r.choice([m for m in plain_metrics(w, v) if m.agg != "number"]).id for v in mv]
    if mv and r.random() < 0.2:
        ms.append(r.choice([m for m in plain_metrics(w, mv[0]) if m.id not in ms]).id)
    if "orders.paid_amt" not in ms and mv == ["orders"] and r.random() < 0.15:
        ms.insert(r.randrange(len(ms) + 1), "orders.paid_amt")
    names = list(w.model["mappings"]) + r.sample(TFS, 2)
    scope_ = {"orders": ["orders", "customers"], "visits": ["visits", "customers"], "customers": ["customers"], "spend": ["spend"]}
    views = scope_[mv[0]] if len(mv) == 1 else ["customers"] if mv == ["orders", "visits"] else [] if len(mv) == 2 else r.choice(list(scope_.values()))
    pool = [q.id for v in views if v in w.views for q in qd(w, v, () if len(mv) != 1 else ("date", "month"))]
    ds = r.sample(pool, min(len(pool), r.choice([0, 0, 1, 1, 2])))
    if r.random() < 0.85:
        ds += r.sample(names, min(len(names), r.choice([1, 1, 1, 2])))
    r.shuffle(ds)
    if r.random() < 0.12:
        # Names are the same name in any capitals
        ds = [other_capitals(r, n) if "." not in n else n for n in ds]
        names = [other_capitals(r, n) if r.random() < 0.5 else n for n in names]
    req = {"metrics": ms, "dimensions": ds}

    def cond(n):
        b = base(n)
        if b in TFS:
            return r.choice([{"field": n, "expression": "greater_than", "value": "2024-03-01"}, {"field": n, "expression": "is_not_null", "value": None}])
        if b in NUMERIC:
            return {"field": n, "expression": r.choice(["greater_than", "less_or_equal_than", "not_equal_to"]), "value": r.choice([1, 5])}
        return r.choice([{"field": n, "expression": "equal_to", "value": r.choice(CATS + names)}, {"field": n, "expression": "isin", "value": r.sample(CATS + names, 2)},
                         {"field": n, "expression": "is_not_null", "value": None}, {"field": n, "expression": "contains", "value": r.choice(names)}])

    def text(n):
        b = base(n)
        lit = r.choice(CATS + names)
        if b in NUMERIC:
            return "${%s} > %s" % (n, r.choice([1, 5]))
        if b in TFS:
            return "${%s} is not null" % n
        return r.choice(["${%s} = '%s'", "not ${%s} = '%s'", "${%s} in ('%s', 'zz')"]) % (n, lit)
    if r.random() < 0.55:
        which = r.sample(names, min(len(names), r.choice([1, 1, 2])))
        if r.random() < 0.5:
            which[0] = r.choice([d for d in ds if "." not in d] or names)
        cs = [cond(n) for n in which]
        if pool and r.random() < 0.4:
            real = [q for q in pool if not any(q.endswith("_" + t) for t in TFS)]
            if real:
                cs.append({"field": r.choice(real), "expression": "is_not_null", "value": None})
        k = r.random()
        if k < 0.3:
            cs = [{"conditions": cs + [cond(which[0])], "logical_operator": r.choice(["OR", "AND"])}]
        elif k < 0.4:
            cs = [cs[0], {"conditions": [cs[0], {"conditions": cs, "logical_operator": "OR"}], "logical_operator": "OR"}]
        elif k < 0.6:
            cs = " and ".join(text(n) for n in which)
            if pool and r.random() < 0.4:
                cs += " or ${%s} is null" % r.choice(pool)
        req["where"] = cs
    if ms and r.random() < 0.2:
        req["having"] = [{"field": r.choice(ms), "expression": "greater_than", "value": 1}]
    if r.random() < 0.35 and ms + ds:
        by = r.sample(ms + ds, min(len(ms + ds), r.choice([1, 2])))
        if r.random() < 0.3:
            req["order_by"] = ", ".join(n + r.choice(["", " asc", " desc"]) for n in by)
        else:
            req["order_by"] = [{"field": n, "sort": r.choice(["asc", "desc"])} for n in by]
    if r.random() < 0.1:
        req["limit"] = 5
    return req


def swap(x, assign):
    """The request with fields in place of mapped names."""
    if isinstance(x, dict):
        return {k: (assign.get(v.lower(), v) if k == "field" and isinstance(v, str) else swap(v, assign) if k not in ("value", "expression") else v) for k, v in x.items()}
    if isinstance(x, list):
        return [swap(v, assign) for v in x]
    return x


def explicit(req, assign):
    out = {}
    for k, v in req.items():
        if k in ("metrics", "dimensions"):
            out[k] = [assign.get(n.lower(), n) for n in v]
        elif k == "where" and isinstance(v, str):
            out[k] = re.sub(r"\$\{(\w+)\}", lambda m: "${%s}" % assign.get(m.group(1).lower(), m.group(1)), v)
        elif k == "order_by" and isinstance(v, str):
            out[k] = ", ".join(" ".join([assign.get(p.split()[0].lower(), p.split()[0])] + p.split()[1:]) for p in v.split(", "))
        else:
            out[k] = swap(v, assign)
    return out


def mapped_names(w, req):
    known = set(w.model["mappings"]) | set(TFS)
    out = []

    def add(n):
        if n.lower() in known and n.lower() not in out:
            out.append(n.lower())

    def walk(x):
        if isinstance(x, dict):
            if "field" in x:
                add(x["field"])
            for c in x.get("conditions", []):
                walk(c)
        elif isinstance(x, list):
            for c in x:
                walk(c)
        elif isinstance(x, str):
            for n in re.findall(r"\$\{(\w+)\}", x):
                add(n)
    for n in req["metrics"] + req["dimensions"]:
        add(n)
    walk(req.get("where"))
    walk(req.get("having"))
    ob = req.get("order_by")
    if isinstance(ob, str):
        for p in ob.split(", "):
            add(p.split()[0])
    else:
        walk(ob)
    return out


def places(req):
    known = re.compile(r"^\w+$")
    out = []
    if any(known.match(d) for d in req["dimensions"]):
        out.append("dimension")
    wh = req.get("where")
    if isinstance(wh, str):
        out.append("where text")
    elif wh:
        out.append("where group" if any("conditions" in c for c in wh) else "where")
    ob = req.get("order_by")
    if ob:
        out.append("order text" if isinstance(ob, str) else "order")
    return out


def outcome(conn, w, req):
    try:
        return "sql", compile_(conn, w.dialect, req)
    except (QueryError, AccessDeniedOrDoesNotExistException) as e:
        return "refused", str(e)


def body(ck):
    def one(r, i):
        d = DIALECTS[i % len(DIALECTS)]
        w = world(r, d)
        conn = w.connection()
        for _ in range(ck.pick(8, 14)):
            req = ask(r, w)
            names = mapped_names(w, req)
            if not names:
                continue
            got = outcome(conn, w, req)
            tried = []
            for combo in itertools.product(*[candidates(w, n, req["metrics"]) for n in names]):
                assign = dict(zip(names, combo))
                ex_ = explicit(req, assign)
                if any(n in TFS for n in names) and len({canon(w, m) for m in ex_["metrics"]}) > 1:
                    ex_["merged_result"] = True
                o = outcome(conn, w, ex_)
                tried.append((assign, ex_, o))
                if len(tried) > 300:
                    break
            ok = [t for t in tried if t[2][0] == "sql"]
            ck.counts[got[0]] += 1
            for place in places(req):
                ck.counts["place_" + place] += 1
            if got[0] == "sql":
                if "cte_subquery" in got[1]:
                    ck.counts["merged"] += 1
                ck.seen("outcome", "%d names, %s" % (min(len(names), 3), "merged" if "cte_subquery" in got[1] else "one graph"))
                if len({t[2] for t in tried if t[2][0] == "sql"}) > 1:
                    ck.counts["choice_matters"] += 1
                if any(t[2][0] == "refused" for t in tried):
                    ck.counts["some_candidate_unusable"] += 1
            if any(n != n.lower() for n in req["dimensions"]):
                ck.counts["other_capitals"] += 1
            info = {"dialect": d, "request": req, "mappings": w.model["mappings"], "got": got, "tried": [(t[1], t[2]) for t in tried][:6]}
            ck.case((d, req), {"request": req, "got": got[0]}, nontrivial=True)
            if got[0] == "sql" and not any(t[2] == got for t in tried):
                ck.bad("not-a-mapped-field", "the request equals none of the requests with one of the mapping's fields", info)
            if got[0] == "refused" and "Ambiguous field names" in got[1]:
                ck.counts["duplicate"] += 1
                continue
            free = [n for n in names if n not in TFS or not req["metrics"]]
            if got[0] == "refused" and len(free) > 1:
                ck.counts["refused_with_several_names"] += 1
                continue
            if got[0] == "refused" and w.fan and len({m.split(".")[0] for m in req["metrics"]}) > 1:
                # Where joins fan out, a view has several join graphs and a merged request only knows the metrics' own
                ck.counts["refused_fanned_merge"] += 1
                continue
            if got[0] == "refused" and ok:
                ck.bad("refused", "the request is refused although a mapped field is usable", dict(info, usable=[t[1:] for t in ok][:3]))
    ck.run("mapped", ck.pick(150, 2500), one)


ck = Check(
    "C17",
    "A request with mapped names (model mappings and date, month, quarter, year) in its dimensions, conditions (objects, groups "
    "and text) and orderings is compiled by the real code. So is, for each combination of the fields its names are mapped to, the same "
    "request with fields in place of names. The SQL must be that of one of them, the same field in every place; the date names stand for "
    "the first metric's own date. A request with one name must not be refused if one of its fields is usable.",
)
main(ck, body, need=[("sql", 300), ("choice_matters", 30), ("some_candidate_unusable", 100), ("other_capitals", 30), ("place_order text", 10), ("place_where text", 20), ("merged", 20)])
