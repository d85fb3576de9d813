import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pendulum
from mlv.common import Check, main
from mlv.meta import *
from mlv.world import CATS
from metrics_layer.core.exceptions import QueryError

OPS = {">": "greater_than", ">=": "greater_or_equal_than", "<": "less_than", "<=": "less_or_equal_than", "=": "equal_to", "!=": "not_equal_to",
       "<>": "not_equal_to"}


def always(r, f, own):
    """One always filter on a field: (its definition, the structured filters that say the same)."""
    ref = f.name + ("_" + f.tf if f.tf else "") if own and r.random() < 0.6 else f.id
    c = lambda e, v=None: {"field": f.id, "expression": e, "value": v}
    k = r.random()
    if k < 0.08:
        return {"field": ref, "value": "NULL"}, [c("is_null")]
    if k < 0.2:
        return {"field": ref, "value": "-NULL"}, [c("is_not_null")]
    if f.vt == "str":
        a, b = r.sample(CATS, 2)
        forms = [(a, "equal_to", a), ("-" + a, "not_equal_to", a), ("%s, %s" % (a, b), "isin", [a, b]), ("-%s, -%s" % (a, b), "isnotin", [a, b]),
                 ("%" + a + "%", "contains_case_insensitive", a), ("-%" + a + "%", "does_not_contain_case_insensitive", a),
                 (a + "%", "starts_with_case_insensitive", a), ("%" + a, "ends_with_case_insensitive", a)]
        v, e, x = r.choice(forms)
        return {"field": ref, "value": v}, [c(e, x)]
    if f.vt == "num":
        n, op = r.choice([0, 1, 2, 5]), r.choice(list(OPS))
        return {"field": ref, "value": op + r.choice(["", " "]) + str(n)}, [c(OPS[op], n)]
    if f.vt == "bool":
        b = r.random() < 0.5
        return {"field": ref, "value": r.choice([b, "TRUE" if b else "FALSE"])}, [c("equal_to", b)]
    day = r.choice(["2024-02-01", "2024-04-15", "2024-07-01", "2024-10-10"])
    v = r.choice(["after " + day, "before " + day, "2024-01-15 until " + day, "last year", "this year", "last 3 months", "last 200 days"])
    return {"field": ref, "value": v}, [c("matches", v)]


def choose(r, w):
    """Always filters of some views: {view: (definitions, structured filters, views they need)}."""
    out = {}
    for v in r.sample(list(w.views), r.choice([1, 1, 2, 3])):
        if v not in w.views:
            continue
        defs, filters, need = [], [], {v}
        for _ in range(r.choice([1, 1, 2, 3])):
            other = "customers" if v in ("orders", "visits") and r.random() < 0.25 else v
            qs = [q for q in qd(w, other, ()) if q.vt in ("str", "num", "bool")]
            if r.random() < 0.2:
                qs = [q for q in qd(w, other, ("date",)) if q.tf]
            d, f = always(r, Named(r.choice(qs)), other == v)
            defs.append(d)
            filters.extend(f)
            need.add(other)
        if len(defs) > 1 and r.random() < 0.25:
            defs.append(dict(defs[0]))
        out[v] = (defs, filters, need)
    return out


FIXED = pendulum.datetime(2024, 8, 20, 13, 30)
pendulum.now = lambda tz=None: FIXED.in_timezone(tz or "UTC")


class Named:
    def __init__(self, q):
        self.id, self.vt, self.tf, self.name = q.id, q.vt, None, q.id.split(".")[1]


def ask(r, w):
    while True:
        kind, req = request(r, w, r.choice(usable_kinds(w) + ["dims_only", "merged", "mapped", "literal"]), limit=0, order=0.1)
        if kind in ("arbitrary", "mql") and r.random() < 0.5:
            continue
        if kind == "mapped" and "where" in req:
            req["where"] = [f for f in req["where"] if f["field"] in req["dimensions"]]
        if kind == "mapped" and r.random() < 0.5:
            v = r.choice(["orders", "visits", "customers"])
            req["metrics"] = []
            req["dimensions"] = [r.choice(["kindly", "kindly", "date"])] + [
                q.id for q in r.sample([q for q in qd(w, v, ()) if not q.id.endswith(".kind")], r.choice([0, 1, 1, 2]))]
            r.shuffle(req["dimensions"])
            req.pop("where", None)
            if r.random() < 0.4:
                req["where"] = [{"field": next(n for n in req["dimensions"] if "." not in n), "expression": "is_not_null", "value": None}]
        return kind, req


def requested(w, req):
    """The views whose metrics or dimensions a request names."""
    return {n.split(".")[0] for n in req.get("metrics", []) + req.get("dimensions", []) if "." in n}


def explicit(req, filters):
    """The request with the filters spelled out."""
    req = copy.deepcopy(req)
    wh = req.get("where")
    if not filters:
        return req
    if isinstance(wh, str):
        req["where"] = [{"literal": wh}] + filters
    elif isinstance(wh, dict):
        req["where"] = [wh] + filters
    else:
        req["where"] = list(wh or []) + filters
    return req


def text_of(w, f):
    """The structured filter as SQL text over ${field}."""
    n, e, v = "${%s}" % f["field"], f["expression"], f["value"]
    q = lambda x: "'%s'" % x if isinstance(x, str) else str(x)
    sym = {b: a for a, b in OPS.items() if a != "!="}
    if e in sym and not isinstance(v, bool):
        return "%s %s %s" % (n, sym[e], q(v))
    return {"is_null": n + " is null", "is_not_null": n + " is not null", "matches": None}.get(e) or (
        "%s in (%s)" % (n, ",".join(map(q, v))) if e == "isin" else "%s not in (%s)" % (n, ",".join(map(q, v))) if e == "isnotin" else None)


def outcome(conn, w, req):
    try:
        sql = compile_(conn, w.dialect, req)
    except QueryError as e:
        return "refused", str(e), None
    try:
        cols, rows = ex(w, sql)
    except SqlError as e:
        return "not executable", str(e)[:200], sql
    return "rows", (sorted(cols), bag(tuple(x for _, x in sorted(zip(cols, r), key=lambda t: t[0])) for r in rows)), sql


def spell(r, w, req):
    """The same request with some field names written differently."""
    req = copy.deepcopy(req)
    if r.random() < 0.35:
        for k in ("metrics", "dimensions"):
            for j, n in enumerate(req.get(k, [])):
                c = r.random()
                if "." not in n:
                    continue
                if c < 0.4:
                    req[k][j] = n.rpartition('.')[0] + n.rpartition('.')[1] + r.choice([str.upper, str.title])(n.rpartition('.')[2])
                elif c < 0.7 and "." in n and unique(w, n):
                    req[k][j] = n.split(".")[1]
    return req


def unique(w, n):
    bare = n.split(".")[1]
    names = [f.name for v in w.views.values() for f in v.fields.values() if f.kind != "time"]
    names += ["%s_%s" % (f.name, tf) for v in w.views.values() for f in v.fields.values() if f.kind == "time" for tf in f.frames]
    return names.count(bare) == 1 and bare not in (w.model.get("mappings") or {})


def compare(ck, w, conn, plain, req, filters, info, kind):
    a = outcome(conn, w, req)
    b = outcome(plain, w, explicit(req, filters))
    info = dict(info, sql=a[2], explicit_sql=b[2], explicit=explicit(req, filters))
    ck.counts[a[0]] += 1
    ck.seen("kind", kind)
    if a[0] != b[0] or (a[0] == "rows" and a[1] != b[1]):
        ck.bad("other-result", "the request returns something else than with the always filters written out",
               dict(info, got=[a[0], str(a[1])[:600]], explicit_gives=[b[0], str(b[1])[:600]]))
    return a, b


def body(ck):
    def one(r, i):
        d = DIALECTS[i % len(DIALECTS)]
        w = rich_world(r, d, fan=d in SYMMETRIC and r.random() < 0.4, empty=0)
        af = choose(r, w)
        wa = copy.deepcopy(w)
        for v, (defs, _, _) in af.items():
            wa.views[v].extra["always_filter"] = copy.deepcopy(defs)
        conn, plain, none = wa.connection(), w.connection(), w
        asked = []
        for _ in range(ck.pick(8, 14)):
            if asked and r.random() < 0.25:
                kind, req = r.choice(asked)
            else:
                kind, req = ask(r, w)
                if kind == "mql":
                    kind, req = mql(r, w)
                if isinstance(req.get("where"), list) and kind != "mapped" and r.random() < 0.15:
                    req["where"] = r.choice([None, []]) if r.random() < 0.6 or len(req["where"]) != 1 else req["where"][0]
                asked.append((kind, req))
            if kind == "arbitrary":
                arbitrary(r, ck, w, conn, plain, af, req)
                continue
            touched = requested(w, req) if kind != "mql" else requested(w, req["parts"])
            filters = [f for v in af if v in touched for f in af[v][1]]
            info = {"dialect": d, "kind": kind, "request": req, "always": {v: x[0] for v, x in af.items()}, "tables": w.tables() if len(repr(w.tables())) < 9000 else None}
            ck.case((d, kind, req, filters), {"request": req, "always": filters, "kind": kind}, nontrivial=bool(filters))
            if kind == "mql":
                p = req["parts"]
                texts = [text_of(w, f) for f in filters]
                if None in texts:
                    continue
                a = outcome(conn, w, {"sql": p["sql"] % where_text([p["where"]])})
                b = outcome(plain, w, {"sql": p["sql"] % where_text([p["where"]] + texts)})
                ck.counts["mql"] += 1
                if a[0] != b[0] or (a[0] == "rows" and a[1] != b[1]):
                    ck.bad("other-result-mql", "the MQL statement returns something else than with the always filters written out",
                           dict(info, got=a, explicit_gives=b))
                continue
            given = spell(r, w, req)
            a = outcome(conn, w, given)
            mapped = [n for n in req.get("dimensions", []) if "." not in n]
            if mapped:
                check_mapped(ck, w, conn, plain, af, req, given, a, info)
                continue
            b = outcome(plain, w, explicit(req, filters))
            info.update(given=given, sql=a[2], explicit_sql=b[2])
            ck.counts[a[0]] += 1
            ck.seen("kind", kind)
            if a[0] != b[0] or (a[0] == "rows" and a[1] != b[1]):
                ck.bad("other-result", "the request returns something else than with the always filters written out",
                       dict(info, got=[a[0], str(a[1])[:600]], explicit_gives=[b[0], str(b[1])[:600]]))
            elif a[0] == "rows" and filters:
                ck.counts["restricted"] += 1
                n = outcome(plain, w, req)
                if n[0] == "rows" and n[1] != a[1]:
                    ck.counts["visibly_restricted"] += 1
                ck.seen("forms", ",".join(sorted({f["expression"] for f in filters})))
                if not touched <= {v for v in w.views if v in af}:
                    ck.counts["some_view_unfiltered"] += 1

    ck.run("requests", ck.pick(150, 2200), one)


def where_text(texts):
    texts = [t for t in texts if t]
    return (" WHERE " + " AND ".join("(%s)" % t for t in texts)) if texts else ""


def mql(r, w):
    v = r.choice(["orders", "visits"])
    ms = [m.id for m in r.sample(plain_metrics(w, v), 1)]
    ds = [q.id for q in r.sample(qd(w, v) + qd(w, "customers"), r.choice([1, 2]))]
    num = "${orders.qty}" if v == "orders" else "${visits.pages}"
    wh = r.choice([None, num + " > 1", num + " > 1 OR ${%s.kind} = 'a'" % v])
    sql = "SELECT * FROM MQL(%s BY %s%%s) AS mq" % (", ".join(ms), ", ".join(ds))
    return "mql", {"parts": {"metrics": ms, "dimensions": ds, "sql": sql, "where": wh}}


def arbitrary(r, ck, w, conn, plain, af, req):
    """Every part of a merged request is restricted by the always filters of its own views."""
    want = copy.deepcopy(req)
    n = 0
    for p in want["merged_queries"]:
        t = requested(w, p)
        fs = [f for v in af if v in t for f in af[v][1]]
        n += len(fs)
        if fs:
            p["where"] = list(p.get("where") or []) + fs
    a, b = outcome(conn, w, req), outcome(plain, w, want)
    ck.counts["arbitrary"] += 1
    ck.case((w.dialect, "arbitrary", req), {"request": req}, nontrivial=n > 0)
    if a[0] != b[0] or (a[0] == "rows" and a[1] != b[1]):
        ck.bad("other-result-merged", "a merged request returns something else than with the always filters written out",
               {"request": req, "always": {v: x[0] for v, x in af.items()}, "got": a, "explicit_gives": b})


def instead(req, name, field):
    """The request with a field in place of a mapped name."""
    req = copy.deepcopy(req)
    req["dimensions"] = [field if n == name else n for n in req["dimensions"]]
    for f in req.get("where") or []:
        if f["field"] == name:
            f["field"] = field
    return req


def check_mapped(ck, w, conn, plain, af, req, given, a, info):
    """A mapped name stands for one of its fields: that field's always filters count, whichever it is."""
    ck.counts["mapped"] += 1
    fields = {"kindly": [v + ".kind" for v in ("orders", "visits", "spend") if v in w.views]}
    for tf in ("date", "month"):
        fields[tf] = ["%s_%s" % (d, tf) for d in ("orders.made", "orders.paid", "visits.seen", "customers.joined", "spend.spent") if d.split(".")[0] in w.views]
    name = [n for n in req["dimensions"] if "." not in n][0]
    tried = []
    chosen = [f for f in fields[name] if a[0] == "rows" and f.replace(".", "_") in a[1][0]]
    for f in chosen or fields[name]:
        touched = requested(w, req) | {f.split(".")[0]}
        base = req if req["metrics"] or not chosen else instead(req, name, f)
        tried.append(outcome(plain, w, explicit(base, [x for v in af if v in touched for x in af[v][1]])))
    if not any(a[0] == t[0] and (a[0] != "rows" or a[1] == t[1]) for t in tried):
        ck.bad("other-result-mapped", "the request with a mapped name returns something else than with the always filters written out",
               dict(info, given=given, sql=a[2], got=[a[0], str(a[1])[:600]], explicit_gives=[[t[0], str(t[1])[:400], t[2]] for t in tried]))


ck = Check("C16", "random sets of always filters (values, lists, comparisons, patterns, nulls, on own and joined fields, several per view, "
           "repeated) on random projects; every request kind, including MQL text, merged requests and mapped names, executed and compared "
           "with the same request on a project without always filters in which the caller wrote them out; names spelled in any case and "
           "unqualified; non-trivial = at least one always filter applies")
main(ck, body, need=[("rows", 200), ("restricted", 60), ("visibly_restricted", 20), ("mql", 10), ("mapped", 10), ("arbitrary", 8)])
