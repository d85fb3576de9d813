import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import datetime, re, traceback
from mlv.common import Check, main
from mlv.history import *
from mlv.sqlparse_ import SqlError, SqlSyntaxError
from mlv.sqlengine import SqlNameError, SqlTypeError, SqlUnsupported, SqlRuntimeError
from mlv import drive
from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError
from metrics_layer.core.sql.query_errors import ArgumentError, ParseError

OWN = (QueryError, AccessDeniedOrDoesNotExistException, ParseError, ArgumentError, NotImplementedError)
NO_TERMINATOR = {"DRUID", "TRINO"}
EXPRS = ["equal_to", "not_equal_to", "less_than", "less_or_equal_than", "greater_than", "greater_or_equal_than", "like",
         "contains", "does_not_contain", "contains_case_insensitive", "does_not_contain_case_insensitive", "starts_with",
         "ends_with", "does_not_start_with", "does_not_end_with", "starts_with_case_insensitive", "ends_with_case_insensitive",
         "does_not_start_with_case_insensitive", "does_not_end_with_case_insensitive", "is_null", "is_not_null", "isin", "isnotin",
         "boolean_true", "boolean_false", "matches", "converted", "dropped_off", "UNKNOWN", "resembles", "Equal_To", "", None]


# what a request can run into in one of the random projects, without being at fault
PLAIN = ("Could not find mapping", "no join path", "not supported in merged results", "Multiple fields found", "could not be joined or mapped")


def value(r):
    return r.choice([lambda: r.choice(["a", "b", "", "it's", "a,b", "1", "5 apples", "true", "orders.kind", "orders.amt", "a.b", "%", "-a",
                                       "null", ">5", "2024-01-05", "${orders.kind}", "\\", "é", "{{ a }}", "{% x %}", "--", ";", "a\nb"]),
                     lambda: r.choice([0, 1, -3, 2.5, 10 ** 12, float("1e-7"), True, False, None]),
                     lambda: r.choice([[], ["a"], ["a", "b"], [1, 2], [None], [None, "a"], [True], ["it's", 3], "a, b", ("a", "b"), {"a"}]),
                     lambda: r.choice([datetime.datetime(2024, 1, 5, 3), datetime.date(2024, 2, 1), "2024-01-05T10:00:00"]),
                     lambda: r.choice(REL + ["after 2024-02-01", "last quarter", "2024-13-45", "before noon", "until", "last", "last x days",
                                             "next 1000000 years", "2024-01-01 until", "-1 days ago", "this day"]),
                     lambda: {"a": 1}])()


class Names:
    def __init__(self, r, w, conn):
        p = conn.project
        self.dims, self.metrics = [], []
        for f in p.fields(show_hidden=True, expand_dimension_groups=True):
            i = f.id()
            (self.metrics if f.field_type == "measure" else self.dims).append(i)
        self.mapped = ["kindly", "date", "week", "month", "hour", "raw", "year", "quarter"]
        self.bad = ["orders.nope", "nowhere.kind", "nope", "kind", "orders.made", "made_date", "orders.made_century", "id", "", ".", "orders.",
                    "a.b.c", "ORDERS.KIND", "Orders.Total_Amt", "orders.kind ", "customers", None, 5]

    def any(self, r):
        k = r.random()
        return r.choice(self.dims if k < 0.4 else self.metrics if k < 0.7 else self.mapped if k < 0.8 else self.bad)


def filt(r, n, pool, depth=0):
    k = r.random()
    if k < 0.15 and depth < 2:
        g = {"conditions": [filt(r, n, pool, depth + 1) for _ in range(r.choice([0, 1, 2, 2]))]}
        if r.random() < 0.7:
            g["logical_operator"] = r.choice(["AND", "OR", "OR", "XOR", None, "and"])
        return g
    f = {"field": r.choice(pool) if r.random() < 0.93 else n.any(r), "expression": r.choice(EXPRS[:26] if r.random() < 0.9 else EXPRS), "value": value(r)}
    if r.random() < 0.06:
        f.pop(r.choice(["field", "expression", "value"]))
    if r.random() < 0.07:
        f["group_by"] = r.choice(["customers.id", "orders.customers_id", "orders.kind", "visits.id", "nope", n.any(r)])
        if n.metrics and r.random() < 0.8:
            f["field"] = r.choice(n.metrics)
    if r.random() < 0.02:
        f = {"literal": r.choice(["${orders.qty} > 1", "${nope} = 1", "${orders.kind} = 'a'"])}
    return f


def text(r, n, pool):
    # (how a quote is written differs between warehouses, so text has none)
    one = lambda: r.choice(["${%s} %s %s", "${%s} %s %s", "NOT ${%s} %s %s", "(${%s} %s %s)", "lower(${%s}) %s %s"]) % (
        r.choice(pool) if r.random() < 0.95 else n.any(r), *r.choice([(">", "1"), ("=", "'a'"), ("<>", "'b c'"), ("is not", "NULL"), ("<=", "${%s}" % r.choice(pool)), ("in", "('a', 'b')")]))
    s = one()
    while r.random() < 0.4:
        s += r.choice([" AND ", " OR ", " and "]) + one()
    return s


def mangle(r, n, req):
    """One thing about a request changed, or left out, or made odd."""
    req = dict(req)
    k = r.randrange(14)
    used = re.findall(r"'((?:orders|customers|visits|spend)\.[a-z_]+)'", repr(req)) or n.dims
    views = sorted({u.split(".")[0] for u in used})
    near = [d for d in n.dims if d.split(".")[0] in views] or n.dims
    near_m = [d for d in n.metrics if d.split(".")[0] in views] or n.metrics
    if "sql" in req or "merged_queries" in req:
        if "sql" in req:
            t = req["sql"]
            cut = r.randrange(len(t) + 1)
            req["sql"] = r.choice([t[:cut], t[:cut] + r.choice(["(", ")", ",", " BY ", " WHERE ", "'", ";", " ORDER BY ", " HAVING "]) + t[cut:],
                                   t.replace(r.choice(used), str(n.any(r))), t + r.choice([" ORDER BY 1", " LIMIT 3", " WHERE 1=1", ";"])])
        else:
            qs = [dict(q) for q in req["merged_queries"]]
            q = r.choice(qs)
            j = r.randrange(7)
            if j == 0:
                q["join_type"] = r.choice(["left", "cross", "right_outer", None, "FULL_OUTER"])
            elif j == 1:
                q["join_fields"] = r.choice([[], [{"field": r.choice(near)}], [{"field": r.choice(near), "source_field": n.any(r)}], [{}], "x"])
            elif j == 2:
                q[r.choice(["metrics", "dimensions"])] = [n.any(r)]
            elif j == 3:
                q["where"] = [filt(r, n, near)]
            elif j == 4:
                q.pop(r.choice(list(q)))
            elif j == 5:
                qs = qs[:r.choice([0, 1])] or [q]
            else:
                req["where"] = [filt(r, n, near)]
            req["merged_queries"] = qs
            if r.random() < 0.2:
                req["order_by"] = [{"field": r.choice(near + near_m)}]
        return req
    if k == 0:
        req["metrics"] = req.get("metrics", []) + [r.choice(near_m)]
    elif k == 1:
        req["dimensions"] = req.get("dimensions", []) + [r.choice(near)]
    elif k == 2:
        part = r.choice(["metrics", "dimensions"])
        req[part] = req.get(part, []) + [n.any(r)]
    elif k in (3, 4, 5):
        wh = req.get("where", [])
        req["where"] = (wh if isinstance(wh, list) else []) + [filt(r, n, near)]
    elif k == 6:
        req["where"] = text(r, n, near)
    elif k == 7:
        req["having"] = [filt(r, n, near_m) for _ in range(r.choice([1, 2]))]
    elif k == 8:
        req["having"] = text(r, n, near_m)
    elif k == 9:
        sel = (req.get("metrics", []) + req.get("dimensions", [])) or near
        req["order_by"] = r.choice([
            [{"field": r.choice([x for x in sel]), "sort": r.choice(["asc", "desc", "ASC", "sideways", None])}],
            [{"field": r.choice(near + near_m)}], [{"field": n.any(r), "sort": "desc"}], "%s %s" % (r.choice([x for x in sel]), r.choice(["", "desc", "asc nulls last", "up"])),
            [{"sort": "asc"}], "%s, %s desc" % (r.choice(near), r.choice(near_m)), str(n.any(r)), [str(r.choice(near))]])
    elif k == 10:
        req["limit"] = r.choice([0, 1, 3, -1, "5", None, 2.0, 10 ** 9])
    elif k == 11:
        req.update(r.choice([{"merged_result": True}, {"single_query": True}, {"force_group_by": True}, {"model_name": "m"}, {"model_name": "nope"},
                             {"verbose": False}, {"suppress_warnings": True}, {"return_pypika_query": False}, {"nest": True},
                             {"mapping_lookup_dimensions": ["date"]}, {"explore_name": "x"}]))
    elif k == 12:
        st = lambda: r.choice([[filt(r, n, near)], [filt(r, n, near), filt(r, n, near)], text(r, n, near), []])
        req["funnel"] = r.choice([{"steps": [st() for _ in range(r.choice([0, 1, 2, 3]))], "within": {"value": r.choice([0, 1, 30, "5", None]), "unit": r.choice(["days", "day", "weeks", "fortnights", "hours"])}},
                                  {"steps": [st(), st()]}, {"within": {"value": 1, "unit": "days"}},
                                  {"steps": [st(), st()], "within": r.choice([{}, {"value": 3}, {"unit": "days"}, 5])}, {"view_name": "orders", "steps": [st(), st()], "within": {"value": 3, "unit": "days"}}])
    else:
        part = r.choice(["metrics", "dimensions"])
        if req.get(part):
            req[part] = r.choice([req[part][:-1], [x.upper() for x in req[part] if isinstance(x, str)], req[part] + req[part][:1], req[part][::-1]])
    return req


def soup(r, n):
    """A request of names and filters drawn independently."""
    req = {"metrics": r.sample(n.metrics, r.choice([0, 1, 1, 2, 3])), "dimensions": r.sample(n.dims, r.choice([0, 1, 1, 2, 3]))}
    if r.random() < 0.2:
        req["dimensions"].append(r.choice(n.mapped))
    if r.random() < 0.3:
        req["where"] = [filt(r, n, n.dims)]
    if r.random() < 0.2:
        req["having"] = [filt(r, n, n.metrics)]
    return req


def request_of(r, w, n):
    k = r.random()
    if k < 0.2:
        kind, req = "soup", soup(r, n)
    else:
        kind, req = some_request(r, w)
    m = r.choice([0, 1, 1, 1, 2, 3])
    for _ in range(m):
        req = mangle(r, n, req)
    return "%s+%d" % (kind, m), req


def terminator(sql, dialect):
    """Problem with the number or the end of statements, if any: ; outside of quotes only."""
    bare = re.sub(r"'(?:[^'\\]|''|\\.)*'" if dialect in ("SNOWFLAKE", "BIGQUERY", "DATABRICKS", "REDSHIFT") else r"'(?:[^']|'')*'", "''", sql)
    n = bare.count(";")
    ends = bare.rstrip().endswith(";")
    if dialect in NO_TERMINATOR:
        return "terminated by ;, which %s does not take" % dialect if n else None
    if n != 1 or not ends:
        return "%d terminators, at the end: %s" % (n, ends)
    return None


def last_frames(e):
    return [(os.path.basename(f.filename), f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)][-4:]


def judge(ck, w, conn, dialect, kind, req, n_metrics=()):
    """Compile and look at what came out."""
    detail = {"request": req, "kind": kind, "dialect": dialect}
    given = copy.deepcopy(req)
    try:
        sql = conn.get_sql_query(query_type=dialect, **given)
    except OWN as e:
        ck.counts["refused"] += 1
        ck.seen("refusals", type(e).__name__ + ": " + re.sub(r"'[^']*'|\"[^\"]*\"|[a-z_]+\.[a-z_]+", "…", str(e))[:50])
        if not str(e).strip():
            ck.bad("empty-message", "a refusal does not say what is wrong", dict(detail, error=repr(e)))
        return "refused"
    except Exception as e:
        ck.bad("internal:%s:%s" % (type(e).__name__, ":".join(map(str, last_frames(e)[-1][:2]))), "a request ended in an internal error",
               dict(detail, error=repr(e)[:500], at=last_frames(e)))
        return "internal"
    detail["sql"] = sql
    if not isinstance(sql, str) or not sql.strip():
        ck.bad("no-sql", "a request gave no SQL", detail)
        return "internal"
    free = "sql" in req and "+0" not in kind
    t = None if free and (";" in req["sql"] or sql.count("'") % 2) else terminator(sql, dialect)
    if t:
        ck.bad("terminator", "the statement's end is wrong: " + t, detail)
        return "sql"
    if free:
        # the text around the MQL part is the caller's own
        return "sql"
    try:
        drive.execute(w, sql, now=NOW)
        ck.counts["ran"] += 1
    except (SqlTypeError, SqlRuntimeError) as e:
        ck.counts["ran_until_" + type(e).__name__] += 1
    except SqlUnsupported as e:
        ck.counts["outside_of_engine"] += 1
        ck.seen("unsupported", str(e)[:80])
    except SqlError as e:
        m = re.match(r"unknown column (\w+)$", str(e))
        ordered = [x["field"] if isinstance(x, dict) else x.split()[0] for x in (
            req.get("order_by") if isinstance(req.get("order_by"), list) else str(req.get("order_by") or "").split(",")) if x]
        if m and any(str(o).lower().replace(".", "_") == m.group(1).lower() and o in n_metrics and o not in req.get("metrics", []) for o in ordered):
            ck.bad("unselected-metric-order", "a query is ordered by a metric it does not have", dict(detail, error=str(e)))
            return "sql"
        if dialect in ("SQL_SERVER", "AZURE_SYNAPSE") and "true/false literal" in str(e).lower():
            ck.bad("tsql-boolean", "a truth value is written as TRUE or FALSE, which T-SQL does not have", dict(detail, error=str(e)))
            return "sql"
        if isinstance(e, SqlNameError) and any(isinstance(st, str) for st in (req.get("funnel") or {}).get("steps", [])):
            ck.bad("funnel-text-step", "a funnel's text step reads a table its step does not have", dict(detail, error=str(e)))
            return "sql"
        ck.bad("invalid:%s:%s" % (type(e).__name__, re.sub(r"[a-z_]+\.[a-z_]+|'[^']*'|\"[^\"]*\"|\d+", "_", str(e).lower())[:60]),
               "the SQL of a request is not valid for its warehouse", dict(detail, error=str(e)[:500]))
        return "sql"
    return "sql"


def one_thing(r, req):
    """The request with one thing broken, what that is and the word a refusal has to have."""
    req = copy.deepcopy(req)
    name = r.choice(["orders.zork", "zork.kind", "visits.zork_date", "customers.zork_7", "zork"])
    if "sql" in req:
        used = [u for u in re.findall(r"\b(?:orders|customers|visits|spend)\.[a-z_0-9]+", req["sql"])]
        old = r.choice(used) if used else None
        if not old:
            return None, None, None
        req["sql"] = re.sub(r"\b%s\b" % re.escape(old), name, req["sql"])
        return "an unknown name in MQL", req, name
    if "merged_queries" in req:
        q = r.choice(req["merged_queries"])
        part = r.choice(["metrics", "dimensions", "where"])
        if part == "where":
            q["where"] = [{"field": name, "expression": "is_not_null", "value": None}]
        else:
            q[part] = list(q.get(part) or []) + [name]
        return "an unknown name in a sub query's %s" % part, req, name
    wh = req.get("where") if isinstance(req.get("where"), list) else []
    dims = [d for d in req.get("dimensions", []) if "." in d]
    how = r.randrange(11)
    if how == 0:
        req["metrics"] = req.get("metrics", []) + [name]
        return "an unknown metric", req, name
    if how == 1:
        req["dimensions"] = req.get("dimensions", []) + [name]
        return "an unknown dimension", req, name
    if how == 2:
        req["where"] = wh + [{"field": name, "expression": "equal_to", "value": "a"}]
        return "an unknown field in a condition", req, name
    if how == 3:
        req["where"] = wh + [{"conditions": [{"field": name, "expression": "equal_to", "value": "a"}, {"field": name, "expression": "is_null", "value": None}],
                              "logical_operator": "OR"}]
        return "an unknown field in a group of conditions", req, name
    if how == 4:
        req["having"] = [{"field": name, "expression": "greater_than", "value": 1}]
        return "an unknown metric in a having condition", req, name
    if how == 5:
        req["order_by"] = [{"field": name, "sort": "desc"}]
        return "an unknown field to order by", req, name
    if how == 6 and dims:
        e = r.choice(["resembles", "equals", "EQUAL_TO", "in"])
        req["where"] = wh + [{"field": r.choice(dims), "expression": e, "value": "a"}]
        return "an unknown expression", req, e
    if how == 7 and dims:
        req["order_by"] = [{"field": dims[0], "sort": "sideways"}]
        return "an unknown direction", req, "sideways"
    if how == 8:
        req["limit"] = r.choice(["many", "1; drop", 2.5])
        return "a limit that is no number of rows", req, req["limit"]
    if how == 9 and dims:
        req["where"] = wh + [{"field": r.choice(dims), "expression": "equal_to"}]
        return "a condition without a value", req, "equal_to"
    if how == 10 and "funnel" in req:
        req["funnel"]["steps"][-1] = [{"field": name, "expression": "equal_to", "value": "a"}]
        return "an unknown field in a funnel's step", req, name
    return None, None, None


NOW = datetime.datetime(2024, 5, 15, 13, 30)


def body(ck):
    def any_(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = world(r, dialect)
        conn = w.connection()
        n = Names(r, w, conn)
        ck.seen("dialects", dialect)
        for k in range(ck.pick(20, 40)):
            kind, req = request_of(r, w, n)
            out = judge(ck, w, conn, dialect, kind, req, n.metrics)
            ck.counts[out] += 0 if out == "refused" else 1
            ck.seen("kinds", kind)
            ck.case((dialect, snap(req)), {"kind": kind, "request": req, "outcome": out}, nontrivial=True)

    def named(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = world(r, dialect)
        conn = w.connection()
        kinds = usable_kinds(w)
        for k in range(ck.pick(12, 30)):
            kind, req = request(r, w, kinds[(i + k) % len(kinds)])
            detail = {"request": req, "kind": kind, "dialect": dialect}
            try:
                sql = conn.get_sql_query(query_type=dialect, **copy.deepcopy(req))
                ck.counts["plain"] += 1
                ck.case((dialect, snap(req)), {"kind": kind, "request": req}, nontrivial=True)
            except OWN as e:
                # (a merge or a mapping can be ambiguous in a random project)
                ck.counts["plain_refused"] += 1
                if not any(x in str(e) for x in PLAIN):
                    ck.bad("plain-refused", "a request with nothing wrong with it was refused", dict(detail, error=repr(e)[:500]))
                ck.seen("plain_refusals", dialect + kind + ": " + type(e).__name__ + " " + re.sub(r"'[^']*'|[a-z_]+\.[a-z_]+", "…", str(e))[:60])
                continue
            how, broken, word = one_thing(r, req)
            if not broken:
                continue
            detail.update(request=broken, broken=how, word=word)
            ck.seen("broken", how)
            try:
                sql = conn.get_sql_query(query_type=dialect, **copy.deepcopy(broken))
                ck.bad("accepted:" + how, "a request with %s was not refused" % how, dict(detail, sql=sql))
            except OWN as e:
                ck.counts["named"] += 1
                wanted = next((p for p in str(word).split(".") if "zork" in p), str(word))
                if wanted.lower() not in str(e).lower():
                    ck.bad("unnamed:" + how, "the refusal of a request with %s does not name it" % how, dict(detail, error=repr(e)[:500]))
            except Exception as e:
                ck.bad("internal:%s:%s" % (type(e).__name__, ":".join(map(str, last_frames(e)[-1][:2]))), "a request ended in an internal error",
                       dict(detail, error=repr(e)[:500], at=last_frames(e)))

    def probe(r, i):
        # requests that show what is known not to work
        dialect = ["SQL_SERVER", "SNOWFLAKE", "POSTGRES"][i]
        w = world(r, dialect)
        conn = w.connection()
        n = Names(r, w, conn)
        req = [{"metrics": ["orders.order_count"], "dimensions": [], "where": [{"field": "orders.kind", "expression": "equal_to", "value": True}]},
               {"metrics": ["orders.order_count"], "dimensions": ["orders.kind"], "order_by": [{"field": "orders.total_qty"}]},
               {"metrics": ["orders.order_count"], "dimensions": [], "funnel": {"view_name": "orders", "within": {"value": 3, "unit": "days"},
                                                                             "steps": ["${orders.kind} = 'a'", "${orders.kind} = 'b'"]}}][i]
        judge(ck, w, conn, dialect, "probe", req, n.metrics)
        ck.case((dialect, snap(req)), {"kind": "probe", "request": req})

    ck.run("probe", 3, probe)
    ck.run("any", ck.pick(110, 1200), any_)
    ck.run("named", ck.pick(50, 500), named)


ck = Check("C24", "requests of every kind and warehouse, mostly with one to three things changed to something odd, ended in one valid statement or a named refusal")
main(ck, body, need=[("sql", 300), ("refused", 300), ("plain", 150), ("named", 100)])
