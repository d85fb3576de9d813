"""Worlds with every setting, requests of every kind (some broken) and their outcome at a frozen moment."""
import copy
import json
import re

from .meta import *
import pendulum

FIXED = pendulum.datetime(2024, 5, 15, 13, 30)
pendulum.now = lambda tz=None: FIXED.in_timezone(tz or "UTC")
pendulum.today = lambda tz="local": FIXED.in_timezone("UTC" if tz == "local" else tz).start_of("day")

REL = ["today", "yesterday", "this month", "last week", "last 3 days", "this quarter to date", "2 weeks ago", "last year to date", "next month",
       "2024-01-01 until 2024-03-05", "after 2024-02-01", "nonsense words", "last 0 days", "3 months ago for 2 days"]


def world(r, dialect):
    w = rich_world(r, dialect, fan=dialect in SYMMETRIC and r.random() < 0.5, week=r.random() < 0.5, extra_dims=2)
    if r.random() < 0.5:
        # a second name for the customers view
        w.views["customers"].identifiers[0]["join_as"] = "buyers_view"
        w.views["customers"].identifiers.insert(0, {"name": "customer_key", "type": "primary", "sql": "${id}"})
        if r.random() < 0.5:
            w.views["customers"].identifiers[1]["join_as_label"] = "Buyers"
    if r.random() < 0.4:
        w.model["week_start_day"] = r.choice(["monday", "sunday", "thursday"])
    if r.random() < 0.3:
        w.model["timezone"] = r.choice(["America/New_York", "Asia/Tokyo"])
    if r.random() < 0.4:
        w.views["orders"].extra["access_filters"] = [{"field": "orders.chan", "user_attribute": "chan"}]
    if r.random() < 0.3:
        w.views["visits"].extra["always_filter"] = [{"field": r.choice(["pages", "visits.pages"]), "value": ">0"}]
    w.views["orders"].extra["sets"] = [{"name": "s1", "fields": ["orders.kind", "total_amt"]}, {"name": "s2", "fields": ["ALL_FIELDS*", "-kind"]}]
    w.dashboards = [{"type": "dashboard", "name": "Board", "layout": "grid", "filters": [{"field": "orders.made", "value": "last week"}],
                     "elements": [{"type": "plot", "title": "x", "model": "m", "metric": "orders.total_amt", "slice_by": ["orders.kind"],
                                   "filters": [{"field": "orders.kind", "value": "-a"}]}]}]
    return w


def some_request(r, w):
    """A request, sometimes broken, sometimes with date windows or tricky argument values."""
    kind, req = request(r, w, r.choice(usable_kinds(w)))
    k = r.random()
    if kind in ("single", "joined", "cumulative", "nonadd", "fanned", "dims_only") and k < 0.35 and isinstance(req.get("where", []), list):
        v = "visits" if "visits." in repr(req) else "orders" if "orders." in repr(req) else None
        if v:
            f = {"orders": "orders.made_", "visits": "visits.seen_"}[v] + r.choice(["date", "month"])
            req["where"] = req.get("where", []) + [{"field": f, "expression": "matches", "value": r.choice(REL)}]
    elif kind in ("single", "joined", "dims_only") and k < 0.42 and "orders." in repr(req) and isinstance(req.get("where", []), list):
        req["where"] = req.get("where", []) + [{"field": "orders.made_date", "expression": "greater_than", "value": TS(2024, 1, 5, 3)}]
    if k > 0.85 and "sql" not in req and "merged_queries" not in req:
        how = r.randrange(8)
        if how == 0:
            req["metrics"] = req["metrics"] + ["orders.nope"]
        elif how == 1:
            req["dimensions"] = req["dimensions"] + ["nowhere.kind"]
        elif how == 2:
            req["where"] = [{"field": "orders.kind", "expression": "resembles", "value": "a"}]
        elif how == 3:
            req["where"] = [{"field": "orders.kind", "expression": "equal_to"}]
        elif how == 4:
            req["having"] = [{"field": "orders.nope", "expression": "greater_than", "value": 1}]
        elif how == 5:
            req["order_by"] = [{"field": "orders.nope"}]
        elif how == 6:
            req["where"] = [{"conditions": [{"field": "orders.kind", "expression": "equal_to", "value": "a"}], "logical_operator": "XOR"}]
        else:
            req["dimensions"] = req["dimensions"] + ["spend.kind"]
        kind += "-broken"
    elif k > 0.8 and "sql" in req:
        req["sql"] = req["sql"].replace(" BY ", r.choice([" BI ", " BY , ", " BY BY "]))
        kind += "-broken"
    return kind, req


def snap(x):
    """A comparable deep copy of arguments."""
    if isinstance(x, dict):
        return ("d", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return (type(x).__name__, str(x))


def outcome(conn, dialect, req):
    try:
        return ["sql", conn.get_sql_query(query_type=dialect, **req)]
    except Exception as e:
        return ["error", type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(e))]


def definitions(conn):
    p = conn.project
    out = {"models": [m.to_dict() for m in p.models()], "views": [v.to_dict() for v in p.views()],
           "dashboards": [d.to_dict() for d in p.dashboards()]}
    return json.dumps(out, sort_keys=True, default=str)


