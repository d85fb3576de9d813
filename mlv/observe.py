"""Everything a project shows, as comparable values: listings, lookups, reports, SQL of requests."""
import copy
import json
import re

from metrics_layer.core import MetricsLayerConnection


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        # (the order in which a message lists the matching fields is not part of the behaviour)
        return type(e).__name__ + ": " + re.sub(r"\[[^\]]*\]", lambda m: str(sorted(m.group(0).strip("[]").split(", "))), str(e))[:300]


def errors_of(errors):
    return sorted(re.sub(r"\[[^\]]*\]", lambda m: str(sorted(m.group(0).strip("[]").split(", "))), e["message"]) for e in errors)


def observe(pr, requests, names, deep, user):
    conn = MetricsLayerConnection(project=pr, connections=[], user=user)
    out = {}
    for hidden in (True, False):
        out["fields", hidden] = attempt(lambda: sorted(json.dumps([f.id(), f.label, f.type, f.field_type, f.sql, f.hidden], default=str)
                                                       for f in pr.fields(show_hidden=hidden, expand_dimension_groups=True)))
        out["views", hidden] = attempt(lambda: sorted(v.name + " " + str(v.label) for v in pr.views(show_hidden=hidden)))
    out["dashboards"] = attempt(lambda: sorted(json.dumps(d._definition, sort_keys=True, default=str) for d in pr.dashboards()))
    out["models"] = attempt(lambda: sorted(json.dumps(m._definition, sort_keys=True, default=str) for m in pr.models()))
    for n in names:
        out["lookup", n] = attempt(lambda: json.dumps([pr.get_field(n).id(), pr.get_field(n).sql, pr.get_field(n).canon_date]))
        out["exists", n] = attempt(lambda: pr.does_field_exist(n))
        if "." in n:
            out["of view", n] = attempt(lambda: sorted(f.id() for f in pr.fields(view_name=n.split(".")[0])))
    out["tag"] = attempt(lambda: pr.get_field_by_tag("customer", view_name="customers").id())
    for view in ("orders", "visits"):
        out["joinable", view] = attempt(lambda: pr.get_joinable_views(view))
    for i, q in enumerate(requests):
        out["query", json.dumps(q)] = attempt(lambda: conn.get_sql_query(query_type="SNOWFLAKE", **copy.deepcopy(q)))
    if deep:
        out["validate"] = attempt(lambda: errors_of(pr.validate()))
    return out
