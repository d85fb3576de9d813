"""Well-formed project definitions that use (randomly) every documented property of models, views, fields, sets, grants,
identifiers, mappings and dashboards. Plain dictionaries, as a loader would produce them."""
import copy

from .rich import rich_world

TIMEFRAMES = ["raw", "time", "second", "minute", "hour", "date", "week", "month", "quarter", "year", "fiscal_month", "fiscal_quarter",
              "fiscal_year", "week_index", "week_of_year", "week_of_month", "month_of_year", "month_of_year_index", "fiscal_month_index",
              "fiscal_month_of_year_index", "month_name", "month_index", "quarter_of_year", "fiscal_quarter_of_year", "hour_of_day",
              "day_of_week", "day_of_month", "day_of_year"]
INTERVALS = ["second", "minute", "hour", "day", "week", "month", "quarter", "year"]
FORMATS = ["decimal_0", "decimal_1", "decimal_2", "decimal_pct_0", "decimal_pct_1", "decimal_pct_2", "percent_0", "percent_1", "percent_2",
           "eur", "eur_0", "eur_1", "eur_2", "usd", "usd_0", "usd_1", "usd_2", "string", "image_from_url", "date", "week", "month",
           "quarter", "year"]
WEEKDAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
TEXTS = ["Total amount", "a", "Über-label", "it's \"quoted\"", "100%", "line\nbreak"]


def some(r, p=0.3):
    return r.random() < p


def decorate_field(r, f, view):
    t = lambda: r.choice(TEXTS)
    kind = f["field_type"]
    for k in ("label", "group_label", "description", "zoe_description", "label_prefix"):
        if some(r, 0.12):
            f[k] = t()
    if some(r, 0.1):
        f["hidden"] = r.choice([True, False])
    if some(r, 0.15):
        f["value_format_name"] = r.choice(FORMATS)
    if some(r, 0.15):
        f["synonyms"] = r.sample(TEXTS, r.choice([0, 1, 2]))
    if some(r, 0.08):
        f["extra"] = r.choice([{}, {"zenlytic.exclude": True}, {"a": {"b": [1, None]}}])
    if kind == "dimension":
        if f["type"] == "string" or some(r, 0.2):
            f["searchable"] = r.choice([True, False])
        if some(r, 0.1):
            f["link"] = "https://example.com/?q={{ value }}"
        if some(r, 0.1) and "tags" not in f:
            f["tags"] = r.choice([[], ["blue"], ["blue", "green"]])
    if kind == "dimension_group" and f["type"] == "time":
        f["timeframes"] = f["timeframes"] + [x for x in r.sample(TIMEFRAMES, 4) if x not in f["timeframes"]]
        if some(r, 0.2):
            f["convert_tz"] = r.choice([True, False])
        if some(r, 0.2):
            f["convert_timezone"] = r.choice([True, False])
        if some(r, 0.2):
            f["datatype"] = r.choice(["timestamp", "date", "datetime"])
    if kind == "measure":
        if f["type"] == "count" and "sql" not in f:
            f["sql"] = "${id}"
        if f["type"] == "cumulative":
            if some(r, 0.3):
                f["cumulative_where"] = "1 = 1"
            if some(r, 0.3):
                f["update_where_timeframe"] = r.choice([True, False])
        elif some(r, 0.1) and "is_merged_result" not in f:
            f["is_merged_result"] = False


def wide_project(r, dialect="SNOWFLAKE"):
    w = rich_world(r, dialect, rows=(1,), spend=some(r, 0.8), fan=some(r, 0.3), cumulative=True)
    models, views = w.definitions()
    m = models[0]
    by = {v["name"]: v for v in views}
    m["mappings"] = {k: {x: y for x, y in d.items() if x == "fields"} for k, d in (m.get("mappings") or {}).items()}
    for d in m["mappings"].values():
        for k in ("label", "group_label", "description", "link"):
            if some(r, 0.3):
                d[k] = r.choice(TEXTS)
    for k, options in (("label", TEXTS), ("week_start_day", WEEKDAYS), ("timezone", ["UTC", "America/New_York", "Europe/Berlin"]),
                       ("default_convert_tz", [True, False]), ("fiscal_month_offset", [-2, 0, 3]), ("version", [1])):
        if some(r, 0.4):
            m[k] = r.choice(options)
    grants = [{"name": "g%d" % i, "user_attribute": r.choice(["team", "region"]), "allowed_values": r.sample(["a", "b", "c"], r.choice([1, 2]))}
              for i in range(r.choice([0, 1, 2]))]
    if grants or some(r, 0.5):
        m["access_grants"] = grants
    for v in views:
        for f in v["fields"]:
            decorate_field(r, f, v)
            if grants and some(r, 0.08):
                f["required_access_grants"] = [r.choice(grants)["name"]]
        dims = [f for f in v["fields"] if f["field_type"] == "dimension"]
        plain = [f for f in dims if not f.get("primary_key")]
        times = [f for f in v["fields"] if f["field_type"] == "dimension_group" and f["type"] == "time"]
        measures = [f for f in v["fields"] if f["field_type"] == "measure" and f["type"] in ("sum", "count")]
        v["fields"].append({"name": "lag", "field_type": "dimension_group", "type": "duration", "intervals": r.sample(INTERVALS, 3),
                            "sql_start": "${%s_raw}" % times[0]["name"], "sql_end": "${%s_raw}" % times[-1]["name"]})
        v["fields"].append({"name": "band", "field_type": "dimension", "type": "tier", "tiers": sorted(r.sample(range(50), 3)),
                            "sql": "${TABLE}.%s" % ("score" if v["name"] == "customers" else "id")})
        v["fields"].append({"name": "uniq_sum", "field_type": "measure", "type": r.choice(["sum_distinct", "average_distinct"]),
                            "sql": "${TABLE}.id", "sql_distinct_key": "${id}"})
        pick = lambda fs: r.choice(fs)["name"]
        if some(r, 0.4):
            r.choice(plain)["drill_fields"] = ["%s.%s" % (v["name"], pick(dims))]
        for k, val in (("label", TEXTS), ("description", TEXTS), ("row_label", TEXTS), ("event_name", TEXTS), ("hidden", [True, False]),
                       ("version", [1]), ("extra", [{}, {"x": 1}]), ("event_dimension", [pick(dims), v["name"] + "." + pick(dims)]),
                       ("fields_for_analysis", [[], [pick(dims)]])):
            if some(r, 0.25):
                v[k] = r.choice(val)
        if some(r, 0.3):
            v["sets"] = [{"name": "s_one", "fields": [pick(dims), times[0]["name"] + "_date"]},
                         {"name": "s_all", "fields": ["ALL_FIELDS*", "-" + pick(measures)]},
                         {"name": "s_two", "fields": ["s_one*", v["name"] + "." + pick(measures)]}][:r.choice([1, 2, 3])]
        if some(r, 0.3):
            v["always_filter"] = [{"field": r.choice(["", v["name"] + "."]) + pick([f for f in plain if f["type"] == "string" and f["name"] != "band"]), "value": r.choice(["a", "-b", "a, b", "-NULL"])}]
        if some(r, 0.3):
            v["access_filters"] = [{"field": v["name"] + "." + pick(plain), "user_attribute": r.choice(["team", "region"])}]
        if grants and some(r, 0.2):
            v["required_access_grants"] = [r.choice(grants)["name"]]
        if some(r, 0.15):
            v["derived_table"] = {"sql": "SELECT * FROM " + v.pop("sql_table_name")}
    boards = []
    if some(r, 0.7):
        for i in range(r.choice([1, 2])):
            fs = [(v["name"], f) for v in views for f in v["fields"]]
            ms = ["%s.%s" % (v, f["name"]) for v, f in fs if v == "orders" and f["field_type"] == "measure"]
            ds = ["%s.%s" % (v, f["name"]) for v, f in fs if v in ("orders", "customers") and f["field_type"] == "dimension"]
            el = [{"title": r.choice(TEXTS), "type": "plot", "model": "m", "metrics": r.choice([r.choice(ms), r.sample(ms, 2)]), "slice_by": [r.choice(ds)],
                   "filters": [{"field": r.choice(ds), "value": "a"}] if some(r) else []} for _ in range(r.choice([1, 2]))]
            b = {"type": "dashboard", "name": "board_%d" % i, "elements": el}
            if some(r):
                b["filters"] = [{"field": r.choice(ds), "value": "a"}]
            if some(r):
                b["label"] = r.choice(TEXTS)
            if some(r):
                b["layout"] = "grid"
            if grants and some(r):
                b["required_access_grants"] = [grants[0]["name"]]
            boards.append(b)
    return {"models": models, "views": views, "dashboards": boards}


def joined_twice(r, p):
    """Customers joined under further names."""
    by = {v["name"]: v for v in p["views"]}
    c = by["customers"]
    for name in r.sample(["buyers_c", "watchers_c"], r.choice([1, 1, 2])):
        i = {"name": "key_" + name, "type": "primary", "sql": "${id}", "join_as": name}
        if some(r):
            i["join_as_label"] = "As " + name
        if some(r, 0.5):
            i["include_metrics"] = True
        c["identifiers"] = c.get("identifiers", []) + [i]
        o = by[r.choice(["orders", "visits"])]
        o["identifiers"] = o.get("identifiers", []) + [{"name": "key_" + name, "type": "foreign", "sql": "${customers_id}"}]


def load(p, **kw):
    from metrics_layer.core.model.project import Project
    return Project(models=p["models"], views=p["views"], dashboards=p["dashboards"], connection_lookup={"c": "SNOWFLAKE"}, **kw)
