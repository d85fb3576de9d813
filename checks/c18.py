import os
import re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import copy, json
from mlv.common import Check, main
from mlv.wide import *
from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError

ODD = [None, True, False, 0, 1, -3, 2.5, "", " ", "nope", "a b", "9", "orders.", ".", "a.b.c.d", "${x}", "${", "{% if %}", "ref('x')", "-- if prod --", [], [None], [1], ["nope"],
       [[]], [{}], {}, {"a": 1}, {"name": 1}, {"field": "nope", "value": 1}, "orders.amt", "order_count", "date", "count", "*", "-", "x" * 2000]


def own(p):
    """The project as its definitions are kept, for comparison."""
    return json.dumps([p._models, p._views, p._dashboards], sort_keys=True, default=repr)


def messages(errs):
    return [e["message"] for e in errs]


def walk(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from walk(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from walk(x[i], path + (i,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def damage(r, p):
    """One random change at a random place of the definitions."""
    kind = r.choice(["models", "views", "views", "views", "dashboards"])
    paths = [q for q in walk(p[kind], (kind,)) if len(q) > 1]
    if not paths:
        return None
    # The field definitions are many and much alike, so a path is chosen by what it is first
    by = {}
    for q in paths:
        by.setdefault(tuple(k for k in q if isinstance(k, str)), []).append(q)
    q = r.choice(by[r.choice(sorted(by))])
    box, key = at(p, q[:-1]), q[-1]
    how = r.choice(["set", "set", "set", "delete", "double", "wrap", "insert", "copy"])
    if how == "set":
        box[key] = copy.deepcopy(r.choice(ODD))
    elif how == "delete":
        del box[key]
    elif how == "double" and isinstance(box, list):
        box.append(copy.deepcopy(box[key]))
    elif how == "wrap":
        box[key] = r.choice([[box[key]], {"a": box[key]}])
    elif how == "insert":
        if isinstance(box[key], dict):
            box[key][r.choice(["nope", "sql", "type", "name", "fields", "filters"])] = copy.deepcopy(r.choice(ODD))
        elif isinstance(box[key], list):
            box[key].insert(r.randrange(len(box[key]) + 1), copy.deepcopy(r.choice(ODD)))
    else:
        box[key] = copy.deepcopy(at(p, r.choice(paths)))
    return how, q, box[key] if isinstance(box, dict) and key in box else None


# ------------------------------------------------------------------ definitions that are broken in one known way

def fields_of(p, kind=None, type_=None, has=None, view=None):
    out = []
    for v in p["views"]:
        for f in v["fields"]:
            if (not kind or f["field_type"] == kind) and (not type_ or f["type"] in type_) and (not has or has in f) and (not view or v["name"] == view):
                out.append((v, f))
    return out


STR = [1, True, ["a"], {"a": 1}, None]
BOOL = ["yes", 1, "true", [True], None]
LIST = ["a", 1, {"a": 1}, True]
DICT = ["a", 1, ["a"], True]
FIELD_KINDS = {  # property: (field type, types, wrong values)
    "label": (None, None, STR), "group_label": (None, None, STR), "description": (None, None, STR + ["x" * 600]), "zoe_description": (None, None, STR + ["x" * 600]),
    "hidden": (None, None, BOOL), "value_format_name": (None, None, ["usd_9", 1, "USD", [], None]), "synonyms": (None, None, LIST + [[1], [None]]),
    "filters": (None, None, LIST + [["a"], [1]]), "extra": (None, None, DICT), "field_type": (None, None, ["metric", "", 1, None]),
    "required_access_grants": (None, None, LIST + [[1]]),
    "type": ("dimension", None, ["text", "", 1, None, "sum"]), "primary_key": ("dimension", None, BOOL), "tags": ("dimension", None, LIST + [[1]]),
    "drill_fields": ("dimension", None, LIST), "searchable": ("dimension", None, BOOL), "link": ("dimension", None, STR),
    "sql": ("dimension", ["string", "number"], STR), "tiers": ("dimension", ["tier"], LIST + [["a"], [1.5]]),
    "timeframes": ("dimension_group", ["time"], ["date", 1, {"a": 1}, [], ["days"], ["date", "fortnight"], None]), "convert_tz": ("dimension_group", ["time"], BOOL),
    "convert_timezone": ("dimension_group", ["time"], BOOL), "datatype": ("dimension_group", ["time"], ["time", 1, "DATE", None]),
    "intervals": ("dimension_group", ["duration"], ["day", 1, {"a": 1}, [], ["days"], None]), "sql_start": ("dimension_group", ["duration"], STR), "sql_end": ("dimension_group", ["duration"], STR),
    "is_merged_result": ("measure", ["sum", "number"], BOOL), "measure": ("measure", ["cumulative"], STR), "cumulative_where": ("measure", ["cumulative"], STR),
    "update_where_timeframe": ("measure", ["cumulative"], BOOL), "sql_distinct_key": ("measure", ["sum_distinct", "average_distinct"], [1, True, ["a"], None]),
    "non_additive_dimension": ("measure", ["sum"], DICT), "canon_date": ("measure", ["sum", "average"], [1, ["a"], {"a": 1}]),
}
NAD_KINDS = {"name": [1, ["a"], {"a": 1}], "window_choice": ["first", 1, None, ["max"]], "window_aware_of_query_dimensions": BOOL, "nulls_are_equal": BOOL, "window_groupings": ["kind", 1, {"a": 1}]}
VIEW_KINDS = {"label": STR, "description": STR + ["x" * 1100], "hidden": BOOL, "sql_table_name": [1, ["a"], {"a": 1}], "derived_table": DICT + [{}, {"sql": 1}, {"query": "select 1"}],
              "default_date": [1, ["a"], {"a": 1}], "row_label": STR, "sets": LIST + [["a"], [1]], "always_filter": LIST + [["a"], [1]], "access_filters": ["a", 1, {"a": 1}, ["a"], [1], [{"field": "orders.kind"}], [{"user_attribute": "a"}]],
              "required_access_grants": LIST + [[1]], "event_dimension": [1, ["a"], {"a": 1}], "event_name": STR, "extra": DICT, "identifiers": LIST + [["a"], [{"name": "x"}], [{"type": "primary"}]], "fields_for_analysis": LIST}
MODEL_KINDS = {"connection": [1, ["a"], {"a": 1}, None], "label": STR, "week_start_day": ["someday", 1, "Mon", None], "timezone": ["Mars/Base", 1, None, "EDTX"], "default_convert_tz": BOOL,
               "fiscal_month_offset": ["1", 1.5, [1], None], "access_grants": LIST + [["a"], [{"name": "x"}]], "mappings": ["a", 1, ["a"], {"m": 1}, {"m": "a"}, {"m": ["a"]}]}
MAPPING_KINDS = {"fields": ["a", 1, {"a": 1}], "group_label": STR, "description": STR, "link": STR}
GRANT_KINDS = {"user_attribute": [1, ["a"], None], "allowed_values": ["a", 1, {"a": 1}, [1], ["a", 1]], "name": ["a b", "g-1", ""]}
IDENT_KINDS = {"type": [1, "key", ["primary"], None], "sql": [1, ["a"], {"a": 1}], "name": [1, ["a"], "a b"]}
JOIN_KINDS = {"relationship": ["one", 1, None, "many to one"], "join_type": ["left", 1, None], "sql_on": [1, ["a"], {"a": 1}], "reference": [1, ["a"], {"a": 1}, "nowhere"]}
BAD_NAMES = ["a b", "a-b", "a$", "café", "", "a.b"]


def put(box, key, val):
    box[key] = copy.deepcopy(val)


def broken(r, p):
    """Breaks the project in one way. Returns (what, the names an error must mention one of) or None if it has no place for it."""
    what = r.choice(BREAKS)
    return what.__name__, what(r, p)


def wrong_field_kind(r, p):
    k = r.choice(sorted(FIELD_KINDS))
    ft, types, bad = FIELD_KINDS[k]
    got = [x for x in fields_of(p, ft, types) if not (k in ("non_additive_dimension", "is_merged_result") and "non_additive_dimension" in x[1]) and x[1].get("type") != "cumulative" or types == ["cumulative"] and x[1]["type"] == "cumulative"]
    if k == "field_type":
        got = [x for x in got if x[1]["name"] not in used_names(p)]
    if not got:
        return None
    v, f = r.choice(got)
    put(f, k, r.choice(bad))
    return ["%s=%r" % (k, f[k])], [f["name"], v["name"]]


def used_names(p):
    return set()


def wrong_nad(r, p):
    got = fields_of(p, "measure", None, "non_additive_dimension")
    if not got:
        return None
    v, f = r.choice(got)
    d = f["non_additive_dimension"]
    how = r.random()
    if how < 0.15:
        k = r.choice(["name", "window_choice"])
        d.pop(k, None)
        return ["without " + k], [f["name"]]
    if how < 0.3:
        put(d, "window_groupings", [r.choice(["nope", "orders.nope", "nowhere.kind", "order_count"])])
        return ["window_groupings=%r" % d["window_groupings"]], [f["name"]]
    if how < 0.4:
        d["name"] = r.choice(["nope", "nowhere.made_raw", "kind"])
        return ["name=%r" % d["name"]], [f["name"]]
    if how < 0.5:
        d["windowing"] = 1
        return ["unknown property"], [f["name"]]
    k = r.choice(sorted(NAD_KINDS))
    put(d, k, r.choice(NAD_KINDS[k]))
    return ["%s=%r" % (k, d[k])], [f["name"]]


def wrong_view_kind(r, p):
    v = r.choice(p["views"])
    k = r.choice(sorted(VIEW_KINDS))
    put(v, k, r.choice(VIEW_KINDS[k]))
    return ["%s=%r" % (k, v[k])], [v["name"]]


def wrong_model_kind(r, p):
    m = p["models"][0]
    k = r.choice(sorted(MODEL_KINDS))
    put(m, k, r.choice(MODEL_KINDS[k]))
    return ["%s=%r" % (k, m[k])], [" m", k]


def wrong_mapping_kind(r, p):
    ms = p["models"][0]["mappings"]
    if not ms:
        return None
    n = r.choice(sorted(ms))
    k = r.choice(sorted(MAPPING_KINDS))
    put(ms[n], k, r.choice(MAPPING_KINDS[k]))
    return ["%s=%r" % (k, ms[n][k])], [n]


def wrong_grant_kind(r, p):
    gs = p["models"][0].get("access_grants")
    if not gs:
        return None
    g = r.choice(gs)
    name = g["name"]
    k = r.choice(sorted(GRANT_KINDS))
    put(g, k, r.choice(GRANT_KINDS[k]))
    return ["%s=%r" % (k, g[k])], [name, str(g["name"])]


def wrong_identifier_kind(r, p):
    got = [(v, i) for v in p["views"] for i in v.get("identifiers", [])]
    if not got:
        return None
    v, i = r.choice(got)
    kinds = JOIN_KINDS if i["type"] == "join" else IDENT_KINDS
    k = r.choice(sorted(kinds))
    put(i, k, r.choice(kinds[k]))
    return ["%s=%r" % (k, i[k])], [v["name"], str(i["name"])]


def unknown_property(r, p):
    boxes = [(m, "m") for m in p["models"]] + [(v, v["name"]) for v in p["views"]] + [(f, f["name"]) for v in p["views"] for f in v["fields"]] * 1
    boxes += [(i, i["name"]) for v in p["views"] for i in v.get("identifiers", [])] + [(s, s["name"]) for v in p["views"] for s in v.get("sets", [])]
    boxes += [(g, g["name"]) for g in p["models"][0].get("access_grants", [])] + [(d, n) for n, d in p["models"][0]["mappings"].items()]
    box, name = r.choice(boxes)
    k = r.choice(["lable", "descriptions", "sql_table", "timeframe", "hiden", "measures", "nope"])
    if k in box:
        return None
    box[k] = "x"
    return [k], [k]


def bad_name(r, p):
    kind = r.choice(["view", "field", "field", "grant", "set", "mapping", "model", "identifier"])
    n = r.choice(BAD_NAMES)
    if kind == "view":
        v = dict(copy.deepcopy(p["views"][0]), name=n)
        v.pop("identifiers", None)
        for f in v["fields"]:
            f.pop("tags", None)
        p["views"].append(v)
    elif kind == "field":
        r.choice(p["views"])["fields"].append({"name": n, "field_type": "dimension", "type": "number", "sql": "${TABLE}.x"})
    elif kind == "grant":
        p["models"][0].setdefault("access_grants", []).append({"name": n, "user_attribute": "a", "allowed_values": ["a"]})
    elif kind == "set":
        v = r.choice(p["views"])
        v.setdefault("sets", []).append({"name": n, "fields": ["id"]})
    elif kind == "mapping":
        p["models"][0]["mappings"][n] = {"fields": ["orders.kind", "visits.kind"]}
    elif kind == "identifier":
        v = r.choice(p["views"])
        v.setdefault("identifiers", []).append({"name": n, "type": "foreign", "sql": "${id}"})
    else:
        return None
    return [kind, n], [n]


def reserved_name(r, p):
    v = r.choice(p["views"])
    n = r.choice(["date", "week", "month", "quarter", "year"])
    if r.random() < 0.5:
        v["fields"].append({"name": n, "field_type": "dimension", "type": "number", "sql": "${TABLE}.x"})
    else:
        p["models"][0]["mappings"][n] = {"fields": ["orders.kind", "visits.kind"]}
    return [n], [n]


def repeated_field(r, p):
    v = r.choice(p["views"])
    f = copy.deepcopy(r.choice([f for f in v["fields"] if not f.get("primary_key")]))
    if r.random() < 0.3:
        f["name"] = f["name"].title()
    v["fields"].append(f)
    return [v["name"], f["name"]], [f["name"].lower()]


def repeated_dashboard(r, p):
    if not p["dashboards"]:
        return None
    d = copy.deepcopy(r.choice(p["dashboards"]))
    if r.random() < 0.3:
        d["name"] = d["name"].upper()
    p["dashboards"].append(d)
    return [d["name"]], [d["name"].lower()]


def repeated_identifier(r, p):
    got = [v for v in p["views"] if v.get("identifiers")]
    if not got:
        return None
    v = r.choice(got)
    i = copy.deepcopy(r.choice(v["identifiers"]))
    v["identifiers"].append(i)
    return [v["name"], i["name"]], [i["name"]]


def second_primary_key(r, p):
    v, f = r.choice([x for x in fields_of(p, "dimension") if not x[1].get("primary_key")])
    f["primary_key"] = True
    return [v["name"], f["name"]], [f["name"]]


def unknown_field_in_sql(r, p):
    got = fields_of(p, None, ["sum", "count", "average", "number", "string", "max", "time"])
    got = [x for x in got if isinstance(x[1].get("sql"), str)]
    v, f = r.choice(got)
    ref = r.choice(["nope", v["name"] + ".nope", "nowhere.amt", "made_nope"])
    f["sql"] = r.choice(["${%s}", "case when ${%s} > 1 then 1 end", "${TABLE}.id + ${%s}", "${TABLE}.id || ${%s}::text"]) % ref
    return [v["name"], f["name"], f["sql"]], [ref]


def unknown_reference(r, p):
    """A name of something that isn't there, in any property that takes one."""
    ref = r.choice(["nope", "orders.nope", "nowhere.kind"])
    v = r.choice(p["views"])
    k = r.choice(["filter", "drill", "canon", "measure", "key", "default_date", "always", "access", "event", "grant", "field grant", "set", "set of set", "model_name", "mapping",
                  "identifier", "composite", "join", "board metric", "board slice", "board filter", "tile filter", "tile model", "duration", "join as"])
    names = [ref]
    fs = v["fields"]
    if k == "filter":
        got = [f for f in fs if f["field_type"] == "measure" and f["type"] in ("sum", "count", "average")]
        f = r.choice(got)
        f["filters"] = [{"field": ref, "value": "a"}]
    elif k == "drill":
        r.choice([f for f in fs if f["field_type"] == "dimension"])["drill_fields"] = [v["name"] + ".id", ref]
    elif k == "canon":
        r.choice([f for f in fs if f["field_type"] == "measure" and f["type"] in ("sum", "count", "average", "max")])["canon_date"] = ref
    elif k == "measure":
        fs.append({"name": "running_new", "field_type": "measure", "type": "cumulative", "measure": ref})
    elif k == "key":
        fs.append({"name": "distinct_new", "field_type": "measure", "type": "sum_distinct", "sql": "${TABLE}.id", "sql_distinct_key": "${%s}" % ref})
    elif k == "default_date":
        v["default_date"] = ref
    elif k == "always":
        v["always_filter"] = [{"field": ref, "value": "a"}]
    elif k == "access":
        v["access_filters"] = [{"field": ref, "user_attribute": "team"}]
    elif k == "event":
        v["event_dimension"] = ref
    elif k == "grant":
        v["required_access_grants"] = ["no_grant"]
        names = ["no_grant"]
    elif k == "field grant":
        r.choice(fs)["required_access_grants"] = ["no_grant"]
        names = ["no_grant"]
    elif k == "set":
        v["sets"] = v.get("sets", []) + [{"name": "s_new", "fields": ["id", ref]}]
        names = ["s_new"]
    elif k == "set of set":
        v["sets"] = v.get("sets", []) + [{"name": "s_new", "fields": ["id", "s_nowhere*"]}]
        names = ["s_nowhere"]
    elif k == "model_name":
        v["model_name"] = "no_model"
        names = ["no_model", v["name"]]
    elif k == "mapping":
        p["models"][0]["mappings"]["m_new"] = {"fields": ["orders.kind", ref]}
        names = ["m_new"]
    elif k == "identifier":
        v["identifiers"] = v.get("identifiers", []) + [r.choice([{"name": "i_new", "type": "foreign", "sql": "${%s}" % ref}, {"name": "nope", "type": "foreign"}])]
        names = names + ["nope"]
    elif k == "composite":
        v["identifiers"] = v.get("identifiers", []) + [{"name": "i_new", "type": "primary", "identifiers": [{"name": "nope"}]}]
        names = ["nope"]
    elif k == "join":
        v["identifiers"] = v.get("identifiers", []) + [r.choice([
            {"name": "i_new", "type": "join", "relationship": "many_to_one", "reference": "nowhere", "sql_on": "${%s.id} = ${nowhere.id}" % v["name"]},
            {"name": "i_new", "type": "join", "relationship": "many_to_one", "reference": p["views"][0]["name"] if p["views"][0] is not v else p["views"][1]["name"], "sql_on": "${%s.id} = ${nowhere.id}" % v["name"]}])]
        names = ["nowhere"]
    elif k == "duration":
        f = next(f for f in fs if f["name"] == "lag")
        f[r.choice(["sql_start", "sql_end"])] = "${%s}" % ref
    elif k == "join as":
        v["identifiers"] = v.get("identifiers", []) + [{"name": "i_new", "type": "foreign", "sql": "${%s}" % ref, "join_as": "v_new"}]
    else:
        if not p["dashboards"]:
            return None
        b = r.choice(p["dashboards"])
        t = r.choice(b["elements"])
        if k == "board metric":
            t["metrics"] = r.choice([ref, ["orders.order_count", ref]])
        elif k == "board slice":
            t["slice_by"] = [ref]
        elif k == "board filter":
            b["filters"] = [{"field": ref, "value": "a"}]
        elif k == "tile filter":
            t["filters"] = [{"field": ref, "value": "a"}]
        else:
            t["model"] = "no_model"
            names = ["no_model"]
    return [k, v["name"], ref], names


def missing_part(r, p):
    k = r.choice(["pk", "table", "searchable", "date", "sql", "type", "measure", "key", "tiers", "timeframes", "intervals", "sql_start"])
    v = r.choice(p["views"])
    fs = v["fields"]
    names = [v["name"]]
    if k == "pk":
        for f in fs:
            f.pop("primary_key", None)
    elif k == "table":
        v.pop("sql_table_name", None)
        v.pop("derived_table", None)
    elif k == "date":
        v.pop("default_date")
    else:
        sel = {"searchable": lambda f: f["field_type"] == "dimension" and f["type"] == "string" and not f.get("hidden") and "searchable" in f,
               "sql": lambda f: f["field_type"] in ("dimension", "measure") and "sql" in f, "type": lambda f: True, "measure": lambda f: f["type"] == "cumulative",
               "sql_distinct_key": lambda f: "sql_distinct_key" in f, "tiers": lambda f: f["type"] == "tier"}
        key = {"key": "sql_distinct_key"}.get(k, k)
        got = [f for f in fs if (sel[key](f) if key in sel else key in f)]
        if not got:
            return None
        f = r.choice(got)
        f.pop(key, None)
        names = [f["name"]]
    return [k, v["name"]], names


BREAKS = [wrong_field_kind] * 4 + [wrong_nad, wrong_view_kind, wrong_view_kind, wrong_model_kind, wrong_mapping_kind, wrong_grant_kind, wrong_identifier_kind, unknown_property, bad_name, reserved_name,
          repeated_field, repeated_dashboard, repeated_identifier, second_primary_key, unknown_field_in_sql] + [unknown_reference] * 4 + [missing_part] * 2


UNREADABLE = re.compile(r"^(unhashable type|'\w+' object (is not|has no)|argument of type|expected str|can only concatenate|sequence item)")


def body(ck):
    def valid(r, i):
        p = wide_project(r)
        cases = sum(1 for v in p["views"] for f in v["fields"] if "case" in f)
        given = copy.deepcopy(p)
        pr = load(p)
        before = own(pr)
        errs = [m for m in messages(pr.validate()) if "is using a case statement, which is deprecated" not in m]
        ck.case(("valid", i), {"views": [v["name"] for v in p["views"]], "fields": sum(len(v["fields"]) for v in p["views"])}, nontrivial=True)
        ck.counts["well_formed"] += 1
        for v in p["views"]:
            for f in v["fields"]:
                for k in f:
                    ck.seen("property", f["field_type"] + "." + k)
            for k in v:
                ck.seen("property", "view." + k)
        if errs:
            # A project whose fields don't compile isn't a working one
            bad = uncompilable(p)
            if not bad:
                ck.bad("false-error", "a working project is reported as broken", {"errors": errs[:5], "project": p})
        if own(pr) != before:
            ck.bad("changed", "validating changed the project's definitions", {"project": given})
        if p != given:
            ck.bad("changed-input", "validating changed the caller's definitions", {"project": given})
        again = messages(pr.validate())
        if [m for m in again if "deprecated" not in m] != errs:
            ck.bad("unstable", "validating again gives other errors", {"first": errs[:5], "second": again[:5]})

    def uncompilable(p):
        pr = load(copy.deepcopy(p))
        conn = MetricsLayerConnection(project=pr, connections=[])
        bad = []
        for v in p["views"]:
            for f in v["fields"]:
                n = v["name"] + "." + f["name"]
                if f.get("is_merged_result") and any(x.get("always_filter") for x in p["views"]):
                    continue  # an always filter applies to every part of a merged result and must be mapped there (C16)
                q = {"metrics": [n]} if f["field_type"] == "measure" else {"dimensions": [n + "_" + f["timeframes"][0] if "timeframes" in f else v["name"] + "." + f["intervals"][0] + "s_" + f["name"] if "intervals" in f else n]}
                try:
                    conn.get_sql_query(query_type="SNOWFLAKE", **q)
                except Exception as e:
                    bad.append((n, repr(e)))
        return bad

    def compile_all(r, i):
        """The generator's projects work: every field of them compiles."""
        p = wide_project(r)
        bad = uncompilable(p)
        ck.case(("compiles", i), {"fields": sum(len(v["fields"]) for v in p["views"])}, nontrivial=True)
        ck.counts["compiled_fields"] += sum(len(v["fields"]) for v in p["views"]) - len(bad)
        for b in bad:
            ck.bad("does-not-compile", "a field of a project without errors does not compile", {"field": b, "project": p})

    def damaged(r, i):
        p = wide_project(r)
        done = [damage(r, p) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        given = copy.deepcopy(p)
        try:
            pr = load(p)
            before = own(pr)
        except Exception:
            ck.counts["not_loadable"] += 1
            return
        ck.counts["damaged"] += 1
        for d in done:
            if d:
                ck.seen("damaged", ".".join(str(k) for k in d[1] if isinstance(k, str)))
        ck.case(("damaged", [str(d) for d in done], i), {"damage": [str(d) for d in done]}, nontrivial=True)
        info = {"damage": [str(d) for d in done], "project": given}
        try:
            errs = pr.validate()
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ck.bad("raises", "validate raises %r" % e, dict(info, where="%s:%s %s" % (os.path.basename(tb.filename), tb.lineno, tb.name)))
            return
        if any(not isinstance(e, dict) or not isinstance(e.get("message"), str) for e in errs):
            ck.bad("not-an-error", "an error without a message", dict(info, errors=errs))
        ck.counts["damage_reported" if errs else "damage_harmless"] += 1
        if own(pr) != before or p != given:
            ck.bad("changed", "validating changed the project's definitions", info)

    def broke(r, i):
        p = wide_project(r)
        what, got = broken(r, p)
        if not got:
            return
        detail, names = got
        given = copy.deepcopy(p)
        try:
            pr = load(p)
        except Exception:
            ck.counts["not_loadable"] += 1
            return
        errs = messages(pr.validate())
        errs = [m for m in errs if "is using a case statement, which is deprecated" not in m]
        ck.counts["broken"] += 1
        ck.counts["broken_" + what] += 1
        ck.seen("broken", what + " " + str(detail[0]).split("=")[0])
        ck.case(("broken", what, detail), {"how": what, "detail": detail, "errors": errs[:2]}, nontrivial=True)
        info = {"how": what, "detail": detail, "errors": errs[:6], "project": given}
        if not errs:
            ck.bad("unreported:" + what, "a broken definition is not reported: %s" % detail, info)
        elif len(errs) == 1 and UNREADABLE.search(errs[0]) and not any(n in errs[0] for n in names):
            ck.bad("unreadable-unnamed", "a property of a kind that cannot be read stops validation with Python's message", info)
        elif not any(n in m for n in names for m in errs):
            ck.bad("unnamed:" + what, "no error names the broken definition: %s" % detail, info)
    ck.run("valid", ck.pick(110, 1500), valid)
    ck.run("compiles", ck.pick(8, 100), compile_all)
    ck.run("broken", ck.pick(500, 9000), broke)
    ck.run("damaged", ck.pick(450, 9000), damaged)


ck = Check("C18", "random projects using every documented property must validate without errors and compile; projects broken in one known way (a name of "
           "something that isn't there, a wrong kind of value, a repeated or bad name, a missing part) must be reported with an error naming it; randomly "
           "damaged definitions must never make validate raise; the definitions must be unchanged afterwards")
main(ck, body, need=[("well_formed", 80), ("compiled_fields", 300), ("broken", 350), ("damaged", 300), ("damage_reported", 100)])
