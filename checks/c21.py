"""C21: what is listed can be looked up and queried, and nothing else; sets, drill fields and dashboards denote what is written.

An independent model of every project (plain loops over its definitions) says which models, views, fields, timeframes,
dashboards and sets exist, which are hidden, and what a set expression denotes. The real listings, lookups by every name
(qualified or not, in any letter case) and resolved dashboards are compared with it, and everything listed is queried."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import collections, copy, json
from mlv.common import Check, main
from mlv.wide import *
from mlv.sqlparse_ import *
from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError
from metrics_layer.core.sql.query_errors import ArgumentError, ParseError

Entry = collections.namedtuple("Entry", "id view alias name kind hidden group defn")


def recase(r, name):
    return "".join(c.upper() if r.random() < 0.5 else c for c in name)


def cased(r, name):
    return name if r.random() < 0.7 else recase(r, name)


def with_copies(p):
    """The views of the project, those that join_as makes at the end."""
    views, new = copy.deepcopy(p["views"]), []
    for v in views:
        for i in list(v.get("identifiers", [])):
            if "join_as" in i and i["type"] == "primary":
                c = copy.deepcopy(v)
                c["name"] = i["join_as"]
                if not i.get("include_metrics", False):
                    c["fields"] = [f for f in c["fields"] if f["field_type"] != "measure"]
                new.append(c)
    return views + new


def entries(v):
    """(fields as listed, fields with every timeframe and interval)"""
    plain, wide = [], []
    for f in v["fields"]:
        n, kind, hid = f["name"].lower(), f["field_type"], bool(f.get("hidden", False))
        plain.append(Entry(v["name"] + "." + n, v["name"], n, n, kind, hid, None, f))
        if kind != "dimension_group":
            wide.append(plain[-1])
        elif f["type"] == "time":
            for t in f["timeframes"]:
                wide.append(Entry("%s.%s_%s" % (v["name"], n, t), v["name"], "%s_%s" % (n, t), n, kind, hid or t == "raw", t, f))
        else:
            for t in f["intervals"]:
                wide.append(Entry("%s.%ss_%s" % (v["name"], t, n), v["name"], "%ss_%s" % (t, n), n, kind, hid, t + "s", f))
    return plain, wide


# ---- sets ---------------------------------------------------------------------------------------
def add_sets(r, p):
    views = with_copies(p)
    wide = {v["name"]: entries(v)[1] for v in views}
    names = ["s_one", "s_two", "s_three"]
    for v in p["views"]:
        v.pop("sets", None)
    for v in p["views"]:
        if r.random() < 0.25:
            continue
        sets = []
        own = [e.alias for e in wide[v["name"]]]
        for k, name in enumerate(names[:r.choice([1, 2, 3])]):
            items = []
            for _ in range(r.choice([1, 2, 3, 5, 8])):
                x = r.random()
                if x < 0.35:
                    f = r.choice(own)
                    items.append(r.choice(["", "", "-"]) + r.choice(["", v["name"] + "."]) + cased(r, f))
                elif x < 0.5:
                    other = r.choice(list(wide))
                    items.append(r.choice(["", "", "-"]) + other + "." + cased(r, r.choice(wide[other]).alias))
                elif x < 0.65:
                    items.append(r.choice(["", "", "-"]) + "ALL_FIELDS*")
                elif k:
                    items.append(r.choice(["", "", "-"]) + r.choice(["", v["name"] + "."]) + r.choice(names[:k]) + "*")
                else:
                    items.append(cased(r, r.choice(own)))
            # (sets of other views that are made already: no circles)
            before = [w for w in p["views"] if w["name"] < v["name"] and w.get("sets")]
            if before and r.random() < 0.4:
                w = r.choice(before)
                items.insert(r.randrange(len(items) + 1), r.choice(["", "-"]) + w["name"] + "." + r.choice(w["sets"])["name"] + "*")
            sets.append({"name": name, "fields": items})
        v["sets"] = sets
    for v in p["views"]:
        own = [e.alias for e in wide[v["name"]]]
        for f in v["fields"]:
            f.pop("drill_fields", None)
            if f["field_type"] in ("dimension", "dimension_group") and r.random() < 0.2:
                f["drill_fields"] = [r.choice(["", v["name"] + "."]) + cased(r, r.choice(own)) for _ in range(r.choice([1, 2]))]
                if v.get("sets") and r.random() < 0.7:
                    f["drill_fields"].insert(r.randrange(2), r.choice(["", v["name"] + "."]) + r.choice(v["sets"])["name"] + "*")
                if r.random() < 0.4:
                    f["drill_fields"].append("-" + r.choice(["", v["name"] + "."]) + cased(r, r.choice(own)))
                if r.random() < 0.2:
                    f["drill_fields"].append("ALL_FIELDS*")


def denoted(items, view, views):
    inside, outside = [], set()
    for it in items:
        minus = it.startswith("-")
        body = it[1:] if minus else it
        if body.endswith("*"):
            body = body[:-1]
            where, name = body.split(".") if "." in body else (view, body)
            if name == "ALL_FIELDS":
                got = [e.id for e in entries(views[where])[1]]
            else:
                got = denoted(next(s for s in views[where]["sets"] if s["name"] == name)["fields"], where, views)
        else:
            where, name = body.split(".") if "." in body else (view, body)
            got = [where + "." + name.lower()]
        if minus:
            outside.update(got)
        else:
            inside += [g for g in got if g not in inside]
    return [i for i in inside if i not in outside]


# ---- dashboards ---------------------------------------------------------------------------------
def text_filter(r):
    """(value as written, [(expression, value)])"""
    w = lambda: r.choice(["a", "b", "New York", "O'Neil", "west-1", "x_y", "5", "é"])
    d = "202%d-0%d-1%d" % (r.randrange(5), r.randrange(1, 10), r.randrange(10))
    n = r.choice([0, 5, -3, 2.5, 1000000])
    a, b = w(), w()
    return r.choice([
        (a, [("equal_to", a)]), ("-" + a, [("not_equal_to", a)]), (a + ", " + b, [("isin", [a, b])]),
        ("-%s, -%s" % (a, b), [("isnotin", [a, b])]), ("NULL", [("is_null", None)]), ("-NULL", [("is_not_null", None)]),
        (True, [("equal_to", True)]), (False, [("equal_to", False)]), ("TRUE", [("equal_to", True)]), ("FALSE", [("equal_to", False)]),
        (">%s" % n, [("greater_than", n)]), ("<%s" % n, [("less_than", n)]), (">=%s" % n, [("greater_or_equal_than", n)]),
        ("<=%s" % n, [("less_or_equal_than", n)]), ("=%s" % n, [("equal_to", n)]), ("<>%s" % n, [("not_equal_to", n)]),
        ("!=%s" % n, [("not_equal_to", n)]), ("%" + a + "%", [("contains_case_insensitive", a)]),
        ("-%" + a + "%", [("does_not_contain_case_insensitive", a)]), (a + "%", [("starts_with_case_insensitive", a)]),
        ("%" + a, [("ends_with_case_insensitive", a)]), ("-" + a + "%", [("does_not_start_with_case_insensitive", a)]),
        ("-%" + a, [("does_not_end_with_case_insensitive", a)]), ("after " + d, [("greater_or_equal_than", d + "T00:00:00")]),
        ("before " + d, [("less_or_equal_than", d + "T00:00:00")]), ("on " + d, [("equal_to", d + "T00:00:00")]),
        ("not on " + d, [("not_equal_to", d + "T00:00:00")]), ("%s until 2025-01-02" % d, [("greater_or_equal_than", d + "T00:00:00"), ("less_or_equal_than", "2025-01-02T00:00:00")]),
        ("", [])])


def add_dashboards(r, p, wide):
    """Dashboards; returns [(name as listed, filters, [(metrics, slice_by, filters)])] with filters as (field, expression, value)."""
    ms = [e for v in ("orders",) for e in wide[v] if e.kind == "measure"]
    ds = [e for v in ("orders", "customers") for e in wide[v] if e.kind != "measure"]
    p["dashboards"], want = [], []

    def filters():
        out, exp = [], []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            f, (text, conditions) = r.choice(ds).id, text_filter(r)
            out.append({"field": f, "value": text})
            exp += [(f, x, v) for x, v in conditions]
        return out, exp
    for i in range(r.choice([1, 2])):
        elements, expected = [], []
        for _ in range(r.choice([0, 1, 2, 3])):
            m = [e.id for e in r.sample(ms, min(len(ms), r.choice([1, 1, 2])))]
            s = [e.id for e in r.sample(ds, r.choice([0, 1, 2]))]
            fs, fx = filters()
            el = {"title": "T", "type": "plot", "model": "m", "slice_by": s}
            if len(m) == 1 and r.random() < 0.6:
                el["metric"] = m[0]
            else:
                el["metrics"] = m if len(m) > 1 or r.random() < 0.5 else m[0]
            if not s and r.random() < 0.5:
                del el["slice_by"]
            if fs or r.random() < 0.5:
                el["filters"] = fs
            elements.append(el)
            expected.append((m, s, fx))
        fs, fx = filters()
        name = "board_%d" % i
        b = {"type": "dashboard", "name": cased(r, name), "elements": elements}
        if fs or r.random() < 0.5:
            b["filters"] = fs
        if r.random() < 0.5:
            b["label"] = "Board"
        p["dashboards"].append(b)
        want.append((name, fx, expected))
    return want


def as_conditions(fs):
    return [(f["field"], getattr(f["expression"], "value", f["expression"]) if f.get("expression") is not None else None, f["value"]) for f in fs]


def plain_json(x):
    return json.loads(json.dumps(x))


def body(ck):
    def project(r):
        p = wide_project(r)
        joined = r.random() < 0.3
        # names that several views share, in any letter case, some of them hidden
        for v in p["views"]:
            have = {f["name"].lower() for f in v["fields"]}
            col = {"orders": "amt", "visits": "pages", "customers": "score", "spend": "cost"}.get(v["name"], "id")
            for n, t in (("shared_total", "sum"), ("shared_dim", "number"), ("Mixed_Case", "number"), ("shared_when", "time")):
                if n.lower() not in have and some(r, 0.4):
                    f = {"name": cased(r, n), "field_type": "measure" if t == "sum" else "dimension", "type": t, "sql": "${TABLE}." + col}
                    if t == "time":
                        f.update(field_type="dimension_group", sql="${TABLE}.at", timeframes=r.sample(["raw", "date", "week", "month", "hour_of_day"], r.choice([1, 2, 3])))
                    if some(r, 0.3):
                        f["hidden"] = some(r, 0.7)
                    v["fields"].insert(r.randrange(len(v["fields"]) + 1), f)
        add_sets(r, p)
        if joined:
            joined_twice(r, p)
        return p

    def same(what, got, want, p, extra=None):
        ck.counts["comparisons"] += 1
        if got != want:
            ck.bad("differs:" + what, what + " differs from what the definitions say", {"got": got, "want": want, "about": extra, "views": p["views"]})
            return False
        return True

    def refused(what, fn, p, errors, extra):
        """fn must raise one of the errors"""
        ck.counts["refusals"] += 1
        try:
            got = fn()
        except errors:
            return
        except Exception as e:
            ck.bad("error-type:" + what, what + " was refused with another error", {"error": repr(e)[:600], "about": extra, "views": p["views"]})
            return
        ck.bad("not-refused:" + what, what + " was not refused", {"got": getattr(got, "_definition", repr(got)), "about": extra, "views": p["views"]})

    def listings(r, i):
        p = project(r)
        views = with_copies(p)
        lists = {v["name"]: entries(v) for v in views}
        pr = load(copy.deepcopy(p))
        conn = MetricsLayerConnection(project=pr, connections=[])
        everything = [e for v in views for e in lists[v["name"]][1]]
        for view in [None] + [v["name"] for v in views]:
            plain = [e for v in views if view in (None, v["name"]) for e in lists[v["name"]][0]]
            wide = [e for v in views if view in (None, v["name"]) for e in lists[v["name"]][1]]
            for hidden in (True, False):
                shown = lambda es: [e for e in es if hidden or not e.hidden]
                a = (view, hidden)
                same("expanded listing", [f.id() for f in pr.fields(view_name=view, show_hidden=hidden, expand_dimension_groups=True)], [e.id for e in shown(wide)], p, a)
                same("field listing", [(f.view.name, f.name, f.field_type) for f in conn.list_fields(view_name=view, show_hidden=hidden)], [(e.view, e.name, e.kind) for e in shown(plain)], p, a)
                same("field names", conn.list_fields(view_name=view, names_only=True, show_hidden=hidden), [e.name for e in shown(plain)], p, a)
                same("metric listing", [(f.view.name, f.name) for f in conn.list_metrics(view_name=view, show_hidden=hidden)], [(e.view, e.name) for e in shown(plain) if e.kind == "measure"], p, a)
                same("metric names", conn.list_metrics(view_name=view, show_hidden=hidden, names_only=True), [e.name for e in shown(plain) if e.kind == "measure"], p, a)
                same("dimension listing", [(f.view.name, f.name) for f in conn.list_dimensions(view_name=view, show_hidden=hidden)], [(e.view, e.name) for e in shown(plain) if e.kind != "measure"], p, a)
                same("dimension names", conn.list_dimensions(view_name=view, show_hidden=hidden, names_only=True), [e.name for e in shown(plain) if e.kind != "measure"], p, a)
        same("view listing", [v.name for v in conn.list_views()], [v["name"] for v in views], p)
        same("view names", conn.list_views(names_only=True), [v["name"] for v in views], p)
        for hidden in (True, False):
            same("views shown", [v.name for v in pr.views(show_hidden=hidden)], [v["name"] for v in views if hidden or not v.get("hidden", False)], p)
        same("model listing", (conn.list_models(names_only=True), [m.name for m in conn.list_models()]), ([m["name"] for m in p["models"]],) * 2, p)
        same("dashboard listing", (conn.list_dashboards(names_only=True), [d.name for d in conn.list_dashboards()]), ([d["name"].lower() for d in p["dashboards"]],) * 2, p)
        # every object by the name its listing gives
        for v in conn.list_views():
            same("view looked up", conn.get_view(v.name)._definition, v._definition, p)
            v.printable_attributes()
        for m in conn.list_models():
            same("model looked up", conn.get_model(m.name)._definition, m._definition, p)
        for d in conn.list_dashboards():
            same("dashboard looked up", conn.get_dashboard(d.name)._definition, d._definition, p)
        at = collections.Counter(e.alias for e in everything)
        group_at = collections.Counter(e.name for v in views for e in lists[v["name"]][0])
        sample = everything if ck.thorough else r.sample(everything, 60)
        for e in sample:
            ck.counts["lookups"] += 1
            written = recase(r, e.alias)
            finders = [("get_field", lambda: pr.get_field(e.id)), ("get_field in any case", lambda: pr.get_field(e.view + "." + written)),
                       ("get_field of a view", lambda: pr.get_field(e.alias, view_name=e.view)), ("the connection's get_field", lambda: conn.get_field(e.id)),
                       ("the connection's get_field of a view", lambda: conn.get_field(written, view_name=e.view))]
            if e.kind == "measure":
                finders += [("get_metric", lambda: conn.get_metric(e.id)), ("get_metric of a view", lambda: conn.get_metric(e.alias, view_name=e.view)),
                            ("get_metric in any case", lambda: conn.get_metric(e.view + "." + written))]
            else:
                finders += [("get_dimension", lambda: conn.get_dimension(e.id)), ("get_dimension of a view", lambda: conn.get_dimension(e.alias, view_name=e.view)),
                            ("get_dimension in any case", lambda: conn.get_dimension(e.view + "." + written))]
            for how, fn in finders:
                try:
                    f = fn()
                except (QueryError, AccessDeniedOrDoesNotExistException) as x:
                    ck.bad("not-found:" + how, "a listed field cannot be looked up", {"field": e.id, "hidden": e.hidden, "error": str(x)[:300], "how": how, "views": p["views"]})
                    continue
                same("the field found with " + how, (f.id(), f.field_type, f.dimension_group, f._definition.get("sql"), f._definition.get("type")),
                     (e.id, e.kind, e.group, e.defn.get("sql"), e.defn.get("type")), p, (e.id, how))
            same("existence", (pr.does_field_exist(e.id), pr.does_field_exist(written, view_name=e.view)), (True, True), p, e.id)
            bare = [("get_field", pr.get_field), ("the connection's get_field", conn.get_field),
                    ("get_metric", conn.get_metric) if e.kind == "measure" else ("get_dimension", conn.get_dimension)]
            for how, fn in bare:
                same_kind = sum(1 for x in everything if x.alias == e.alias and (how not in ("get_metric", "get_dimension") or (x.kind == "measure") == (e.kind == "measure")))
                n = r.choice([e.alias, written])
                if same_kind == 1:
                    try:
                        same("the field found by its bare name with " + how, fn(n).id(), e.id, p, (n, how))
                    except (QueryError, AccessDeniedOrDoesNotExistException) as x:
                        ck.bad("not-found:bare " + how, "a listed field cannot be looked up by its unique name", {"field": e.id, "hidden": e.hidden, "error": str(x)[:300], "views": p["views"]})
                    ck.counts["unique_names"] += 1
                else:
                    refused("ambiguous name in " + how, lambda: fn(n), p, (QueryError,), (n, how))
                    ck.counts["ambiguous_names"] += 1
            # a group's own name
            if e.kind == "dimension_group" and r.random() < 0.3:
                same("the group found by its name", pr.get_field_by_name(e.name, view_name=e.view).name, e.name, p)
                same("the group found by its name in any case", pr.get_field_by_name(recase(r, e.name), view_name=e.view).name, e.name, p)
                if group_at[e.name] > 1:
                    refused("ambiguous group name", lambda: pr.get_field_by_name(e.name), p, (QueryError,), e.name)
                if e.name not in at:
                    refused("a group without a timeframe", lambda: pr.get_field(e.view + "." + e.name), p, (AccessDeniedOrDoesNotExistException,), e.id)
        # names that nothing has
        ids = {e.id for e in everything}
        for _ in range(ck.pick(25, 60)):
            e, v = r.choice(everything), r.choice(views)["name"]
            n = r.choice([e.id + "x", e.id[:-1], e.id + "_date", v + "." + e.alias, v + "." + e.name, e.view + "x." + e.alias, e.view[:-1] + "." + e.alias, v + "." + e.view,
                          v + "." + e.name + "_" + r.choice(TIMEFRAMES), v + "." + r.choice(INTERVALS) + "s_" + e.name, v + "." + r.choice(INTERVALS) + "_" + e.name,
                          v + ".", e.alias + "_", "nothing", "", " ", e.alias + " ", "${%s}" % e.id, e.view + ".%s.%s" % (e.view, e.alias + "y")])
            if n.lower() in ids or n in at or n.lower() == v + ".count":
                continue
            ck.counts["unknown_names"] += 1
            for how, fn in (("get_field", pr.get_field), ("the connection's get_field", conn.get_field), ("get_metric", conn.get_metric), ("get_dimension", conn.get_dimension)):
                refused("unknown name in " + how, lambda: fn(n), p, (AccessDeniedOrDoesNotExistException,), (n, how))
            same("existence of an unknown name", pr.does_field_exist(n), False, p, n)
        m = r.choice([e for e in everything if e.kind == "measure"])
        d = r.choice([e for e in everything if e.kind != "measure"])
        refused("a metric as a dimension", lambda: conn.get_dimension(m.id), p, (AccessDeniedOrDoesNotExistException,), m.id)
        refused("a dimension as a metric", lambda: conn.get_metric(d.id), p, (AccessDeniedOrDoesNotExistException,), d.id)
        for how, fn, n in (("view", conn.get_view, r.choice(views)["name"] + "x"), ("model", conn.get_model, "m2"), ("dashboard", conn.get_dashboard, "board_99")):
            refused("unknown " + how, lambda: fn(n), p, (AccessDeniedOrDoesNotExistException,), n)
        refused("two different views", lambda: pr.get_field(m.id, view_name="no_" + m.view), p, (QueryError, AccessDeniedOrDoesNotExistException), m.id)
        # sets and drill fields
        by = {v["name"]: v for v in views}
        for v in views:
            same("set listing", [s.name for s in pr.sets(view_name=v["name"])], [s["name"] for s in v.get("sets", [])], p)
            for s in v.get("sets", []):
                ck.counts["sets"] += 1
                want = denoted(s["fields"], v["name"], by)
                ck.seen("set size", min(len(want), 30) // 5)
                same("a set", pr.get_set(s["name"], view_name=v["name"]).field_names(), want, p, (v["name"], s))
                if want:
                    ck.counts["sets_nonempty"] += 1
        for f in pr.fields(expand_dimension_groups=False):
            d = next(e for e in lists[f.view.name][0] if e.name == f.name).defn
            if "drill_fields" in d:
                ck.counts["drills"] += 1
                same("drill fields", f.drill_fields, denoted(d["drill_fields"], f.view.name, by), p, (f.id(), d["drill_fields"]))
        ck.case([p["views"], p["models"]], {"views": [v["name"] for v in views]})

    def boards(r, i):
        p = project(r)
        views = with_copies(p)
        wide = {v["name"]: entries(v)[1] for v in views}
        want = add_dashboards(r, p, wide)
        pr = load(copy.deepcopy(p))
        conn = MetricsLayerConnection(project=pr, connections=[])
        for name, fx, expected in want:
            ck.counts["dashboards"] += 1
            d = conn.get_dashboard(name)
            same("a dashboard's filters", as_conditions(d.parsed_filters()), fx, p, p["dashboards"])
            els = d.elements()
            same("a dashboard's elements", [(e.metrics, e.slice_by, as_conditions(e.parsed_filters())) for e in els], expected, p, p["dashboards"])
            ck.counts["conditions"] += len(fx) + sum(len(x[2]) for x in expected)
            try:
                shown = plain_json(d.to_dict())
            except TypeError as x:
                ck.bad("not-json", "the dashboard's dictionary cannot be written as JSON", {"error": repr(x), "dashboards": p["dashboards"]})
                continue
            same("a dashboard as a dictionary", (shown["name"], as_conditions(shown["filters"]), [(e["metrics"], e.get("slice_by", []), as_conditions(e["filters"])) for e in shown["elements"]]),
                 (name, fx, expected), p, p["dashboards"])
            same("a dashboard printed", d.printable_attributes()["name"], name, p)
            for e, (m, s, x) in zip(els, expected):
                # the element's request is the request written out
                def sql(ms, ds, where):
                    try:
                        return conn.get_sql_query(metrics=ms, dimensions=ds, where=where, query_type="SNOWFLAKE")
                    except (QueryError, AccessDeniedOrDoesNotExistException, ArgumentError, ParseError) as err:
                        ck.counts["boards_refused"] += 1
                        return "refused " + type(err).__name__ + str(err)[:200]
                    except TypeError as err:
                        ck.counts["boards_refused"] += 1
                        return "refused"
                mine = sql(list(m), list(s), [{"field": a, "expression": b, "value": c} for a, b, c in x + fx])
                theirs = sql(e.metrics, e.slice_by, e.parsed_filters() + d.parsed_filters())
                ck.counts["boards_queried"] += not mine.startswith("refused")
                same("an element's request", theirs, mine, p, (m, s, x, fx))
        ck.case(p["dashboards"], p["dashboards"])

    def queried(r, i):
        """Every listed field, asked for alone, gives a query with a column of its name."""
        p = project(r)
        for v in p["views"]:
            # (merged metrics with conditions on fields that have no counterpart elsewhere are refused, see C16)
            v.pop("always_filter", None)
        pr = load(copy.deepcopy(p))
        conn = MetricsLayerConnection(project=pr, connections=[])
        fields = pr.fields(expand_dimension_groups=True)
        for f in fields if ck.thorough else r.sample(fields, 40):
            ck.counts["queried"] += 1
            names = {"metrics": [f.id()]} if f.field_type == "measure" else {"dimensions": [f.id()]}
            try:
                q = conn.get_sql_query(query_type="SNOWFLAKE", **names)
            except (QueryError, AccessDeniedOrDoesNotExistException, ArgumentError, ParseError) as x:
                ck.bad("not-queryable", "a listed field cannot be queried", {"field": f.id(), "definition": f._definition, "error": repr(x)[:600], "views": p["views"]})
                continue
            except Exception as x:
                ck.bad("unexpected-exception:" + type(x).__name__, "a listed field cannot be queried", {"field": f.id(), "definition": f._definition, "error": repr(x)[:600], "views": p["views"]})
                continue
            if (" as " + f.view.name + "_" + f.alias()).lower() not in q.lower() and ("as " + f.alias()).lower() not in q.lower():
                ck.bad("no-column", "the query of a listed field has no column of its name", {"field": f.id(), "sql": q})
        ck.case([p["views"], "q"])

    ck.run("listings", ck.pick(40, 400), listings)
    ck.run("boards", ck.pick(60, 600), boards)
    ck.run("queried", ck.pick(25, 150), queried)


ck = Check("C21", "random projects (fields that share names across views, hidden ones, mixed letter case, join_as copies, nested sets with exclusions, drill "
           "fields, dashboards): every listing, lookup by qualified and bare names, refusal of unknown and ambiguous names, set, drill field, dashboard "
           "and query of a listed field compared with a model computed from the plain definitions")
main(ck, body, need=[("comparisons", 10000), ("lookups", 1500), ("ambiguous_names", 200), ("unknown_names", 300), ("sets_nonempty", 60), ("drills", 60),
                     ("dashboards", 60), ("boards_queried", 40), ("queried", 700)])
