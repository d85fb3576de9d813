"""C19: a project edited in memory behaves as one loaded with the edited definitions; temporary replacements undo exactly.

A history of edits (fields added and removed, objects replaced for a while, nested, left by an exception, validated with
replacements) runs on one long-lived project, with lookups, listings and queries between the steps so that every cache is
warm. A mirror applies the same edits to plain definitions; after each step everything observable of the edited project is
compared with a project freshly loaded from the mirror."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import copy, json, re
from mlv.common import Check, main
from mlv.wide import *
from mlv.observe import attempt, errors_of, observe
from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.model.field import Field


class Stop(Exception):
    pass


def fresh(p, user):
    p = copy.deepcopy(p)
    pr = load(p)
    pr.set_user(user)
    return pr


def body(ck):
    def new_field(r, view, p):
        cols = {"orders": ["kind", "amt", "qty"], "visits": ["kind", "pages"], "customers": ["region", "score"], "spend": ["chan", "cost"]}[view]
        name = r.choice(["extra_one", "extra_two", "Extra_One", "kind", "total_amt", "visit_count", "region", "extra_when"])
        if name == "extra_when":
            return {"name": name, "field_type": "dimension_group", "type": "time", "timeframes": r.sample(["raw", "date", "week", "month"], 2), "sql": "${TABLE}.at"}
        if r.random() < 0.5:
            return {"name": name, "field_type": "measure", "type": r.choice(["sum", "count_distinct", "max"]), "sql": "${TABLE}.%s" % r.choice(cols)}
        if r.random() < 0.2:
            return {"name": name, "field_type": "measure", "type": "number", "sql": "${%s} * 2" % r.choice(["extra_one", "extra_two"])}
        return {"name": name, "field_type": "dimension", "type": "string", "sql": "${TABLE}.%s" % r.choice(cols), "searchable": True, **({"hidden": True} if some(r) else {})}

    def replacement(r, mirror, other):
        """A replaced object: another version of one of the project's, or a new one."""
        kind = r.choice(["view", "view", "view", "model", "dashboard", "new view", "new dashboard", "junk"])
        if kind == "view":
            # (a replaced view with join_as: see joined_replaced)
            v = copy.deepcopy(r.choice([v for v in mirror["views"] if not any("join_as" in i for i in v.get("identifiers", []))]))
            for _ in range(r.choice([1, 2])):
                x = r.random()
                if x < 0.3 and len(v["fields"]) > 3:
                    v["fields"].pop(r.randrange(len(v["fields"])))
                elif x < 0.6:
                    f = new_field(r, v["name"], mirror)
                    v["fields"] = [g for g in v["fields"] if g["name"].lower() != f["name"].lower()] + [f]
                elif x < 0.7:
                    v["identifiers"] = []
                elif x < 0.8:
                    v["hidden"] = not v.get("hidden", False)
                elif x < 0.9:
                    v["label"] = "Replaced"
                else:
                    v["sql_table_name"] = "other.table_of_" + v["name"]
                    v.pop("derived_table", None)
            return v
        if kind == "model":
            m = copy.deepcopy(mirror["models"][0])
            for k, vals in (("week_start_day", WEEKDAYS), ("timezone", ["UTC", "Europe/Berlin"]), ("fiscal_month_offset", [1, 2]), ("mappings", [{}])):
                if some(r, 0.5):
                    m[k] = r.choice(vals)
            return m
        if kind == "dashboard" and mirror["dashboards"]:
            d = copy.deepcopy(r.choice(mirror["dashboards"]))
            d["label"] = "Replaced"
            return d
        if kind == "new view":
            v = copy.deepcopy(next(v for v in mirror["views"] if v["name"] == "visits"))
            v["name"] = "visits_new"
            return v
        if kind == "new dashboard":
            return {"type": "dashboard", "name": "board_new", "elements": [{"title": "t", "type": "plot", "model": "m", "metrics": ["orders.order_count"], "slice_by": []}]}
        return r.choice(["text", {"type": "note", "name": "orders"}, {"name": "orders"}, None])

    def replaced(mirror, objs, in_place):
        out = copy.deepcopy(mirror)
        for key, t in (("models", "model"), ("views", "view"), ("dashboards", "dashboard")):
            new = [copy.deepcopy(o) for o in objs if isinstance(o, dict) and o.get("type") == t]
            if in_place:
                names = {o["name"]: o for o in new}
                had = {o["name"] for o in out[key]}
                out[key] = [names.get(o["name"], o) for o in out[key]] + [o for o in new if o["name"] not in had]
            else:
                names = {o["name"] for o in new}
                out[key] = [o for o in out[key] if o["name"] not in names] + new
        return out

    def history(r, i):
        p = wide_project(r)
        if some(r, 0.6):
            joined_twice(r, p)
        user = r.choice([None, None, {"team": "a"}, {"team": "b", "region": "a"}])
        given = copy.deepcopy(p)
        pr = load(p)
        pr.set_user(user)
        mirror = copy.deepcopy(p)
        names = ["orders.extra_one", "extra_two", "orders.kind", "visits.kind", "orders.total_amt", "visit_count", "customers.region", "orders.EXTRA_ONE", "visits.extra_when_date",
                 "buyers_c.region", "buyers_c.extra_one", "third_c.region", "customers.extra_two", "watchers_c.total_score", "visits_new.kind", "orders.count"]
        pool = [{"metrics": ["orders.total_amt"], "dimensions": ["orders.kind"]}, {"metrics": ["orders.extra_one"]}, {"metrics": ["orders.order_count"], "dimensions": ["orders.extra_two"]},
                {"metrics": ["orders.order_count"], "dimensions": ["customers.region"]}, {"metrics": ["orders.order_count", "visits.visit_count"], "dimensions": ["date"]},
                {"metrics": ["orders.last_qty"], "dimensions": ["orders.kind"]}, {"metrics": ["orders.amt_per_visit"]}, {"metrics": ["visits.visit_count"], "dimensions": ["buyers_c.region"]},
                {"metrics": ["orders.order_count"], "dimensions": ["buyers_c.region"]}, {"metrics": ["orders.order_count"], "dimensions": ["buyers_c.extra_one"]},
                {"metrics": ["customers.extra_one"], "dimensions": ["customers.region"]}, {"metrics": ["orders.order_count"], "dimensions": ["kindly"]},
                {"metrics": ["visits.total_pages"], "dimensions": ["visits.seen_week"], "where": [{"field": "visits.seen_date", "expression": "matches", "value": "last week"}]},
                {"metrics": ["visits_new.visit_count"]}, {"metrics": ["orders.order_count"], "dimensions": ["orders.made_fiscal_quarter"]}]
        done = []
        replaced_before = []

        def references_only(again, wants):  # (wants: functions)
            """Whether a difference comes from references between fields remembered across a replacement."""
            if not replaced_before:
                return False
            def cleared(fn):
                Field.referenced_fields.cache_clear()
                Field.join_graphs.cache_clear()
                pr.refresh_cache()
                return fn()
            got = cleared(again)
            return any(cleared(want) == got for want in wants)

        def look(refs, what, deep=None):
            some_names = r.sample(names, 6)
            reqs = r.sample(pool, 3)
            deep = r.random() < 0.25 if deep is None else deep
            got = observe(pr, reqs, some_names, deep, user)
            wants = []
            for ref in refs:
                want = observe(fresh(ref, user), reqs, some_names, deep, user)
                if want == got:
                    break
                wants.append(want)
            else:
                if references_only(lambda: observe(pr, reqs, some_names, deep, user), [lambda ref=ref: observe(fresh(ref, user), reqs, some_names, deep, user) for ref in refs]):
                    ck.bad("stale-references", "references between fields are remembered across a temporary replacement", {"history": done, "project": given})
                    raise Stop()
                diff = sorted((str(k), str(got[k])[:1500], str(wants[0][k])[:1500]) for k in got if got[k] != wants[0][k])
                sect = diff[0][0].split(",")[0].strip("(' ")
                ck.bad("differs:%s:%s" % (what, sect), "after the edit the project behaves otherwise than one loaded with the edited definitions",
                       {"history": done, "step": what, "differs": [(k, _around(a, b), _around(b, a)) for k, a, b in diff[:4]], "project": given})
                raise Stop()
            ck.counts["compared"] += 1
            ck.counts["compared_values"] += len(got)
            ck.counts["queries_ok"] += sum(1 for k, x in got.items() if k[0] == "query" and "SELECT" in x)

        def edit(mirrors):
            """Adds or removes a field in the project and in each of the mirrors."""
            m = mirrors[0]
            view = r.choice([v["name"] for v in m["views"] if v["name"] != "visits_new"])
            refresh = r.random() < 0.85
            if r.random() < 0.6:
                f = new_field(r, view, m)
                mine = copy.deepcopy(f)
                done.append(["add", view, f, refresh])
                pr.add_field(mine, view, refresh_cache=refresh)
                for m in mirrors:
                    v = next(v for v in m["views"] if v["name"] == view)
                    if not any(g["name"].lower() == f["name"].lower() for g in v["fields"]):
                        v["fields"].append(copy.deepcopy(f))
                mine["sql"] = "${TABLE}.changed_later"
                mine["field_type"] = "dimension"
            else:
                n = r.choice(["extra_one", "EXTRA_two", "extra_when", "kind", "total_amt", "region", "visit_count", "made", "d0_filtered", "order_count"])
                done.append(["remove", view, n, refresh])
                pr.remove_field(n, view, refresh_cache=refresh)
                for m in mirrors:
                    v = next(v for v in m["views"] if v["name"] == view)
                    v["fields"] = [g for g in v["fields"] if g["name"].lower() != n.lower()]
            if not refresh:
                pr.refresh_cache()
            ck.counts["edits"] += 1

        def step(mirrors, depth):
            x = r.random()
            m = mirrors[0]
            if x < 0.45:
                edit(mirrors)
                look(mirrors, "edit" if depth == 0 else "in scope edit")
            elif x < 0.6:
                # edits of views that do not exist are refused and change nothing
                done.append(["edit of no view"])
                for fn in (lambda: pr.add_field({"name": "x", "field_type": "dimension", "type": "string", "sql": "1"}, "nowhere"), lambda: pr.remove_field("kind", "nowhere")):
                    a = attempt(fn)
                    if not (isinstance(a, str) and a.startswith("AccessDeniedOrDoesNotExistException")):
                        ck.bad("edit-of-nothing", "editing a view that does not exist is not refused", {"got": repr(a)})
                look(mirrors, "edit of nothing", deep=False)
            elif x < 0.75:
                objs = [replacement(r, m, given) for _ in range(r.choice([1, 1, 2]))]
                seen = {}
                objs = [o for o in objs if not isinstance(o, dict) or seen.setdefault(o.get("name"), o) is o]
                done.append(["validate with", objs])
                keep = copy.deepcopy(objs)
                got = attempt(lambda: errors_of(pr.validate_with_replaced_objects(objs)))
                want = [lambda mm=mm, ip=ip: attempt(lambda: errors_of(fresh(replaced(mm, objs, ip), user).validate())) for mm in mirrors for ip in (True, False)]
                wants = [w() for w in want]
                ck.counts["validated_with"] += 1
                replaced_before.append(1)
                if got not in wants and references_only(lambda: attempt(lambda: errors_of(pr.validate_with_replaced_objects(objs))), want):
                    ck.bad("stale-references", "references between fields are remembered across a temporary replacement", {"history": done, "project": given})
                    raise Stop()
                if got not in wants:
                    only = [set(got) - set(wants[0]), set(wants[0]) - set(got)] if isinstance(got, list) and isinstance(wants[0], list) else None
                    ck.bad("validate-with-replaced", "validating with replaced objects reports something else than validating a project with them",
                           {"history": done, "got": got, "want": wants[0], "only_here": only and [sorted(o) for o in only], "project": given})
                    raise Stop()
                if objs != keep:
                    ck.bad("changed-input", "the replaced objects were changed", {"before": keep, "after": objs})
                look(mirrors, "validate with replaced")
            else:
                objs = [replacement(r, m, given) for _ in range(r.choice([1, 1, 2]))]
                seen = {}
                objs = [o for o in objs if not isinstance(o, dict) or seen.setdefault(o.get("name"), o) is o]
                keep = copy.deepcopy(objs)
                fail = r.random() < 0.4
                if r.random() < 0.08:
                    objs.append({"type": r.choice(["view", "model", "dashboard"])})  # has no name
                done.append(["replace", objs, "fails" if fail else "ends"])
                inner = [replaced(mm, keep, ip) for mm in mirrors for ip in (True, False)]
                class Boom(Exception):
                    pass
                replaced_before.append(1)
                try:
                    with pr.replace_objects(objs):
                        ck.counts["scopes"] += 1
                        look(inner, "in scope", deep=r.random() < 0.1)
                        for _ in range(r.choice([0, 0, 1, 2])):
                            if depth < 2:
                                step(inner, depth + 1)
                        if fail:
                            raise Boom()
                except Boom:
                    ck.counts["scopes_failed"] += 1
                except KeyError:
                    ck.counts["scopes_refused"] += 1
                if objs[:len(keep)] != keep:
                    ck.bad("changed-input", "the replaced objects were changed", {"before": keep, "after": objs, "history": done})
                    raise Stop()
                done.append(["end"])
                look(mirrors, "after scope")
        try:
            look([mirror], "loaded")
            for _ in range(r.choice([3, 5, 8])):
                step([mirror], 0)
        except Stop:
            pass
        if p != given:
            ck.bad("changed-definitions", "editing the project changed the definitions it was loaded from", {"history": done, "project": given})
        ck.case(("history", i, done), {"history": [d[0] for d in done]}, nontrivial=len(done) > 1)
        for d in done:
            ck.seen("step", d[0])
    def joined_replaced(r, i):
        """A replaced view whose identifiers join it under further names."""
        p = wide_project(r)
        joined_twice(r, p)
        v = copy.deepcopy(next(v for v in p["views"] if v["name"] == "customers"))
        x = r.random()
        if x < 0.3:
            v["fields"] = [f for f in v["fields"] if f["name"] != "score" and f["name"] != "region"] + [{"name": "newly", "field_type": "dimension", "type": "string", "sql": "${TABLE}.newly", "searchable": True}]
        elif x < 0.6:
            v["identifiers"] = [i for i in v["identifiers"] if "join_as" not in i]
        else:
            v["identifiers"] = [i for i in v["identifiers"] if "join_as" not in i] + [{"name": "key_buyers_c", "type": "primary", "sql": "${id}", "join_as": r.choice(["buyers_c", "third_c"])}]
        pr = fresh(p, None)
        names = ["buyers_c.region", "buyers_c.newly", "third_c.region", "customers.newly"]
        reqs = [{"metrics": ["orders.order_count"], "dimensions": ["buyers_c.region"]}, {"metrics": ["visits.visit_count"], "dimensions": ["customers.region"]}]
        with pr.replace_objects([copy.deepcopy(v)]):
            got = observe(pr, reqs, names, False, None)
        wants = [observe(fresh(replaced(p, [v], ip), None), reqs, names, False, None) for ip in (True, False)]
        ck.case(("joined replaced", i), None, nontrivial=True)
        ck.counts["joined_replaced"] += 1
        if got not in wants:
            ck.bad("replaced-join-as", "a replaced view is not joined under the names its identifiers give", {"view": v, "project": p})
        Field.referenced_fields.cache_clear()  # (stale-references)
        Field.join_graphs.cache_clear()
        if observe(pr, reqs, names, False, None) != observe(fresh(p, None), reqs, names, False, None):
            ck.bad("joined-after-scope", "after a replacement the project is not as before", {"view": v, "project": p})

    ck.run("joined_replaced", ck.pick(8, 100), joined_replaced)
    ck.run("history", ck.pick(36, 900), history)


def _around(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, n - 80):n + 160]


ck = Check("C19", "random histories of adding and removing fields, temporary replacements (nested, failing, of views, models, dashboards, views joined under "
           "further names, new objects, junk) and validation with replacements on one project with warm caches; after every step listings, lookups, compiled "
           "queries and validation are compared with a project freshly loaded from equally edited definitions")
main(ck, body, need=[("compared", 150), ("edits", 60), ("scopes", 25), ("scopes_failed", 5), ("validated_with", 15), ("queries_ok", 100)])
