import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from mlv.meta import *
from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException

GRANTS = ["g_team", "g_region", "g_level"]
ATTR = {"g_team": "team", "g_region": "area", "g_level": "level"}
VALUES = {"g_team": ["finance", "sales"], "g_region": ["eu"], "g_level": [1, 2, "admin"]}


def grant(r, w):
    """Declare grants on views, fields and dashboards. Returns {object id: [grants]}."""
    w.model["access_grants"] = [{"name": g, "user_attribute": ATTR[g], "allowed_values": VALUES[g]} for g in GRANTS]
    req = {}
    for name, v in w.views.items():
        if r.random() < 0.25:
            req[name] = v.extra["required_access_grants"] = r.sample(GRANTS, r.choice([1, 1, 2]))
        for f in v.fields.values():
            if f.name == "id" or f.defn.get("primary_key"):
                continue
            if r.random() < 0.12:
                req[f.id] = f.defn["required_access_grants"] = r.sample(GRANTS, r.choice([1, 1, 2]))
    for k in range(r.choice([1, 2])):
        d = {"type": "dashboard", "name": "dash%d" % k, "elements": [
            {"type": "plot", "title": "x", "model": "m", "metric": "orders.total_amt", "slice_by": ["orders.kind"]}]}
        if r.random() < 0.6:
            req["dashboard.dash%d" % k] = d["required_access_grants"] = r.sample(GRANTS, r.choice([1, 2]))
        w.dashboards.append(d)
    return req


def some_user(r):
    k = r.random()
    if k < 0.08:
        return None
    if k < 0.12:
        return {}
    u = {}
    for g in GRANTS:
        j = r.random()
        if j < 0.45:
            u[ATTR[g]] = r.choice(VALUES[g])
        elif j < 0.85:
            u[ATTR[g]] = r.choice(["hr", "us", 9, "Finance", "fin", "EU", "", "finance,sales", "admin "])
    return u


def holds(user, g):
    if user is None:
        return True
    v = user.get(ATTR[g])
    return v is None or v in VALUES[g]


def denied(w, req, user):
    """Ids of the views, fields and dashboards the user may not see."""
    d = {o for o, gs in req.items() if not all(holds(user, g) for g in gs)}
    out = set(d)
    for name, v in w.views.items():
        if name in d:
            out |= {f.id for f in v.fields.values()}
    return out


def refs(w, fid):
    """Fields a field's definition refers to."""
    view, name = fid.split(".")
    f = w.views[view].fields.get(name)
    if f is None:
        return set()
    d = {k: v for k, v in f.defn.items() if k in ("sql", "case", "filters", "sql_distinct_key", "non_additive_dimension", "measure")}
    names = re.findall(r"\$\{([^}]*)\}", repr(d))
    names += [x["field"] for x in d.get("filters", [])]
    if "measure" in d:
        names.append(d["measure"])
    nd = d.get("non_additive_dimension")
    if nd:
        names += [nd["name"]] + nd.get("window_groupings", [])
    return {x for n in names for x in resolve(w, n if "." in n else view + "." + n)}


def resolve(w, fid):
    view, name = fid.split(".")
    fields = w.views[view].fields
    if name in fields:
        return {fid}
    hit = [n for n, f in fields.items() if f.kind == "time" and any(name == n + "_" + t for t in f.frames)]
    return {view + "." + n for n in hit}


def uses(w, kind, req):
    """Every field a request uses, directly or through definitions."""
    todo = set()
    for v, n in re.findall(r"\b(%s)\.(\w+)" % "|".join(w.views), repr(req)):
        todo |= resolve(w, v + "." + n)
    if "funnel" in req:
        todo.add(w.link)
    if kind == "mapped":
        for d in req["dimensions"] + [x["field"] for x in req.get("where", [])]:
            for m in req["metrics"]:
                v = m.split(".")[0]
                if d == "kindly":
                    todo.add(v + ".kind")
                else:
                    todo.add(date_of(w, m))
    out = set()
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo |= refs(w, x)
    return out


def date_of(w, m):
    v, n = m.split(".")
    f = w.views[v].fields[n]
    return v + "." + (f.defn.get("canon_date") or w.views[v].extra["default_date"])


def outcome(conn, dialect, req):
    try:
        return ("sql", compile_(conn, dialect, req))
    except Exception as e:
        return ("error", type(e).__name__, str(e))


def listings(conn, w):
    """Everything a user can list and look up."""
    out = {}
    p = conn.project
    ids = lambda fs: sorted("%s.%s" % (f.view.name, f.name) for f in fs)
    out["views"] = sorted(v.name for v in conn.list_views())
    out["fields"] = ids(conn.list_fields(show_hidden=True))
    out["expanded"] = sorted("%s.%s" % (f.view.name, f.alias()) for f in p.fields(expand_dimension_groups=True))
    out["metrics"] = ids(conn.list_metrics(show_hidden=True))
    out["dimensions"] = ids(conn.list_dimensions(show_hidden=True))
    out["dashboards"] = sorted(d.name for d in conn.list_dashboards())
    for v in w.views:
        for name, fn in [("fields:", lambda: ids(conn.list_fields(view_name=v, show_hidden=True))),
                         ("joinable:", lambda: p.get_joinable_views(v)),
                         ("get_view:", lambda: conn.get_view(v).name)]:
            try:
                out[name + v] = fn()
            except Exception as e:
                out[name + v] = "refused " + type(e).__name__
    return out


def check_listings(ck, w, conn, den, info, r):
    li = listings(conn, w)
    vs = [v for v in w.views if v not in den]
    want = sorted(f.id for v in w.views.values() for f in v.fields.values() if f.id not in den)
    lower = lambda xs: sorted(x.lower() for x in xs)
    ck.counts["listings"] += 1

    def differs(what, got, exp):
        if got != exp:
            extra = sorted(set(got) - set(exp)) if isinstance(got, list) else got
            ck.bad("listing-" + what, "%s lists %r, expected %r" % (what, got if isinstance(got, str) else "+%s -%s" % (extra, sorted(set(exp) - set(got))), "the accessible ones"), info)
    differs("views", li["views"], sorted(vs))
    base = lambda ids: sorted({x for i in ids for x in resolve(w, i)})
    differs("fields", base(li["fields"]), want)
    differs("expanded", base(li["expanded"]), want)
    differs("metrics", base(li["metrics"]), sorted(f.id for v in w.views.values() for f in v.fields.values() if f.id not in den and f.defn["field_type"] == "measure"))
    differs("dimensions", base(li["dimensions"]), sorted(f.id for v in w.views.values() for f in v.fields.values() if f.id not in den and f.defn["field_type"] != "measure"))
    differs("dashboards", li["dashboards"], sorted(d["name"] for d in w.dashboards if "dashboard." + d["name"] not in den))
    for v in w.views:
        if v in den:
            if not str(li["fields:" + v]).startswith("refused Access"):
                ck.bad("listing-denied-view", "fields of the inaccessible view %s: %s" % (v, li["fields:" + v]), info)
            if not str(li["get_view:" + v]).startswith("refused Access"):
                ck.bad("lookup-denied-view", "get_view(%s): %s" % (v, li["get_view:" + v]), info)
        else:
            differs("fields of view", base(li["fields:" + v]), sorted(f.id for f in w.views[v].fields.values() if f.id not in den))
            j = li["joinable:" + v]
            if isinstance(j, list) and set(j) & den:
                ck.bad("listing-joinable", "joinable views of %s list the inaccessible %s" % (v, sorted(set(j) & den)), info)
    for v in w.views.values():
        for f in r.sample(list(v.fields.values()), 3):
            q = f.id if f.kind != "time" else f.id + "_date"
            for how, fn in [("get_field", lambda: conn.get_field(q)),
                            ("does_field_exist", lambda: conn.project.does_field_exist(q) or 1 / 0),
                            ("get_field_by_name", lambda: conn.project.get_field_by_name(f.name, view_name=v.name)),
                            ("list", lambda: conn.get_metric(f.name, view_name=v.name) if f.defn["field_type"] == "measure" else conn.get_dimension(f.name, view_name=v.name))][:4 if f.kind != "time" else 3]:
                try:
                    fn()
                    ok = True
                except Exception:
                    ok = False
                ck.counts["lookups"] += 1
                if ok != (f.id not in den):
                    ck.bad("lookup-" + how, "%s(%s) %s, the user %s" % (how, q, "answers" if ok else "refuses", "may not see it" if ok else "may see it"), info)
    for d in w.dashboards:
        try:
            conn.get_dashboard(d["name"])
            ok = True
        except AccessDeniedOrDoesNotExistException:
            ok = False
        if ok == ("dashboard." + d["name"] in den):
            ck.bad("lookup-dashboard", "get_dashboard(%s) %s" % (d["name"], "answers" if ok else "refuses"), info)


def body(ck):
    def one(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        fan = dialect in SYMMETRIC and r.random() < 0.5
        w = rich_world(r, dialect, fan=fan, extra_dims=2)
        plain = w.connection()
        req = grant(r, w)
        users = [some_user(r) for _ in range(3)]
        users.append({ATTR[g]: r.choice(VALUES[g]) for g in GRANTS})
        users.append(None)
        kinds = usable_kinds(w)
        if not fan and "fanned" in kinds:
            kinds.remove("fanned")
        requests = [request(r, w, k) for k in r.sample(kinds, 6)]
        base = [outcome(plain, dialect, q) for _, q in requests]
        shared = w.connection()
        history = []
        for step in range(len(users) + 3):
            user = r.choice(users) if step >= len(users) else users[step]
            if r.random() < 0.5:
                shared.set_user(user)
            else:
                # another connection object on the same project
                shared = MetricsLayerConnection(project=shared.project, connections=[], user=user)
            history.append(user)
            den = denied(w, req, user)
            fresh = w.connection()
            fresh.set_user(user)
            info = {"dialect": dialect, "user": user, "grants": req, "earlier users": history[:-1], "denied": sorted(den)[:40]}
            if r.random() < 0.5:
                check_listings(ck, w, shared, den, info, r)
                a, b = listings(shared, w), listings(fresh, w)
                for k in a:
                    if a[k] != b[k]:
                        ck.bad("history-listing", "listing %s depends on earlier users: %s, on a fresh project %s" % (k, str(a[k])[:300], str(b[k])[:300]), info)
            for (kind, q), b0 in zip(requests, base):
                if r.random() < 0.35:
                    continue
                got, want = outcome(shared, dialect, q), outcome(fresh, dialect, q)
                info = dict(info, kind=kind, request=q, got=got)
                used = uses(w, kind, q)
                hit = used & den
                ck.counts["requests"] += 1
                ck.counts["denied" if hit else "allowed"] += 1
                ck.counts["%s_%s" % ("denied" if hit else "allowed", kind)] += 1
                ck.seen("dialect", dialect)
                ck.case((dialect, kind, q, sorted(den), user), {"request": q, "user": user, "denied": sorted(hit), "outcome": got[:2]},
                        nontrivial=bool(den))
                if got != want:
                    ck.bad("history", "the outcome depends on which users were set before", dict(info, fresh=want))
                    continue
                if hit and got[0] == "sql":
                    direct = [x for x in hit if x in repr(q)]
                    ck.bad("query-uses-denied", "a query using %s was answered" % sorted(hit), dict(info, directly=direct))
                elif hit and got[1] not in ("AccessDeniedOrDoesNotExistException", "JoinError", "QueryError", "ParseError", "ArgumentError"):
                    ck.counts["odd_refusal_" + got[1]] += 1; print("ODD", dialect, q, got, sorted(den)) if os.environ.get("ODD") else None
                if got[0] == "sql":
                    for v in w.views.values():
                        if v.name in den and re.search(r"\b%s\b" % re.escape(v.table), got[1]):
                            ck.bad("query-reads-denied-view", "the compiled query reads the inaccessible view %s" % v.name, info)
                if not den and got != b0:
                    ck.bad("granted-differs", "a user with every grant gets another outcome than an unrestricted user", dict(info, unrestricted=b0))
                elif not hit and b0[0] == "sql" and got[0] != "sql":
                    views = {x.split(".")[0] for x in used}
                    if not ({v for v in w.views if v in den} | {x for x in den if x.split(".")[-1] in ("made", "paid", "seen", "spent", "joined", "customers_id", "kind")}):
                        ck.bad("granted-refused", "a query using only accessible fields was refused", dict(info, unrestricted=b0))
    ck.run("grants", ck.pick(70, 1500), one)


ck = Check("C05", "rich random projects with grants on random views, fields and dashboards; users with missing, allowed and "
           "denied attributes set one after another on one project (and through several connections on it); listings, lookups "
           "and fifteen request kinds judged by a reference grant model and compared with a fresh project; non-trivial = the "
           "user is denied something")
ck.assumptions = ["a user without the attribute a grant names passes that grant (the library's documented behaviour)"]
main(ck, body, need=[("denied", 200), ("allowed", 400), ("listings", 150)])
