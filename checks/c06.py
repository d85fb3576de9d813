import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import hashlib, json, subprocess
from mlv.common import Check, main, VERIF
from mlv.meta import *
from mlv import caches
from mlv.history import *


def differences(a, b, path=""):
    if type(a) is not type(b):
        return [(path, a, b)]
    if isinstance(a, dict):
        return [d for k in sorted(set(a) | set(b)) for d in (
            [(path + "/" + k, a.get(k, "(absent)"), b.get(k, "(absent)"))] if (k in a) != (k in b) else differences(a[k], b[k], path + "/" + k))]
    if isinstance(a, list) and len(a) == len(b):
        return [d for i, (x, y) in enumerate(zip(a, b)) for d in differences(x, y, path + "/%d" % i)]
    return [] if a == b else [(path, a, b)]


def disturb(r, w, conn, dialect):
    """Something else a user of the connection may do in between."""
    p = conn.project
    k = r.randrange(12)
    try:
        if k == 0:
            p.validate()
            return "validate"
        if k == 1:
            conn.list_fields(show_hidden=True), conn.list_metrics(), conn.list_dimensions(), conn.list_dashboards()
            return "list"
        if k == 2:
            [f.to_dict() for f in p.fields(expand_dimension_groups=True)]
            return "to_dict"
        if k == 3:
            v = r.choice(p.views())
            q = r.choice(v.fields(expand_dimension_groups=r.random() < .5))
            conn.get_field(v.name + "." + q.alias())
            return "get_field"
        if k == 4:
            conn.get_dimension(r.choice(["made_date", "made_month", "orders.paid_date", "nope"]))
            return "get_dimension"
        if k == 5:
            bad = w.views["orders"].definition()
            bad["fields"] = bad["fields"][:3] + [{"name": "x y", "field_type": "measure", "type": "sum", "sql": "${nope}"}]
            p.validate_with_replaced_objects([bad])
            return "validate_with_replaced_objects"
        if k == 6:
            with p.replace_objects([w.views["visits"].definition()]):
                raise KeyError("inside")
        if k == 7:
            d = p.get_dashboard("board")
            d.parsed_filters(), [e.parsed_filters() for e in d.elements()], d.printable_attributes()
            return "dashboard"
        if k == 8:
            fs = p.fields(expand_dimension_groups=True)
            p.joinable_fields([r.choice(fs)], expand_dimension_groups=True)
            return "joinable_fields"
        if k == 9:
            p.get_set("s2").field_names(), p.sets()
            return "sets"
        if k == 10:
            for v in w.views:
                p.get_joinable_views(v)
            return "joinable_views"
        if k == 11:
            for f in r.sample(p.fields(), 4):
                f.referenced_fields(f.sql), f.collect_errors()
            return "collect_errors"
    except Exception:
        return "failed action %d" % k


def body(ck):
    def history(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = world(r, dialect)
        user = r.choice([None, {"chan": "a"}, {"chan": "-b", "x": 1}])
        models, views = w.definitions()
        given = json.dumps([models, views, w.dashboards], sort_keys=True)
        from metrics_layer.core import MetricsLayerConnection
        from metrics_layer.core.model.project import Project

        def fresh():
            c = w.connection()
            c.set_user(copy.deepcopy(user))
            return c
        shared = MetricsLayerConnection(project=Project(models=models, views=views, dashboards=copy.deepcopy(w.dashboards), connection_lookup={"c": dialect}),
                                        connections=[], user=user)
        zone = r.choice(["Asia/Tokyo", "America/Los_Angeles"])

        def other():
            c = w.connection()
            c.set_user(copy.deepcopy(user))
            c.project.set_timezone(zone)
            c.project.set_connection_schema("other_schema")
            return c
        twin = other() if r.random() < 0.5 else None
        before = definitions(shared)
        reqs, seen = [], []
        for step in range(ck.pick(9, 16)):
            for _ in range(r.choice([0, 0, 1, 2])):
                a = disturb(r, w, shared, dialect)
                seen.append(a)
                ck.seen("action", a)
            if reqs and r.random() < 0.35:
                kind, req = r.choice(reqs)
            else:
                kind, req = some_request(r, w)
                reqs.append((kind, req))
            s0 = snap(req)
            with caches.none():
                want = outcome(fresh(), dialect, copy.deepcopy(req))
            if twin is not None and r.random() < 0.6:
                # a project with the same definitions and other settings, in the same process
                with caches.none():
                    theirs = outcome(other(), dialect, copy.deepcopy(req))
                mine = outcome(twin, dialect, copy.deepcopy(req))
                ck.counts["twins"] += 1
                if theirs != want:
                    ck.counts["twins_different"] += 1
                if mine != theirs:
                    ck.bad("twin", "the outcome depends on another project with the same definitions", {"dialect": dialect, "kind": kind, "request": req, "zone": zone, "got": mine, "fresh": theirs})
            got = outcome(shared, dialect, req)
            again = outcome(shared, dialect, req)
            info = {"dialect": dialect, "kind": kind, "request": req, "user": user, "history": seen[-12:], "got": got, "fresh": want}
            ck.counts["compiled" if want[0] == "sql" else "refused"] += 1
            ck.seen("kind", kind)
            ck.seen("dialect", dialect)
            ck.case((dialect, kind, req, seen[-6:]), {"request": req, "history": seen[-4:], "outcome": want}, nontrivial=bool(seen))
            if snap(req) != s0:
                ck.bad("arguments-changed", "compiling changed the caller's arguments", info)
            if got != want:
                ck.bad("history", "the outcome depends on what was asked before", info)
            if again != got:
                ck.bad("not-repeatable", "the same request gave another outcome right away", dict(info, again=again))
            seen.append(kind)
            after = definitions(shared)
            if after != before:
                a, b = json.loads(before), json.loads(after)
                diff = differences(a, b)
                ck.bad("definitions-changed", "the project's definitions changed", dict(info, difference=str(diff)[:1500]))
                before = after
        if json.dumps([models, views, w.dashboards], sort_keys=True) != given:
            ck.bad("input-definitions-changed", "the definitions the project was built from changed", {"dialect": dialect, "history": seen})

    ck.run("history", ck.pick(90, 1500), history)

    def processes(r, i):
        n = ck.pick(40, 300)
        jobs = {}
        for hs in ck.pick(["0", "1", "77"], ["0", "1", "2", "3", "77", "12345"]):
            env = dict(os.environ, PYTHONHASHSEED=hs, MLV_WORKER="%s %s" % (ck.seed * 100 + i, n))
            jobs[hs] = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__)], env=env, stdout=subprocess.PIPE, text=True)
        outs = {}
        for hs, p in jobs.items():
            o, _ = p.communicate(timeout=800)
            outs[hs] = [json.loads(l) for l in o.splitlines() if l.startswith("{")]
        base = outs["0"]
        if len(base) < n:
            raise RuntimeError("worker produced %d of %d" % (len(base), n))
        for hs, o in outs.items():
            for a, b in zip(base, o):
                ck.counts["processes_compared"] += 1
                ck.case(("process", hs, a["key"]), None)
                if a["request"] != b["request"]:
                    raise RuntimeError("workers generated different requests")
                if a["outcome"] != b["outcome"]:
                    ck.bad("hash-seed", "another process compiles the request differently",
                           {"dialect": a["dialect"], "request": a["request"], "a": a["outcome"], "b": b["outcome"]})
    ck.run("processes", ck.pick(1, 4), processes)


def worker(seed, n):
    import random
    for k in range(n):
        r = random.Random("w%s-%s" % (seed, k))
        dialect = DIALECTS[k % len(DIALECTS)]
        w = world(r, dialect)
        kind, req = some_request(r, w)
        c = w.connection()
        c.set_user(r.choice([None, {"chan": "a"}]))
        print(json.dumps({"key": [seed, k], "dialect": dialect, "request": repr(req), "outcome": outcome(c, dialect, req)}))


if os.environ.get("MLV_WORKER"):
    worker(*map(int, os.environ["MLV_WORKER"].split()))
    sys.stdout.flush()
    os._exit(0)

ck = Check("C06", "random histories of requests of fifteen kinds (a sixth of them broken), listings, lookups and validations on one "
           "connection; every outcome compared with the outcome on a freshly loaded project and with an immediate repetition, "
           "arguments and definitions compared before and after, and three processes with other hash seeds compared; "
           "non-trivial = something happened on the connection before")
main(ck, body, need=[("compiled", 400), ("refused", 40), ("twins_different", 20), ("processes_compared", 60)])
