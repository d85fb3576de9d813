"""C23: requests compiled at the same time in several threads do not disturb each other.

Every thread has its own project and connection and works through its own requests and date windows, while a tracer hands
the processor to another thread at random lines of the library (and the interpreter switches threads as often as it can).
What each thread gets is compared with what the same requests give alone. The tracer records where threads were interrupted
and who ran in between."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, threading, time
from mlv.common import Check, main, REPO
from mlv.history import *
from mlv import caches
from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.model.filter import Filter

ROOT = os.path.realpath(REPO) + os.sep + "metrics_layer" + os.sep
WEEK = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", None]
ZONES = ["UTC", "America/New_York", "Asia/Tokyo", "Pacific/Apia", None]
WINDOWS = ["this week", "last week", "3 weeks ago", "2 weeks", "week to date", "last week to date", "2 weeks ago for 3 weeks", "2 weeks until today", "this quarter",
           "last 5 days", "last year to date", "a, b", "-x", ">5", "after 2024-02-01"]


class Weaver:
    """Interrupts threads inside the library and records what was interrupted by what."""

    def __init__(self, seed, often):
        self.seed, self.often = seed, often
        self.last = None
        self.switches = 0
        self.pairs = set()
        self.inside = {}

    def trace(self, name):
        r = random.Random("%s|%s" % (self.seed, name))
        often, inside = self.often, self.inside

        def local(frame, event, arg):
            if event == "line":
                here = (frame.f_code.co_name, frame.f_lineno)
                inside[name] = here
                last = self.last
                if last != name:
                    if last is not None and last in inside and len(inside) > 1:
                        self.switches += 1
                        self.pairs.add((inside[last], here))
                    self.last = name
                if r.random() < often:
                    time.sleep(r.choice([0, 0, 0.0001, 0.0005]))
            return local

        def call(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None
        return call


def windows(jobs):
    """Date windows by the filter itself."""
    out = []
    for d in jobs:
        try:
            out.append([[str(getattr(f["expression"], "value", f["expression"])), str(f["value"])] for f in Filter(dict(d)).filter_dict()])
        except Exception as e:
            out.append(type(e).__name__ + str(e))
    return out


def body(ck):
    sys.setswitchinterval(1e-5)

    def plan(r, share):
        """What one thread does: make a connection, compile, list, compute windows."""
        dialect = r.choice(DIALECTS)
        w = share[0] if share and r.random() < 0.6 else world(r, dialect)
        if share and w is share[0]:
            dialect = share[1]
        if r.random() < 0.5 and not (share and w is share[0]):
            w.model["week_start_day"] = r.choice([x for x in WEEK if x])
        models, views = w.definitions()
        given = json.dumps([models, views, w.dashboards, dialect])
        user, zone = r.choice([None, {"chan": "a"}, {"chan": "-b", "x": 1}]), r.choice(ZONES)
        steps = []
        for _ in range(r.choice([2, 3, 4])):
            if r.random() < 0.35:
                steps.append(["windows", [{"field": "f", "value": r.choice(WINDOWS), "week_start_day": r.choice(WEEK), "timezone": r.choice(ZONES)} for _ in range(12)]])
            elif r.random() < 0.15:
                steps.append(["boards", None])
            else:
                kind, req = some_request(r, w)
                if r.random() < 0.4 and isinstance(req.get("where", []), list) and "orders." in repr(req) and "sql" not in req and "merged_queries" not in req:
                    req["where"] = req.get("where", []) + [{"field": "orders.made_date", "expression": "matches", "value": r.choice(WINDOWS[:11])}]
                steps.append([kind, req])
        return dialect, given, user, zone, steps

    def perform(job):
        from metrics_layer.core.model.project import Project
        dialect, given, user, zone, steps = job
        models, views, boards, _ = json.loads(given)
        p = Project(models=models, views=views, dashboards=boards, connection_lookup={"c": dialect})
        if zone:
            p.set_timezone(zone)
        conn = MetricsLayerConnection(project=p, connections=[], user=copy.deepcopy(user))
        out = []
        for kind, req in copy.deepcopy(steps):
            if kind == "windows":
                out.append(windows(req))
            elif kind == "boards":
                try:
                    out.append([json.dumps(d.parsed_filters(), default=str) + json.dumps([e.parsed_filters() for e in d.elements()], default=str) for d in p.dashboards()])
                except Exception as e:
                    out.append(type(e).__name__ + str(e))
            else:
                out.append(outcome(conn, dialect, req))
        return out

    def together(r, i):
        n = r.choice([2, 2, 3, 4, 6])
        share = None
        if r.random() < 0.4:
            d = r.choice(DIALECTS)
            share = (world(r, d), d)
        jobs = [plan(r, share) for _ in range(n)]
        alone = []
        for j in jobs:
            with caches.none():
                alone.append(perform(j))
        weaver = Weaver((ck.seed, i), r.choice([0, 0.001, 0.003, 0.01]))
        got, failed = [None] * n, [None] * n
        gate = threading.Barrier(n)

        def work(k):
            gate.wait()
            sys.settrace(weaver.trace(k))
            try:
                got[k] = perform(jobs[k])
            except BaseException as e:
                failed[k] = repr(e)
            finally:
                sys.settrace(None)
        with caches.none():
            ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(300)
            if any(t.is_alive() for t in ts):
                ck.bad("stuck", "threads compiling at the same time do not come to an end", {"jobs": jobs, "where": {str(k): str(v) for k, v in weaver.inside.items()}})
                return
        ck.counts["switches"] += weaver.switches
        ck.pairs_seen |= weaver.pairs
        ck.counts["threads"] += n
        for k in range(n):
            info = {"thread": k, "threads": n, "switches": weaver.switches}
            if failed[k] is not None:
                ck.bad("thread-failed", "a thread failed that works alone", dict(info, error=failed[k], job=jobs[k]))
                continue
            for (kind, req), a, g in zip(jobs[k][4], alone[k], got[k]):
                ck.counts["compared"] += 1
                ck.counts["windows" if kind == "windows" else "boards" if kind == "boards" else "compiled" if a[0] == "sql" else "refused"] += 1
                ck.seen("kind", kind)
                if a != g:
                    what = "windows" if kind == "windows" else "boards" if kind == "boards" else "sql"
                    ck.bad("disturbed:" + what, "a request gives something else while other threads work", dict(info, kind=kind, request=req, alone=a, together=g))
        ck.case([j[1:] for j in jobs], {"threads": n, "kinds": [[s[0] for s in j[4]] for j in jobs], "switches": weaver.switches}, nontrivial=weaver.switches > 20)

    def calendar(r, i):
        """Only windows, many of them, in threads with different first days of the week."""
        n = r.choice([2, 4, 8])
        jobs = [[{"field": "f", "value": r.choice(WINDOWS), "week_start_day": d, "timezone": r.choice(ZONES)} for _ in range(60)] for d in (r.choice(WEEK) for _ in range(n))]
        alone = [windows(j) for j in jobs]
        weaver = Weaver((ck.seed, "c", i), r.choice([0, 0.01, 0.1]))
        got = [None] * n
        gate = threading.Barrier(n)

        def work(k):
            gate.wait()
            sys.settrace(weaver.trace(k))
            try:
                got[k] = windows(jobs[k])
            finally:
                sys.settrace(None)
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        [t.start() for t in ts]
        [t.join(120) for t in ts]
        if any(t.is_alive() for t in ts):
            ck.bad("stuck", "threads computing date windows do not come to an end", {"jobs": jobs})
            return
        ck.counts["switches"] += weaver.switches
        ck.pairs_seen |= weaver.pairs
        for j, a, g in zip(jobs, alone, got):
            for d, x, y in zip(j, a, g or [None] * len(a)):
                ck.counts["windows"] += 1
                if x != y:
                    ck.bad("disturbed:windows", "a date window is another one while other threads compute theirs", {"filter": d, "alone": x, "together": y})
        ck.case(jobs, None, nontrivial=weaver.switches > 5)

    ck.pairs_seen = set()
    ck.run("together", ck.pick(24, 400), together)
    ck.run("calendar", ck.pick(30, 300), calendar)
    ck.counts["distinct_interruptions"] = len(ck.pairs_seen)


ck = Check("C23", "two to eight threads, each with its own project (equal or different definitions, users, timezones, week starts and warehouses), compile requests "
           "of every kind and compute date windows while a tracer interrupts them at random lines of the library; every result compared with the one the request "
           "gives alone; non-trivial = more than 20 switches between threads inside the library; distinct_interruptions = pairs of (interrupted line, line that ran next)")
main(ck, body, need=[("compared", 120), ("windows", 3000), ("switches", 3000), ("distinct_interruptions", 1000), ("compiled", 50)])
