import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import copy
import json
import string
import types
import unittest.mock as mock
from urllib.parse import unquote, urlsplit

# SQLAlchemy is not installed here: the one function the code takes from it is a stand-in
_sa = types.ModuleType("sqlalchemy")
_sa.create_engine = lambda url, **kw: DRIVER.engine(url, **kw)
sys.modules["sqlalchemy"] = _sa
from mlv.common import Check, main
from metrics_layer.core.sql import query_runner as qr
del sys.modules["sqlalchemy"]
import pandas as pd
import google.cloud.bigquery
import google.oauth2.service_account
import redshift_connector
import snowflake.connector
from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.model.project import Project
from metrics_layer.core.parse import ProjectLoader
from metrics_layer.core.parse.connections import BaseConnection, MetricsLayerConnectionError
from metrics_layer.core.sql.query_errors import ArgumentError
from metrics_layer.core.exceptions import QueryError


class DriverError(Exception):
    pass


class DriverTimeout(Exception):
    pass


class Abort(BaseException):
    pass


class Driver:
    """Stand-in of the four database drivers: logs every call, fails at the chosen one."""

    def __init__(self, r, fault=None, exc=None):
        self.r, self.fault, self.exc = r, fault, exc
        self.log = []
        self.open = 0
        self.rows = [(k, r.choice(["x", None, "y"])) for k in range(r.choice([0, 1, 3]))]
        self.result = None

    def at(self, point, *data):
        self.log.append((point,) + data)
        if point == self.fault:
            raise self.exc

    def frame(self):
        self.result = pd.DataFrame(self.rows, columns=["a", "b"])
        return self.result

    # entry points of the drivers
    def snowflake(self, **kw):
        self.at("connect", kw)
        return Conn(self, "snowflake")

    def redshift(self, **kw):
        self.at("connect", kw)
        return Conn(self, "redshift")

    def engine(self, url, **kw):
        d = self

        class Engine:
            def connect(self):
                u = urlsplit(str(url))
                # host part: everything after the last @
                d.at("connect", {"user": unquote(u.username or ""), "password": unquote(u.password or ""), "host": u.hostname, "port": u.port, "database": u.path[1:], "options": kw.get("connect_args", {}).get("options"), "scheme": u.scheme})
                return Conn(d, "postgres")

        return Engine()

    def bigquery(self, **kw):
        self.at("connect", kw)
        return Conn(self, "bigquery")


class Conn:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind
        d.open += 1

    @property
    def connection(self):
        if self.kind != "postgres":
            raise AttributeError("connection")
        return self

    def execute_string(self, sql):
        self.d.at("pre", sql)

    def cursor(self, *a, **kw):
        self.d.at("cursor")
        return Cursor(self.d)

    def query(self, sql, **kw):
        self.d.at("execute", sql, kw)
        return Job(self.d)

    def rollback(self):
        self.d.log.append(("rollback",))

    def close(self):
        self.d.log.append(("close",))
        self.d.open -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Cursor:
    def __init__(self, d):
        self.d = d
        self.description = None

    def execute(self, sql, *a, **kw):
        if a:
            kw["parameters"] = a
        self.d.at("execute", sql, kw)
        self.description = [("a", None), ("b", None)]
        return self

    def fetch_pandas_all(self):
        self.d.at("fetch")
        return self.d.frame()

    fetch_dataframe = fetch_pandas_all

    def fetchall(self):
        self.d.at("fetch")
        return list(self.d.rows)

    def close(self):
        pass


class Job:
    def __init__(self, d):
        self.d = d

    def to_dataframe(self, *a, **kw):
        self.d.at("fetch")
        return self.d.frame()


DRIVER = None


class installed:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        global DRIVER
        DRIVER = self.d
        creds = types.SimpleNamespace(from_service_account_info=lambda info, **kw: ("creds", json.dumps(info, sort_keys=True)))
        self.patches = [
            mock.patch.object(snowflake.connector, "connect", self.d.snowflake),
            mock.patch.object(redshift_connector, "connect", self.d.redshift),
            mock.patch.object(google.cloud.bigquery, "Client", self.d.bigquery),
            mock.patch.object(google.oauth2.service_account, "Credentials", creds),
        ]
        for p in self.patches:
            p.start()
        return self.d

    def __exit__(self, *a):
        for p in self.patches:
            p.stop()


WORDS = ["alpha", "beta", "Gamma", "x1", "db-1", "wh_2", "Ünï", "east"]
SPECIAL = "@/:%#?&+= '\"\\$;é"
COUNTER = [0]


def secret(r, special=True):
    COUNTER[0] += 1
    mid = "".join(r.choice(SPECIAL) for _ in range(r.choice([0, 0, 2, 4]))) if special else ""
    return "s3cr%05d%s%s" % (COUNTER[0], mid, "".join(r.choice(string.ascii_letters) for _ in range(8)))


def word(r):
    return r.choice(WORDS) + str(r.randrange(100))


def maybe(r, p, d, **kw):
    for k, v in kw.items():
        if r.random() < p:
            d[k] = v() if callable(v) else v


def definition(r, kind):
    """(definition accepted by the connection class, secrets in it)."""
    d = {"name": word(r), "type": kind if r.random() < 0.5 else kind.lower()}
    pw = secret(r)
    secrets = [pw]
    w = lambda: word(r)
    if kind == "SNOWFLAKE":
        d.update(account=w(), password=pw)
        d[r.choice(["user", "username"])] = w()
        maybe(r, 0.6, d, role=w, warehouse=w, database=w, schema=w)
    elif kind == "DATABRICKS":
        d.update(host=w(), http_path="/sql/" + w())
        how = r.randrange(3)
        if how == 0:
            d.update(username=w(), password=pw)
        elif how == 1:
            d["personal_access_token"] = pw
        else:
            d.update(client_id=w(), client_secret=pw)
        maybe(r, 0.5, d, database=w, schema=w)
    elif kind == "REDSHIFT":
        d.update(host=w(), username=w(), password=pw)
        maybe(r, 0.5, d, port=lambda: r.randrange(1000, 9999), database=w, schema=w)
    elif kind == "POSTGRES":
        d.update(host="h" + str(r.randrange(99)) + ".example.com", user=w() + r.choice(["", "@corp", ":1", "/x"]), password=pw)
        maybe(r, 0.5, d, port=lambda: r.choice([5433, "5434"]), schema=w)
        maybe(r, 0.8, d, dbname=lambda: "db%d" % r.randrange(50))
    elif kind == "DUCK_DB":
        d.update(host=w(), user=w(), password=pw)
        maybe(r, 0.5, d, port=5444, database=w, schema=w)
    elif kind == "TRINO":
        d.update(host=w(), user=w(), database=w())
        secrets = []
        if r.random() < 0.5:
            d["auth"] = pw
            secrets = [pw]
        maybe(r, 0.5, d, port=8081, schema=w, scheme="https")
    elif kind in ("DRUID", "SQL_SERVER", "AZURE_SYNAPSE"):
        d["host"] = w()
        if r.random() < 0.7:
            d[r.choice(["user", "username"])] = w()
        secrets = []
        if r.random() < 0.7:
            d["password"] = pw
            secrets = [pw]
        maybe(r, 0.4, d, port=r.randrange(1000, 9999))
        if kind == "DRUID":
            maybe(r, 0.4, d, path="/druid/" + word(r), scheme="https")
        else:
            maybe(r, 0.4, d, database=w, schema=w)
    else:
        creds = {"project_id": "proj-" + w(), "private_key": pw, "client_email": w() + "@x.com"}
        d[r.choice(["credentials", "keyfile"])] = creds if r.random() < 0.5 else json.dumps(creds)
        maybe(r, 0.4, d, schema=w)
    if r.random() < 0.2:
        d["threads"] = 4  # profiles carry keys for other tools
    return d, secrets


KINDS = ["SNOWFLAKE", "DATABRICKS", "REDSHIFT", "POSTGRES", "DUCK_DB", "TRINO", "DRUID", "SQL_SERVER", "AZURE_SYNAPSE", "BIGQUERY"]
RUN = ["SNOWFLAKE", "REDSHIFT", "POSTGRES", "BIGQUERY"]


def sql_text(r):
    bits = ["select 1", "SELECT a FROM t WHERE x LIKE '%b%c'", "select ':p', %s, {x}", "-- note\nselect 2", "select 'ünï \\ \\n'", "  select  3  ", "select $$x$$", "select \"Q\" as \"q\""]
    return r.choice(["", "\n", " "]) + r.choice([" union all ", "; ", "\n"]).join(r.sample(bits, r.choice([1, 1, 2, 3]))) + r.choice(["", ";", ";\n", " ;; "])


def causes(e):
    out, seen = [], set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out.append(e)
        e = e.__cause__ or e.__context__ or getattr(e, "orig", None)
    return out


def expect_connect(kind, d):
    """What the driver must be given to log in."""
    user = d.get("user") or d.get("username")
    if kind == "SNOWFLAKE":
        return {"account": d["account"], "user": user, "password": d["password"], "role": d.get("role")}
    if kind == "REDSHIFT":
        return {"host": d["host"], "port": d.get("port", 5439), "database": d.get("database"), "user": user, "password": d["password"]}
    if kind == "POSTGRES":
        return {"host": d["host"], "port": int(d.get("port", 5432)), "database": d.get("dbname") or "", "user": user, "password": d["password"]}
    creds = d.get("credentials") or d.get("keyfile")
    creds = creds if isinstance(creds, dict) else json.loads(creds)
    return {"project": creds["project_id"], "credentials": ("creds", json.dumps(creds, sort_keys=True))}


def verify(ck, kind, d, sql, flags, timeout, drv, outcome, info):
    """The trace of one run against what was asked for."""
    log = drv.log
    points = [x[0] for x in log]
    fault = drv.fault
    info = dict(info, kind=kind, definition={k: v for k, v in d.items()}, sql=sql, flags=flags, timeout=timeout, fault=fault, log=[repr(x) for x in log], outcome=repr(outcome)[:300])
    if points.count("connect") != 1:
        return ck.bad("connects", "the driver is not connected to exactly once", info)
    got = log[0][1]
    exp = expect_connect(kind, d)
    if any(got.get(k) != v for k, v in exp.items()):
        return ck.bad("login", "the driver is given other connection details", dict(info, expected=exp))
    raw = flags.get("raw_cursor", False)
    keeps = kind == "POSTGRES" and raw and fault in (None, "fetch")
    closes = points.count("close")
    if fault == "connect":
        if closes:
            return ck.bad("close", "a connection that was never opened is closed", info)
    elif closes != (0 if keeps else 1):
        return ck.bad("close", "the driver connection is not closed exactly once", info)
    executed = [x for x in log if x[0] == "execute"]
    pre = [x[1] for x in log if x[0] == "pre"]
    if fault in ("connect", "pre", "cursor"):
        if executed:
            return ck.bad("executes", "a query is sent after the run failed", info)
    else:
        if len(executed) != 1 or executed[0][1] != sql:
            return ck.bad("verbatim", "the warehouse does not receive exactly the given SQL once", info)
        kw = executed[0][2]
        if kind in ("SNOWFLAKE", "BIGQUERY") and kw.get("timeout") != timeout:
            return ck.bad("timeout", "the driver is not given the time limit", info)
        if kw.get("parameters") not in (None, (None,)):
            return ck.bad("parameters", "the SQL is sent as a template with parameters", info)
        if kind == "BIGQUERY" and kw.get("job_retry", 0) is not None:
            return ck.bad("retry", "the driver may send the query again", info)
    if fault != "connect":
        if kind == "REDSHIFT" and got.get("timeout") != timeout:
            return ck.bad("timeout", "the driver is not given the time limit", info)
        if kind == "POSTGRES" and got.get("options") != "-c statement_timeout=%d" % (timeout * 1000):
            return ck.bad("timeout", "the driver is not given the time limit in milliseconds", info)
    # statements before the query: only the ones that choose the warehouse, database and schema
    want = []
    if kind == "SNOWFLAKE":
        full, start = flags.get("run_pre_queries", True), flags.get("start_warehouse", True)
        if d.get("warehouse") and (full or start):
            want.append("USE WAREHOUSE %s" % d["warehouse"])
        if full and d.get("database"):
            want.append('USE DATABASE "%s"' % d["database"].upper())
        if full and d.get("schema"):
            want.append('USE SCHEMA "%s"' % d["schema"].upper())
    sent = [s.strip() for p in pre for s in p.split(";") if s.strip()]
    if sent != want if fault not in ("connect",) else sent:
        return ck.bad("session", "statements before the query are not the ones that choose the session's warehouse, database and schema", dict(info, expected=want))
    if pre and "execute" in points and points.index("execute") < max(i for i, p in enumerate(points) if p == "pre"):
        return ck.bad("session", "the session is set up after the query", info)
    ok, value = outcome
    if fault is None or (raw and fault == "fetch"):
        if not ok:
            return ck.bad("fails", "a run without a fault fails", info)
        if raw:
            if not isinstance(value, (Cursor, Job)):
                return ck.bad("result", "the raw cursor is not the driver's", info)
        elif not (isinstance(value, pd.DataFrame) and list(value.columns) == ["a", "b"] and [tuple(x) for x in value.astype(object).where(value.notna(), None).values.tolist()] == drv.rows):
            return ck.bad("result", "the rows are not the ones the driver produced", dict(info, expected=drv.rows))
    else:
        if ok:
            return ck.bad("swallowed", "a driver failure does not reach the caller", info)
        if not any(e is drv.exc for e in causes(value)):
            return ck.bad("masked", "the caller gets another error than the driver's", info)
    return None


def attempt(fn):
    try:
        return (True, fn())
    except (Exception, Abort) as e:
        return (False, e)


def body(ck):
    def runs(r, i):
        kind = RUN[i % 4]
        d, secrets = definition(r, kind)
        conn = ProjectLoader.load_connections([d])[0]
        points = ["connect", "cursor", "execute", "fetch"] if kind != "BIGQUERY" else ["connect", "execute", "fetch"]
        if kind == "SNOWFLAKE":
            points.append("pre")
        fault = r.choice([None] + points)
        exc = r.choice([DriverError, DriverTimeout, Abort, ValueError, KeyError, OSError])("driver says no")
        flags = {k: r.random() < 0.5 for k in ("raw_cursor", "run_pre_queries", "start_warehouse") if r.random() < 0.4}
        timeout = r.choice([180, 1, 5, 33, 3600])
        if fault == "pre" and (not any(d.get(k) for k in ("warehouse", "database", "schema")) or flags.get("run_pre_queries") is False):
            fault = "execute"
        kw = dict(flags)
        if timeout != 180 or r.random() < 0.3:
            kw["timeout"] = timeout
        sql = sql_text(r)
        ml = MetricsLayerConnection(project=Project(models=[], views=[]), connections=[d])
        entry = r.choice(["runner", "connection"])
        with installed(Driver(r, fault, exc)) as drv:
            if entry == "runner":
                outcome = attempt(lambda: qr.QueryRunner(sql, conn).run_query(**kw))
            else:
                outcome = attempt(lambda: ml.run_query(sql, ml.get_connection(d["name"]), **kw))
        verify(ck, kind, d, sql, flags, timeout, drv, outcome, {"entry": entry})
        ck.counts["runs"] += 1
        ck.counts["faults"] += fault is not None
        ck.counts["driver_calls"] += len(drv.log)
        ck.seen("trace", (kind, tuple(x[0] for x in drv.log)))
        ck.seen("fault", (kind, fault, type(exc).__name__))
        ck.case((kind, sql, repr(sorted(flags.items())), fault, timeout, entry), {"kind": kind, "sql": sql, "fault": fault, "log": drv.log})

    def chosen(r, i):
        """Which connection a request runs on, and with which SQL."""
        n = r.choice([1, 2, 3])
        defs, models, views = [], [], []
        names = r.sample(["main", "second", "third", "Main", "main2"], n + 1)
        for k in range(n + 1):
            d, _ = definition(r, r.choice(RUN))
            d["name"] = names[k]
            defs.append(d)
        order = list(range(n + 1))
        r.shuffle(order)
        for k in range(n):
            models.append({"version": 1, "type": "model", "name": "m%d" % k, "connection": names[k]})
            views.append({"version": 1, "type": "view", "name": "v%d" % k, "model_name": "m%d" % k, "sql_table_name": "t%d" % k,
                          "fields": [{"name": "id", "field_type": "dimension", "type": "number", "primary_key": True, "sql": "${TABLE}.id"},
                                     {"name": "lab%d" % k, "field_type": "dimension", "type": "string", "sql": "${TABLE}.lab"},
                                     {"name": "total%d" % k, "field_type": "measure", "type": "sum", "sql": "${TABLE}.n"}]})
        project = Project(models=models, views=views)
        ctor = {"timeout": r.choice([7, 8])} if r.random() < 0.2 else {}
        ml = MetricsLayerConnection(project=project, connections=[defs[k] for k in order[:r.randrange(1, n + 2)]] if False else [defs[k] for k in order], **ctor)
        for _ in range(4):
            k = r.randrange(n)
            kind = defs[k]["type"].upper()
            v = "v%d." % k if r.random() < 0.6 else ""
            req = {"metrics": [v + "total%d" % k], "dimensions": [v + "lab%d" % k]}
            if r.random() < 0.4:
                req["where"] = [{"field": v + "lab%d" % k, "expression": r.choice(["contains", "equal_to"]), "value": r.choice(["a%b", "x'y", ":z"])}]
            if r.random() < 0.4:
                req["model_name"] = "m%d" % k
            if r.random() < 0.25:
                req = {"sql": "SELECT * FROM MQL(%stotal%d BY %slab%d) AS x" % (v, k, v, k)}
                if n > 1:
                    req["model_name"] = "m%d" % k
            expected = ml.get_sql_query(**req)
            timeout = ctor.get("timeout", 180)
            if r.random() < 0.3:
                timeout = 11
            kw = {"timeout": timeout} if timeout != ctor.get("timeout", 180) else {}
            with installed(Driver(r)) as drv:
                outcome = attempt(lambda: ml.query(**req, **kw))
            verify(ck, kind, defs[k], expected, {}, timeout, drv, outcome, {"request": req, "connections": [x["name"] for x in defs], "model": "m%d" % k})
            ck.counts["chosen"] += 1
            ck.case((n, repr(req), kind), {"request": req, "log": drv.log})
        # plain SQL has no model: it runs on the connection the caller names, or nowhere
        k = r.randrange(n + 1)
        plain = "select 'it''s 5%%' as x from t%s" % r.choice(["", ";", "\n;"])
        with installed(Driver(r)) as drv:
            outcome = attempt(lambda: ml.query(sql=plain, connection_name=names[k]))
        verify(ck, defs[k]["type"].upper(), defs[k], ml.get_sql_query(sql=plain), {}, ctor.get("timeout", 180), drv, outcome, {"connection_name": names[k], "connections": [x["name"] for x in defs]})
        with installed(Driver(r)) as drv:
            outcome = attempt(lambda: ml.query(sql=plain, **({"connection_name": "nope"} if r.random() < 0.5 else {})))
        if outcome[0] or drv.log or not isinstance(outcome[1], QueryError):
            ck.bad("wrong-connection", "plain SQL without a connection is not refused", {"log": repr(drv.log), "outcome": repr(outcome)})
        ck.counts["plain"] += 2
        # no such connection: refused before any driver is touched
        lost = MetricsLayerConnection(project=project, connections=[x for x in defs if x["name"] != names[0]])
        with installed(Driver(r)) as drv:
            outcome = attempt(lambda: lost.query(metrics=["v0.total0"], dimensions=["v0.lab0"]))
        if outcome[0] or drv.log:
            ck.bad("wrong-connection", "a query whose connection is missing is run elsewhere", {"connections": [x["name"] for x in defs], "missing": names[0], "log": repr(drv.log), "outcome": repr(outcome)})
        ck.counts["missing_connection"] += 1

    def definitions(r, i):
        kind = KINDS[i % len(KINDS)]
        d, secrets = definition(r, kind)
        if r.random() < 0.15 and kind not in ("BIGQUERY", "TRINO"):  # a definition that is not accepted
            bad = dict(d)
            if kind in ("SNOWFLAKE", "DRUID", "SQL_SERVER", "AZURE_SYNAPSE"):
                bad["user"] = bad["username"] = "both"
            else:
                bad.pop("host")
            try:
                ProjectLoader.load_connections([bad])
                ck.bad("accepts", "an ambiguous or incomplete connection is accepted", {"definition": bad})
            except (ArgumentError, TypeError) as e:
                if any(s in str(e) for s in secrets):
                    ck.bad("secret", "a credential in the error of a connection", {"definition": bad, "error": str(e)})
                ck.counts["rejected"] += 1
        before = copy.deepcopy(d)
        conn = ProjectLoader.load_connections([d])[0]
        again = ProjectLoader.load_connections([conn])[0]
        info = {"definition": before}
        shown = []
        for c in (conn, again):
            asdict = c.to_dict()
            printed = c.printable_attributes()
            shown += [repr(c), str(c), "%s" % c, repr(printed), json.dumps(printed, default=str)]
            if c.to_dict() != asdict or c.printable_attributes() != printed:
                ck.bad("unstable", "printing or converting a connection changes it", info)
            if printed.get("name") != d["name"] or not printed.get("type"):
                ck.bad("printable", "the printable form does not name the connection and its kind", dict(info, printed=printed))
            given = {k: v for k, v in before.items() if k not in ("type", "credentials", "keyfile", "threads")}
            for k, v in asdict.items():
                if k in given and str(given[k]) != str(v) and v is not None:
                    ck.bad("converted", "the driver form has another value than the definition", dict(info, key=k, value=v))
            for k, v in printed.items():
                if k in given and str(given[k]) != str(v):
                    ck.bad("printable", "the printable form has another value than the definition", dict(info, key=k, value=v))
            # the driver's form keeps the login of the definition
            flat = repr(asdict)
            if secrets and not any(x in flat or repr(x)[1:-1] in flat or json.dumps(x)[1:-1] in flat for x in secrets):
                ck.bad("converted", "the credential is missing in the driver form", dict(info, form=flat))
            user = d.get("user") or d.get("username")
            if user and user not in flat:
                ck.bad("converted", "the user is missing in the driver form", dict(info, form=flat))
        for s in secrets:
            core = s[:9]
            for text in shown:
                if core in text:
                    ck.bad("secret", "a credential appears in the printable form", dict(info, printed=text))
        if d != before:
            ck.bad("definition-changed", "loading a connection changes its definition", dict(info, now=d))
        # later changes of the caller's dictionary do not reach the connection
        if isinstance(d.get("credentials"), dict):
            kept = conn.to_dict()
            d["credentials"]["private_key"] = "changed"
            if conn.to_dict() != kept:
                ck.bad("shared", "a connection shares the caller's credentials", info)
        ml = MetricsLayerConnection(project=Project(models=[], views=[]), connections=[before, {**before, "name": before["name"] + "_b"}])
        if ml.list_connections(names_only=True) != [before["name"], before["name"] + "_b"] or ml.get_connection(before["name"] + "_b").name != before["name"] + "_b" or ml.get_connection("nope") is not None:
            ck.bad("lookup", "connections are not found by their name", info)
        if kind not in RUN:
            try:
                with installed(Driver(r)) as drv:
                    qr.QueryRunner("select 1", conn).run_query()
                ck.bad("unsupported", "a warehouse without a driver runs a query", info)
            except MetricsLayerConnectionError as e:
                ck.counts["unsupported"] += 1
        ck.counts["definitions"] += 1
        ck.seen("definition", (kind, tuple(sorted(d))))
        ck.case((kind, repr(sorted(before.items(), key=str))), {"definition": before, "printed": conn.printable_attributes()})

    def command_line(r, i):
        """The debug and show commands print connections: no credential in their output."""
        from click.testing import CliRunner
        from metrics_layer.cli import cli_commands, seeding
        kind = RUN[i % 4] if r.random() < 0.6 else r.choice(KINDS)
        d, secrets = definition(r, kind)
        ml = MetricsLayerConnection(project=Project(models=[], views=[]), connections=[d])
        exc = r.choice([None, DriverError("no route")])
        with installed(Driver(r, "execute" if exc else None, exc)) as drv, mock.patch.object(seeding.SeedMetricsLayer, "_init_profile", staticmethod(lambda profile, target: ml)), mock.patch.object(seeding.SeedMetricsLayer, "get_profile", staticmethod(lambda: "p")):
            for args in (["debug"], ["show", "--type", "connection", d["name"]], ["list", "connections"]):
                res = CliRunner().invoke(cli_commands.cli_group, args)
                if res.exception is not None and not isinstance(res.exception, SystemExit):
                    ck.bad("cli", "a command on an accepted connection fails", {"args": args, "definition": d, "error": repr(res.exception)})
                if any(s[:9] in res.output for s in secrets):
                    ck.bad("secret", "a credential in the output of a command", {"args": args, "definition": d, "output": res.output})
                if d["name"] not in res.output:
                    ck.bad("cli", "a command does not show the connection", {"args": args, "definition": d, "output": res.output})
        if kind in RUN and [x[0] for x in drv.log].count("execute") != 1:
            ck.bad("cli", "the test query is not sent once", {"definition": d, "log": repr(drv.log)})
        if drv.open:
            ck.bad("close", "the debug command leaves a connection open", {"definition": d, "log": repr(drv.log)})
        ck.counts["commands"] += 3

    ck.run("runs", ck.pick(3000, 60000), runs)
    ck.run("chosen", ck.pick(150, 3000), chosen)
    ck.run("definitions", ck.pick(1500, 30000), definitions)
    ck.run("cli", ck.pick(80, 1500), command_line)


ck = Check("C22", "random connection definitions of ten warehouses, SQL texts, time limits and flags, with the four drivers replaced by stand-ins that log every call and fail (six kinds of errors) at a chosen one: connect, session setup, "
           "cursor, execute or fetch; requests over projects of several models and connections; connection printing, conversion and the command line")
main(ck, body, need=[("runs", 2000), ("faults", 1000), ("chosen", 300), ("definitions", 1000), ("commands", 150), ("unsupported", 100), ("plain", 200)])
