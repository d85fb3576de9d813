"""C20: files written, laid out in any way and loaded again are the same project; a seeded project has one right field per column."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, copy, io, json, re, shutil, subprocess, tempfile
import pandas as pd
import yaml as pyyaml
from mlv.common import Check, main
from mlv.wide import *
from mlv.observe import attempt, errors_of, observe
from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.parse import ProjectDumper, ProjectLoader
from metrics_layer.core.parse import connections as C
from metrics_layer.core.parse import github_repo
from metrics_layer.cli.seeding import SeedMetricsLayer

HOSTILE = ["yes", "no", "on", "off", "y", "N", "True", "null", "~", "1", "1.0", "0123", "1_000", "12:30", "12:30:45", "0x1f", "0b11", "1e3", ".5", "=",
           "2020-01-01", "2020-01-01 10:00:00", "- a", "a: b", "# x", "a #b", "'q'", '"dq"', "it's", "line\nbreak", "trail \n", "\tTab", "  lead", "trail ", "\n",
           "é", "日本", "a\u2028b", "*a", "&a", "!x", "%x", "@x", "`x`", "{a}", "[b]", "|", ">", "?", "? a", "-", "---", "...", "a\n\n b\n", "x" * 300,
           "word " * 60, "a\\b", "\U0001f600", "1:20", "+1", "1,000", "0o17", "08", ".nan", "-.inf", "  \n  multi\n indented\n", "a\\nb", "\\", "''", "yes: no",
           "one\n  two\n    three", "a\u0007b"]
SQLS = ["CASE\n  WHEN ${TABLE}.%s = 'a: b' THEN 'yes' -- note: \"x\"\n  ELSE 'no'\nEND", "\n  ${TABLE}.%s\n", "COALESCE(${TABLE}.%s, '日本 # \\\\ \"q\"')",
        "${TABLE}.%s  /* {a: [b]} */", "CASE WHEN ${TABLE}.%s = 'off' THEN " + "'long text' || " * 20 + "'' END"]


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="mlv20_"))
    here = os.getcwd()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def plain(x):
    """Definition values as plain data."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items() if k != "_file_path"}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return float(x)
    return "%s %r" % (type(x).__name__, x)


def canonical(objs):
    out = {}
    for o in objs:
        o = plain(o)
        if "fields" in o and o.get("type") == "view":
            o["fields"] = sorted(o["fields"], key=lambda f: (f["name"], f["field_type"]))
        key = o["name"]
        while key in out:
            key += "+"
        out[key] = o
    return out


def hostile(r, p):
    """Texts of every kind in the places that hold text."""
    t = lambda: r.choice(HOSTILE)
    for o in p["models"] + p["views"] + p["dashboards"]:
        if some(r, 0.6):
            o["label"] = t()
        if some(r, 0.4) and o["type"] != "model":
            o["description"] = t()
    for v in p["views"]:
        for f in v["fields"]:
            if some(r, 0.25):
                f[r.choice(["label", "description", "zoe_description", "group_label"])] = t()
            if some(r, 0.05):
                f["extra"] = {t(): [t(), 1, 1.5, True, None, {"a": t()}]}
            if f["field_type"] == "measure" and some(r, 0.2) and f["type"] in ("count", "sum") and "filters" not in f:
                f["filters"] = [{"field": {"orders": "kind", "visits": "kind", "customers": "region", "spend": "chan"}[v["name"]], "value": t().strip() or "x"}]
            if f["field_type"] == "dimension" and f["type"] == "string" and re.fullmatch(r"\$\{TABLE\}\.\w+", str(f.get("sql"))) and some(r, 0.3):
                f["sql"] = r.choice(SQLS) % f["sql"].split(".")[1]
        if "derived_table" in v:
            v["derived_table"]["sql"] += r.choice(["", "\n WHERE 1 = 1 -- all: 'of' it\n", "\n\n  WHERE  'yes' <> \"no\""])
    for d in p["dashboards"]:
        for e in d["elements"]:
            e["title"] = t()
            for f in e.get("filters", []):
                f["value"] = t()


REQUESTS = [{"metrics": ["orders.total_amt"], "dimensions": ["orders.kind"]}, {"metrics": ["orders.order_count"], "dimensions": ["customers.region", "orders.made_week"]},
            {"metrics": ["orders.order_count", "visits.visit_count"], "dimensions": ["date"]}, {"metrics": ["orders.last_qty"], "dimensions": ["orders.kind"]},
            {"metrics": ["orders.amt_per_visit"]}, {"metrics": ["orders.order_count"], "dimensions": ["kindly"]}, {"metrics": ["customers.total_score"], "dimensions": ["orders.kind"]},
            {"metrics": ["visits.total_pages"], "where": [{"field": "visits.seen_date", "expression": "matches", "value": "last week"}]},
            {"metrics": ["spend.total_cost", "orders.total_amt"], "dimensions": ["orders.made_fiscal_quarter"]}, {"metrics": [], "dimensions": ["orders.band", "customers.region"]}]


def dump_all(ck, folder, p, config):
    """With the library's own writer."""
    d = ProjectDumper(p["models"], config["model-paths"][0], p["views"], config["view-paths"][0])
    d.dump(folder)
    for b in p["dashboards"]:
        place = os.path.join(folder, (config.get("dashboard-paths") or config["view-paths"])[0])
        os.makedirs(place, exist_ok=True)
        d.dump_yaml_file(b, os.path.join(place, b["name"] + ".yml"))
    d.dump_yaml_file(config, os.path.join(folder, "zenlytic_project.yml"))


def lay_out(r, folder, p, config):
    """Somebody's own files: any names, any depth, either extension, either writer."""
    class Writer(pyyaml.SafeDumper):
        pass

    def text(dumper, x):
        style = r.choice(["'", '"'])
        if "\n" in x and some(r, 0.6):
            style = "|"
        elif re.fullmatch(r"[A-Za-z][A-Za-z_ ]*[a-z]", x) and x.lower() not in ("yes", "no", "on", "off", "true", "false", "null") and some(r, 0.7):
            style = None
        return dumper.represent_scalar("tag:yaml.org,2002:str", x, style=style)
    Writer.add_representer(str, text)

    def write(o, fn):
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "w", encoding="utf-8") as f:
            pyyaml.dump(o, f, Dumper=Writer, sort_keys=some(r), allow_unicode=some(r, 0.5), default_flow_style=some(r, 0.1), width=r.choice([20, 80, 10000]))
    n = 0
    for key, kind in (("models", "model"), ("views", "view"), ("dashboards", "dashboard")):
        for o in p[key]:
            n += 1
            place = r.choice(config.get(kind + "-paths") or config["view-paths"])
            sub = r.choice(["", "", "a", "a/b", "a/b/c", "deep er/x.y", "views", "_x"])
            write(o, os.path.join(folder, place, sub, r.choice(["%s%d" % (kind, n), o["name"], "%d. %s" % (n, o["name"]), "zenlytic%d" % n]) + r.choice([".yml", ".yaml"])))
    write(config, os.path.join(folder, "zenlytic_project.yml"))


def decoys(r, folder, p, config):
    """Files that are not part of the project, beside its folders."""
    inside = [os.path.normpath(os.path.join(folder, x)) for k in ("model-paths", "view-paths", "dashboard-paths") for x in config.get(k, [])]
    made = 0
    for k in ("model-paths", "view-paths", "dashboard-paths"):
        for x in config.get(k, []):
            base = x.rstrip("/")
            for y in (base + "_old", base + "-archive/a", "old" + base.lstrip("./"), base + ".bak", "notes", ""):
                path = os.path.normpath(os.path.join(folder, y))
                if some(r, 0.4) and not any((path + "/").startswith(i + "/") for i in inside):
                    o = copy.deepcopy(r.choice(p["views"] + p["models"]))
                    o["name"] = r.choice([o["name"], "stray"])
                    os.makedirs(path, exist_ok=True)
                    with open(os.path.join(path, "stray_%d.%s" % (made, r.choice(["yml", "yaml"]))), "w") as f:
                        pyyaml.safe_dump(o, f)
                    made += 1
    for i in inside:
        if some(r, 0.5) and os.path.isdir(i):
            with open(os.path.join(i, r.choice(["README.md", "x.yml.bak", "x.sql", "yml"])), "w") as f:
                f.write("type: view\nname: stray\n")
    return made


def body(ck):
    def compare(r, what, p, project, detail):
        """The loaded project against the definitions."""
        for key, got in (("models", project._models), ("views", project._views), ("dashboards", project._dashboards)):
            want, have = canonical(p[key]), canonical(got)
            ck.counts["objects"] += len(want)
            if want != have:
                diff = []
                for n in sorted(set(want) | set(have)):
                    if n not in want or n not in have:
                        diff.append([n, "not there" if n not in want else "written", "loaded" if n in have else "missing"])
                    elif want[n] != have[n]:
                        diff += differences(want[n], have[n], n)
                kind = "stray" if any(d[1] == "not there" for d in diff) else "missing" if any(d[2] == "missing" for d in diff) else "changed"
                ck.bad("%s-%s" % (what, kind), "the loaded %s are not the ones written" % key, {"differs": diff[:8], **detail})
                return False
        return True

    def differences(a, b, path):
        if type(a) != type(b):
            return [[path, repr(a)[:200], repr(b)[:200]]]
        if isinstance(a, dict):
            return [d for k in sorted(set(a) | set(b)) for d in (differences(a[k], b[k], path + "/" + k) if k in a and k in b else [[path + "/" + k, repr(a.get(k, "-"))[:200], repr(b.get(k, "-"))[:200]]])]
        if isinstance(a, list) and len(a) == len(b):
            return [d for i, (x, y) in enumerate(zip(a, b)) for d in differences(x, y, path + "/" + (x["name"] if isinstance(x, dict) and "name" in x else str(i)))]
        return [] if a == b else [[path, repr(a)[:200], repr(b)[:200]]]

    def same_behaviour(r, what, p, project, user, detail):
        mine = load(copy.deepcopy(p))
        mine.set_user(user)
        project.set_user(user)
        project._connection_schema = getattr(mine, "_connection_schema", None)
        reqs = r.sample(REQUESTS, 4)
        names = r.sample(["orders.kind", "orders.total_amt", "customers.region", "visits.seen_week", "order_count", "kind"], 3)
        deep = some(r, 0.3)
        a, b = observe(mine, reqs, names, deep, user), observe(project, reqs, names, deep, user)
        ck.counts["behaviours"] += len(a)
        ck.counts["queries_ok"] += sum(1 for k, x in a.items() if k[0] == "query" and "SELECT" in x)
        diff = [[str(k), str(a[k])[:1500], str(b[k])[:1500]] for k in a if a[k] != b[k] and k not in ("dashboards", "models")]
        if diff:
            ck.bad("%s-behaviour" % what, "the loaded project behaves otherwise", {"differs": diff[:4], **detail})

    def files(r, i):
        p = wide_project(r)
        hostile(r, p)
        user = r.choice([None, {"team": "a"}])
        config = {"name": "p", "profile": "c",
                  "model-paths": r.choice([["models"], ["models/"], ["./models"], ["data models"], ["zen/data/models"], ["ml"], ["models", "more/models"]]),
                  "view-paths": r.choice([["views"], ["views/"], ["./views"], ["zen/views"], ["ml"], ["views", "models"], ["views", "views/a"]])}
        if some(r, 0.7) or not p["dashboards"]:
            config["dashboard-paths"] = r.choice([["dashboards"], ["boards/all"], ["views"], ["dashboards", "missing"]])
        name = r.choice(["project", "my project", "project.v1", "p [x]", "проект"])
        given = copy.deepcopy(p)
        with scratch() as d:
            folder = os.path.join(d, name)
            os.makedirs(folder)
            by = "dump" if some(r, 0.5) else "layout"
            if by == "dump":
                if some(r, 0.3):
                    for o in r.sample(p["models"] + p["views"], 2):
                        o["_file_path"] = os.path.join(config[o["type"] + "-paths"][0], r.choice(["", "a", "a/b"]), r.choice(["x_%s.yml", "%s.yaml"]) % o["name"])
                keep = copy.deepcopy(p)
                dump_all(ck, folder, p, config)
                if p != keep:
                    ck.bad("dump-changes", "writing a project changes its definitions", {"config": config})
            else:
                lay_out(r, folder, p, config)
            ck.counts["decoys"] += decoys(r, folder, p, config)
            ck.counts["by_" + by] += 1
            detail = {"config": config, "folder": name, "by": by, "files": sorted(os.path.relpath(os.path.join(a, f), folder) for a, _, fs in os.walk(folder) for f in fs)[:60]}
            loader = ProjectLoader(r.choice([folder, folder + "/", name, "./" + name]), connections=[dict(type="SNOWFLAKE", name="c", account="a", user="u", password="p")])
            project = loader.load()
            ck.case((json.dumps(plain(given), sort_keys=True), json.dumps(detail)), sample=detail)
            if not compare(r, by, given, project, detail):
                return
            same_behaviour(r, by, given, project, user, detail)
            if some(r, 0.5):
                # written back where it came from, or elsewhere
                again = os.path.join(d, "again")
                os.makedirs(again)
                p2 = {"models": project._models, "views": project._views, "dashboards": project._dashboards}
                if some(r, 0.5):
                    for o in p2["models"] + p2["views"]:
                        o.pop("_file_path", None)
                dump_all(ck, again, p2, config)
                project2 = ProjectLoader(again, connections=[]).load()
                ck.counts["again"] += 1
                compare(r, "again", given, project2, detail)

    def git(r, i):
        """A repository with several branches."""
        with scratch() as d:
            origin, work = os.path.join(d, "origin.git"), os.path.join(d, "work")
            env = {"HOME": d, "PATH": os.environ["PATH"], "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b"}
            g = lambda *a, cwd=work: subprocess.run(["git", *a], cwd=cwd, env=env, check=True, capture_output=True, text=True).stdout.strip()
            g("init", "-q", "--bare", "-b", "main", origin, cwd=d)
            g("clone", "-q", origin, work, cwd=d)
            g("checkout", "-q", "-b", "main")
            config = {"name": "p", "profile": "c", "model-paths": ["models"], "view-paths": ["views"], "dashboard-paths": ["dashboards"]}
            branches = {}
            for name in r.sample(["main", "master", "feature/x", "a-b"], r.choice([1, 2, 3])):
                p = wide_project(r)
                if branches:
                    g("checkout", "-q", "-b", name)
                else:
                    g("checkout", "-q", "-B", name)
                for x in ("models", "views", "dashboards"):
                    shutil.rmtree(os.path.join(work, x), ignore_errors=True)
                dump_all(ck, work, copy.deepcopy(p), config)
                g("add", "-A"); g("commit", "-q", "-m", "x"); g("push", "-q", "origin", name)
                branches[name] = (p, g("rev-parse", "HEAD"))
            clones = os.path.join(d, "clones")
            os.makedirs(clones)
            url = "https://git.invalid/team/repo%d.git" % i
            saved, before = dict(os.environ), github_repo.BASE_PATH
            os.environ.update({k: v for k, v in env.items()})
            os.environ.update({"GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": "url.%s.insteadOf" % origin, "GIT_CONFIG_VALUE_0": url, "GIT_TERMINAL_PROMPT": "0"})
            github_repo.BASE_PATH = clones
            try:
                name = r.choice(sorted(branches))
                if some(r):
                    os.environ.update({"METRICS_LAYER_LOCATION": url, "METRICS_LAYER_BRANCH": name})
                    loader = ProjectLoader(None, connections=[])
                else:
                    loader = ProjectLoader(url, branch=name, connections=[])
                project = loader.load()
            finally:
                github_repo.BASE_PATH = before
                os.environ.clear()
                os.environ.update(saved)
            p, commit = branches[name]
            detail = {"branch": name, "branches": sorted(branches)}
            ck.case((i, name, commit))
            ck.counts["cloned"] += 1
            compare(r, "git", p, project, detail)
            if project.commit_hash != commit:
                ck.bad("git-commit", "the project does not carry the commit it was read from", {"got": project.commit_hash, "want": commit, **detail})
            if sorted(loader.get_branch_options()) != sorted(branches):
                ck.bad("git-branches", "the branches listed are not those of the repository", {"got": loader.get_branch_options(), **detail})
            left = os.listdir(clones)
            if left:
                ck.bad("git-left", "the clone is left behind", {"left": left})

    ck.run("files", ck.pick(60, 600), files)
    ck.run("git", ck.pick(4, 30), git)
    ck.run("seed", ck.pick(60, 600), lambda r, i: seeded(ck, r, i))


# Seeding -------------------------------------------------------------------------------------------------------------

N, S, Y, D, T = "number", "string", "yesno", "date", "timestamp"
_PG = {"integer": N, "bigint": N, "smallint": N, "numeric": N, "real": N, "double precision": N, "character varying": S, "character": S, "text": S, "boolean": Y, "date": D,
       "timestamp without time zone": T, "timestamp with time zone": T}
# what the columns table of the warehouse says, and what that is
TYPES = {
    "SNOWFLAKE": {"NUMBER": N, "FLOAT": N, "TEXT": S, "BOOLEAN": Y, "DATE": D, "TIMESTAMP_NTZ": T, "TIMESTAMP_LTZ": T, "TIMESTAMP_TZ": T, "VARIANT": S, "BINARY": S},
    "REDSHIFT": {**_PG, "VARCHAR": S, "BIGINT": N, "TIMESTAMP": T, "DATE": D, "BOOLEAN": Y, "DOUBLE PRECISION": N},
    "POSTGRES": {**_PG, "uuid": S, "jsonb": S, "money": N},
    "DUCK_DB": {"INTEGER": N, "BIGINT": N, "SMALLINT": N, "TINYINT": N, "HUGEINT": N, "DOUBLE": N, "FLOAT": N, "DECIMAL(18,3)": N, "VARCHAR": S, "BOOLEAN": Y, "DATE": D, "TIMESTAMP": T,
                "TIMESTAMP WITH TIME ZONE": T, "UUID": S},
    "BIGQUERY": {"INT64": N, "FLOAT64": N, "NUMERIC": N, "BIGNUMERIC": N, "NUMERIC(10, 2)": N, "STRING": S, "STRING(20)": S, "BOOL": Y, "DATE": D, "DATETIME": T, "TIMESTAMP": T,
                 "ARRAY<STRING>": S, "JSON": S},
    "SQL_SERVER": {"int": N, "bigint": N, "smallint": N, "tinyint": N, "numeric": N, "decimal": N, "float": N, "real": N, "money": N, "char": S, "varchar": S, "nvarchar": S, "nchar": S,
                   "text": S, "uniqueidentifier": S, "bit": Y, "date": D, "datetime": "datetime", "datetime2": "datetime", "smalldatetime": "datetime", "datetimeoffset": "datetime"},
    "DATABRICKS": {"STRING": S, "INT": N, "BIGINT": N, "LONG": N, "SMALLINT": N, "TINYINT": N, "DOUBLE": N, "FLOAT": N, "DECIMAL": N, "DECIMAL(10,2)": N, "BOOLEAN": Y, "DATE": D,
                   "TIMESTAMP": T, "TIMESTAMP_NTZ": T},
    "DRUID": {"VARCHAR": S, "BIGINT": N, "DOUBLE": N, "FLOAT": N, "TIMESTAMP": T},
    "TRINO": {"varchar": S, "varchar(20)": S, "char(3)": S, "bigint": N, "integer": N, "smallint": N, "tinyint": N, "double": N, "real": N, "decimal(10,2)": N, "boolean": Y, "date": D,
              "timestamp(3)": T, "timestamp(6) with time zone": T, "json": S, "uuid": S, "array(integer)": S, "row(a timestamp(3))": S},
}
COLUMNS = ["id", "ID", "Id", "order_id", "Order ID", "ORDER_ID", "order-id", "order  id", "created", "created_date", "created_week", "created_at", "CREATED AT", "no", "on", "y", "null",
           "1st", "2", "日本", "%", "名前", "select", "date", "count", "table", "order", 'q"uote', "a.b", "camelCase", " lead", "trail ", "$x", "tab\tname", "x" * 100, "_fivetran_synced", "é",
           "amount", "price (usd)", "name", "type", "sql", "it's", "c#", "back\\slash", "measure", "raw", "week"]
TABLES = ["orders", "ORDERS", "Orders", "order_items", "order items", "customers", "no", "2020_sales", "select", "Émile"]


def connection(kind, name, database, schema):
    common = dict(name=name, user="u", password="p", host="h", database=database, dbname=database, schema=schema, account="a", http_path="x", personal_access_token="t",
                  credentials=json.dumps({"project_id": database}))
    cls = {"SNOWFLAKE": C.SnowflakeConnection, "REDSHIFT": C.RedshiftConnection, "POSTGRES": C.PostgresConnection, "DUCK_DB": C.DuckDBConnection, "BIGQUERY": C.BigQueryConnection,
           "SQL_SERVER": C.SQLServerConnection, "DATABRICKS": C.DatabricksConnection, "DRUID": C.DruidConnection, "TRINO": C.TrinoConnection}[kind]
    if kind == "REDSHIFT":
        common["username"] = common.pop("user")
    c = cls(**common)
    if not hasattr(c, "database"):
        c.database = database
    if not hasattr(c, "schema"):
        c.schema = schema
    return c


def column_of(sql):
    """The column a definition names, None if it is not exactly one column."""
    m = re.fullmatch(r'\$\{TABLE\}\.(?:"((?:[^"]|"")*)"|`((?:[^`])*)`|([A-Za-z_][A-Za-z0-9_]*))', sql, re.S)
    if not m:
        return None
    if m.group(1) is not None:
        return m.group(1).replace('""', '"')
    return m.group(2) if m.group(2) is not None else m.group(3)


def seeded(ck, r, i):
    kind = sorted(TYPES)[i % len(TYPES)]
    plainly = some(r, 0.35) and i >= len(TYPES)  # ordinary names only
    schema = r.choice(["ANALYTICS", "analytics"])
    whole = kind not in ("BIGQUERY",) and some(r, 0.3)  # every schema of the database
    conn = connection(kind, "c", "db", None if whole else schema)
    conn.database = "db"
    tables = r.sample(["orders", "order_items", "customers", "sessions"] if plainly else TABLES, r.choice([1, 2, 3]))
    rows, meta, comments = [], {}, {}
    for s in ([schema, "other"] if whole else [schema] + (["other"] if some(r, 0.3) else [])):
        for t in tables:
            pool = ["id", "order_id", "created_at", "amount", "name", "is_new", "updated_at", "total"] if plainly else COLUMNS
            cols = r.sample(pool, r.choice([1, 3, 6, 8]) if i >= len(TYPES) else len(pool))
            if kind in ("BIGQUERY", "DATABRICKS", "SQL_SERVER"):  # names differ by more than case there
                cols = list({c.lower(): c for c in cols}.values())
            meta[s, t] = [(c, r.choice(sorted(TYPES[kind])), r.choice([None, None, "A comment: yes", "no", "it's\n#1", ""])) for c in cols]
            comments[s, t] = r.choice([None, "Table of 'x'", "off", ""])
            for c, ty, com in meta[s, t]:
                rows.append({"TABLE_CATALOG": "db", "TABLE_SCHEMA": s, "TABLE_NAME": t, "COLUMN_NAME": c, "DATA_TYPE": ty, **({"COMMENT": com} if kind in ("SNOWFLAKE", "DATABRICKS") else {})})
    r.shuffle(rows) if some(r) else None
    table = r.choice(tables) if some(r, 0.2) and not whole else None
    lower = some(r)
    searchable = some(r, 0.25)
    asked = []
    cards = {}

    def run(q):
        asked.append(q)
        if "cardinality" in q:
            m = re.search(r"FROM (.*?);?$", q)
            out = {}
            for alias in re.findall(r'as ["`](.*?)_cardinality["`](?:, |\s*FROM)', q, re.S):
                cards.setdefault(alias.lower(), r.choice([1, 99, 100, 5000]))
                out[(alias + "_cardinality").lower() if lower else alias + "_cardinality"] = cards[alias.lower()]
            return pd.DataFrame([out])
        if "COLUMNS" in q:
            d = pd.DataFrame(rows)
        else:
            d = pd.DataFrame([{"TABLE_SCHEMA": s, "TABLE_NAME": t, "COMMENT": c} for (s, t), c in comments.items()])
        if lower:
            d.columns = [c.lower() for c in d.columns]
        return d

    class Layer:
        def list_connections(self, names_only=False):
            return [conn]

        def get_connection(self, name):
            return conn if name == conn.name else None

    with scratch() as d:
        had = r.choice([0, 0, 0, 1, 2])
        before = {}
        config = None
        if had:
            config = {"name": "p", "profile": "c", "model-paths": [r.choice(["models", "data/models"])], "view-paths": [r.choice(["views", "data/views"])]}
            ms = [{"version": 1, "type": "model", "name": "own_%d" % k, "connection": "c" if k == had - 1 else "elsewhere", "label": "mine"} for k in range(had)]
            vs = [{"version": 1, "type": "view", "name": "already", "model_name": "own_0", "sql_table_name": "x.y", "fields": [{"name": "id", "field_type": "dimension", "type": "string", "sql": "${TABLE}.id", "searchable": True}]}]
            dump_all(ck, d, {"models": ms, "views": vs, "dashboards": []}, config)
        elif some(r, 0.5):
            SeedMetricsLayer._init_directories()
            if some(r):
                SeedMetricsLayer._init_project_file()
        read = lambda: {os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f), encoding="utf-8").read() for a, _, fs in os.walk(d) for f in fs}
        before = read()
        args = dict(connection=r.choice([None, "c"]), database=r.choice([None, "db"]), schema=None if whole else r.choice([None, schema]), table=table, metrics_layer=Layer(), run_query_override=run)
        if table or (not whole and conn.schema is None):
            args["schema"] = schema
        detail = {"warehouse": kind, "columns": [[s, t, c, ty] for (s, t), cs in meta.items() for c, ty, _ in cs], "args": {k: v for k, v in args.items() if isinstance(v, (str, type(None)))}, "had": had, "searchable": searchable}
        SeedMetricsLayer(**args).seed(auto_tag_searchable_fields=searchable)
        after = read()
        for k, v in before.items():
            if after.get(k) != v:
                ck.bad("seed-overwrites", "seeding changes a file that was there", {"file": k, "before": v, "after": after.get(k), **detail})
        project = ProjectLoader(d, connections=[conn]).load()
        ck.case((kind, json.dumps(rows), json.dumps(detail["args"])), sample=detail)
        ck.counts["seeded_" + kind] += 1
        ck.counts["seeded"] += 1
        model = "own_%d" % (had - 1) if had else "base_model"
        if sorted(m["name"] for m in project._models) != (["own_%d" % k for k in range(had)] or ["base_model"]):
            ck.bad("seed-models", "the models after seeding are not the ones there before or one for the connection", {"models": plain(project._models), **detail})
        wanted = {(s, t): cs for (s, t), cs in meta.items() if (whole or s.lower() == schema.lower()) and (table is None or t.lower() == table.lower())}
        if table:
            wanted = {k: v for k, v in wanted.items()}
        views = [v for v in project._views if v["name"] != "already"]
        if had and len(project._views) != len(views) + 1:
            ck.bad("seed-views", "a view that was there is gone", detail)
        found = {}
        for v in views:
            parts = v["sql_table_name"].strip("`").replace('"', "").split(".")
            found.setdefault((parts[-2], parts[-1]), []).append(v)
        if sorted(found) != sorted(wanted) or any(len(x) > 1 for x in found.values()):
            ck.bad("seed-tables", "the views are not one for each table", {"tables": sorted(map(list, wanted)), "views": [[v["name"], v["sql_table_name"]] for v in views], **detail})
            return
        errs = [e for e in attempt(lambda: errors_of(project.validate())) if not e.startswith("Warning")] if True else []
        if errs:
            ck.bad("seed-invalid", "the seeded project does not validate", {"errors": errs[:6], **detail})
        layer = MetricsLayerConnection(project=project, connections=[conn])
        for key, cs in wanted.items():
            v = found[key][0]
            if v["model_name"] != model:
                ck.bad("seed-model", "the seeded view is of another model", {"got": v["model_name"], "want": model, **detail})
            ck.counts["columns"] += len(cs)
            fields = {}
            for f in v["fields"]:
                fields.setdefault(column_of(f["sql"]), []).append(f)
            wrong = {c for c, _, _ in cs if len(fields.get(c, [])) != 1}
            if wrong or len(v["fields"]) != len(cs):
                odd = [f["sql"] for f in fields.get(None, [])]
                unquoted = kind in ("BIGQUERY", "DATABRICKS") and len(v["fields"]) == len(cs) and all("${TABLE}." + c in odd for c in wrong)
                ck.bad("unquoted-column" if unquoted else "seed-columns", "the view does not have exactly one field for each column", {"table": key, "wrong": sorted(wrong), "fields": [[f["name"], f["sql"]] for f in v["fields"]], **detail})
                if not unquoted:
                    return
            for c, ty, com in cs:
                fs = fields.get(c)
                if not fs:
                    continue
                f = fs[0]
                want = TYPES[kind][ty]
                got = f.get("datatype") if f["field_type"] == "dimension_group" else f["type"]
                if got != want or (f["field_type"] == "dimension_group") != (want in (D, T, "datetime")):
                    ck.bad("seed-type", "the field's type is not that of its column", {"column": [c, ty], "field": plain(f), "want": want, **detail})
                if kind in ("SNOWFLAKE", "DATABRICKS") and (f.get("description") or "") != (com or ""):
                    ck.bad("seed-comment", "the field's description is not the column's comment", {"column": [c, com], "field": plain(f), **detail})
                if searchable and want == S and sum(1 for x, _, _ in cs if x.lower() == c.lower()) == 1 and c.lower() in cards:
                    ck.counts["searchable"] += 1
                    if f.get("searchable") is not (cards[c.lower()] < 100):
                        ck.bad("seed-searchable", "the field is not searchable exactly if its column has few values", {"column": c, "values": cards[c.lower()], "field": plain(f), **detail})
                name = "%s.%s" % (v["name"], f["name"]) + ("_raw" if f["field_type"] == "dimension_group" else "")
                q = attempt(lambda: layer.get_sql_query(metrics=[], dimensions=[name], query_type=kind))
                if f["sql"].split(".", 1)[1] not in q or "SELECT" not in q or v["sql_table_name"] not in q:
                    ck.bad("seed-query", "the seeded field cannot be queried", {"field": plain(f), "view": v["name"], "query": q, **detail})
                ck.counts["seeded_queries"] += 1
            if kind in ("SNOWFLAKE", "DATABRICKS") and (v.get("description") or "") != (comments[key] or ""):
                ck.bad("seed-comment", "the view's description is not the table's comment", {"want": comments[key], "got": v.get("description"), **detail})
            times = [f["name"] for f in v["fields"] if f["field_type"] == "dimension_group"]
            if (v.get("default_date") in times) != bool(times):
                ck.bad("seed-date", "the default date is not one of the view's dates", {"got": v.get("default_date"), **detail})


if __name__ == "__main__":
    ck = Check("C20", "files loaded = definitions written, under any layout; one right field per seeded column")
    main(ck, body, need=[("objects", 100), ("behaviours", 500), ("queries_ok", 20), ("decoys", 10), ("by_dump", 5), ("by_layout", 5), ("cloned", 2), ("columns", 100), ("seeded_queries", 50)])
