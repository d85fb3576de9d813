"""Random projects whose meaning is known: every generated field carries the metrics_layer definition and an
independent Python function giving its value on a row."""
import copy
import datetime as dt

from .values import and3, key, norm, not3, or3, same

TS, D = dt.datetime, dt.date

DIALECTS = ["SNOWFLAKE", "BIGQUERY", "REDSHIFT", "POSTGRES", "DUCK_DB", "DATABRICKS", "DRUID", "TRINO",
            "SQL_SERVER", "AZURE_SYNAPSE"]
SYMMETRIC = ["SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "DUCK_DB"]
CUMULATIVE = ["SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES"]
TSQL = ["SQL_SERVER", "AZURE_SYNAPSE"]
MEDIAN = ["SNOWFLAKE", "REDSHIFT", "DUCK_DB", "DATABRICKS"]
NO_SEMI = ["TRINO", "DRUID"]
SAFE_FRAMES = ["raw", "time", "date", "month", "quarter", "year", "hour", "day_of_month", "month_of_year_index",
               "quarter_of_year", "day_of_year", "hour_of_day"]


def safe_frames(dialect):
    """Timeframes whose compiled form is right on the warehouse (C09 judges all of them)."""
    return [t for t in SAFE_FRAMES if not (dialect in TSQL and t == "month_of_year_index")]


CATS = ["a", "b", "c", "Ab", "cab", "B"]


def frame(v, tf, week_start=0):
    if v is None:
        return None
    v = norm(v)
    if tf in ("raw", "time"):
        return v
    if tf == "second":
        return v.replace(microsecond=0)
    if tf == "minute":
        return v.replace(second=0, microsecond=0)
    if tf == "hour":
        return v.replace(minute=0, second=0, microsecond=0)
    d = TS(v.year, v.month, v.day)
    if tf == "date":
        return d
    if tf == "week":
        return d - dt.timedelta(days=(d.weekday() - week_start) % 7)
    if tf == "month":
        return d.replace(day=1)
    if tf == "quarter":
        return d.replace(month=3 * ((d.month - 1) // 3) + 1, day=1)
    if tf == "year":
        return d.replace(month=1, day=1)
    if tf == "day_of_month":
        return v.day
    if tf == "month_of_year_index":
        return v.month
    if tf == "quarter_of_year":
        return (v.month - 1) // 3 + 1
    if tf == "day_of_year":
        return v.timetuple().tm_yday
    if tf == "hour_of_day":
        return v.hour
    raise KeyError(tf)


class F:
    """A dimension, dimension group or measure with its meaning."""

    def __init__(self, view, name, kind, type_, vt, defn, ev=None, **kw):
        self.view, self.name, self.kind, self.type, self.vt, self.defn, self.ev = view, name, kind, type_, vt, defn, ev
        self.agg = kw.get("agg")
        self.filters = kw.get("filters", [])
        self.dkey = kw.get("dkey")
        self.refs = kw.get("refs", [])
        self.formula = kw.get("formula")
        self.pk = kw.get("pk", False)
        self.frames = kw.get("frames", [])
        self.views_needed = set(kw.get("views", ())) | {view}
        self.strict = kw.get("strict", True)  # NULL on a row whose columns are all NULL
        self.canon = kw.get("canon")

    @property
    def id(self):
        return self.view + "." + self.name

    def __repr__(self):
        return "<%s>" % self.id


class Q:
    """A dimension as it may be requested (a time group at one timeframe)."""

    def __init__(self, f, tf=None):
        self.f, self.tf = f, tf
        self.view = f.view
        self.name = f.name if tf is None else f.name + "_" + tf
        self.id = f.view + "." + self.name
        self.alias = f.view + "_" + self.name
        self.vt = f.vt if tf is None else ("ts" if tf in ("raw", "time", "second", "minute", "hour", "date", "week",
                                                          "month", "quarter", "year") else "num")
        self.pk = f.pk
        self.views_needed = f.views_needed
        self.strict = f.strict

    def ev(self, ctx):
        v = self.f.ev(ctx)
        return v if self.tf is None else frame(v, self.tf, self.f.week_start)

    def __repr__(self):
        return "<%s>" % self.id


class V:
    def __init__(self, name, table, cols, pkcol):
        self.name, self.table, self.cols, self.pkcol = name, table, cols, pkcol
        self.rows = []
        self.fields = {}
        self.identifiers = []
        self.extra = {}

    def add(self, f):
        self.fields[f.name] = f
        return f

    def definition(self):
        d = {"type": "view", "name": self.name, "sql_table_name": self.table, "model_name": "m",
             "fields": [copy.deepcopy(f.defn) for f in self.fields.values()]}
        if self.identifiers:
            d["identifiers"] = copy.deepcopy(self.identifiers)
        d.update(copy.deepcopy(self.extra))
        return d

    def dims(self):
        out = []
        for f in self.fields.values():
            if f.kind == "dim":
                out.append(Q(f))
            elif f.kind == "time":
                out.extend(Q(f, t) for t in f.frames)
        return out

    def measures(self):
        return [f for f in self.fields.values() if f.kind == "measure"]


class World:
    def __init__(self, dialect):
        self.dialect = dialect
        self.views = {}
        self.edges = []          # declared joins
        self.model = {"type": "model", "name": "m", "connection": "c"}
        self.dashboards = []

    def clone(self):
        return copy.deepcopy(self)

    def tables(self):
        return {v.table: ([c for c, _ in v.cols], [tuple(r[c] for c, _ in v.cols) for r in v.rows])
                for v in self.views.values()}

    def definitions(self):
        return [copy.deepcopy(self.model)], [v.definition() for v in self.views.values() if not getattr(v, 'virtual', False)]

    def project(self, **kw):
        from metrics_layer.core.model.project import Project
        models, views = self.definitions()
        if self.dashboards and "dashboards" not in kw:
            kw["dashboards"] = copy.deepcopy(self.dashboards)
        return Project(models=models, views=views, connection_lookup={"c": self.dialect}, **kw)

    def connection(self, **kw):
        from metrics_layer.core import MetricsLayerConnection
        return MetricsLayerConnection(project=self.project(**kw), connections=[])

    def field(self, fid):
        v, n = fid.split(".")
        return self.views[v].fields[n]

    def qdim(self, qid):
        v, n = qid.split(".")
        return next(q for q in self.views[v].dims() if q.name == n)


# ------------------------------------------------------------------ rows

def rand_ts(r, base=TS(2024, 2, 27), span=90):
    k = r.random()
    d = base + dt.timedelta(days=r.randrange(span))
    if k < 0.25:
        return d
    if k < 0.35:
        return d.replace(hour=23, minute=59, second=59)
    return d.replace(hour=r.randrange(24), minute=r.randrange(60), second=r.randrange(60))


def rand_value(r, t, nulls=0.15):
    if t == "pk":
        return None
    if r.random() < nulls:
        return None
    if t == "str":
        return r.choice(CATS)
    if t == "int":
        return r.choice([0, 1, 2, 3, 5, 5, 8, -1, -4, 12, 20, 10])
    if t == "float":
        return r.choice([0.25, 1.5, 2.0, 10.75, -3.25, 0.0, 100.5, 7.25, 4.0, 4.0])
    if t == "bool":
        return r.random() < 0.5
    if t == "ts":
        return rand_ts(r)
    if t == "date":
        return rand_ts(r).date()
    raise KeyError(t)


def fill(r, view, n, pk_type="int"):
    view.rows = []
    for i in range(n):
        row = {}
        for c, t in view.cols:
            if c == view.pkcol:
                row[c] = i + 1 if pk_type == "int" else "%s%03d" % (view.name[0], i + 1)
            elif t.startswith("fk"):
                row[c] = None
            else:
                row[c] = rand_value(r, t)
        view.rows.append(row)


# ------------------------------------------------------------------ fields

def col(view, c):
    def ev(ctx):
        row = ctx.get(view)
        return None if row is None else row[c]
    return ev


def add_column_dims(r, w, v, hidden=0.0):
    """Plain dimensions over every column plus derived ones."""
    name = v.name
    for c, t in v.cols:
        if t in ("ts", "date"):
            continue
        if c == v.pkcol:
            v.add(F(name, c, "dim", "string", "pk", {"name": c, "field_type": "dimension", "type": r.choice(["string", "number"]) if isinstance(v.rows and v.rows[0][c], int) else "string",
                                                     "sql": "${TABLE}." + c, "primary_key": True}, col(name, c), pk=True))
            continue
        typ = {"str": "string", "int": "number", "float": "number", "bool": "yesno"}.get(t, "string")
        vt = {"str": "str", "int": "num", "float": "num", "bool": "bool"}.get(t, "key")
        v.add(F(name, c, "dim", typ, vt, {"name": c, "field_type": "dimension", "type": typ, "sql": "${TABLE}." + c},
                col(name, c)))


def add_time_groups(r, v, frames=None, week_start=0, dialect="SNOWFLAKE"):
    for c, t in v.cols:
        if t not in ("ts", "date"):
            continue
        fr = list(frames) if frames else r.sample(safe_frames(dialect), r.randint(4, len(safe_frames(dialect))))
        if "date" not in fr:
            fr = fr + ["date"]
        if "raw" not in fr:
            fr = fr + ["raw"]
        if t == "date":
            fr = [x for x in fr if x not in ("hour", "hour_of_day")]
        d = {"name": c, "field_type": "dimension_group", "type": "time", "sql": "${TABLE}." + c, "timeframes": list(fr)}
        if t == "date":
            d["datatype"] = "date"
        f = F(v.name, c, "time", "time", "ts", d, col(v.name, c), frames=list(fr))
        f.week_start = week_start
        v.add(f)


def sql_lit(x):
    return "'" + x + "'" if isinstance(x, str) else str(x)


def add_derived_dims(r, v, k=3, yesno=True):
    name = v.name
    strs = [f for f in v.fields.values() if f.kind == "dim" and f.vt == "str" and f.type == "string"]
    nums = [f for f in v.fields.values() if f.kind == "dim" and f.vt == "num" and f.type == "number"]
    kinds = ["yesno_num", "yesno_str", "tier", "case", "ref_case", "num_expr", "ref_ref", "filtered"]
    if not yesno:
        kinds = [x for x in kinds if not x.startswith("yesno")]
    for i, kd in enumerate(r.sample(kinds, min(k, len(kinds)))):
        nm = "d%d_%s" % (i, kd)
        if kd in ("yesno_num", "tier", "num_expr") and not nums:
            continue
        if kd in ("yesno_str", "case", "ref_case", "ref_ref", "filtered") and not strs:
            continue
        if kd == "yesno_num":
            b = r.choice(nums)
            t = r.choice([0, 2, 5])
            v.add(F(name, nm, "dim", "yesno", "bool",
                    {"name": nm, "field_type": "dimension", "type": "yesno", "sql": "${%s} > %s" % (b.name, t)},
                    (lambda b, t: lambda ctx: None if b.ev(ctx) is None else b.ev(ctx) > t)(b, t)))
        elif kd == "yesno_str":
            b = r.choice(strs)
            t = r.choice(CATS)
            u = r.choice(CATS)
            v.add(F(name, nm, "dim", "yesno", "bool",
                    {"name": nm, "field_type": "dimension", "type": "yesno",
                     "sql": "${TABLE}.%s = '%s' or ${TABLE}.%s = '%s'" % (b.name, t, b.name, u)},
                    (lambda b, t, u: lambda ctx: None if b.ev(ctx) is None else b.ev(ctx) in (t, u))(b, t, u)))
        elif kd == "tier":
            b = r.choice(nums)
            tiers = sorted(r.sample([0, 2, 5, 10, 20], r.randint(1, 4)))

            def tier(ctx, b=b, tiers=tiers):
                x = b.ev(ctx)
                if x is None:
                    return "Unknown"
                if x < tiers[0]:
                    return "Below %s" % tiers[0]
                for lo, hi in zip(tiers, tiers[1:]):
                    if lo <= x < hi:
                        return "[%s,%s)" % (lo, hi)
                return "[%s,inf)" % tiers[-1]
            v.add(F(name, nm, "dim", "tier", "str",
                    {"name": nm, "field_type": "dimension", "type": "tier",
                     "sql": r.choice(["${TABLE}.%s", "${%s}"]) % b.name, "tiers": tiers}, tier, strict=False))
        elif kd == "case":
            b = r.choice(strs)
            t, u = r.sample(CATS, 2)
            whens = [{"sql": "${TABLE}.%s = '%s'" % (b.name, t), "label": "L one"},
                     {"sql": "${TABLE}.%s = '%s'" % (b.name, u), "label": "L2"}]
            els = r.choice([None, "other"])
            case = {"whens": whens}
            if els:
                case["else"] = els

            def cs(ctx, b=b, t=t, u=u, els=els):
                x = b.ev(ctx)
                return "L one" if x == t else "L2" if x == u else els
            v.add(F(name, nm, "dim", "string", "str",
                    {"name": nm, "field_type": "dimension", "type": "string", "case": case}, cs, strict=els is None))
        elif kd == "ref_case":
            b = r.choice(strs)
            t = r.choice(CATS)
            v.add(F(name, nm, "dim", "string", "str",
                    {"name": nm, "field_type": "dimension", "type": "string",
                     "sql": "case when ${%s} = '%s' then 'hit' else ${TABLE}.%s end" % (b.name, t, b.name)},
                    (lambda b, t: lambda ctx: "hit" if b.ev(ctx) == t else b.ev(ctx))(b, t)))
        elif kd == "num_expr":
            b = r.choice(nums)
            v.add(F(name, nm, "dim", "number", "num",
                    {"name": nm, "field_type": "dimension", "type": "number", "sql": "${%s} * 2 + 1" % b.name},
                    (lambda b: lambda ctx: None if b.ev(ctx) is None else b.ev(ctx) * 2 + 1)(b)))
        elif kd == "ref_ref":
            b = r.choice(strs)
            mid = v.add(F(name, nm + "_m", "dim", "string", "str",
                          {"name": nm + "_m", "field_type": "dimension", "type": "string",
                           "sql": "case when ${%s} = 'a' then 'A!' else ${%s} end" % (b.name, b.name)},
                          (lambda b: lambda ctx: "A!" if b.ev(ctx) == "a" else b.ev(ctx))(b)))
            v.add(F(name, nm, "dim", "string", "str",
                    {"name": nm, "field_type": "dimension", "type": "string",
                     "sql": "case when ${%s.%s} = 'A!' then 'yes' else ${%s} end" % (name, mid.name, b.name)},
                    (lambda b, mid: lambda ctx: "yes" if mid.ev(ctx) == "A!" else b.ev(ctx))(b, mid)))
        elif kd == "filtered":
            b = r.choice(strs)
            fl, pred = looker_filter(r, b)
            v.add(F(name, nm, "dim", "string", "str",
                    {"name": nm, "field_type": "dimension", "type": "string", "sql": "${TABLE}." + b.name,
                     "filters": [fl]},
                    (lambda b, pred: lambda ctx: b.ev(ctx) if pred(ctx) is True else None)(b, pred)))


def looker_filter(r, f, qualified=False):
    """A looker-style {field, value} filter and its meaning (True/False/None) on a row context."""
    ref = f.id if qualified or r.random() < 0.3 else f.name
    ev = f.ev

    def lift(fn):
        return lambda ctx: None if ev(ctx) is None else fn(ev(ctx))
    if f.vt == "str":
        a, b = r.sample(CATS, 2)
        k = r.randrange(11)
        if k == 0:
            return {"field": ref, "value": a}, lift(lambda x: x == a)
        if k == 1:
            return {"field": ref, "value": "-" + a}, lift(lambda x: x != a)
        if k == 2:
            return {"field": ref, "value": a + ", " + b}, lift(lambda x: x in (a, b))
        if k == 3:
            return {"field": ref, "value": "-%s, -%s" % (a, b)}, lift(lambda x: x not in (a, b))
        if k == 4:
            return {"field": ref, "value": "NULL"}, lambda ctx: ev(ctx) is None
        if k == 5:
            return {"field": ref, "value": "-NULL"}, lambda ctx: ev(ctx) is not None
        if k == 6:
            return {"field": ref, "value": "%" + a + "%"}, lift(lambda x: a.lower() in x.lower())
        if k == 7:
            return {"field": ref, "value": a + "%"}, lift(lambda x: x.lower().startswith(a.lower()))
        if k == 8:
            return {"field": ref, "value": "%" + a}, lift(lambda x: x.lower().endswith(a.lower()))
        if k == 9:
            return {"field": ref, "value": "-%" + a + "%"}, lift(lambda x: a.lower() not in x.lower())
        return {"field": ref, "value": "-" + a + "%"}, lift(lambda x: not x.lower().startswith(a.lower()))
    if f.vt == "num":
        n = r.choice([0, 2, 5, 10])
        k = r.randrange(8)
        op = [(">", lambda x: x > n), (">=", lambda x: x >= n), ("<", lambda x: x < n), ("<=", lambda x: x <= n),
              ("=", lambda x: x == n), ("!=", lambda x: x != n), ("<>", lambda x: x != n)]
        if k < 7:
            return {"field": ref, "value": "%s%s%s" % (op[k][0], r.choice(["", " "]), n)}, lift(op[k][1])
        return {"field": ref, "value": "-NULL"}, lambda ctx: ev(ctx) is not None
    if f.vt == "bool":
        b = r.random() < 0.5
        return {"field": ref, "value": r.choice([b, "TRUE" if b else "FALSE"])}, lift(lambda x: bool(x) == b)
    raise KeyError(f.vt)


def filterable(v):
    return [f for f in v.fields.values() if f.kind == "dim" and f.vt in ("str", "num", "bool")]


ARG_TEMPLATES = ["plain", "plain", "expr", "ref", "case"]


def num_arg(r, v):
    cs = [c for c, t in v.cols if t in ("int", "float")]
    strs = [c for c, t in v.cols if t == "str"]
    c = r.choice(cs)
    base = col(v.name, c)
    k = r.choice(ARG_TEMPLATES)
    if k == "plain":
        return "${TABLE}." + c, base
    if k == "expr":
        return "${TABLE}.%s * 2 - 1" % c, lambda ctx: None if base(ctx) is None else base(ctx) * 2 - 1
    if k == "ref":
        return "${%s}" % r.choice([c, v.name + "." + c]), base
    if not strs:
        return "${TABLE}." + c, base
    s = r.choice(strs)
    sc = col(v.name, s)
    t = r.choice(CATS)
    return ("case when ${TABLE}.%s <> '%s' then ${TABLE}.%s end" % (s, t, c),
            lambda ctx: base(ctx) if sc(ctx) is not None and sc(ctx) != t else None)


def add_measures(r, v, dialect, k=5, number=True, distinct=True, median=True, filt=0.4, kinds=None):
    name = v.name
    pool = kinds or ["count", "count_sql", "count_distinct", "sum", "sum", "average", "min", "max", "median",
                     "sum_distinct", "average_distinct", "min_ts"]
    out = []
    for i in range(k):
        kd = r.choice(pool)
        if kd == "median" and (not median or dialect not in MEDIAN):
            kd = "sum"
        if kd in ("sum_distinct", "average_distinct") and (not distinct or dialect not in SYMMETRIC):
            kd = "sum"
        nm = "m%d_%s" % (i, kd)
        d = {"name": nm, "field_type": "measure"}
        agg = kd
        dkey = None
        vt = "num"
        if kd == "count":
            d["type"] = "count"
            arg = col(name, v.pkcol)
        elif kd == "count_sql":
            agg = d["type"] = "count"
            c = r.choice([c for c, t in v.cols if t in ("str", "int")])
            d["sql"] = "${TABLE}." + c
            arg = col(name, c)
        elif kd == "count_distinct":
            d["type"] = kd
            c = r.choice([c for c, t in v.cols if t in ("str", "int", "float")])
            d["sql"] = r.choice(["${TABLE}.%s", "${%s}"]) % c
            arg = col(name, c)
        elif kd == "min_ts":
            tss = [c for c, t in v.cols if t == "ts"]
            if not tss:
                continue
            c = r.choice(tss)
            agg = d["type"] = r.choice(["min", "max"])
            d["sql"] = "${TABLE}." + c
            arg = col(name, c)
            vt = "ts"
        elif kd in ("sum_distinct", "average_distinct"):
            d["type"] = kd
            c, arg = num_arg(r, v)
            d["sql"] = c
            # the declared key: the primary key, so that the value is a function of the key
            d["sql_distinct_key"] = r.choice(["${TABLE}.%s", "${%s}"]) % v.pkcol
            dkey = col(name, v.pkcol)
        else:
            d["type"] = kd
            d["sql"], arg = num_arg(r, v)
        preds = []
        if r.random() < filt and filterable(v):
            fl = []
            for f in r.sample(filterable(v), min(r.choice([1, 1, 2]), len(filterable(v)))):
                a, p = looker_filter(r, f)
                fl.append(a)
                preds.append(p)
            d["filters"] = fl
        out.append(v.add(F(name, nm, "measure", d["type"], vt, d, arg, agg=agg, filters=preds, dkey=dkey)))
    leaves = [f for f in out if f.vt == "num"]
    if number and len(leaves) >= 2:
        for j in range(r.choice([1, 2])):
            a, b = r.sample(leaves, 2)
            nm = "n%d" % j
            q = r.random() < 0.3
            ra, rb = ("${%s}" % (a.id if q else a.name)), "${%s}" % b.name
            t = r.randrange(4)
            if t == 0:
                sql, fm = "1.0 * %s / nullif(%s, 0)" % (ra, rb), lambda x, y: None if x is None or not y else x / y
            elif t == 1:
                sql, fm = "%s - %s" % (ra, rb), lambda x, y: None if x is None or y is None else x - y
            elif t == 2:
                sql, fm = "case when %s > 3 then %s else %s end" % (ra, ra, rb), lambda x, y: x if x is not None and x > 3 else y
            else:
                sql, fm = "coalesce(%s, 0) + coalesce(%s, 0) * 2" % (ra, rb), lambda x, y: (x or 0) + 2 * (y or 0)
            if a.agg in ("sum", "average") and j == 1 and r.random() < 0.5 and "n0" in v.fields:
                # a number metric over another number metric
                n0 = v.fields["n0"]
                sql, fm, a, b = "${n0} * 2 - ${%s}" % rb[2:-1], (lambda x, y: None if x is None or y is None else 2 * x - y), n0, b
            v.add(F(name, nm, "measure", "number", "num",
                    {"name": nm, "field_type": "measure", "type": "number", "sql": sql}, agg="number",
                    refs=[a, b], formula=fm, views=a.views_needed | b.views_needed))
    return out


def basic_view(r, w, name, n_rows=None, table=None, fks=(), cols=None, pk_type=None, derived=3, measures=5,
               frames=None, **mk):
    # T-SQL has no boolean values: yes/no fields do not work there at all (known finding of C24)
    cols = cols or [("id", "pk"), ("kind", "str"), ("grp", "str"), ("qty", "int"), ("amt", "float"), ("flag", "bool"),
                    ("made", "ts")]
    cols = list(cols) + [(fk, "fk") for fk in fks]
    if w.dialect in TSQL:
        cols = [c for c in cols if c[1] != "bool"]
    v = V(name, table or "db." + name + "_t", cols, "id")
    fill(r, v, r.choice([0, 1, 7, 12, 16]) if n_rows is None else n_rows, pk_type or r.choice(["int", "str"]))
    w.views[name] = v
    add_column_dims(r, w, v)
    add_time_groups(r, v, frames=frames, dialect=w.dialect)
    add_derived_dims(r, v, derived, yesno=w.dialect not in TSQL)
    add_measures(r, v, w.dialect, measures, **mk)
    return v


# ------------------------------------------------------------------ query filters

def query_filter(r, q, w=None):
    """A structured where filter on a requested dimension and its meaning."""
    ev = q.ev
    fid = q.id

    def lift(fn):
        return lambda ctx: None if ev(ctx) is None else fn(ev(ctx))
    if q.vt == "str":
        a, b = r.sample(CATS, 2)
        opts = [("equal_to", a, lift(lambda x: x == a)), ("not_equal_to", a, lift(lambda x: x != a)),
                ("isin", [a, b], lift(lambda x: x in (a, b))), ("isnotin", [a, b], lift(lambda x: x not in (a, b))),
                ("contains", a, lift(lambda x: a in x)), ("does_not_contain", a, lift(lambda x: a not in x)),
                ("contains_case_insensitive", a, lift(lambda x: a.lower() in x.lower())),
                ("does_not_contain_case_insensitive", a, lift(lambda x: a.lower() not in x.lower())),
                ("starts_with", a, lift(lambda x: x.startswith(a))), ("ends_with", a, lift(lambda x: x.endswith(a))),
                ("does_not_start_with", a, lift(lambda x: not x.startswith(a))),
                ("does_not_end_with", a, lift(lambda x: not x.endswith(a))),
                ("starts_with_case_insensitive", a, lift(lambda x: x.lower().startswith(a.lower()))),
                ("ends_with_case_insensitive", a, lift(lambda x: x.lower().endswith(a.lower()))),
                ("does_not_start_with_case_insensitive", a, lift(lambda x: not x.lower().startswith(a.lower()))),
                ("does_not_end_with_case_insensitive", a, lift(lambda x: not x.lower().endswith(a.lower()))),
                ("is_null", None, lambda ctx: ev(ctx) is None), ("is_not_null", None, lambda ctx: ev(ctx) is not None)]
    elif q.vt == "num":
        n = r.choice([0, 2, 5, 10, 1.5])
        m = r.choice([1, 3, 8])
        opts = [("equal_to", n, lift(lambda x: x == n)), ("not_equal_to", n, lift(lambda x: x != n)),
                ("less_than", n, lift(lambda x: x < n)), ("less_or_equal_than", n, lift(lambda x: x <= n)),
                ("greater_than", n, lift(lambda x: x > n)), ("greater_or_equal_than", n, lift(lambda x: x >= n)),
                ("isin", [n, m], lift(lambda x: x in (n, m))), ("isnotin", [n, m], lift(lambda x: x not in (n, m))),
                ("is_null", None, lambda ctx: ev(ctx) is None), ("is_not_null", None, lambda ctx: ev(ctx) is not None)]
    elif q.vt == "bool":
        b = r.random() < 0.5
        opts = [("equal_to", b, lift(lambda x: bool(x) == b)), ("boolean_true", "True", lift(lambda x: bool(x))),
                ("boolean_false", "False", lift(lambda x: not x)), ("equal_to", str(b), lift(lambda x: bool(x) == b))]
    elif q.vt == "ts":
        d = rand_ts(r)
        d = TS(d.year, d.month, d.day)
        if q.tf in ("date", "month", "quarter", "year", "week"):
            d = frame(d, q.tf, q.f.week_start)
        s = d if r.random() < 0.5 else d.strftime(r.choice(["%Y-%m-%d", "%Y-%m-%dT%H:%M:%S"]))
        opts = [("equal_to", s, lift(lambda x: x == d)), ("not_equal_to", s, lift(lambda x: x != d)),
                ("less_than", s, lift(lambda x: x < d)), ("less_or_equal_than", s, lift(lambda x: x <= d)),
                ("greater_than", s, lift(lambda x: x > d)), ("greater_or_equal_than", s, lift(lambda x: x >= d)),
                ("is_null", None, lambda ctx: ev(ctx) is None), ("is_not_null", None, lambda ctx: ev(ctx) is not None)]
        e = d + dt.timedelta(days=r.randint(0, 30))
        ds, es = d.strftime("%Y-%m-%d"), e.strftime("%Y-%m-%d")
        opts.append(("matches", "%s until %s" % (ds, es), lift(lambda x: d <= x <= e.replace(hour=0))))
        opts.append(("matches", "after " + ds, lift(lambda x: x >= d)))
        opts.append(("matches", "before " + ds, lift(lambda x: x <= d)))
    else:  # keys
        vals = [1, 2, 3]
        opts = [("is_null", None, lambda ctx: ev(ctx) is None), ("is_not_null", None, lambda ctx: ev(ctx) is not None)]
    op, val, pred = r.choice(opts)
    out = {"field": fid, "expression": op, "value": val}
    return out, pred


def where_clause(r, dims, n=None, nest=0.3):
    """A list of filters (possibly nested groups) with the meaning of the whole list."""
    fl, preds = [], []
    for _ in range(n if n is not None else r.choice([1, 1, 2, 3])):
        if r.random() < nest:
            g, p = group(r, dims, 1)
        else:
            q = r.choice(dims)
            g, p = query_filter(r, q)
            if r.random() < 0.2:
                # a second condition of the same kind on the same field
                for _ in range(20):
                    g2, p2 = query_filter(r, q)
                    if g2.get("expression") == g.get("expression") and g2 != g:
                        fl.append(g2)
                        preds.append(p2)
                        break
        fl.append(g)
        preds.append(p)
    return fl, lambda ctx: and3(p(ctx) for p in preds)


def group(r, dims, depth):
    conds, preds = [], []
    for _ in range(r.choice([1, 2, 2, 3])):
        if depth < 2 and r.random() < 0.25:
            g, p = group(r, dims, depth + 1)
        else:
            g, p = query_filter(r, r.choice(dims))
        conds.append(g)
        preds.append(p)
    op = r.choice(["AND", "OR", "OR", None])
    out = {"conditions": conds}
    if op:
        out["logical_operator"] = op
    f = or3 if op == "OR" else and3
    return out, lambda ctx: f(p(ctx) for p in preds)


# ------------------------------------------------------------------ several views

class Edge:
    """A declared, directed join from view a to view b."""

    def __init__(self, a, b, rel, jtype, on):
        self.a, self.b, self.rel, self.jtype, self.on = a, b, rel, jtype, on

    def __repr__(self):
        return "%s->%s %s %s" % (self.a, self.b, self.rel, self.jtype)


INV = {"many_to_one": "one_to_many", "one_to_many": "many_to_one", "one_to_one": "one_to_one",
       "many_to_many": "many_to_many"}


def eq_on(a, ca, b, cb):
    def on(ctx):
        ra, rb = ctx.get(a), ctx.get(b)
        if ra is None or rb is None or ra[ca] is None or rb[cb] is None:
            return None
        return key(ra[ca]) == key(rb[cb])
    return on


def add_edge(w, e):
    w.dedges[(e.a, e.b)] = e


def link(r, w, a, b, kind, fan, jtypes=("left_outer", "left_outer", "inner", "full_outer"), share_name=False):
    """Declare a relationship between two existing views: a is the 'many' side (or either, for one-to-one)."""
    va, vb = w.views[a], w.views[b]
    if kind == "fk":
        name = "%s_key" % b if share_name else "%s_%s_key" % (a, b)
        ident = next((i for i in vb.identifiers if i["name"] == name), None)
        if ident is None:
            ident = {"name": name, "type": "primary", "sql": "${id}"}
            vb.identifiers.append(ident)
        va.identifiers.append({"name": name, "type": "foreign", "sql": "${%s_id}" % b})
        on = eq_on(a, b + "_id", b, "id")
        add_edge(w, Edge(a, b, "many_to_one", "left_outer", on))
        if fan:
            ident.setdefault("allowed_fanouts", []).append(a)
            add_edge(w, Edge(b, a, "one_to_many", "left_outer", on))
    elif kind == "o2o":
        name = "%s_%s_key" % (a, b)
        va.identifiers.append({"name": name, "type": "primary", "sql": "${id}"})
        vb.identifiers.append({"name": name, "type": "primary", "sql": r.choice(["${id}", "${%s.id}" % b])})
        on = eq_on(a, "id", b, "id")
        add_edge(w, Edge(a, b, "one_to_one", "left_outer", on))
        add_edge(w, Edge(b, a, "one_to_one", "left_outer", on))
    elif kind == "join":
        rel = r.choice(["many_to_one", "one_to_many", "one_to_one"])
        jt = r.choice(list(jtypes))
        if rel == "many_to_one":
            src, dst = a, b
            sql, on = "${%s.%s_id} = ${%s.id}" % (a, b, b), eq_on(a, b + "_id", b, "id")
        elif rel == "one_to_many":
            src, dst = b, a
            sql, on = "${%s.id} = ${%s.%s_id}" % (b, a, b), eq_on(a, b + "_id", b, "id")
        else:
            src, dst = (a, b) if r.random() < .5 else (b, a)
            sql, on = "${%s.id} = ${%s.id}" % (src, dst), eq_on(a, "id", b, "id")
        if r.random() < 0.4:
            t = r.choice(CATS)
            sql += " and ${%s.kind} <> '%s'" % (dst, t)
            kd = col(dst, "kind")
            on0 = on
            on = lambda ctx: and3([on0(ctx), None if kd(ctx) is None else kd(ctx) != t])
        d = {"name": "j_%s_%s" % (src, dst), "type": "join", "relationship": rel, "reference": dst, "sql_on": sql}
        if jt != "left_outer" or r.random() < .5:
            d["join_type"] = jt
        w.views[src].identifiers.append(d)
        add_edge(w, Edge(src, dst, rel, jt, on))
        if INV[rel] not in ("one_to_many", "many_to_many"):
            add_edge(w, Edge(dst, src, INV[rel], jt, on))
    elif kind == "m2m":
        jt = r.choice(list(jtypes))
        d = {"name": "j_%s_%s" % (a, b), "type": "join", "relationship": "many_to_many", "reference": b,
             "sql_on": "${%s.kind} = ${%s.kind}" % (a, b)}
        if jt != "left_outer":
            d["join_type"] = jt
        va.identifiers.append(d)
        add_edge(w, Edge(a, b, "many_to_many", jt, eq_on(a, "kind", b, "kind")))


def fill_keys(r, w):
    """Foreign keys: mostly matching, some unmatched, some NULL."""
    for v in w.views.values():
        for c, t in v.cols:
            if not t.startswith("fk"):
                continue
            p = c[:-3]
            pks = [x["id"] for x in w.views[p].rows] if p in w.views else []
            for row in v.rows:
                k = r.random()
                if k < 0.75 and pks:
                    row[c] = r.choice(pks[:5])
                elif k < 0.9:
                    row[c] = 990 if not pks or isinstance(pks[0], int) else "zz990"
                else:
                    row[c] = None


def tree_world(r, dialect, names=("orders", "cust", "items", "prod"), n=None, fan=0.6, kinds=None, rows=(0, 1, 6, 9, 12),
               derived=1, measures=4, share=None, **mk):
    w = World(dialect)
    w.dedges = {}
    names = list(names)
    r.shuffle(names)
    n = n or r.choice([2, 2, 3, 3, 4])
    names = names[:n]
    plan = []
    for i in range(1, n):
        j = r.randrange(i)
        x, y = (names[i], names[j]) if r.random() < 0.5 else (names[j], names[i])
        plan.append((x, y, r.choice(kinds or ["fk", "fk", "fk", "o2o", "join", "m2m"])))
    share = r.random() < 0.3 if share is None else share
    pk_type = r.choice(["int", "str"])
    for nm in names:
        fks = [b + "_id" for a, b, k in plan if a == nm and k in ("fk", "join")]
        basic_view(r, w, nm, n_rows=r.choice(list(rows)), fks=fks, derived=derived, measures=measures,
                   pk_type=pk_type if any(k == "o2o" for _, _, k in plan) else pk_type, **mk)
    fill_keys(r, w)
    for a, b, k in plan:
        link(r, w, a, b, k, r.random() < fan, share_name=share)
    w.plan = plan
    return w


def reachable(w, base, views):
    """Is there a set of declared directed joins from base that covers views?"""
    seen, todo = {base}, [base]
    while todo:
        x = todo.pop()
        for (a, b) in w.dedges:
            if a == x and b not in seen:
                seen.add(b)
                todo.append(b)
    return set(views) <= seen
