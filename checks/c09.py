import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import calendar, contextlib, datetime as dt, io
from zoneinfo import ZoneInfo
from mlv.common import Check, main
from mlv.meta import *
from mlv.sqlengine import Engine
from mlv.world import D
from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.model.project import Project

WEEK = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
ZONES = ["America/New_York", "Europe/Berlin", "Asia/Kathmandu", "Pacific/Apia", "Australia/Lord_Howe", "UTC"]
NO_TZ = ("DRUID", "SQL_SERVER", "AZURE_SYNAPSE")
TSQL = ("SQL_SERVER", "AZURE_SYNAPSE")
TRUNC = ["raw", "time", "second", "minute", "hour", "date", "week", "month", "quarter", "year"]
PARTS = ["month_of_year_index", "month_index", "month_of_year", "month_name", "quarter_of_year", "hour_of_day", "day_of_week",
         "day_of_month", "day_of_year", "week_index", "week_of_year", "week_of_month"]
FISCAL = ["fiscal_month", "fiscal_quarter", "fiscal_year", "fiscal_month_index", "fiscal_month_of_year_index", "fiscal_quarter_of_year"]
FRAMES = TRUNC + PARTS + FISCAL
DATE_ONLY = [f for f in FRAMES if f not in ("time", "second", "minute", "hour", "hour_of_day")]
UNITS = ["second", "minute", "hour", "day", "week", "month", "quarter", "year"]
MON = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
DOW = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]


# ---- independent calendar ---------------------------------------------------------------------------
def mid(d):
    return dt.datetime(d.year, d.month, d.day)


def plus_months(v, n):
    y, m = divmod(v.year * 12 + v.month - 1 + n, 12)
    return v.replace(year=y, month=m + 1, day=min(v.day, calendar.monthrange(y, m + 1)[1]))


def monday_week_number(d):
    """ISO 8601: the week of the year's first Thursday is week 1."""
    thursday = d - dt.timedelta(d.weekday()) + dt.timedelta(3)
    return (thursday - dt.date(thursday.year, 1, 1)).days // 7 + 1


def expected(v, tf, ws, offset):
    if v is None:
        return None
    if tf.startswith("fiscal_"):
        v = plus_months(v, offset)
        tf = {"fiscal_month": "month", "fiscal_quarter": "quarter", "fiscal_year": "year", "fiscal_month_index": "month_index",
              "fiscal_month_of_year_index": "month_index", "fiscal_quarter_of_year": "quarter_of_year"}[tf]
    if tf in ("raw", "time"):
        return v
    if tf in ("second", "minute", "hour"):
        keep = {"second": 6, "minute": 5, "hour": 4}[tf]
        return dt.datetime(*v.timetuple()[:keep])
    d = v.date()
    if tf == "date":
        return mid(d)
    if tf == "week":
        while d.weekday() != ws:
            d -= dt.timedelta(1)
        return mid(d)
    if tf == "month":
        return dt.datetime(d.year, d.month, 1)
    if tf == "quarter":
        return dt.datetime(d.year, {1: 1, 2: 1, 3: 1, 4: 4, 5: 4, 6: 4, 7: 7, 8: 7, 9: 7}.get(d.month, 10), 1)
    if tf == "year":
        return dt.datetime(d.year, 1, 1)
    if tf in ("month_index", "month_of_year_index"):
        return d.month
    if tf in ("month_name", "month_of_year"):
        return MON[d.month - 1]
    if tf == "quarter_of_year":
        return -(-d.month // 3)
    if tf == "hour_of_day":
        return v.hour
    if tf == "day_of_week":
        return DOW[d.weekday()]
    if tf == "day_of_month":
        return d.day
    if tf == "day_of_year":
        return (d - dt.date(d.year, 1, 1)).days + 1
    if tf in ("week_index", "week_of_year"):
        # the week starting on the configured day counts as the Monday week it starts in or just before
        return monday_week_number(d + dt.timedelta((7 - ws) % 7))
    if tf == "week_of_month":
        first = d.replace(day=1)
        m = lambda x: x - dt.timedelta(x.weekday())
        return (m(d) - m(first)).days // 7 + 1
    raise KeyError(tf)


def elapsed(a, b, unit):
    if b < a:
        return -elapsed(b, a, unit)
    fixed = {"second": 1, "minute": 60, "hour": 3600, "day": 86400, "week": 604800}
    if unit in fixed:
        return int((b - a).total_seconds()) // fixed[unit]
    n = 0
    step = {"month": 1, "quarter": 3, "year": 12}[unit]
    while plus_months(a, (n + 1) * step) <= b:
        n += 1
    return n


def crossed(a, b, unit):
    if unit in ("second", "minute", "hour"):
        f = lambda x: int((expected(x, unit, 0, 0) - dt.datetime(1970, 1, 1)).total_seconds()) // {"second": 1, "minute": 60, "hour": 3600}[unit]
    elif unit == "day":
        f = lambda x: x.date().toordinal()
    elif unit == "week":
        f = lambda x: (x.date().toordinal() - 1) // 7
    else:
        f = lambda x: (x.year * 12 + x.month - 1) // {"month": 1, "quarter": 3, "year": 12}[unit]
    return f(b) - f(a)


# The library takes each warehouse's own difference function; these are their documented countings.
def difference(dialect, a, b, unit):
    if dialect in TSQL and unit == "week":  # counts Sundays
        return (b.date().toordinal() // 7) - (a.date().toordinal() // 7)
    if dialect in ("SNOWFLAKE", "REDSHIFT", "DUCK_DB") + TSQL:
        return crossed(a, b, unit)
    if dialect == "BIGQUERY":
        return elapsed(a, b, unit) if unit in ("second", "minute", "hour") else crossed(a, b, unit)
    return elapsed(a, b, unit)


def moment(r, dialect):
    k = r.randrange(8)
    y = r.choice([1999, 2000, 2019, 2020, 2021, 2023, 2024, 2025, 2026, 2027, 2028])
    if k == 0:
        d = dt.date(y, 1, 1) + dt.timedelta(r.randrange(-5, 6))
    elif k == 1:
        d = dt.date(y, r.randrange(1, 13), 1) + dt.timedelta(r.choice([-1, 0]))
    elif k == 2:
        d = dt.date(y, 2, 27) + dt.timedelta(r.randrange(4))
    elif k == 3:
        d = dt.date(y, r.choice([3, 4, 10, 11]), 1) + dt.timedelta(r.randrange(30))
    else:
        d = dt.date(y, 1, 1) + dt.timedelta(r.randrange(365))
    t = r.choice([dt.time(), dt.time(0, 0, 1), dt.time(23, 59, 59), dt.time(4, 59, 59), dt.time(5), dt.time(r.randrange(24), r.randrange(60), r.randrange(60))])
    v = dt.datetime.combine(d, t)
    if dialect not in TSQL and r.random() < 0.3:
        v = v.replace(microsecond=r.choice([1, 999999, 500000]))
    return v


def build(dialect, week, offset, zone, opts):
    conv = opts["conv"]
    groups = []
    for name, sql, datatype, frames in (("at", "${TABLE}.at", opts["datatype"], FRAMES), ("day", "${TABLE}.day", "date", DATE_ONLY)):
        g = {"name": name, "field_type": "dimension_group", "type": "time", "sql": sql, "timeframes": list(frames)}
        if datatype:
            g["datatype"] = datatype
        if name == "day":
            g["convert_tz"] = False
        elif conv == "field_off":
            g["convert_tz" if opts["short"] else "convert_timezone"] = False
        elif conv == "field_on":
            g["convert_tz" if opts["short"] else "convert_timezone"] = True
        groups.append(g)
    groups.append({"name": "taken", "field_type": "dimension_group", "type": "duration", "sql_start": "${TABLE}.at", "sql_end": "${TABLE}.done",
                   "intervals": list(UNITS)})
    view = {"version": 1, "type": "view", "name": "e", "sql_table_name": "ev", "model_name": "m",
            "fields": [{"name": "id", "field_type": "dimension", "type": "number", "sql": "${TABLE}.id", "primary_key": True}] + groups}
    model = {"version": 1, "type": "model", "name": "m", "connection": "c"}
    if week:
        model["week_start_day"] = week
    if offset:
        model["fiscal_month_offset"] = offset
    if zone:
        model["timezone"] = zone
    if conv == "model_off":
        model["default_convert_tz" if opts["short"] else "default_convert_timezone"] = False
    p = Project(models=[model], views=[view])
    if zone and opts["project_tz"]:
        p.set_timezone(zone)
    return p


def value(x):
    if isinstance(x, dt.datetime):
        return x.replace(tzinfo=None)
    if isinstance(x, dt.date):
        return mid(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            return x.strip().lower()[:3]
    return x


# Frames whose compiled text, pinned by the repository's tests, means something else on that warehouse: the value it then has.
def sunday_week(d):
    return (d.timetuple().tm_yday + 6 - (d.weekday() + 1) % 7) // 7


def quirk(dialect, tf, ws, v):
    """(mechanism, the value the known finding gives) or None"""
    if v is None:
        return None
    d = v.date()
    if tf == "week_of_month":
        n = sunday_week if dialect == "BIGQUERY" else monday_week_number
        return "week-of-month", n(d) - n(d.replace(day=1)) + 1
    off = dt.timedelta((7 - ws) % 7)
    if dialect == "BIGQUERY" and tf == "week":
        e = d + off
        return "bigquery-week", mid(e - dt.timedelta((e.weekday() + 1) % 7) - off)
    if dialect == "BIGQUERY" and tf in ("week_index", "week_of_year"):
        return "bigquery-week", sunday_week(d + off)
    if dialect in TSQL and tf == "week":
        e = d + off
        return "tsql-week", mid(e - dt.timedelta((e.weekday() + 1) % 7) + dt.timedelta(1) - off)
    return None


def broken(dialect, tf, message):
    if dialect in TSQL:
        if tf in ("month_of_year_index", "month_index", "week_index", "week_of_year", "week_of_month", "fiscal_month_index",
                  "fiscal_month_of_year_index") and "EXTRACT is not T-SQL" in message:
            return "tsql-extract"
        if tf == "second" and "DATEDIFF overflow" in message:
            return "tsql-second"
    return None


def postgres_age(a, b, unit):
    months = elapsed(a, b, "month")
    rest = b - plus_months(a, months)
    days, secs = rest.days, rest.seconds
    h, m, s = secs // 3600, secs // 60 % 60, secs % 60
    # the pinned text has no parentheses: each factor multiplies only the term before it
    return {"day": days, "week": days // 7, "hour": days * 24 + h, "minute": days * 24 + h * 60 + m, "second": days * 24 + h * 60 + m * 60 + s}[unit]


def body(ck):
    def run(sql, dialect, rows):
        e = Engine(dialect, {"ev": (["id", "at", "done", "day"], rows)}, now=dt.datetime(2025, 1, 1))
        return e.run(sql)

    def frames(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        # every first day of the week comes round for every warehouse
        week = (WEEK + [None])[(i // len(DIALECTS)) % 8]
        offset = r.choice([0, 0, 1, 2, 3, 5, 6, 9, 11, -1, -3, -11])
        zone = r.choice([None, None] + ZONES)
        opts = {"conv": r.choice(["default", "default", "field_off", "field_on", "model_off"]), "short": r.random() < 0.5, "project_tz": r.random() < 0.3,
                "datatype": r.choice([None, "timestamp", "datetime"])}
        if opts["datatype"] == "datetime" and dialect in ("SNOWFLAKE", "REDSHIFT", "POSTGRES", "DUCK_DB", "TRINO", "DATABRICKS"):
            opts["datatype"] = "timestamp"
        p = build(dialect, week, offset, zone, opts)
        c = MetricsLayerConnection(project=p, connections=[])
        ws = WEEK.index(week) if week else 0
        converts = zone and dialect not in NO_TZ and opts["conv"] in ("default", "field_on")
        ms = [moment(r, dialect) for _ in range(40)]
        rows = []
        for j, m in enumerate(ms):
            done = m + dt.timedelta(seconds=r.choice([0, 1, 59, 60, 61, 3599, 3600, 86399, 86400, 86401, r.randrange(10 ** 6), r.randrange(10 ** 8)]))
            if dialect != "POSTGRES" and r.random() < 0.3:
                done = m - (done - m)
            done = done.replace(microsecond=m.microsecond)
            rows.append((j, m, done, m.date()))
        rows.append((len(ms), None, None, None))
        by = {row[0]: row for row in rows}

        def ask(name, tf):
            with contextlib.redirect_stdout(io.StringIO()):
                sql = c.get_sql_query(metrics=[], dimensions=["e.id", "e.%s_%s" % (name, tf) if name != "taken" else "e.%ss_taken" % tf], query_type=dialect)
            return sql, run(sql, dialect, rows)

        for name, tfs in (("at", FRAMES), ("day", DATE_ONLY)):
            for tf in tfs:
                info = {"dialect": dialect, "frame": tf, "week": week, "offset": offset, "zone": zone, "options": opts, "group": name}
                try:
                    sql, (cols, got) = ask(name, tf)
                except SqlError as e:
                    info.update(problem=repr(e))
                    ck.bad(broken(dialect, tf, repr(e)) or "invalid-sql", "the compiled expression is not valid on the warehouse", info)
                    continue
                ck.counts["frame_queries"] += 1
                ck.seen("frame", tf), ck.seen("dialect", dialect), ck.seen("week", week), ck.seen("offset", offset)
                if len(got) != len(rows):
                    ck.bad("rows", "rows appear or disappear", dict(info, sql=sql))
                    continue
                nontrivial = 0
                for rid, x in got:
                    v = by[int(rid)][1] if name == "at" else None if by[int(rid)][3] is None else mid(by[int(rid)][3])
                    if v is not None and name == "at" and converts:
                        v = v.replace(tzinfo=dt.timezone.utc).astimezone(ZoneInfo(zone)).replace(tzinfo=None)
                    want = expected(v, tf, ws, offset)
                    g = value(x)
                    ck.counts["values"] += 1
                    if want is not None and want != v:
                        nontrivial = 1
                    if want is None and g == "inv":  # a missing timestamp may be labelled as naming no period
                        continue
                    if g != want:
                        q = quirk(dialect, tf, ws, v)
                        ck.bad(q[0] if q and q[1] == g else "frame", "the timeframe names another period",
                               dict(info, sql=sql, timestamp=str(by[int(rid)][1]), local=str(v), got=str(x), expected=str(want)))
                        if q and q[1] == g:
                            continue
                        break
                ck.case((dialect, name, tf, week, offset, zone, tuple(sorted(opts.items(), key=str)), i),
                        {"sql": sql, "rows": len(rows), "first": [str(y) for y in got[0]]}, nontrivial=bool(nontrivial or tf in ("raw", "time")))

        for unit in UNITS:
            info = {"dialect": dialect, "unit": unit, "zone": zone, "options": opts}
            try:
                sql, (cols, got) = ask("taken", unit)
            except SqlError as e:
                ck.bad("duration-invalid-sql", "the compiled duration is not valid on the warehouse", dict(info, problem=repr(e)))
                continue
            ck.counts["duration_queries"] += 1
            for rid, x in got:
                _, a, b, _ = by[int(rid)]
                want = None if a is None else difference(dialect, a, b, unit)
                if (None if x is None else int(x)) != want:
                    mech = "duration"
                    if dialect == "POSTGRES" and unit in ("second", "minute", "hour", "day", "week") and int(x) == postgres_age(a, b, unit):
                        mech = "postgres-duration"
                    elif dialect == "BIGQUERY" and unit == "year" and int(x) == b.isocalendar()[0] - a.isocalendar()[0]:
                        mech = "bigquery-years"
                    ck.bad(mech, "the duration is not the number of units between start and end",
                           dict(info, sql=sql, start=str(a), end=str(b), got=str(x), expected=str(want)))
                    if mech != "duration":
                        continue
                    break
            ck.case((dialect, "duration", unit, i), {"sql": sql})

    ck.run("frames", ck.pick(320, 6000), frames)


ck = Check("C09", "every timeframe of timestamp and date groups and every duration unit compiled for ten warehouses with each first day of the week, "
           "fiscal offsets and zones, executed on rows at calendar edges and compared with an independent calendar; non-trivial cases change at least one value")
main(ck, body, need=[("frame_queries", 8000), ("duration_queries", 1500), ("values", 300000)])
