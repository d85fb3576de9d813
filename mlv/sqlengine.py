"""Strict in-memory SQL interpreter used as the execution oracle.

Semantics follow the documented behaviour of the warehouse the SQL was compiled for wherever warehouses
differ on something metrics_layer relies on (week boundaries, date functions, literal syntax, NULL order).
Strictness: unknown / ambiguous names, ungrouped columns, aggregates in WHERE, incomparable types and
functions the warehouse does not have are errors.
"""
import datetime as dt
import hashlib
import math
import re
from zoneinfo import ZoneInfo

from .sqlparse_ import SqlError, SqlSyntaxError, parse

D, TS = dt.date, dt.datetime


class SqlNameError(SqlError):
    pass


class SqlTypeError(SqlError):
    pass


class SqlUnsupported(SqlError):
    pass


class SqlRuntimeError(SqlError):
    pass


class Interval:
    __slots__ = ("months", "days", "secs")

    def __init__(self, months=0, days=0, secs=0):
        self.months, self.days, self.secs = months, days, secs


AGGS = {"SUM", "COUNT", "AVG", "MIN", "MAX", "MEDIAN", "ANY_VALUE"}
INT_DIV = {"POSTGRES", "REDSHIFT", "SQL_SERVER", "AZURE_SYNAPSE", "TRINO", "DRUID"}
TSQL = {"SQL_SERVER", "AZURE_SYNAPSE"}
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
MONTH = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October",
         "November", "December"]
DY = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
DAY = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]

# BigQuery's FLOAT64 + BIGNUMERIC is FLOAT64, which loses the low digits of a symmetric sum. That loss is recorded as
# a known finding of C02 and kept out of every other comparison by computing such sums exactly.
BQ_EXACT = True

_TS_RE = re.compile(
    r"^(\d{4})-(\d{1,2})-(\d{1,2})(?:[T ](\d{1,2}):(\d{2})(?::(\d{2})(?:\.(\d{1,9}))?)?)?\s*(Z|[+-]\d{2}:?\d{2})?$"
)


def parse_ts(s):
    m = _TS_RE.match(s.strip())
    if not m:
        return None
    y, mo, d, h, mi, sec, frac, _tz = m.groups()
    try:
        return TS(int(y), int(mo), int(d), int(h or 0), int(mi or 0), int(sec or 0),
                  int((frac or "0").ljust(6, "0")[:6]))
    except ValueError:
        return None


def to_ts(v):
    if v is None:
        return None
    if isinstance(v, TS):
        return v
    if isinstance(v, D):
        return TS(v.year, v.month, v.day)
    if isinstance(v, str):
        r = parse_ts(v)
        if r is None:
            raise SqlRuntimeError("cannot read %r as a timestamp" % v)
        return r
    raise SqlTypeError("cannot use %r as a timestamp" % (v,))


def naive(v):
    if isinstance(v, TS) and v.tzinfo is not None:
        return v.replace(tzinfo=None)
    return v


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def add_months(v, n):
    m = v.month - 1 + n
    y = v.year + m // 12
    m = m % 12 + 1
    d = min(v.day, [31, 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30,
                    31, 30, 31][m - 1])
    return v.replace(year=y, month=m, day=d)


def shift(v, iv, sign=1):
    if isinstance(v, str):
        v = to_ts(v)
    if iv.secs and isinstance(v, D) and not isinstance(v, TS):
        v = to_ts(v)
    v = add_months(v, sign * iv.months) if iv.months else v
    return v + sign * dt.timedelta(days=iv.days, seconds=iv.secs)


def mk_interval(n, unit):
    unit = unit.upper().rstrip("S") if unit.upper() not in ("S",) else unit
    if unit == "MONTH":
        return Interval(months=n)
    if unit == "YEAR":
        return Interval(months=12 * n)
    if unit == "QUARTER":
        return Interval(months=3 * n)
    if unit == "DAY":
        return Interval(days=n)
    if unit == "WEEK":
        return Interval(days=7 * n)
    if unit == "HOUR":
        return Interval(secs=3600 * n)
    if unit == "MINUTE":
        return Interval(secs=60 * n)
    if unit == "SECOND":
        return Interval(secs=n)
    raise SqlUnsupported("interval unit %s" % unit)


def coerce_pair(a, b):
    """Bring two non-null values to a comparable pair or raise."""
    if isinstance(a, TS) and a.tzinfo is not None:
        a = a.replace(tzinfo=None)
    if isinstance(b, TS) and b.tzinfo is not None:
        b = b.replace(tzinfo=None)
    ta, tb = type(a), type(b)
    if ta is tb:
        return a, b
    da, db = isinstance(a, D), isinstance(b, D)
    if da and db:
        return to_ts(a), to_ts(b)
    if da and tb is str:
        return to_ts(a), to_ts(b)
    if db and ta is str:
        return to_ts(a), to_ts(b)
    if is_num(a) and is_num(b):
        return a, b
    if ta is bool and is_num(b) and b in (0, 1):
        return int(a), b
    if tb is bool and is_num(a) and a in (0, 1):
        return a, int(b)
    if ta is bool and tb is str and b.lower() in ("true", "false"):
        return a, b.lower() == "true"
    if tb is bool and ta is str and a.lower() in ("true", "false"):
        return a.lower() == "true", b
    if is_num(a) and tb is str:
        try:
            return a, float(b)
        except ValueError:
            raise SqlRuntimeError("cannot read %r as a number" % b)
    if is_num(b) and ta is str:
        try:
            return float(a), b
        except ValueError:
            raise SqlRuntimeError("cannot read %r as a number" % a)
    raise SqlTypeError("cannot compare %r with %r" % (a, b))


def compare(op, a, b):
    if a is None or b is None:
        return None
    a, b = coerce_pair(a, b)
    if op == "=":
        return a == b
    if op == "<>":
        return a != b
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


_like_cache = {}


def like(s, pat, ci, escape_backslash):
    if s is None or pat is None:
        return None
    if not isinstance(s, str):
        s = text(s)
    if not isinstance(pat, str):
        raise SqlTypeError("LIKE pattern %r" % (pat,))
    k = (pat, ci, escape_backslash)
    r = _like_cache.get(k)
    if r is None:
        out = []
        i = 0
        while i < len(pat):
            c = pat[i]
            if c == "\\" and escape_backslash and i + 1 < len(pat):
                out.append(re.escape(pat[i + 1]))
                i += 2
                continue
            out.append(".*" if c == "%" else "." if c == "_" else re.escape(c))
            i += 1
        r = _like_cache[k] = re.compile("(?s)" + "".join(out) + r"\Z", re.I if ci else 0)
    return r.match(s) is not None


def text(v):
    if v is None:
        return None
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float) and v == int(v):
        return str(int(v))
    if isinstance(v, TS):
        return v.strftime("%Y-%m-%d %H:%M:%S")
    return str(v)


def trunc(v, unit, dialect):
    """DATE_TRUNC with the week rule of the warehouse."""
    if v is None:
        return None
    if isinstance(v, str):
        v = to_ts(v)
    u = unit.upper()
    is_ts = isinstance(v, TS)
    d = D(v.year, v.month, v.day)
    if u in ("SECOND", "MINUTE", "HOUR"):
        v = to_ts(v)
        return v.replace(microsecond=0, **({"second": 0} if u != "SECOND" else {}),
                         **({"minute": 0} if u == "HOUR" else {}))
    if u == "DAY":
        r = d
    elif u == "WEEK":
        r = d - dt.timedelta(days=(d.weekday() + 1) % 7 if dialect == "BIGQUERY" else d.weekday())
    elif u == "ISOWEEK":
        r = d - dt.timedelta(days=d.weekday())
    elif u == "MONTH":
        r = d.replace(day=1)
    elif u == "QUARTER":
        r = D(d.year, 3 * ((d.month - 1) // 3) + 1, 1)
    elif u == "YEAR":
        r = D(d.year, 1, 1)
    else:
        raise SqlUnsupported("truncation unit %s" % unit)
    # Only warehouses whose DATE_TRUNC keeps DATE stay dates; the rest return midnight timestamps
    if is_ts:
        return TS(r.year, r.month, r.day)
    if dialect in ("SNOWFLAKE", "BIGQUERY", "DUCK_DB", "TRINO", "REDSHIFT"):
        return r
    return TS(r.year, r.month, r.day)


def datepart(v, unit, dialect):
    if v is None:
        return None
    if isinstance(v, Interval):
        u = unit.upper()
        if u == "YEAR":
            return math.trunc(v.months / 12)
        if u == "MONTH":
            return int(math.fmod(v.months, 12))
        if u == "DAY":
            return v.days
        if u == "HOUR":
            return math.trunc(v.secs / 3600)
        if u == "MINUTE":
            return int(math.fmod(math.trunc(v.secs / 60), 60))
        if u == "SECOND":
            return int(math.fmod(v.secs, 60))
        raise SqlUnsupported(u)
    v = to_ts(v)
    u = unit.upper()
    if u == "YEAR":
        return v.year
    if u == "QUARTER":
        return (v.month - 1) // 3 + 1
    if u == "MONTH":
        return v.month
    if u == "DAY":
        return v.day
    if u == "HOUR":
        return v.hour
    if u == "MINUTE":
        return v.minute
    if u == "SECOND":
        return v.second
    if u == "WEEK":
        if dialect == "BIGQUERY":
            jan1 = D(v.year, 1, 1)
            first_sun = jan1 + dt.timedelta(days=(6 - jan1.weekday()) % 7)
            dd = v.date()
            return 0 if dd < first_sun else (dd - first_sun).days // 7 + 1
        return v.isocalendar()[1]
    if u == "ISOWEEK":
        return v.isocalendar()[1]
    if u in ("DOY", "DAYOFYEAR") or (u == "Y" and dialect in TSQL):
        if u == "DOY" and dialect in TSQL | {"BIGQUERY"}:
            raise SqlUnsupported("DOY on %s" % dialect)
        return v.timetuple().tm_yday
    if u in ("DOW",):
        if dialect in ("TRINO", "DRUID"):
            return v.isoweekday()
        return v.isoweekday() % 7
    raise SqlUnsupported("date part %s on %s" % (unit, dialect))


def boundary_diff(a, b, unit, dialect):
    """Number of unit boundaries between a and b (DATEDIFF family)."""
    if a is None or b is None:
        return None
    a, b = to_ts(a), to_ts(b)
    u = unit.upper()
    if u in ("SECOND", "MINUTE", "HOUR"):
        a2, b2 = trunc(a, u, dialect), trunc(b, u, dialect)
        return int((b2 - a2).total_seconds()) // {"SECOND": 1, "MINUTE": 60, "HOUR": 3600}[u]
    if u == "DAY":
        return (b.date() - a.date()).days
    if u in ("WEEK", "ISOWEEK"):
        if u == "WEEK" and dialect in TSQL | {"BIGQUERY"}:  # Sunday boundaries, regardless of DATEFIRST
            wk = lambda x: x.date() - dt.timedelta(days=(x.weekday() + 1) % 7)
        else:
            wk = lambda x: x.date() - dt.timedelta(days=x.weekday())
        return (wk(b) - wk(a)).days // 7
    if u == "MONTH":
        return (b.year - a.year) * 12 + b.month - a.month
    if u == "QUARTER":
        return (b.year - a.year) * 4 + (b.month - 1) // 3 - (a.month - 1) // 3
    if u == "YEAR":
        return b.year - a.year
    if u == "ISOYEAR":
        return b.isocalendar()[0] - a.isocalendar()[0]
    raise SqlUnsupported("difference unit %s" % unit)


def elapsed_diff(a, b, unit):
    """Complete units elapsed from a to b, truncated toward zero (TIMESTAMP_DIFF / TIMESTAMPDIFF / date_diff)."""
    if a is None or b is None:
        return None
    a, b = to_ts(a), to_ts(b)
    sign = 1
    if b < a:
        a, b, sign = b, a, -1
    u = unit.upper()
    if u in ("SECOND", "MINUTE", "HOUR", "DAY", "WEEK"):
        q = {"SECOND": 1, "MINUTE": 60, "HOUR": 3600, "DAY": 86400, "WEEK": 604800}[u]
        return sign * int((b - a).total_seconds() // q)
    months = (b.year - a.year) * 12 + b.month - a.month
    if add_months(a, months) > b:
        months -= 1
    return sign * (months // {"MONTH": 1, "QUARTER": 3, "YEAR": 12}[u])


def age(b, a):
    """Postgres AGE(b, a): years/months/days/time difference."""
    if a is None or b is None:
        return None
    a, b = to_ts(a), to_ts(b)
    sign = 1
    if b < a:
        a, b, sign = b, a, -1
    months = (b.year - a.year) * 12 + b.month - a.month
    cur = add_months(a, months)
    if cur > b:
        months -= 1
        cur = add_months(a, months)
    delta = b - cur
    return Interval(sign * months, sign * delta.days, sign * delta.seconds)


def cast(v, ty, fmt, dialect):
    if v is None:
        return None
    if fmt is not None:
        x = to_ts(v)
        f = fmt.upper()
        if f == "HH24":
            return "%02d" % x.hour
        if f == "DAY":
            return DAY[x.weekday()].upper()
        raise SqlUnsupported("cast format %s" % fmt)
    if ty == "DATE":
        return to_ts(naive(v)).date()
    if ty.startswith("TIMESTAMP") or ty in ("DATETIME", "DATETIME2"):
        if dialect in TSQL and ty == "TIMESTAMP":
            raise SqlTypeError("TIMESTAMP is not a date type in T-SQL")
        if is_num(v):
            if ty == "DATETIME" and dialect in TSQL:
                return TS(1900, 1, 1) + dt.timedelta(days=v)
            raise SqlTypeError("number cast to timestamp")
        return to_ts(naive(v))
    if ty in ("DECIMAL", "NUMERIC", "BIGNUMERIC", "NUMBER"):
        if isinstance(v, str):
            v = float(v) if not re.match(r"^-?\d+$", v) else int(v)
        if isinstance(v, float) and v == int(v):
            return int(v)
        return v
    if ty in ("INT", "INTEGER", "BIGINT", "INT64", "SMALLINT"):
        if isinstance(v, str):
            return int(v)
        return int(v)
    if ty in ("DOUBLE PRECISION", "DOUBLE", "FLOAT", "FLOAT64", "REAL"):
        if dialect == "BIGQUERY" and BQ_EXACT and is_num(v) and v == int(v):
            return int(v)
        return float(v)
    if ty in ("VARCHAR", "TEXT", "STRING", "CHAR", "NVARCHAR"):
        return text(v)
    if ty in ("BOOLEAN", "BOOL", "BIT"):
        return bool(v)
    raise SqlUnsupported("type %s" % ty)


class Rel:
    __slots__ = ("cols", "rows", "names")

    def __init__(self, cols, rows):
        self.cols = cols  # [(alias, name)]
        self.rows = rows


class Engine:
    def __init__(self, dialect, tables, now=None, spine_clip=None):
        self.d = dialect
        self.tables = {k.lower(): v for k, v in tables.items()}
        self.now = now or TS(2023, 6, 15, 12, 0, 0)
        self.spine_clip = tuple(x.date() if isinstance(x, TS) else x for x in spine_clip) if spine_clip else None
        self.read_tables = []
        self.max_rows = 400000

    # ---- public
    def run(self, sql):
        ast, semis = parse(sql, self.d)
        self.semicolons = semis
        cols, rows = self.query(ast, {})
        return cols, rows

    # ---- queries
    def query(self, q, ctes):
        _, cte_defs, body, order, limit = q
        env = dict(ctes)
        names = set()
        for name, sub in cte_defs:
            if name in names:
                raise SqlNameError("duplicate CTE %s" % name)
            names.add(name)
            env[name] = self.query(sub, env)
        if body[0] == "union":
            outs = [self.body(b, env, (), None) for b in body[1]]
            cols, rows = outs[0][0], list(outs[0][1])
            for kind, (c2, r2) in zip(body[2], outs[1:]):
                if len(c2) != len(cols):
                    raise SqlTypeError("UNION arity mismatch")
                rows = rows + list(r2)
                if kind == "DISTINCT":
                    rows = list(dict.fromkeys(rows))
            if order:
                rel = Rel([(None, c) for c in cols], rows)
                keys = [(self.compile(self.resolve(e, rel, {})), dirn, nulls) for e, dirn, nulls in order]
                rows = self.sort(rows, [[k(r) for k, _, _ in keys] for r in rows], keys)
        else:
            cols, rows = self.body(body, env, order, None)
        if limit is not None:
            rows = rows[:limit]
        return cols, rows

    def body(self, b, env, order, _):
        if b[0] == "paren":
            cols, rows = self.query(b[1], env)
            return cols, rows
        return self.select(b, env, order)

    def sort(self, rows, keyrows, keys):
        idx = list(range(len(rows)))
        for pos in range(len(keys) - 1, -1, -1):
            _, dirn, nulls = keys[pos]
            if nulls is None:
                if self.d in ("POSTGRES", "SNOWFLAKE", "REDSHIFT"):
                    nulls = "LAST" if dirn == "ASC" else "FIRST"
                elif self.d in ("TRINO", "DUCK_DB"):
                    nulls = "LAST"
                else:
                    nulls = "FIRST" if dirn == "ASC" else "LAST"
            nn = [i for i in idx if keyrows[i][pos] is not None]
            nul = [i for i in idx if keyrows[i][pos] is None]

            def k(i, pos=pos):
                v = keyrows[i][pos]
                return to_ts(v) if isinstance(v, D) else v

            nn.sort(key=k, reverse=False)
            if dirn == "DESC":
                # stable descending
                nn2 = sorted(nn[::-1], key=k)
                nn = nn2[::-1]
            idx = nn + nul if nulls == "LAST" else nul + nn
        return [rows[i] for i in idx]

    def select(self, s, env, order):
        _, distinct, top, items, frm, where, group, having = s
        rel = self.from_(frm, env) if frm is not None else Rel([], [()])
        rows = rel.rows
        # expand select list
        exprs, names = [], []
        for e, alias in items:
            if e[0] == "star":
                hit = False
                for i, (a, c) in enumerate(rel.cols):
                    if e[1] is None or a == e[1]:
                        exprs.append(("ci", i))
                        names.append(c)
                        hit = True
                if not hit:
                    raise SqlNameError("no columns for %s.*" % e[1])
            else:
                r = self.resolve(e, rel, env)
                exprs.append(r)
                if alias is not None:
                    names.append(alias)
                elif e[0] == "col":
                    names.append(e[1][-1])
                else:
                    names.append("?column?")
        named = {}
        for nme, e in zip(names, exprs):
            named.setdefault(nme, []).append(e)
        if where is not None:
            try:
                w = self.resolve(where, rel, env)
            except SqlNameError:
                # select-list aliases are visible in WHERE on these warehouses only
                if self.d not in ("SNOWFLAKE", "DUCK_DB"):
                    raise
                w = self.resolve(where, rel, env, named)
            if self.has_agg(w):
                raise SqlError("aggregate in WHERE")
            f = self.compile(w)
            rows = [r for r in rows if self.truth(f(r))]
        gexprs = []
        for g in group:
            if self.d in ("BIGQUERY",) and g[0] == "col" and len(g[1]) == 1 and g[1][0] in named:
                gexprs.append(named[g[1][0]][0])
            elif g[0] == "lit" and isinstance(g[1], int):
                gexprs.append(exprs[g[1] - 1])
            else:
                gexprs.append(self.resolve(g, rel, env))
        hres = None
        if having is not None:
            try:
                hres = self.resolve(having, rel, env)
            except SqlNameError:
                # aliases are visible in HAVING on these warehouses only
                if self.d not in ("SNOWFLAKE", "BIGQUERY", "DUCK_DB", "DATABRICKS"):
                    raise
                hres = self.resolve(having, rel, env, named)
        ores = []
        for e, dirn, nulls in order:
            if e[0] == "col" and len(e[1]) == 1 and e[1][0] in named:
                if len(set(named[e[1][0]])) > 1:
                    raise SqlNameError("ambiguous ORDER BY %s" % e[1][0])
                ores.append((named[e[1][0]][0], dirn, nulls))
            else:
                ores.append((self.resolve(e, rel, env), dirn, nulls))
        aggregated = bool(group) or any(self.has_agg(e) for e in exprs) or having is not None or any(
            self.has_agg(e) for e, _, _ in ores
        )
        if aggregated:
            for g in gexprs:
                if self.has_agg(g):
                    raise SqlError("aggregate in GROUP BY")
            aggs = []

            def collect(e):
                if not isinstance(e, tuple):
                    return
                if e and e[0] == "call" and e[1] in AGGS:
                    if e not in aggs:
                        aggs.append(e)
                        if any(self.has_agg(a) for a in e[3]):
                            raise SqlError("nested aggregate")
                    return
                for x in e:
                    collect(x)

            for e in exprs:
                collect(e)
            if hres is not None:
                collect(hres)
            for e, _, _ in ores:
                collect(e)
            gk = [self.compile(g) for g in gexprs]
            groups = {}
            for r in rows:
                k = tuple(x(r) for x in gk)
                try:
                    groups.setdefault(k, []).append(r)
                except TypeError:
                    raise SqlTypeError("ungroupable value")
            if not group and not groups:
                groups[()] = []
            slot = {g: i for i, g in reversed(list(enumerate(gexprs)))}
            for i, a in enumerate(aggs):
                slot[a] = len(gexprs) + i
            aggf = [self.compile_agg(a) for a in aggs]
            rows = [k + tuple(f(rs) for f in aggf) for k, rs in groups.items()]
            exprs = [self.substitute(e, slot, rel) for e in exprs]
            ores = [(self.substitute(e, slot, rel), a, b) for e, a, b in ores]
            if hres is not None:
                hf = self.compile(self.substitute(hres, slot, rel))
                rows = [r for r in rows if self.truth(hf(r))]
        fs = [self.compile(e) for e in exprs]
        out = [tuple(f(r) for f in fs) for r in rows]
        if ores:
            if distinct:
                pass
            keys = [(self.compile(e), dirn, nulls) for e, dirn, nulls in ores]
            out = self.sort(out, [[k(r) for k, _, _ in keys] for r in rows], keys)
        if distinct:
            out = list(dict.fromkeys(out))
        if top is not None:
            out = out[:top]
        return names, out

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if is_num(v) and self.d not in {"POSTGRES", "BIGQUERY", "TRINO"} | set(TSQL):
            return bool(v)
        raise SqlTypeError("condition is not boolean: %r" % (v,))

    def has_agg(self, e):
        if not isinstance(e, tuple):
            return False
        if e and e[0] == "call" and e[1] in AGGS:
            return True
        if e and e[0] in ("insubv", "scalarv"):
            return any(self.has_agg(x) for x in e[1:2])
        return any(self.has_agg(x) for x in e)

    def substitute(self, e, slot, rel):
        """Replace group keys and aggregates by slots; any other column left is an ungrouped reference."""
        if not isinstance(e, tuple):
            return e
        try:
            if e in slot:
                return ("ci", slot[e])
        except TypeError:
            pass
        if e and e[0] == "ci":
            a, c = rel.cols[e[1]]
            raise SqlError("column %s.%s is neither grouped nor aggregated" % (a, c))
        if e and e[0] == "lit":
            return e
        return tuple(self.substitute(x, slot, rel) for x in e)

    # ---- FROM
    def from_(self, f, env):
        k = f[0]
        if k == "table":
            name, alias = f[1], f[2]
            if name in env and "." not in name:
                cols, rows = env[name]
                a = alias or name
            else:
                if name not in self.tables:
                    raise SqlNameError("unknown table %s" % name)
                cols, rows = self.tables[name]
                self.read_tables.append(name)
                a = alias or name.split(".")[-1]
            return Rel([(a, c.lower()) for c in cols], rows)
        if k == "subq":
            cols, rows = self.query(f[1], env)
            if f[2] is None and self.d in ("POSTGRES", "REDSHIFT") + tuple(TSQL):
                raise SqlSyntaxError("subquery in FROM needs an alias")
            return Rel([(f[2], c) for c in cols], rows)
        if k == "tablefunc":
            return self.table_function(f[1], f[2])
        _, kind, left, right, cond = f
        L, R = self.from_(left, env), self.from_(right, env)
        la = {a for a, _ in L.cols}
        for a in {a for a, _ in R.cols}:
            if a in la:
                raise SqlNameError("table alias %s used twice" % a)
        rel = Rel(L.cols + R.cols, None)
        nl, nr = len(L.cols), len(R.cols)
        if kind == "CROSS":
            rel.rows = [a + b for a in L.rows for b in R.rows]
            return rel
        c = self.resolve(cond, rel, env)
        if self.has_agg(c):
            raise SqlError("aggregate in ON")
        parts = list(c[1:]) if c[0] == "and" else [c]
        lk, rk, rest = [], [], []
        for p in parts:
            if p[0] == "cmp" and p[1] == "=":
                s1, s2 = self.sides(p[2], nl), self.sides(p[3], nl)
                if s1 == {"L"} and s2 == {"R"}:
                    lk.append(p[2]), rk.append(p[3])
                    continue
                if s1 == {"R"} and s2 == {"L"}:
                    lk.append(p[3]), rk.append(p[2])
                    continue
            rest.append(p)
        restf = [self.compile(p) for p in rest]
        pad_r = (None,) * nr
        pad_l = (None,) * nl
        out = []
        matched_r = set()
        if lk:
            lf = [self.compile(e) for e in lk]
            rf = [self.compile(self.shift_ci(e, -nl)) for e in rk]
            index = {}
            for j, b in enumerate(R.rows):
                key = tuple(self.jkey(x(b)) for x in rf)
                if None not in key:
                    index.setdefault(key, []).append(j)
            cand = lambda a: index.get(tuple(self.jkey(x(a)) for x in lf), ())
        else:
            allr = range(len(R.rows))
            cand = lambda a: allr
        for a in L.rows:
            hit = False
            for j in cand(a):
                row = a + R.rows[j]
                if all(self.truth(p(row)) for p in restf):
                    hit = True
                    matched_r.add(j)
                    out.append(row)
            if not hit and kind in ("LEFT", "FULL"):
                out.append(a + pad_r)
            if len(out) > self.max_rows:
                raise SqlRuntimeError("too many rows")
        if kind in ("RIGHT", "FULL"):
            for j, b in enumerate(R.rows):
                if j not in matched_r:
                    out.append(pad_l + b)
        rel.rows = out
        return rel

    @staticmethod
    def jkey(v):
        if isinstance(v, D):
            return to_ts(naive(v))
        return v

    def sides(self, e, nl):
        s = set()

        def go(x):
            if isinstance(x, tuple):
                if x and x[0] == "ci":
                    s.add("L" if x[1] < nl else "R")
                elif x and x[0] == "lit":
                    return
                else:
                    for y in x:
                        go(y)

        go(e)
        return s

    def shift_ci(self, e, by):
        if not isinstance(e, tuple):
            return e
        if e and e[0] == "ci":
            return ("ci", e[1] + by)
        if e and e[0] == "lit":
            return e
        return tuple(self.shift_ci(x, by) for x in e)

    def table_function(self, e, alias):
        if e[0] != "call":
            raise SqlSyntaxError("bad table function")
        name = e[1]
        if name == "GENERATOR":
            if self.d not in ("SNOWFLAKE", "REDSHIFT"):
                raise SqlUnsupported("GENERATOR on %s" % self.d)
            n = None
            for a in e[3]:
                if a[0] == "named" and a[1] == "ROWCOUNT":
                    n = self.compile(self.resolve(a[2], Rel([], []), {}))(())
            lo, hi = 0, int(n)
            if self.spine_clip:
                base = D(2000, 1, 1)
                lo = max(lo, (self.spine_clip[0] - base).days)
                hi = min(hi, (self.spine_clip[1] - base).days)
            return Rel([(alias, "__seq")], [(i,) for i in range(lo, hi)])
        if name == "UNNEST" and e[3] and e[3][0][0] == "call" and e[3][0][1] == "GENERATE_DATE_ARRAY":
            if self.d != "BIGQUERY":
                raise SqlUnsupported("GENERATE_DATE_ARRAY")
            a, b = [to_ts(self.compile(self.resolve(x, Rel([], []), {}))(())).date() for x in e[3][0][3][:2]]
            return Rel([(alias, alias)], [(x,) for x in self.days(a, b)])
        if name == "GENERATE_SERIES":
            if self.d not in ("POSTGRES", "DUCK_DB"):
                raise SqlUnsupported("GENERATE_SERIES")
            a, b = [to_ts(self.compile(self.resolve(x, Rel([], []), {}))(())).date() for x in e[3][:2]]
            return Rel([(alias, alias)], [(to_ts(x),) for x in self.days(a, b)])
        raise SqlUnsupported("table function %s" % name)

    def days(self, a, b):
        if self.spine_clip:
            a, b = max(a, self.spine_clip[0]), min(b, self.spine_clip[1])
        n = (b - a).days + 1
        return [a + dt.timedelta(days=i) for i in range(max(0, n))]

    # ---- expressions
    def resolve(self, e, rel, env, named=None):
        if not isinstance(e, tuple) or not e:
            return e
        k = e[0]
        if k == "lit":
            return e
        if k == "col":
            return self.resolve_col(e[1], rel, named)
        if k == "insub":
            cols, rows = self.query(e[2], env)
            if len(cols) != 1:
                raise SqlTypeError("IN subquery must return one column")
            return ("insubv", self.resolve(e[1], rel, env, named), tuple(r[0] for r in rows))
        if k == "scalar":
            cols, rows = self.query(e[1], env)
            if len(cols) != 1 or len(rows) > 1:
                raise SqlRuntimeError("scalar subquery returned more than one value")
            return ("lit", rows[0][0] if rows else None)
        if k == "interval":
            return e
        return tuple(self.resolve(x, rel, env, named) for x in e)

    def resolve_col(self, parts, rel, named):
        name = parts[-1]
        q = parts[-2] if len(parts) > 1 else None
        hits = [i for i, (a, c) in enumerate(rel.cols) if c == name and (q is None or a == q)]
        if len(hits) == 1:
            return ("ci", hits[0])
        if len(hits) > 1:
            raise SqlNameError("ambiguous column %s" % ".".join(parts))
        if named is not None and q is None and name in named:
            return named[name][0]
        raise SqlNameError("unknown column %s" % ".".join(parts))

    def compile(self, e):
        k = e[0]
        if k == "ci":
            i = e[1]
            return lambda r: r[i]
        if k == "lit":
            v = e[1]
            return lambda r: v
        if k == "and":
            fs = [self.compile(x) for x in e[1:]]

            def f_and(r):
                res = True
                for f in fs:
                    v = f(r)
                    if v is None:
                        res = None
                    elif not self.truth(v):
                        return False
                return res

            return f_and
        if k == "or":
            fs = [self.compile(x) for x in e[1:]]

            def f_or(r):
                res = False
                for f in fs:
                    v = f(r)
                    if v is None:
                        res = None
                    elif self.truth(v):
                        return True
                return res

            return f_or
        if k == "not":
            f = self.compile(e[1])

            def f_not(r):
                v = f(r)
                return None if v is None else not self.truth(v)

            return f_not
        if k == "cmp":
            op, a, b = e[1], self.compile(e[2]), self.compile(e[3])
            return lambda r: compare(op, a(r), b(r))
        if k == "is":
            w, neg, f = e[1], e[2], self.compile(e[3])
            if w == "NULL":
                return (lambda r: f(r) is not None) if neg else (lambda r: f(r) is None)
            want = w == "TRUE"

            def f_is(r):
                v = f(r)
                res = v is not None and self.truth(v) == want
                return res != neg

            return f_is
        if k == "in":
            a, xs = self.compile(e[1]), [self.compile(x) for x in e[2]]

            def f_in(r):
                v = a(r)
                if v is None:
                    return None
                res = False
                for x in xs:
                    c = compare("=", v, x(r))
                    if c:
                        return True
                    if c is None:
                        res = None
                return res

            return f_in
        if k == "insubv":
            a = self.compile(e[1])
            vals = e[2]
            hasnull = any(v is None for v in vals)
            keys = {self.jkey(v) for v in vals if v is not None}

            def f_insub(r):
                v = a(r)
                if v is None:
                    return None if vals else False
                if self.jkey(v) in keys:
                    return True
                return None if hasnull else False

            return f_insub
        if k == "like":
            ci = e[1] == "ILIKE"
            if ci and self.d not in ("SNOWFLAKE", "POSTGRES", "REDSHIFT", "DUCK_DB", "DATABRICKS"):
                raise SqlUnsupported("ILIKE on %s" % self.d)
            a, b = self.compile(e[2]), self.compile(e[3])
            esc = self.d in ("POSTGRES", "REDSHIFT", "BIGQUERY", "DATABRICKS")
            # SQL Server's usual collation compares case-insensitively; data used here avoids relying on it
            return lambda r: like(a(r), b(r), ci, esc)
        if k == "case":
            base = self.compile(e[1]) if e[1] is not None else None
            whens = [(self.compile(c), self.compile(v)) for c, v in e[2]]
            els = self.compile(e[3])
            if base is None:

                def f_case(r):
                    for c, v in whens:
                        t = c(r)
                        if t is not None and self.truth(t):
                            return v(r)
                    return els(r)

            else:

                def f_case(r):
                    x = base(r)
                    for c, v in whens:
                        if compare("=", x, c(r)):
                            return v(r)
                    return els(r)

            return f_case
        if k == "cast":
            f, ty, fmt, d = self.compile(e[1]), e[2], e[3], self.d
            return lambda r: cast(f(r), ty, fmt, d)
        if k == "extract":
            if self.d in TSQL:
                raise SqlUnsupported("EXTRACT is not T-SQL")
            f, u, d = self.compile(e[2]), e[1], self.d
            return lambda r: datepart(f(r), u, d)
        if k == "interval":
            iv = mk_interval(e[1], e[2])
            return lambda r: iv
        if k == "neg":
            f = self.compile(e[1])
            return lambda r: None if f(r) is None else -f(r)
        if k == "bin":
            return self.compile_bin(e)
        if k == "atz":
            f, z = self.compile(e[1]), self.compile(e[2])

            def f_atz(r):
                v = f(r)
                if v is None:
                    return None
                tz = ZoneInfo(z(r))
                if isinstance(v, D) and not isinstance(v, TS):
                    v = to_ts(v)
                if v.tzinfo is None:
                    return v.replace(tzinfo=tz)
                return v.astimezone(tz).replace(tzinfo=None)

            return f_atz
        if k == "call":
            return self.compile_call(e)
        if k == "star":
            raise SqlSyntaxError("* not allowed here")
        raise SqlUnsupported("expression %s" % k)

    def compile_bin(self, e):
        op, fa, fb = e[1], self.compile(e[2]), self.compile(e[3])
        intdiv = self.d in INT_DIV
        d = self.d

        def f(r):
            a, b = fa(r), fb(r)
            if a is None or b is None:
                return None
            if op == "||":
                return text(a) + text(b)
            if isinstance(b, Interval):
                if not isinstance(a, (D, str)):
                    raise SqlTypeError("interval arithmetic on %r" % (a,))
                return shift(a, b, 1 if op == "+" else -1)
            if isinstance(a, D):
                if isinstance(b, D) and op == "-":
                    return (to_ts(a) - to_ts(b)).days
                if isinstance(b, int) and op in "+-":
                    if isinstance(a, TS) and d in ("POSTGRES", "BIGQUERY", "TRINO", "DUCK_DB", "DATABRICKS"):
                        raise SqlTypeError("timestamp %s integer on %s" % (op, d))
                    return a + dt.timedelta(days=b if op == "+" else -b)
                raise SqlTypeError("date arithmetic %r %s %r" % (a, op, b))
            if isinstance(a, str) or isinstance(b, str):
                try:
                    a = float(a) if isinstance(a, str) else a
                    b = float(b) if isinstance(b, str) else b
                except ValueError:
                    raise SqlTypeError("arithmetic on text %r %s %r" % (a, op, b))
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if b == 0:
                    raise SqlRuntimeError("division by zero")
                if intdiv and isinstance(a, int) and isinstance(b, int):
                    return int(math.trunc(a / b))
                if isinstance(a, int) and isinstance(b, int) and a % b == 0:
                    return a / b
                return a / b
            if op == "%":
                if b == 0:
                    raise SqlRuntimeError("division by zero")
                if isinstance(b, float) and b == int(b):
                    b = int(b)
                return a % b
            raise SqlUnsupported(op)

        return f

    def compile_agg(self, e):
        _, name, distinct, args = e
        if len(args) != 1:
            raise SqlTypeError("%s needs one argument" % name)
        if args[0][0] == "star":
            if name != "COUNT" or distinct:
                raise SqlSyntaxError("%s(*)" % name)
            return lambda rows: len(rows)
        f = self.compile(args[0])
        if name == "MEDIAN" and self.d in ("POSTGRES", "BIGQUERY", "DRUID", "TRINO") + tuple(TSQL):
            raise SqlUnsupported("MEDIAN on %s" % self.d)

        def vals(rows):
            vs = [v for v in (f(r) for r in rows) if v is not None]
            if distinct:
                vs = list(dict.fromkeys(vs))
            return vs

        def numeric(vs):
            for v in vs:
                if not is_num(v):
                    raise SqlTypeError("%s over non-number %r" % (name, v))
            return vs

        if name == "COUNT":
            return lambda rows: len(vals(rows))
        if name == "SUM":
            return lambda rows: (lambda vs: sum(vs) if vs else None)(numeric(vals(rows)))
        if name == "AVG":
            return lambda rows: (lambda vs: sum(vs) / len(vs) if vs else None)(numeric(vals(rows)))
        key = lambda v: to_ts(v) if isinstance(v, D) else v
        if name == "MIN":
            return lambda rows: (lambda vs: min(vs, key=key) if vs else None)(vals(rows))
        if name == "MAX":
            return lambda rows: (lambda vs: max(vs, key=key) if vs else None)(vals(rows))
        if name == "ANY_VALUE":
            return lambda rows: (lambda vs: vs[0] if vs else None)(vals(rows))

        def median(rows):
            vs = sorted(numeric(vals(rows)))
            if not vs:
                return None
            n = len(vs)
            return float(vs[n // 2]) if n % 2 else (vs[n // 2 - 1] + vs[n // 2]) / 2

        return median

    def compile_call(self, e):
        _, name, distinct, args = e
        if name in AGGS:
            raise SqlError("aggregate %s not allowed here" % name)
        if distinct:
            raise SqlSyntaxError("DISTINCT in %s" % name)
        d = self.d
        fs = [self.compile(a) for a in args if a[0] != "named"]
        n = len(fs)

        def need(*k):
            if n not in k:
                raise SqlTypeError("%s with %d arguments" % (name, n))

        def only(*ds):
            if d not in ds:
                raise SqlUnsupported("%s on %s" % (name, d))

        def strict(fn):
            def g(r):
                vs = [f(r) for f in fs]
                return None if any(v is None for v in vs) else fn(*vs)

            return g

        if name == "COALESCE":
            def f_coalesce(r):
                for f in fs:
                    v = f(r)
                    if v is not None:
                        return v
                return None

            return f_coalesce
        if name in ("IFNULL", "NVL", "ISNULL"):
            need(2)
            ok = {
                "IFNULL": ("SNOWFLAKE", "BIGQUERY", "DATABRICKS", "DUCK_DB"),
                "NVL": ("SNOWFLAKE", "REDSHIFT", "DATABRICKS", "DRUID"),
                "ISNULL": tuple(TSQL),
            }[name]
            only(*ok)
            a, b = fs
            return lambda r: a(r) if a(r) is not None else b(r)
        if name == "NULLIF":
            need(2)
            a, b = fs
            return lambda r: None if compare("=", a(r), b(r)) else a(r)
        if name == "EQUAL_NULL":
            only("SNOWFLAKE")
            need(2)
            a, b = fs

            def f_eqn(r):
                x, y = a(r), b(r)
                if x is None or y is None:
                    return x is None and y is None
                return compare("=", x, y)

            return f_eqn
        if name in ("LOWER", "UPPER"):
            need(1)
            return strict(lambda v: text(v).lower() if name == "LOWER" else text(v).upper())
        if name == "LEFT":
            need(2)
            return strict(lambda v, k: text(v)[: int(k)])
        if name == "CONCAT":
            return strict(lambda *v: "".join(text(x) for x in v))
        if name == "LENGTH":
            return strict(lambda v: len(text(v)))
        if name == "FLOOR":
            need(1)
            return strict(lambda v: int(math.floor(v)))
        if name in ("ABS", "ROUND"):
            return strict(lambda v, *k: abs(v) if name == "ABS" else round(v, *[int(x) for x in k]))
        if name == "TRUNC":
            need(1)
            return strict(lambda v: int(math.trunc(v)))
        if name == "MD5":
            only("SNOWFLAKE", "POSTGRES", "REDSHIFT", "DUCK_DB", "DATABRICKS")
            need(1)
            return strict(lambda v: hashlib.md5(text(v).encode()).hexdigest())
        if name == "TO_NUMBER":
            only("SNOWFLAKE")
            need(2)
            return strict(lambda v, f: int(v, 16))
        if name in ("HASHTEXTEXTENDED", "FARMFINGERPRINT64", "FARM_FINGERPRINT"):
            only(*{
                "HASHTEXTEXTENDED": ("POSTGRES", "DUCK_DB"),
                "FARMFINGERPRINT64": ("REDSHIFT",),
                "FARM_FINGERPRINT": ("BIGQUERY",),
            }[name])
            return strict(
                lambda v, *_: int.from_bytes(hashlib.md5(text(v).encode()).digest()[:8], "big", signed=True)
            )
        if name == "SEQ4":
            only("SNOWFLAKE", "REDSHIFT")
            return lambda r: r[0]
        now = self.now
        if name in ("CURRENT_DATE", "GETDATE", "CURRENT_TIMESTAMP", "NOW"):
            if name == "CURRENT_DATE":
                return lambda r: now.date()
            return lambda r: now
        if name == "DATE_TRUNC":
            need(2)
            if d in TSQL:
                raise SqlUnsupported("DATE_TRUNC on %s" % d)
            if d == "BIGQUERY":
                if args[1][0] != "lit" or not isinstance(args[1][1], str):
                    raise SqlTypeError("DATE_TRUNC(value, UNIT) expected on BIGQUERY")
                u = args[1][1]

                def bq_trunc(r):
                    v = fs[0](r)
                    if isinstance(v, TS) and u in ("SECOND", "MINUTE", "HOUR"):
                        raise SqlTypeError("DATE_TRUNC by %s" % u)
                    return trunc(v, u, d)

                return bq_trunc
            if args[0][0] != "lit":
                raise SqlTypeError("DATE_TRUNC('UNIT', value) expected")
            u = args[0][1]
            return lambda r: trunc(fs[1](r), u, d)
        if name in ("DATETIME_TRUNC", "TIMESTAMP_TRUNC"):
            only("BIGQUERY")
            need(2)
            u = args[1][1]
            return lambda r: None if fs[0](r) is None else trunc(to_ts(fs[0](r)), u, d)
        if name == "DATETIME":
            only("BIGQUERY")
            need(1, 2)

            def f_datetime(r):
                v = fs[0](r)
                if v is None:
                    return None
                v = to_ts(v)
                if n == 2:
                    v = v.replace(tzinfo=dt.timezone.utc).astimezone(ZoneInfo(fs[1](r))).replace(tzinfo=None)
                return v

            return f_datetime
        if name == "CONVERT_TIMEZONE":
            only("SNOWFLAKE", "REDSHIFT", "DATABRICKS")
            need(2, 3)

            def f_ctz(r):
                v = fs[-1](r)
                if v is None:
                    return None
                src = ZoneInfo("UTC") if n == 2 else ZoneInfo(fs[0](r))
                dst = ZoneInfo(fs[-2](r))
                return to_ts(v).replace(tzinfo=src).astimezone(dst).replace(tzinfo=None)

            return f_ctz
        if name == "TO_CHAR":
            only("SNOWFLAKE", "POSTGRES", "REDSHIFT", "DUCK_DB")
            need(2)

            def to_char(v, f):
                v = to_ts(v)
                if f == "Mon":
                    return MON[v.month - 1]
                if f in ("Dy", "DY"):
                    return DY[v.weekday()]
                if f == "HH24":
                    return "%02d" % v.hour
                raise SqlUnsupported("TO_CHAR format %s" % f)

            return strict(to_char)
        if name == "DATE_FORMAT":
            only("DATABRICKS", "TRINO")
            need(2)

            def date_format(v, f):
                v = to_ts(v)
                if f == "MMM":
                    return MON[v.month - 1]
                if f in ("E", "EEE"):
                    return DY[v.weekday()]
                raise SqlUnsupported("DATE_FORMAT %s" % f)

            return strict(date_format)
        if name == "FORMAT_DATETIME":
            only("BIGQUERY", "TRINO")
            need(2)

            def format_datetime(a, b):
                if d == "BIGQUERY":
                    f, v = a, to_ts(b)
                    if f == "%B":
                        return MONTH[v.month - 1]
                    if f == "%b":
                        return MON[v.month - 1]
                    if f == "%A":
                        return DAY[v.weekday()]
                else:
                    v, f = to_ts(a), b
                    if f == "MMM":
                        return MON[v.month - 1]
                    if f == "EEE":
                        return DY[v.weekday()]
                raise SqlUnsupported("FORMAT_DATETIME")

            return strict(format_datetime)
        if name == "DATENAME":
            only(*TSQL)
            need(2)

            def datename(u, v):
                v = to_ts(v)
                if u == "MONTH":
                    return MONTH[v.month - 1]
                if u in ("WEEKDAY", "DW"):
                    return DAY[v.weekday()]
                raise SqlUnsupported("DATENAME %s" % u)

            return strict(datename)
        if name == "DATEPART":
            only(*TSQL)
            need(2)
            return strict(lambda u, v: datepart(v, u, d))
        if name == "DATE_PART":
            only("POSTGRES", "SNOWFLAKE", "REDSHIFT", "DUCK_DB")
            need(2)
            return strict(lambda u, v: datepart(v, u, d))
        if name == "AGE":
            only("POSTGRES", "DUCK_DB")
            need(2)
            return strict(lambda b, a: age(b, a))
        if name == "DATEADD":
            only("SNOWFLAKE", "REDSHIFT", "DATABRICKS", *TSQL)
            need(3)

            def dateadd(u, k, v):
                if is_num(v):
                    if d not in TSQL:
                        raise SqlTypeError("DATEADD to a number")
                    v = TS(1900, 1, 1) + dt.timedelta(days=v)
                if isinstance(v, str):
                    v = to_ts(v)
                    if v == TS(v.year, v.month, v.day):
                        v = v.date()
                return shift(v, mk_interval(int(k), u))

            return strict(dateadd)
        if name == "DATEDIFF":
            only("SNOWFLAKE", "REDSHIFT", "DATABRICKS", "DUCK_DB", *TSQL)
            need(3)

            def datediff(u, a, b):
                if d in TSQL:
                    a = TS(1900, 1, 1) + dt.timedelta(days=a) if is_num(a) else a
                    b = TS(1900, 1, 1) + dt.timedelta(days=b) if is_num(b) else b
                v = elapsed_diff(a, b, u) if d == "DATABRICKS" else boundary_diff(a, b, u, d)
                if d in TSQL and abs(v) > 2**31 - 1:
                    raise SqlRuntimeError("DATEDIFF overflow")
                return v

            return strict(datediff)
        if name == "DATE_DIFF":
            only("BIGQUERY", "TRINO", "DUCK_DB")
            need(3)
            if d == "BIGQUERY":
                return strict(lambda b, a, u: boundary_diff(a, b, u, d))
            if d == "TRINO":
                return strict(lambda u, a, b: elapsed_diff(a, b, u))
            return strict(lambda u, a, b: boundary_diff(a, b, u, d))
        if name in ("TIMESTAMP_DIFF", "DATETIME_DIFF"):
            only("BIGQUERY")
            need(3)
            return strict(lambda b, a, u: elapsed_diff(a, b, u))
        if name == "TIMESTAMPDIFF":
            only("DRUID", "DATABRICKS")
            need(3)
            return strict(lambda u, a, b: elapsed_diff(a, b, u))
        if name in ("DATE_ADD", "DATE_SUB"):
            only("BIGQUERY")
            need(2)
            return strict(lambda v, iv: shift(v, iv, 1 if name == "DATE_ADD" else -1))
        raise SqlUnsupported("function %s on %s" % (name, d))
