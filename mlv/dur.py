"""Counting units between two moments, as each warehouse's difference function documents it."""
import datetime as dt

from .values import norm
from .world import TSQL

T = tuple(TSQL)


def plus_months(v, n):
    y, m = divmod(v.year * 12 + v.month - 1 + n, 12)
    last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
    return v.replace(year=y, month=m + 1, day=min(v.day, last))


def elapsed(a, b, unit):
    if b < a:
        return -elapsed(b, a, unit)
    fixed = {"second": 1, "minute": 60, "hour": 3600, "day": 86400, "week": 604800}
    if unit in fixed:
        return int((b - a).total_seconds()) // fixed[unit]
    n = 0
    step = {"month": 1, "quarter": 3, "year": 12}[unit]
    while plus_months(a, (n + 1) * step) <= b:
        n += 1
    return n


def crossed(a, b, unit):
    if unit in ("second", "minute", "hour"):
        f = lambda x: int((x.replace(microsecond=0) - dt.datetime(1970, 1, 1)).total_seconds()) // {"second": 1, "minute": 60, "hour": 3600}[unit]
    elif unit == "day":
        f = lambda x: x.date().toordinal()
    elif unit == "week":
        f = lambda x: (x.date().toordinal() - 1) // 7
    else:
        f = lambda x: (x.year * 12 + x.month - 1) // {"month": 1, "quarter": 3, "year": 12}[unit]
    return f(b) - f(a)


def difference(dialect, a, b, unit):
    if dialect in T and unit == "week":  # counts Sundays
        return (b.date().toordinal() // 7) - (a.date().toordinal() // 7)
    if dialect in ("SNOWFLAKE", "REDSHIFT", "DUCK_DB") + T:
        return crossed(a, b, unit)
    if dialect == "BIGQUERY":
        return elapsed(a, b, unit) if unit in ("second", "minute", "hour") else crossed(a, b, unit)
    return elapsed(a, b, unit)


def postgres_age(a, b, unit):
    """The pinned Postgres text: single fields of AGE, without parentheses (a known finding of C09)."""
    if b < a:
        return -postgres_age(b, a, unit)
    months = elapsed(a, b, "month")
    rest = b - plus_months(a, months)
    days, secs = rest.days, rest.seconds
    h, m, s = secs // 3600, secs // 60 % 60, secs % 60
    if unit in ("month", "quarter", "year"):
        return elapsed(a, b, unit)
    return {"day": days, "week": days // 7, "hour": days * 24 + h, "minute": days * 24 + h * 60 + m, "second": days * 24 + h * 60 + m * 60 + s}[unit]
