"""Values, three-valued logic and comparison of result rows."""
import datetime as dt
import decimal

D, TS = dt.date, dt.datetime


def norm(v):
    """Canonical form: dates are midnight timestamps, integral floats are ints, -0.0 is 0."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, TS):
        return v.replace(tzinfo=None)
    if isinstance(v, D):
        return TS(v.year, v.month, v.day)
    if isinstance(v, decimal.Decimal):
        v = float(v)
    if isinstance(v, float):
        if v == int(v):
            return int(v)
        return round(v, 9)
    return v


def same(a, b):
    a, b = norm(a), norm(b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return int(a) == int(b)
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return type(a) is type(b) and a == b


def key(v):
    """Hashable, type-tagged form of a dimension value."""
    v = norm(v)
    if v is None:
        return ("0",)
    if isinstance(v, bool):
        return ("n", int(v))
    if isinstance(v, (int, float)):
        return ("n", round(float(v), 6))
    if isinstance(v, TS):
        return ("t", v.isoformat())
    return ("s", str(v))


def and3(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def or3(xs):
    r = False
    for x in xs:
        if x is True:
            return True
        if x is None:
            r = None
    return r


def not3(x):
    return None if x is None else not x


def in_set(v, acc):
    return any(same(v, a) for a in acc)
