import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import calendar, datetime as dt
from zoneinfo import ZoneInfo
from mlv.common import Check, main
from mlv.meta import *
import pendulum

ZONES = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Tokyo", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia",
         "Pacific/Niue", "America/Sao_Paulo", "Africa/Casablanca"]
WEEK = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
UNITS = ["day", "week", "month", "quarter", "year"]
real_now = pendulum.now
MOMENT = [dt.datetime(2024, 5, 15, 13, 30, tzinfo=dt.timezone.utc)]


def frozen(tz=None):
    z = tz if tz is not None else "UTC"
    return pendulum.instance(MOMENT[0]).in_timezone(z)


class FrozenDatetime(dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return MOMENT[0].astimezone(tz) if tz else MOMENT[0].replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return MOMENT[0].replace(tzinfo=None)


def install():
    pendulum.now = frozen
    pendulum.today = lambda tz="UTC": frozen(tz).start_of("day")
    import metrics_layer.core.model.filter as f
    if isinstance(getattr(f, "datetime", None), type):
        f.datetime = FrozenDatetime
    return f


# ---- the independent calendar -------------------------------------------------------------------
def add_months(d, n):
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    return dt.date(y, m + 1, min(d.day, calendar.monthrange(y, m + 1)[1]))


def shift(d, unit, n):
    if unit == "day":
        return d + dt.timedelta(n)
    if unit == "week":
        return d + dt.timedelta(7 * n)
    return add_months(d, n * {"month": 1, "quarter": 3, "year": 12}[unit])


def start(d, unit, ws):
    if unit == "day":
        return d
    if unit == "week":
        return d - dt.timedelta((d.weekday() - ws) % 7)
    if unit == "month":
        return d.replace(day=1)
    if unit == "quarter":
        return dt.date(d.year, (d.month - 1) // 3 * 3 + 1, 1)
    return dt.date(d.year, 1, 1)


def last_day(d, unit, ws):
    return shift(start(d, unit, ws), unit, 1) - dt.timedelta(1)


def midnight(d):
    return dt.datetime(d.year, d.month, d.day)


def end(d):
    return midnight(d) + dt.timedelta(seconds=86399)


def expression(r, today, ws, depth=0):
    """(text, first second, last second, unit whose end closes the window)"""
    u = r.choice(UNITS)
    n = r.choice([1, 1, 2, 3, 5, 12, 26, 53, 100])
    sp = lambda: r.choice([u, u + "s"])
    k = r.randrange(15 if depth == 0 else 9)
    if k == 0:
        return "today", midnight(today), end(today), "day"
    if k == 1:
        d = today - dt.timedelta(1)
        return "yesterday", midnight(d), end(d), "day"
    if k == 2:
        return "this " + u, midnight(start(today, u, ws)), end(last_day(today, u, ws)), u
    if k == 3:
        d = shift(today, u, -1)
        return "last " + u, midnight(start(d, u, ws)), end(last_day(d, u, ws)), u
    if k in (4, 5):
        d = shift(today, u, 1 - n)
        return "%d %s" % (n, sp()), midnight(start(d, u, ws)), end(last_day(today, u, ws)), u
    if k in (6, 7):
        d = shift(today, u, -n)
        return "%d %s ago" % (n, sp()), midnight(start(d, u, ws)), end(last_day(d, u, ws)), u
    if k == 8:
        v, m = r.choice(UNITS), r.choice([1, 1, 2, 3, 7, 14])
        d = start(shift(today, u, -n), u, ws)
        e = shift(d, v, m - 1)
        return "%d %s ago for %d %s" % (n, sp(), m, r.choice([v, v + "s"])), midnight(d), end(last_day(e, v, ws)), v
    if k in (9, 10, 11):
        how = r.choice(["", "this", "last", "n", "ago"])
        lag = {"": 0, "this": 0, "last": 1, "n": n - 1, "ago": n}[how]
        d = start(shift(today, u, -lag), u, ws)
        passed = (today - start(today, u, ws)).days
        e = d + dt.timedelta(max(passed - 1, 0))
        text = {"": u, "this": "this " + u, "last": "last " + u, "n": "%d %s" % (n, sp()), "ago": "%d %s ago" % (n, sp())}[how] + " to date"
        return text, midnight(d), end(e), "day"
    if k in (12, 13):
        def side():
            if r.random() < 0.5:
                d = today + dt.timedelta(r.randrange(-800, 100))
                return d.isoformat(), midnight(d), midnight(d), None
            return expression(r, today, ws, 1)
        a, b = side(), side()
        return a[0] + " until " + b[0], a[1], b[2], b[3]
    d = today + dt.timedelta(r.randrange(-800, 100))
    w = r.choice(["after", "before", "on"])
    return w + " " + d.isoformat(), None if w == "before" else midnight(d), None if w == "after" else midnight(d), None


def window(filters):
    """First and last second satisfying all of the conditions."""
    lo = hi = None
    for f in filters:
        op = str(getattr(f["expression"], "value", f["expression"]))
        v = dt.datetime.fromisoformat(str(f["value"]))
        if op in ("greater_or_equal_than", "equal_to"):
            lo = v if lo is None else max(lo, v)
        if op in ("less_or_equal_than", "equal_to"):
            hi = v if hi is None else min(hi, v)
        if op == "greater_than":
            lo = v + dt.timedelta(seconds=1) if lo is None else max(lo, v + dt.timedelta(seconds=1))
        if op == "less_than":
            hi = v - dt.timedelta(seconds=1) if hi is None else min(hi, v - dt.timedelta(seconds=1))
        if op not in ("greater_or_equal_than", "equal_to", "less_or_equal_than", "greater_than", "less_than"):
            raise AssertionError("unexpected operator " + op)
    return lo, hi


def moment(r, zone):
    """A current moment, often at a calendar edge of the zone."""
    k = r.randrange(5)
    y = r.choice([2019, 2020, 2023, 2024, 2025, 2026, 2028])
    if k == 0:
        d = dt.datetime(y, r.randrange(1, 13), 1) + dt.timedelta(r.choice([-1, 0, 1]))
    elif k == 1:
        d = dt.datetime(y, r.choice([1, 2, 3, 12]), r.choice([1, 28])) + dt.timedelta(r.randrange(4))
    elif k == 2:
        # days around changes of the clock
        m = r.choice([3, 4, 10, 11])
        d = dt.datetime(y, m, 1) + dt.timedelta(r.randrange(calendar.monthrange(y, m)[1]))
    else:
        d = dt.datetime(y, 1, 1) + dt.timedelta(r.randrange(366))
    t = r.choice([dt.time(0, 0, 0), dt.time(0, 0, 1), dt.time(0, 30), dt.time(1, 30), dt.time(2, 30), dt.time(3, 15), dt.time(12, 0),
                  dt.time(23, 30), dt.time(23, 59, 59, 999999), dt.time(r.randrange(24), r.randrange(60), r.randrange(60))])
    local = dt.datetime.combine(d.date(), t).replace(tzinfo=ZoneInfo(zone), fold=r.randrange(2))
    return local.astimezone(dt.timezone.utc)


BROKEN = ["after nonsense", "2024-13-45 until today", "today until whenever", "on", "before 12/31/2024", ">abc", "a, -b", "2024-02-30 until 2024-03-01"]


def body(ck):
    fm = install()
    Filter = fm.Filter

    def evaluate(text, week, zone):
        d = {"field": "orders.made_raw", "value": text}
        if week is not None:
            d["week_start_day"] = week
        if zone is not None:
            d["timezone"] = zone
        return Filter(d).filter_dict()

    def untouched(info):
        # the host application's calendar arithmetic is not the library's to change
        if frozen("UTC").start_of("week").weekday() != 0 or frozen("UTC").end_of("week").weekday() != 6:
            pendulum.week_starts_at(pendulum.MONDAY)
            pendulum.week_ends_at(pendulum.SUNDAY)
            ck.bad("global-week", "evaluating filters left the process with another first day of the week", info)

    def windows(r, i):
        zone = r.choice(ZONES)
        for _ in range(r.choice([1, 3, 8])):
            week = r.choice(WEEK + [None])
            zone = r.choice([zone, r.choice(ZONES), None])
            MOMENT[0] = moment(r, zone or "UTC")
            today = MOMENT[0].astimezone(ZoneInfo(zone or "UTC")).date()
            ws = WEEK.index(week) if week else 0
            if r.random() < 0.15:
                b = r.choice(BROKEN)
                try:
                    evaluate(b, r.choice(WEEK), zone)
                    ck.counts["broken_accepted"] += 1
                except Exception:
                    ck.counts["broken_refused"] += 1
                untouched({"expression": b})
            text, lo, hi, closing = expression(r, today, ws)
            got = evaluate(text, week, zone)
            glo, ghi = window(got)
            ck.case((text, week, zone, MOMENT[0]), {"expression": text, "now": str(MOMENT[0]), "zone": zone, "week_start": week,
                                                    "window": [str(glo), str(ghi)]})
            ck.counts["windows"] += 1
            ck.seen("week", week), ck.seen("zone", zone)
            info = {"expression": text, "now": str(MOMENT[0]), "zone": zone, "week_start": week, "today": str(today),
                    "got": [str(glo), str(ghi)], "expected": [str(lo), str(hi)]}
            if (glo, ghi) != (lo, hi):
                if closing == "quarter" and glo == lo and ghi is not None and hi is not None and ghi == hi.replace(hour=0, minute=0, second=0):
                    ck.bad("quarter-last-day", "the window stops at the first moment of the quarter's last day", info)
                else:
                    ck.bad("window", "the filter selects another window than it names", info)
            untouched(info)

    ck.run("windows", ck.pick(6000, 120000), windows)

    def compiled(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = rich_world(r, dialect, fan=False, week=False, extra_dims=0)
        week = r.choice(WEEK + [None])
        if week:
            w.model["week_start_day"] = week
        zone = r.choice(["America/New_York", "Asia/Tokyo", "Europe/Berlin", None])
        if zone:
            w.model["timezone"] = zone
            w.model["default_convert_tz"] = False
        ws = WEEK.index(week) if week else 0
        c = w.connection()
        for _ in range(4):
            MOMENT[0] = moment(r, zone or "UTC")
            today = MOMENT[0].astimezone(ZoneInfo(zone or "UTC")).date()
            text, lo, hi, closing = expression(r, today, ws)
            if closing == "quarter":
                continue
            tf = r.choice(["raw", "date", "date", "month"])
            lo_, hi_ = lo or dt.datetime(2000, 1, 1), hi or dt.datetime(2035, 1, 1)
            sec, day = dt.timedelta(seconds=1), dt.timedelta(1)
            moments = {lo_, lo_ - sec, lo_ + sec, hi_, hi_ + sec, hi_ - sec, lo_ - day, hi_ + day, lo_ + (hi_ - lo_) / 2,
                       lo_ + day, hi_ - day, lo_ + 3600 * sec, hi_ + 3600 * sec}
            moments = sorted({m.replace(microsecond=0) for m in moments})
            rows = []
            for j, m in enumerate(moments):
                row = dict(w.views["orders"].rows[0]) if w.views["orders"].rows else {c_: None for c_, _ in w.views["orders"].cols}
                row["id"] = "i%d" % j
                row["made"] = m
                rows.append(row)
            nul = dict(rows[0], id="null", made=None)
            rows.append(nul)
            t = tables_with(w, {"orders": rows})
            req = {"metrics": [], "dimensions": ["orders.id"], "where": [{"field": "orders.made_" + tf, "expression": "matches", "value": text}]}
            frame_ = {"raw": lambda x: x, "date": lambda x: midnight(x.date()), "month": lambda x: midnight(x.date().replace(day=1))}[tf]
            want = sorted(x["id"] for x in rows if x["made"] is not None and (lo is None or frame_(x["made"]) >= lo)
                          and (hi is None or frame_(x["made"]) <= hi))
            sql = compile_(c, dialect, req)
            cols, got_rows, _ = execute(w, sql, now=NOW, tables=t)
            got = sorted(x[0] for x in got_rows)
            ck.case((dialect, text, week, zone, MOMENT[0], tf), {"sql": sql, "now": str(MOMENT[0]), "selected": len(got), "of": len(rows)},
                    nontrivial=0 < len(want) < len(rows))
            ck.counts["compiled"] += 1
            ck.seen("dialect", dialect)
            if got != want:
                ck.bad("compiled", "the compiled filter selects other rows", {"dialect": dialect, "expression": text, "frame": tf, "sql": sql,
                       "now": str(MOMENT[0]), "zone": zone, "week": week, "window": [str(lo), str(hi)], "expected": want, "got": got,
                       "moments": [str(x) for x in moments]})

    ck.run("compiled", ck.pick(250, 3000), compiled)

    def dashboards(r, i):
        """Dashboard filters use the model's first day of the week and the project's timezone."""
        w = rich_world(r, "SNOWFLAKE", fan=False, week=False, extra_dims=0)
        week, zone = r.choice(WEEK + [None]), r.choice(ZONES + [None])
        if week:
            w.model["week_start_day"] = week
        if zone:
            w.model["timezone"] = zone
        MOMENT[0] = moment(r, zone or "UTC")
        today = MOMENT[0].astimezone(ZoneInfo(zone or "UTC")).date()
        exps = [expression(r, today, WEEK.index(week) if week else 0) for _ in range(2)]
        w.dashboards = [{"type": "dashboard", "name": "board", "layout": "grid", "filters": [{"field": "orders.made_raw", "value": exps[0][0]}],
                         "elements": [{"type": "plot", "title": "x", "model": w.model["name"], "metric": "orders.total_amt", "slice_by": ["orders.kind"],
                                       "filters": [{"field": "orders.made_raw", "value": exps[1][0]}]}]}]
        p = w.project()
        d = p.get_dashboard("board")
        for e, got in zip(exps, [d.parsed_filters(), d.elements()[0].parsed_filters()]):
            ck.counts["dashboards"] += 1
            ck.case(("dash", e[0], week, zone, MOMENT[0]))
            win = window(got)
            if win != (e[1], e[2]) and not (e[3] == "quarter" and win == (e[1], e[2].replace(hour=0, minute=0, second=0))):
                ck.bad("dashboard", "a dashboard's filter selects another window", {"expression": e[0], "week": week, "zone": zone, "now": str(MOMENT[0]),
                       "got": [str(x) for x in win], "expected": [str(e[1]), str(e[2])]})
    ck.run("dashboards", ck.pick(300, 4000), dashboards)


ck = Check("C07", "random current moments at calendar edges in ten zones with all first days of the week: every filter expression's "
           "window compared with an independent calendar, compiled filters executed on rows around the window's edges, dashboards' filters; "
           "non-trivial compiled cases select some but not all rows")
main(ck, body, need=[("windows", 8000), ("compiled", 300), ("dashboards", 200)])
