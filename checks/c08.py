import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import re
from mlv.common import Check, main
from mlv.drive import compile_
from mlv.sqlengine import Engine
from mlv.sqlparse_ import SqlError
from mlv.values import and3, not3, or3
from mlv.world import DIALECTS, TS, TSQL

HOSTILE = ["a'b", "'", "''", "\\", "a\\", "\\'", "x' OR '1'='1", "x') OR (1=1", "a;b", "-- c", "/* c */", "$$", "{% x %}", "NULL", "null", "1", "1.5",
           "-1", "no.pe", "ünï", "日本", "a\nb", "a\tb", '"', "`", "#", "a''b", "\\n", "today", "2024-01-01", "?", ":x", "%s", "{0}", "$1", "@x", "1 day",
           "MQL(", "", " ", "a b", "a  b", "  x", "a   ", "x' UNION SELECT 1 --", "\\\\'", "r'x'", "'a'", "a' 'b", "(", ")", "[", "]", "a_b", "a%b", "100%", "_", "%",
           # names of fields, views and columns, which are no references without a view's name
           "u", "g", "cnt", "id", "name", "t", "par", "at", "at_date", "tot"]
PLAIN = ["a", "b", "Ab", "B", "cab", "bc", "c", "AB"]
NUMS = [-3, -1, 0, 1, 2, 3, 10, 1000000]
FLOATS = [-2.5, 0.0, 0.25, 1.5, 3.0]


def wild(pattern):
    return re.compile("".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in pattern), re.S)


class T:
    """One table and its view."""

    def __init__(self, r, dialect):
        self.dialect = dialect
        self.rows = []
        pool = r.sample(HOSTILE, 10) + PLAIN
        self.pool = pool
        for k in range(r.randrange(18, 40)):
            self.rows.append({
                "id": "i%d" % k, "s": r.choice(pool + [None]), "u": r.choice(PLAIN + [None]), "n": r.choice(NUMS + [None]),
                "x": r.choice(FLOATS + [None]), "b": r.choice([True, False, None]) if dialect not in TSQL else r.choice([1, 0, None]),
                "at": r.choice([TS(2024, 1, 1), TS(2024, 1, 1, 12), TS(2024, 2, 29, 23, 59, 59), TS(2023, 12, 31), None]), "g": r.choice("pqr"),
                "p": r.choice(["k1", "k2", "k3", None])})
        self.parents = [{"id": "k%d" % k, "name": r.choice(pool)} for k in (1, 2, 3)]

    def view(self, extra=()):
        return {"type": "view", "name": "t", "model_name": "m", "sql_table_name": "db.t_t", "default_date": "at",
                "identifiers": [{"name": "tk", "type": "primary", "sql": "${id}"}, {"name": "pk", "type": "foreign", "sql": "${TABLE}.p"}],
                "fields": [
                    {"name": "id", "field_type": "dimension", "type": "string", "sql": "${TABLE}.id", "primary_key": True},
                    {"name": "s", "field_type": "dimension", "type": "string", "sql": "${TABLE}.s"},
                    {"name": "s2", "field_type": "dimension", "type": "string", "sql": "case when ${TABLE}.n > 0 or 1 = 2 then ${s} end"},
                    {"name": "u", "field_type": "dimension", "type": "string", "sql": "${TABLE}.u"},
                    {"name": "n", "field_type": "dimension", "type": "number", "sql": "${TABLE}.n"},
                    {"name": "x", "field_type": "dimension", "type": "number", "sql": "${TABLE}.x"},
                    {"name": "g", "field_type": "dimension", "type": "string", "sql": "${TABLE}.g"},
                    {"name": "yes", "field_type": "dimension", "type": "yesno", "sql": "${TABLE}.b"},
                    {"name": "big", "field_type": "dimension", "type": "yesno", "sql": "${n} > 1 or ${n} < -1"},
                    {"name": "band", "field_type": "dimension", "type": "tier", "tiers": [0, 2], "sql": "${n}"},
                    {"name": "at", "field_type": "dimension_group", "type": "time", "timeframes": ["raw", "date", "month"], "sql": "${TABLE}.at"},
                    {"name": "cnt", "field_type": "measure", "type": "count"},
                    {"name": "tot", "field_type": "measure", "type": "sum", "sql": "${n}"},
                    {"name": "top", "field_type": "measure", "type": "max", "sql": "${x}"},
                    {"name": "ratio", "field_type": "measure", "type": "number", "sql": "1.0 * ${tot} / nullif(${cnt}, 0)"},
                ] + list(extra)}

    def parent(self):
        return {"type": "view", "name": "par", "model_name": "m", "sql_table_name": "db.par_t",
                "identifiers": [{"name": "pk", "type": "primary", "sql": "${id}"}],
                "fields": [{"name": "id", "field_type": "dimension", "type": "string", "sql": "${TABLE}.id", "primary_key": True},
                           {"name": "name", "field_type": "dimension", "type": "string", "sql": "${TABLE}.name"}]}

    def connection(self, extra=()):
        from metrics_layer.core import MetricsLayerConnection
        from metrics_layer.core.model.project import Project
        model = {"type": "model", "name": "m", "connection": "c"}
        return MetricsLayerConnection(project=Project(models=[model], views=[self.view(extra), self.parent()],
                                                      connection_lookup={"c": self.dialect}), connections=[])

    def run(self, sql):
        cols = ["id", "s", "u", "n", "x", "b", "at", "g", "p"]
        e = Engine(self.dialect, {"db.t_t": (cols, [tuple(x[c] for c in cols) for x in self.rows]),
                                  "db.par_t": (["id", "name"], [(p["id"], p["name"]) for p in self.parents])}, now=TS(2024, 6, 1))
        return e.run(sql)

    def value(self, row, f):
        n = row["n"]
        if f == "s2":
            return row["s"] if n is not None and n > 0 else None
        if f == "yes":
            return None if row["b"] is None else bool(row["b"])
        if f == "big":
            return None if n is None else (n > 1 or n < -1)
        if f == "band":
            return "Unknown" if n is None else "Below 0" if n < 0 else "[0,2)" if n < 2 else "[2,inf)"
        if f == "at_raw":
            return row["at"]
        if f == "at_date":
            return row["at"] and TS(row["at"].year, row["at"].month, row["at"].day)
        if f == "at_month":
            return row["at"] and TS(row["at"].year, row["at"].month, 1)
        if f == "par.name":
            return next((p["name"] for p in self.parents if p["id"] == row["p"]), None)
        return row[f]


TEXT = ["s", "s", "s", "s2", "u", "par.name"]
COMPARE = {"equal_to": lambda a, b: a == b, "not_equal_to": lambda a, b: a != b, "less_than": lambda a, b: a < b, "greater_than": lambda a, b: a > b,
           "less_or_equal_than": lambda a, b: a <= b, "greater_or_equal_than": lambda a, b: a >= b}
LIKES = {"contains": lambda a, b: b in a, "starts_with": lambda a, b: a.startswith(b), "ends_with": lambda a, b: a.endswith(b)}


def strict(fn):
    return lambda v: None if v is None else fn(v)


def text_value(r, t):
    return r.choice(t.pool if r.random() < 0.8 else HOSTILE)


def pattern_value(r, t):
    """LIKE's own pattern characters, and its escape character, keep their meaning in patterns."""
    for _ in range(50):
        v = text_value(r, t)
        if not set(v) & set("%_\\["):
            return v
    return "a"


def condition(r, t):
    """(structured filter, predicate on the field's value, field)"""
    k = r.random()
    if k < 0.6:
        f = r.choice(TEXT)
        fid = f if "." in f else "t." + f
        j = r.randrange(12)
        if j < 3:
            v, op = text_value(r, t), r.choice(["equal_to", "not_equal_to"])
            return {"field": fid, "expression": op, "value": v}, strict(lambda a: COMPARE[op](a, v)), f
        if j < 6:
            vs, op = [text_value(r, t) for _ in range(r.choice([1, 2, 3, 5]))], r.choice(["isin", "isnotin"])
            if r.random() < 0.2:
                vs = tuple(vs)
            return {"field": fid, "expression": op, "value": vs}, strict(lambda a: (a in vs) == (op == "isin")), f
        if j < 10:
            base, neg, ci = r.choice(list(LIKES)), r.random() < 0.5, r.random() < 0.5
            op = {"contains": "contains", "starts_with": "start_with", "ends_with": "end_with"}[base]
            op = ("does_not_" + ("contain" if base == "contains" else op)) if neg else base
            op += "_case_insensitive" if ci else ""
            v = pattern_value(r, t)
            fold = (lambda a: a.lower()) if ci else (lambda a: a)
            return {"field": fid, "expression": op, "value": v}, strict(lambda a: LIKES[base](fold(a), fold(v)) != neg), f
        if j == 10:
            v = "%".join(pattern_value(r, t) for _ in range(2)) + r.choice(["", "%", "_"])
            return {"field": fid, "expression": "like", "value": v}, strict(lambda a: wild(v).fullmatch(a) is not None), f
        op = r.choice(["is_null", "is_not_null"])
        d = {"field": fid, "expression": op}
        if r.random() < 0.5:
            d["value"] = None
        return d, lambda a: (a is None) == (op == "is_null"), f
    if k < 0.8:
        f = r.choice(["n", "x"])
        vals = NUMS if f == "n" else FLOATS
        if r.random() < 0.3:
            vs, op = [r.choice(vals) for _ in range(r.choice([1, 2, 3]))], r.choice(["isin", "isnotin"])
            given = [str(v) for v in vs] if r.random() < 0.3 else vs
            return {"field": "t." + f, "expression": op, "value": given}, strict(lambda a: (a in vs) == (op == "isin")), f
        v, op = r.choice(vals), r.choice(list(COMPARE))
        return {"field": "t." + f, "expression": op, "value": v}, strict(lambda a: COMPARE[op](a, v)), f
    if k < 0.9 and t.dialect not in TSQL:
        f = r.choice(["yes", "big"])
        j = r.randrange(5)
        if j < 2:
            v, op = r.choice([True, False]), r.choice(["equal_to", "not_equal_to"])
            return {"field": "t." + f, "expression": op, "value": v}, strict(lambda a: COMPARE[op](a, v)), f
        if j == 2:
            op = r.choice(["boolean_true", "boolean_false"])
            return {"field": "t." + f, "expression": op}, strict(lambda a: a == (op == "boolean_true")), f
        if j == 3:
            vs, op = r.choice([[True], [False], [True, False]]), r.choice(["isin", "isnotin"])
            return {"field": "t." + f, "expression": op, "value": vs}, strict(lambda a: (a in vs) == (op == "isin")), f
        op = r.choice(["is_null", "is_not_null"])
        return {"field": "t." + f, "expression": op, "value": None}, lambda a: (a is None) == (op == "is_null"), f
    if k < 0.94:
        v, op = r.choice(["Unknown", "Below 0", "[0,2)", "[2,inf)", "zz"]), r.choice(["equal_to", "not_equal_to"])
        return {"field": "t.band", "expression": op, "value": v}, strict(lambda a: COMPARE[op](a, v)), "band"
    f = r.choice(["at_raw", "at_date", "at_month"])
    v, op = r.choice([TS(2024, 1, 1), TS(2024, 2, 29), TS(2024, 1, 1, 12), TS(2023, 12, 31)]), r.choice(list(COMPARE))
    return {"field": "t." + f, "expression": op, "value": v}, strict(lambda a: COMPARE[op](a, v)), f


def tree(r, t, depth=0):
    """(filter, row predicate, fields)"""
    if depth < 3 and r.random() < (0.35 if depth == 0 else 0.3):
        parts = [tree(r, t, depth + 1) for _ in range(r.choice([1, 2, 2, 3]))]
        op = r.choice(["AND", "OR", "OR", None])
        d = {"conditions": [p[0] for p in parts]}
        if op:
            d["logical_operator"] = op
        f = or3 if op == "OR" else and3
        return d, lambda row: f(p[1](row) for p in parts), [x for p in parts for x in p[2]]
    d, pred, f = condition(r, t)
    return d, lambda row: pred(t.value(row, f)), [f]


def body(ck):
    def judge(t, conn, req, want, info, mech, single=True):
        sql = compile_(conn, t.dialect, req)
        info = dict(info, dialect=t.dialect, request=req, sql=sql)
        try:
            cols, rows = t.run(sql)
        except SqlError as e:
            ck.bad(mech if mech in ck.known else mech + "-invalid", "the compiled filter is not valid SQL", dict(info, error=repr(e)))
            return
        got = sorted((tuple(x) if not single else x[0] for x in rows), key=repr)
        if got != want:
            ck.bad(mech, "the filter selects other rows", dict(info, expected=want, got=got, rows=[{k: str(v) for k, v in x.items()} for x in t.rows]))

    def where(r, i):
        t = T(r, DIALECTS[i % len(DIALECTS)])
        conn = t.connection()
        for _ in range(6):
            parts = [tree(r, t) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            want = sorted((x["id"] for x in t.rows if and3(p[1](x) for p in parts) is True), key=repr)
            req = {"metrics": [], "dimensions": ["t.id"], "where": [p[0] for p in parts]}
            ck.case((t.dialect, repr(req)), {"request": req, "selected": len(want), "rows": len(t.rows)}, nontrivial=0 < len(want) < len(t.rows))
            ck.counts["where"] += 1
            for p in parts:
                for op in re.findall(r"'expression': '(\w+)'", repr(p[0])):
                    ck.seen("operator", op)
                for v in re.findall(r"'value': (.+?)[,}]", repr(p[0])):
                    ck.seen("value", v)
            ck.seen("dialect", t.dialect)
            judge(t, conn, req, want, {}, "where")

    ck.run("where", ck.pick(420, 6000), where)

    def having(r, i):
        t = T(r, DIALECTS[i % len(DIALECTS)])
        conn = t.connection()
        groups = {}
        for x in t.rows:
            groups.setdefault(x["g"], []).append(x)

        def agg(rows, m):
            ns = [x["n"] for x in rows if x["n"] is not None]
            xs = [x["x"] for x in rows if x["x"] is not None]
            return {"cnt": len(rows), "tot": sum(ns) if ns else None, "top": max(xs) if xs else None,
                    "ratio": sum(ns) / len(rows) if ns else None}[m]

        def one(depth=0):
            if depth < 2 and r.random() < 0.3:
                ps = [one(depth + 1) for _ in range(2)]
                op = r.choice(["AND", "OR"])
                return {"conditions": [p[0] for p in ps], "logical_operator": op}, lambda rows: (or3 if op == "OR" else and3)(p[1](rows) for p in ps)
            m = r.choice(["cnt", "tot", "top", "ratio"])
            j = r.randrange(8)
            vals = {"cnt": [1, 3, 5, 8], "tot": NUMS, "top": FLOATS, "ratio": [-1, 0.5, 2, 100]}[m]
            if j == 0:
                op = r.choice(["is_null", "is_not_null"])
                return {"field": "t." + m, "expression": op, "value": None}, lambda rows: (agg(rows, m) is None) == (op == "is_null")
            if j == 1 and m != "ratio":
                vs, op = r.sample(vals, 2), r.choice(["isin", "isnotin"])
                return {"field": "t." + m, "expression": op, "value": vs}, lambda rows: None if agg(rows, m) is None else (agg(rows, m) in vs) == (op == "isin")
            v, op = r.choice(vals), r.choice(list(COMPARE)[2:] if m == "ratio" else list(COMPARE))
            return {"field": "t." + m, "expression": op, "value": v}, lambda rows: None if agg(rows, m) is None else COMPARE[op](agg(rows, m), v)
        for _ in range(5):
            parts = [one() for _ in range(r.choice([1, 1, 2]))]
            want = sorted(g for g, rows in groups.items() if and3(p[1](rows) for p in parts) is True)
            req = {"metrics": ["t.cnt"], "dimensions": ["t.g"], "having": [p[0] for p in parts]}
            ck.case((t.dialect, repr(req)), nontrivial=0 < len(want) < len(groups))
            ck.counts["having"] += 1
            judge(t, conn, req, want, {}, "having")

    ck.run("having", ck.pick(80, 1200), having)

    def looker(r, i):
        """Filters in string form, on metrics and dimensions."""
        t = T(r, DIALECTS[i % len(DIALECTS)])
        quoting = t.dialect in ("BIGQUERY", "DATABRICKS", "SNOWFLAKE", "REDSHIFT")

        def plain(pattern=False):
            for _ in range(60):
                v = text_value(r, t)
                if not v or v != v.strip() or v[0] in "-%=<>" or v[-1] == "%" or ", " in v or v in ("NULL", "TRUE", "FALSE") or "${" in v or "{%" in v:
                    continue
                if v.split(" ")[0] in ("after", "before", "on") or re.search(r"(\d+|this|last)\s+(day|week|month|quarter|year)", v) or v in ("today", "yesterday"):
                    continue
                if quoting and set(v) & set("\\'"):
                    continue
                if pattern and set(v) & set("%_\\["):
                    continue
                return v
            return "a"

        def one():
            k = r.randrange(11)
            f = r.choice(["s", "u", "s2"])
            neg = r.random() < 0.5
            if k < 2:
                v = plain()
                return f, ("-" if neg else "") + v, strict(lambda a: (a == v) != neg)
            if k < 4:
                vs = [plain() for _ in range(r.choice([2, 3]))]
                return f, ", ".join(("-" if neg else "") + v for v in vs), strict(lambda a: (a in vs) != neg)
            if k == 4:
                return r.choice(["s", "n", "u", "at_raw"]), "-NULL" if neg else "NULL", lambda a: (a is None) == (not neg)
            if k < 7:
                v, how = plain(True), r.randrange(3)
                text = ["%" + v + "%", v + "%", "%" + v][how]
                test = [LIKES["contains"], LIKES["starts_with"], LIKES["ends_with"]][how]
                return f, ("-" if neg else "") + text, strict(lambda a: test(a.lower(), v.lower()) != neg)
            if k < 9:
                op, v = r.choice(["<=", ">=", "<>", "!=", "=", ">", "<"]), r.choice(NUMS)
                name = {"<=": "less_or_equal_than", ">=": "greater_or_equal_than", "<>": "not_equal_to", "!=": "not_equal_to", "=": "equal_to",
                        ">": "greater_than", "<": "less_than"}[op]
                return "n", op + str(v), strict(lambda a: COMPARE[name](a, v))
            if k == 9 and t.dialect not in TSQL:
                v, b = r.choice([("TRUE", True), ("FALSE", False), (True, True), (False, False)])
                return r.choice(["yes", "big"]), v, strict(lambda a: a == b)
            vs = r.sample(NUMS[2:], 2)
            return "n", ", ".join(map(str, vs)), strict(lambda a: a in vs)
        for _ in range(3):
            fs = [one() for _ in range(r.choice([1, 1, 2, 3]))]
            filters = [{"field": r.choice(["", "t."]) + f, "value": v} for f, v, _ in fs]
            ok = [x for x in t.rows if and3(p(t.value(x, f)) for f, _, p in fs) is True]
            extra = [{"name": "mcnt", "field_type": "measure", "type": "count", "filters": filters},
                     {"name": "msum", "field_type": "measure", "type": "sum", "sql": "${n}", "filters": filters},
                     {"name": "mdim", "field_type": "dimension", "type": "string", "sql": "${TABLE}.id", "filters": filters}]
            conn = t.connection(extra)
            ns = [x["n"] for x in ok if x["n"] is not None]
            ck.counts["looker"] += 1
            ck.case((t.dialect, repr(filters)), {"filters": filters, "selected": len(ok)}, nontrivial=0 < len(ok) < len(t.rows))
            info = {"filters": filters}
            judge(t, conn, {"metrics": ["t.mcnt", "t.msum"], "dimensions": []}, [(len(ok), sum(ns) if ns else None)], info, "metric-filter", single=False)
            judge(t, conn, {"metrics": [], "dimensions": ["t.id", "t.mdim"]},
                  sorted(((x["id"], x["id"] if x in ok else None) for x in t.rows), key=repr), info, "dimension-filter", single=False)
    ck.run("looker", ck.pick(260, 4000), looker)

    def definition_text(r, i):
        """Text in filters of definitions that the string form is known not to carry (known findings)."""
        dialect = DIALECTS[i % len(DIALECTS)]
        t = T(r, dialect)
        for v, mech in [("a'b", "definition-quote"), ("a\\", "definition-backslash"), ("2 day pass", "date-phrase-in-text"), ("last week's", "date-phrase-in-text")]:
            if mech == "date-phrase-in-text" and "'" in v and dialect in ("BIGQUERY", "DATABRICKS"):
                continue
            for x in t.rows[:6]:
                x["s"] = v
            filters = [{"field": "s", "value": v}]
            conn = t.connection([{"name": "mcnt", "field_type": "measure", "type": "count", "filters": filters}])
            want = [(sum(1 for x in t.rows if x["s"] == v),)]
            broken = {"definition-quote": dialect in ("BIGQUERY", "DATABRICKS"), "date-phrase-in-text": True,
                      "definition-backslash": dialect in ("BIGQUERY", "DATABRICKS", "SNOWFLAKE", "REDSHIFT")}[mech]
            ck.counts["definition_text"] += 1
            ck.case((dialect, v, i))
            judge(t, conn, {"metrics": ["t.mcnt"], "dimensions": []}, want, {"filters": filters}, mech if broken else "metric-filter", single=False)

    ck.run("definition_text", ck.pick(10, 40), definition_text)


ck = Check("C08", "random nested filters with hostile values on text, number, yes/no, tier and time fields, on metrics and in string form "
           "on metrics and dimensions, executed on rows holding those very values; non-trivial = some but not all rows are selected")
main(ck, body, need=[("where", 1500), ("having", 250), ("looker", 400)])
