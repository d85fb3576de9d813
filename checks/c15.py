import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from mlv.meta import *
from mlv.values import and3, or3, same
from mlv.world import CATS, TSQL
from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError
from metrics_layer.core.sql.query_errors import ParseError

NO_TERMINATOR = {"DRUID", "TRINO"}
NASTY = ["a BY b", "x HAVING y", "ORDER BY z", "it''s", "MQL(total_amt BY chan)", "(", ")", "THEN", "a, b", "-- c", ";", "LIMIT 5", "FROM t", "within 3 days", "FUNNEL", "/* x */", "  two  spaces "]

DIALECT = [None]


def lit(x):
    return "'%s'" % x if isinstance(x, str) else repr(x)


def cond(r, q):
    """A condition as SQL text over ${field}, and as a structured filter (None when it has no such form)."""
    f = "${%s}" % q.id
    sp = r.choice([" ", " ", "  ", "\n"])
    if q.vt == "str":
        x, y = r.sample(CATS, 2)
        nasty = r.choice(NASTY)
        plain = nasty.replace("''", "'")
        if DIALECT[0] in ("BIGQUERY", "DATABRICKS"):
            nasty = nasty.replace("''", "\\'")
        return r.choice([
            (f + sp + "=" + sp + lit(x), {"field": q.id, "expression": "equal_to", "value": x}),
            (f + " <> " + lit(x), {"field": q.id, "expression": "not_equal_to", "value": x}),
            (f + " != " + lit(nasty), {"field": q.id, "expression": "not_equal_to", "value": plain}),
            (f + " <> " + lit(nasty), {"field": q.id, "expression": "not_equal_to", "value": plain}),
            (f + " in (" + lit(x) + "," + sp + lit(nasty) + ")", {"field": q.id, "expression": "isin", "value": [x, plain]}),
            (f + " not in (" + lit(nasty) + ", " + lit(y) + ")", {"field": q.id, "expression": "isnotin", "value": [plain, y]}),
            (f + sp + r.choice(["is null", "IS NULL"]), {"field": q.id, "expression": "is_null", "value": None}),
            (f + " is" + sp + "not null", {"field": q.id, "expression": "is_not_null", "value": None}),
        ])
    if q.vt == "num":
        n = r.choice([0, 2, 5, 10, 1.5])
        return r.choice([
            (f + ">" + repr(n), {"field": q.id, "expression": "greater_than", "value": n}),
            (f + sp + "<=" + sp + repr(n), {"field": q.id, "expression": "less_or_equal_than", "value": n}),
            (f + " = " + repr(n), {"field": q.id, "expression": "equal_to", "value": n}),
            (f + " between 0 " + r.choice(["and", "AND"]) + " 5", {"conditions": [{"field": q.id, "expression": "greater_or_equal_than", "value": 0}, {"field": q.id, "expression": "less_or_equal_than", "value": 5}]}),
            (f + " is not null", {"field": q.id, "expression": "is_not_null", "value": None}),
        ])
    return (f + " is not null", {"field": q.id, "expression": "is_not_null", "value": None})


def clause(r, items, n, depth=0):
    """(text, list of structured filters) of n conditions joined by one operator, possibly with groups."""
    op = r.choice(["and", "or"]) if n > 1 else "and"
    texts, filters = [], []
    for _ in range(n):
        if depth < 1 and r.random() < 0.2:
            t, f = clause(r, items, 2, depth + 1)
            texts.append("(" + t + ")")
            filters.append({"conditions": f[0]["conditions"], "logical_operator": f[0]["logical_operator"]} if "logical_operator" in f[0] else {"conditions": f})
        else:
            t, f = cond(r, r.choice(items))
            texts.append("(" + t + ")" if op == "or" and "conditions" in f else t)
            filters.append(f)
    spell = lambda o: r.choice([o, o.upper(), o.title()])
    text = texts[0]
    for t in texts[1:]:
        text += r.choice([" ", "\n", "  "]) + spell(op) + r.choice([" ", "\n"]) + t
    if op == "or":
        filters = [{"conditions": filters, "logical_operator": "OR"}]
    return text, filters


def case_of(r, word):
    return r.choice([word, word.lower(), word.title(), "".join(r.choice([c.lower(), c.upper()]) for c in word)])


def gap(r, must=True):
    s = "".join(r.choice([" ", " ", "\n", "\t", "  ", "\n    "]) for _ in range(r.choice([1, 1, 1, 2])))
    if r.random() < 0.05:
        s += r.choice(["-- a BY note )\n", "/* HAVING ( */ "])
    return s if must or r.random() < 0.7 else ""


def names(r, xs, w):
    """Field names as a caller may write them: qualified, or bare when only one view has the name."""
    out = []
    for x in xs:
        if w is None:
            return xs
        bare = x.split(".")[-1]
        n = sum(any(q.name == bare or q.name + "_" + (q.tf or "") == bare for q in v.dims()) or bare in v.fields for v in w.views.values())
        out.append(bare if n == 1 and "." in x and r.random() < 0.4 else x)
    return out


def body(ck):
    def one_part(r, w):
        """A structured request, the same with its conditions as text, and its MQL spelling."""
        home = r.choice(["orders", "orders", "visits", "customers", "spend"])
        kind = r.random()
        views = [home] + (["customers"] if home in ("orders", "visits") and r.random() < 0.4 else [])
        specials = [s.id for s in w.specials.values() if s.view == home and s.sk == "nonadd"]
        ms = [m.id for m in r.sample(plain_metrics(w, home), r.choice([1, 1, 2]))]
        if specials and kind < 0.08:
            ms.append(r.choice(specials))
        merged = kind > 0.93
        pool = [q for v in views for q in qd(w, v)]
        ds = [q.id for q in r.sample(pool, r.choice([0, 1, 1, 2, 3]))]
        if merged:
            ms, ds, pool = ["orders.total_amt", "visits.total_pages"], r.sample(["customers.region", "customers.seg"], r.choice([1, 2])), qd(w, "customers")
        elif r.random() < 0.12 and home != "customers":
            ds.append(r.choice(["date", "month", "kindly", "year"]))  # mapped names; also words of SQL
        if r.random() < 0.08 and ds:
            ms = []
            if not any("." in d for d in ds):
                ms = [home + "." + [m.name for m in plain_metrics(w, home)][0]]
        req = {"metrics": ms, "dimensions": ds}
        text = dict(req)
        if r.random() < 0.6:
            items = [q for q in pool if q.vt in ("str", "num") or q.tf]
            if merged or any("." not in d for d in ds):  # date conditions of merged results follow each metric's own date
                items = [q for q in items if not q.tf]
            t, f = clause(r, items, r.choice([1, 1, 2, 3]))
            req["where"], text["where"] = f, t
        if ms and r.random() < 0.35:
            hs = []
            for m in [m for m in ms if "ts" not in m][:r.choice([1, 1, 2])]:
                n = r.choice([0, 1, 2, 5])
                hs.append(("${%s} %s %s" % (m, r.choice([">", " > "]), n), {"field": m, "expression": "greater_than", "value": n}))
            hs = [h for h in hs if h[1]["field"].split(".")[1] not in w.specials]
            if hs and not merged:
                req["having"] = [h[1] for h in hs]
                text["having"] = (" " + r.choice(["and", "AND"]) + "\n").join(h[0] for h in hs)
        if r.random() < 0.4 and not merged and w.dialect not in TSQL:
            cols = [x for x in r.sample(ms + ds, len(ms + ds))[:2] if "." in x]
            if cols:
                spec = [(x, r.choice(["", " desc", " DESC", " asc"])) for x in cols]
                req["order_by"] = [{"field": x, "sort": "desc" if "desc" in s.lower() else "asc"} for x, s in spec]
                text["order_by"] = ", ".join(x + s for x, s in spec)
        return req, text

    def spell(r, w, text):
        g = lambda: gap(r)
        comma = lambda xs: (gap(r, False) + "," + gap(r, False)).join(xs)
        s = gap(r, False)
        if text["metrics"]:
            s += comma(names(r, text["metrics"], w)) + g()
        if text.get("funnel"):
            fu = text["funnel"]
            s += case_of(r, "FOR") + g() + fu["view_name"] + g() + case_of(r, "FUNNEL") + g() + (g() + case_of(r, "THEN") + g()).join(fu["steps"]) + g()
            s += case_of(r, "WITHIN") + g() + str(fu["within"]["value"]) + g() + case_of(r, fu["within"]["unit"]) + g()
        if text["dimensions"]:
            s += case_of(r, "BY") + g() + comma(names(r, text["dimensions"], w)) + g()
        if "where" in text:
            s += case_of(r, "WHERE") + g() + text["where"] + g()
        if "having" in text:
            s += case_of(r, "HAVING") + g() + text["having"] + g()
        if "order_by" in text:
            s += case_of(r, "ORDER") + gap(r).split("-")[0].split("/")[0] + case_of(r, "BY") + g() + text["order_by"] + g()
        return case_of(r, "MQL") + r.choice(["", "", " ", "\n"]) + "(" + s + ")"

    def structured(c, dialect, req):
        return compile_(c, dialect, req).rstrip().rstrip(";")

    def worlds(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        DIALECT[0] = dialect
        w = rich_world(r, dialect, rows=(5, 9), fan=False, nonadd=r.random() < 0.3, cumulative=False, empty=0.03)
        c = w.connection()
        for _ in range(6):
            equivalent(r, w, c, dialect)
        surrounded(r, w, c, dialect)
        refused(r, w, c, dialect)
        if dialect not in TSQL:
            funnels(r, w, c, dialect)

    def sent(c, dialect, sql, **kw):
        return c.get_sql_query(sql=sql, query_type=dialect, **kw)

    def equivalent(r, w, c, dialect):
        req, text = one_part(r, w)
        mql = spell(r, w, text)
        alone = r.random() < 0.3
        full = mql if alone else "SELECT * FROM " + mql + " AS q"
        info = {"dialect": dialect, "mql": full, "request": req}
        try:
            direct = structured(c, dialect, req)
        except (QueryError, AccessDeniedOrDoesNotExistException) as e:
            try:
                got = sent(c, dialect, full)
            except (QueryError, AccessDeniedOrDoesNotExistException, ParseError):
                ck.counts["both_refused"] += 1
                return
            if "mapped" in repr(e) or any("." not in d for d in req["dimensions"]):
                ck.counts["only_direct_refused"] += 1
                return
            ck.bad("accepted", "an embedded query compiles although its structured request is refused", dict(info, sql=got, problem=repr(e)))
            return
        try:
            got = sent(c, dialect, full)
        except QueryError as e:
            if "must be a list" in str(e) and ("where" in text or "having" in text):
                ck.counts["text_condition_refused"] += 1  # text conditions on merged queries are refused by design
                return
            raise
        try:
            want = ex(w, direct)
        except SqlError:
            ck.counts["not_run"] += 1
            return
        try:
            have = ex(w, got)
        except SqlError as e:
            ck.bad("invalid-sql", "the SQL of an embedded query does not run, the structured request's does", dict(info, sql=got, structured=direct, problem=repr(e)))
            return
        ck.counts["compared"] += 1
        for k in ("where", "having", "order_by"):
            ck.counts[k] += k in req
        ck.seen("dialect", dialect)
        ck.seen("shape", (len(req["metrics"]), len(req["dimensions"]), "where" in req, "having" in req, "order_by" in req, alone))
        ck.case((dialect, full), {"mql": full, "sql": got, "rows": have[1][:4]}, nontrivial=len(want[1]) > 1)
        detail = dict(info, sql=got, structured=direct, rows=have[1][:6], expected=want[1][:6])
        if sorted(have[0]) != sorted(want[0]):
            ck.bad("columns", "an embedded query has other columns than the structured request", dict(detail, columns=have[0], expected_columns=want[0]))
            return
        perm = [have[0].index(x) for x in want[0]]
        rows = [[row[k] for k in perm] for row in have[1]]
        if bag(rows) != bag(want[1]):
            ck.bad("rows", "an embedded query gives other rows than the structured request", detail)
            return
        if "order_by" in req:
            idx = [want[0].index(o["field"].replace(".", "_")) for o in req["order_by"]]
            if any(not same(a[k], b[k]) for a, b in zip(rows, want[1]) for k in idx):
                ck.bad("order", "an embedded query gives another order than the structured request", detail)
        if not alone and not got.startswith("SELECT * FROM (") or alone and got.startswith("("):
            ck.bad("wrapped", "the embedded part is not put in place as a sub query", detail)
        if got[len(got.rstrip("; \n")):] != ("" if dialect in NO_TERMINATOR else ";"):
            ck.bad("terminator", "the statement does not end in one terminator, or in none where the warehouse takes none", detail)

    def surrounded(r, w, c, dialect):
        """One to three embedded parts in surrounding SQL: all of it is kept, each part is its own request."""
        n = r.choice([1, 1, 2, 3])
        parts, subs = [], []
        while len(parts) < n:
            req, text = one_part(r, w)
            if parts and r.random() < 0.15:
                req, text = parts[-1][0], parts[-1][1]
            try:
                direct = {**text}
                sub = structured(c, dialect, direct)
                mql = spell(r, w, text)
            except (QueryError, AccessDeniedOrDoesNotExistException):
                return
            parts.append((req, text, mql))
            subs.append(sub)
        frames = {
            1: ["SELECT count(*) AS n FROM {0} AS q", "select *  from\n{0} as q where 1 = 1 -- MQL(a BY b)\n", "WITH t AS (SELECT * FROM {0} AS q) SELECT * FROM t", "SELECT * FROM (SELECT x.* FROM {0} x) y WHERE 'MQL(total_amt BY chan)' <> 'a'",
                "SELECT 'MQL(' AS a, q.* FROM {0} AS q;", "SELECT \"MQL\", t.mql FROM t JOIN {0} AS q ON t.id = q.id /* MQL( */ ;\n", "insert into x select * from {0} as q", "SELECT * FROM {0}", "SELECT mql FROM db.orders_t LEFT JOIN {0} as MQL_q ON true"],
            2: ["SELECT * FROM {0} AS a LEFT JOIN {1} AS b ON a.x = b.x WHERE a.y = 'MQL(z)'", "SELECT * FROM {0} AS a, {1} AS b", "SELECT * FROM {0} AS a UNION ALL SELECT * FROM {1} AS b", "with a as (select * from {0} x), b as (select * from {1} y) select * from a join b on 1=1"],
            3: ["SELECT * FROM {0} a JOIN {1} b ON a.i = b.i\nJOIN {2} c ON b.i=c.i", "SELECT (SELECT max(1) FROM {0} q) AS m, x.* FROM {1} x WHERE x.k IN (SELECT z FROM {2} AS zz)"],
        }
        frame_ = r.choice(frames[n])
        full = frame_.format(*[p[2] for p in parts])
        info = {"dialect": dialect, "mql": full}
        got = sent(c, dialect, full)
        # conditions may keep their line breaks or not: white space outside of quotes has no meaning
        squeeze = lambda t: [x if x[:1] in "'\"" else re.sub(r"\s+", "", x) for x in re.findall(r"'(?:[^'\\\\]|\\\\.|'')*'|\"[^\"]*\"|[^'\"]+", t)]
        exp = frame_.format(*["(" + s + ")" for s in subs])
        pieces = re.split(r"\{\d\}", frame_)
        ck.counts["surrounded"] += 1
        ck.seen("frame", frame_)
        ck.case((dialect, full), {"mql": full, "sql": got})
        pos = 0
        for p in pieces[:-1]:
            k = got.find(p, pos)
            if k < 0:
                ck.bad("surroundings", "SQL around an embedded part is changed", dict(info, sql=got, expected=exp, piece=p))
                return
            pos = k + len(p)
        bare = lambda t: t.rstrip("; \n")
        if not bare(got).endswith(bare(pieces[-1])) or got.count(";") - exp.count(";") != (0 if exp.rstrip().endswith(";") or dialect in NO_TERMINATOR else 1) or not got.startswith(pieces[0]):
            ck.bad("surroundings", "SQL after an embedded part is changed", dict(info, sql=got, expected=exp))
            return
        flat = lambda t: "".join(squeeze(t)).rstrip(";").lower()
        if flat(got) != flat(exp):
            ck.bad("part", "an embedded part is not the SQL of its structured request", dict(info, sql=got, expected=exp))

    def funnels(r, w, c, dialect):
        cnd = lambda: clause(r, qd(w, "orders", ()), r.choice([1, 1, 2]), depth=1)[0]
        steps = [cnd() for _ in range(r.choice([1, 2, 3]))]
        text = {"metrics": ["orders.order_count"], "dimensions": r.sample(["orders.chan", "customers.region"], r.choice([0, 1])),
                "funnel": {"steps": steps, "within": {"value": r.choice([1, 5, 30]), "unit": r.choice(["days", "hours", "weeks"])}, "view_name": "orders"}}
        if r.random() < 0.4:
            text["where"] = cnd()
        full = "SELECT * FROM " + spell(r, None, text) + " AS q"
        flat = lambda t: "".join(x if x[0] == "'" else re.sub(r"\s+", "", x).lower() for x in re.findall(r"'(?:[^'\\]|\\.|'')*'|[^']+", t))
        want = structured(c, dialect, text)
        got = sent(c, dialect, full)
        ck.counts["funnels"] += 1
        ck.case((dialect, full), {"mql": full, "sql": got})
        if flat(got) != flat("SELECT * FROM (" + want + ") AS q" + ("" if dialect in NO_TERMINATOR else ";")):
            ck.bad("funnel", "an embedded funnel is not the SQL of its structured request", {"dialect": dialect, "mql": full, "sql": got, "structured": want})

    def refused(r, w, c, dialect):
        """Malformed text and unknown names end in an error, never in SQL without the part."""
        m, d = "orders.total_amt", "orders.chan"
        bad = r.choice([
            "SELECT * FROM MQL(%s BY %s" % (m, d), "SELECT * FROM MQL %s BY %s" % (m, d), "SELECT * FROM MQL", "SELECT * FROM MQL()", "SELECT * FROM MQL( )",
            "SELECT * FROM MQL(%s BY)" % m, "SELECT * FROM MQL(%s BY %s,)" % (m, d), "SELECT * FROM MQL(%s,, orders.order_count BY %s)" % (m, d),
            "SELECT * FROM MQL(%s BY %s LIMIT 5)" % (m, d), "SELECT * FROM MQL(%s BY nothing)" % m, "SELECT * FROM MQL(nothing BY %s)" % d, "SELECT * FROM MQL(%s BY %s extra)" % (m, d),
            "SELECT * FROM MQL(%s WHERE)" % m, "SELECT * FROM MQL(%s BY %s BY orders.kind)" % (m, d), "SELECT * FROM MQL(%s BY %s HAVING ${orders.total_amt} > 1 HAVING ${orders.total_amt} > 2)" % (m, d),
            "SELECT * FROM MQL(%s BY %s WHERE ${orders.nope} = 1)" % (m, d), "SELECT * FROM MQL(%s BY %s ORDER BY orders.nope)" % (m, d), "SELECT * FROM MQL(%s BY orders.nope) AS a" % m,
            "SELECT * FROM MQL(orders.order_count FOR orders FUNNEL ${orders.chan} = 'a' THEN ${orders.chan} = 'b') AS q", "SELECT * FROM MQL(orders.order_count FOR orders FUNNEL ${orders.chan} = 'a' WITHIN soon) AS q",
            "SELECT * FROM MQL(orders.order_count FOR orders FUNNEL ${orders.chan} = 'a' THEN WITHIN 3 days) AS q", "SELECT * FROM MQL(orders.order_count BY 5)", "SELECT * FROM MQL(%s BY %s) a JOIN MQL(%s BY" % (m, d, m),
            "WITH t AS (SELECT * FROM MQL(%s BY orders.nope) q) SELECT * FROM t" % m, "SELECT * FROM MQL(%s BY %s GROUP BY orders.kind)" % (m, d),
        ])
        try:
            got = sent(c, dialect, bad)
        except (ParseError, QueryError, AccessDeniedOrDoesNotExistException) as e:
            ck.counts["refused"] += 1
            ck.seen("refusal", (bad, type(e).__name__))
            return
        ck.bad("malformed", "malformed embedded text is not refused", {"dialect": dialect, "mql": bad, "sql": got})

    ck.run("worlds", ck.pick(280, 7000), worlds)


ck = Check("C15", "random structured requests spelled in the embedded language with random casing, layout, comments and hostile quoted text, alone and inside surrounding SQL with one to three parts; compared with the structured "
           "request by executing both on random data (text without white space for surrounded parts and funnels); malformed texts; ten dialects; non-trivial cases have more than one row")
main(ck, body, need=[("compared", 900), ("where", 400), ("having", 150), ("order_by", 200), ("surrounded", 180), ("funnels", 150), ("refused", 200)])
