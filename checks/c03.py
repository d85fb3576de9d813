import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import Check, main
from mlv import ref
from mlv.drive import *
from mlv.sqlparse_ import SqlError, parse
from mlv.world import *
from mlv.world import eq_on, add_edge
from metrics_layer.core.exceptions import JoinError, QueryError

NAMES = ["orders", "cust", "items", "prod", "addr", "visit"]
JT = {"LEFT": "left_outer", "INNER": "inner", "JOIN": "inner", "FULL": "full_outer", "CROSS": "cross", None: "inner"}


def aliases_in(x, out=None):
    out = set() if out is None else out
    if isinstance(x, tuple) and x and x[0] == "col" and len(x) == 2 and isinstance(x[1], tuple):
        if len(x[1]) > 1:
            out.add(x[1][-2])
    elif isinstance(x, (tuple, list)):
        for y in x:
            aliases_in(y, out)
    return out


def graph_world(r, dialect):
    """3-6 small views, mostly a connected graph, sometimes with cycles or unconnected parts."""
    w = World(dialect)
    w.dedges = {}
    n = r.choice([2, 3, 3, 4, 4, 5, 6])
    names = r.sample(NAMES, n)
    plan, used = [], set()

    def link_kind():
        return r.choice(["fk", "fk", "fk", "fk", "o2o", "join", "m2m", "cross"])

    star = r.random() < 0.25
    for i in range(1, n):
        if r.random() < 0.15:
            continue
        j = 0 if star else r.randrange(i)
        x, y = (names[i], names[j]) if r.random() < (0.8 if star else 0.5) else (names[j], names[i])
        plan.append((x, y, "fk" if star and r.random() < .8 else link_kind()))
        used.add(frozenset((x, y)))
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        x, y = r.sample(names, 2)
        if frozenset((x, y)) not in used:
            used.add(frozenset((x, y)))
            plan.append((x, y, link_kind()))
    pk_type = r.choice(["int", "str"])
    for nm in names:
        fks = [b + "_id" for a, b, k in plan if a == nm and k in ("fk", "join")]
        cols = [("id", "pk"), ("kind", "str"), ("qty", "int")]
        basic_view(r, w, nm, n_rows=r.choice([0, 1, 3, 4, 5]), fks=fks, cols=cols, derived=0, measures=1,
                   pk_type=pk_type, frames=["raw"], number=False, filt=0)
    fill_keys(r, w)
    for a, b, k in plan:
        if k == "cross":
            w.views[a].identifiers.append({"name": "x_%s_%s" % (a, b), "type": "join", "reference": b,
                                           "relationship": "many_to_many", "join_type": "cross",
                                           "sql_on": "${%s.kind} = ${%s.kind}" % (a, b)})
            add_edge(w, Edge(a, b, "many_to_many", "cross", lambda ctx: True))
            continue
        kind = k
        link(r, w, a, b, k, r.random() < 0.6)
        if kind == "fk" and r.random() < 0.2:
            # only_join on one side restricts who may join over this identifier
            side = r.choice([a, b])
            ident = next(i for i in w.views[side].identifiers if i["name"] == "%s_%s_key" % (a, b))
            if r.random() < 0.5:
                ident["only_join"] = [a if side == b else b]
            else:
                ident["only_join"] = [r.choice([x for x in NAMES if x not in (a, b)])]
                w.dedges.pop((a, b), None)
                w.dedges.pop((b, a), None)
                w.blocked = True
    # the same dimension table joined under a second name
    if r.random() < 0.3:
        a, b = r.sample(names, 2)
        v = w.views[b]
        nm = "also_" + b
        v.identifiers.append({"name": "as_key", "type": "primary", "sql": "${id}", "join_as": nm})
        src = r.choice([c for c, t in w.views[a].cols if t.startswith("fk") or t in ("pk",)])
        w.views[a].identifiers.append({"name": "as_key", "type": "foreign", "sql": "${%s}" % src})
        va = V(nm, v.table, v.cols, "id")
        va.virtual = True
        va.rows = [dict(x) for x in v.rows]
        va.add(F(nm, "id", "dim", "string", "pk", {}, col(nm, "id"), pk=True))
        va.add(F(nm, "kind", "dim", "string", "str", {}, col(nm, "kind")))
        w.views[nm] = va
        add_edge(w, Edge(a, nm, "many_to_one", "left_outer", eq_on(a, src, nm, "id")))
        w.join_as = True
    # identifiers are listed in any order
    for v in w.views.values():
        r.shuffle(v.identifiers)
    return w


def roots(w, views):
    return [b for b in w.views if reachable(w, b, views)]


def needed(base, edges, required):
    """Views on the way from the base to a required view."""
    parent = {e.b: e.a for e in edges}
    keep = set()
    for v in required:
        while v is not None and v not in keep:
            keep.add(v)
            v = parent.get(v)
    return keep


def body(ck):
    def one(r, i):
        dialect = DIALECTS[i % len(DIALECTS)]
        w = graph_world(r, dialect)
        conn = w.connection()
        project = conn.project
        names = list(w.views)
        # views listed as joinable <=> a request over both can be answered
        listing = {a: set(project.get_joinable_views(a)) for a in names}
        fieldlist = {}
        for a in names:
            f = project.get_field(a + ".kind")
            fieldlist[a] = {x.view.name for x in project.joinable_fields([f]) if x.name == "kind"}
        for _ in range(8):
            k = r.choice([1, 2, 2, 2, 3, 3, 4])
            req_views = r.sample(names, min(k, len(names)))
            dims = [w.qdim(v + ".id") for v in req_views]
            if r.random() < 0.3:
                dims.append(w.qdim(r.choice(req_views) + ".kind"))
            req = {"metrics": [], "dimensions": [q.id for q in dims], "single_query": True}
            pred = None
            wv = set(req_views)
            if r.random() < 0.25:
                fq = w.qdim(r.choice(names) + ".kind")
                f, pred = query_filter(r, fq)
                req["where"] = [f]
                wv.add(fq.view)
            info = {"dialect": dialect, "request": req, "declared": [repr(e) for e in w.dedges.values()],
                    "identifiers": {n: v.identifiers for n, v in w.views.items()}}
            can = roots(w, wv)
            try:
                sql = compile_(conn, dialect, req)
            except JoinError as e:
                ck.counts["refused"] += 1
                ck.case((dialect, req, "refused"), None, nontrivial=len(wv) > 1)
                if can:
                    ck.bad("refused-although-joinable", "a declared path exists from %r" % can, info)
                continue
            info["sql"] = sql
            if not can:
                ck.bad("answered-without-path", "no declared path joins these views, but the request was answered", info)
                continue
            ast, _ = parse(sql, dialect)
            seq = [(a, k, on) for k, (a, t), on in flatten_from(ast[2][4])]
            seen, edges, problem = [seq[0][0]], [], None
            if seq[0][0] not in w.views:
                problem = "reads %s" % seq[0][0]
            for alias, kind, on in seq[1:]:
                jt = JT.get(kind, kind)
                if alias not in w.views:
                    problem = "joins %s" % alias
                    break
                if alias in seen:
                    problem = "view %s is joined twice" % alias
                    break
                named = aliases_in(on) - {alias}
                if not named <= set(seen):
                    problem = "the condition joining %s mentions %r before it is joined" % (alias, sorted(named - set(seen)))
                    break
                cands = [w.dedges[(x, alias)] for x in seen if (x, alias) in w.dedges and
                         (x in named or w.dedges[(x, alias)].jtype == "cross")]
                exact = [e for e in cands if e.jtype == jt]
                if not exact:
                    problem = "no declared %s join from %r to %s" % (jt, sorted(named), alias)
                    break
                edges.append(exact[0])
                seen.append(alias)
            if problem is None:
                extra = set(seen) - needed(seen[0], edges, wv)
                if extra:
                    problem = "unneeded views joined: %r" % sorted(extra)
                elif not wv <= set(seen):
                    problem = "views missing: %r" % sorted(wv - set(seen))
                elif len(wv) == 2 and len(edges) > 1:
                    # a direct declared join is never passed over for a detour of higher cost
                    pass
            if problem:
                ck.bad("wrong-join", problem, info)
                continue
            try:
                cols, rows, eng = execute(w, sql)
            except SqlError as e:
                ck.bad("sql-error:" + type(e).__name__, str(e), info)
                continue
            ctxs = ref.join_rows(w, seen[0], [(e.b, e.jtype, e.on) for e in edges])
            if pred:
                ctxs = [c for c in ctxs if pred(c) is True]
            exp = ref.grouped(w, ctxs, dims, [])
            ck.counts["answered"] += 1
            ck.counts["joined"] += bool(edges)
            ck.counts["bridged"] += bool(set(seen) - wv)
            ck.counts["rows_out"] += len(rows)
            ck.seen("dialect", dialect)
            for e in edges:
                ck.seen("join", e.rel + " " + e.jtype)
            if getattr(w, "join_as", False) and any(s.startswith("also_") for s in seen):
                ck.counts["joined_under_second_name"] += 1
            ck.case((dialect, req, seen, len(rows)), {"request": req, "sql": sql, "rows": rows[:3]}, nontrivial=bool(edges) and bool(rows))
            d = ref.compare(exp, rows, len(dims))
            if d:
                info["tables"] = w.tables()
                ck.bad("wrong-rows", d, info)
        # listings
        for a in names:
            for b in names:
                if a >= b:
                    continue
                can = bool(roots(w, {a, b}))
                ck.counts["pairs_listed"] += 1
                if (b in listing[a]) != can or (a in listing[b]) != can:
                    ck.bad("joinable-listing", "views %s and %s: joinable %s, listed %s/%s" % (a, b, can, b in listing[a], a in listing[b]),
                           {"declared": [repr(e) for e in w.dedges.values()]})
                if (b in fieldlist[a]) != can:
                    ck.bad("joinable-fields", "fields of %s and %s: joinable %s, listed %s" % (a, b, can, b in fieldlist[a]),
                           {"declared": [repr(e) for e in w.dedges.values()]})
    ck.run("graph", ck.pick(450, 6000), one)


ck = Check("C03", "random join graphs of 2-7 views (foreign and one-to-one keys, custom, many-to-many and cross joins, allowed "
           "and forbidden fan-outs, only_join, join_as, cycles, unconnected parts); non-trivial = at least one join and rows came back")
main(ck, body, need=[("joined", 300), ("refused", 100), ("bridged", 20), ("pairs_listed", 500), ("rows_out", 500)])
