"""Writes properties.jsonl (kept as a script so the statements are easy to review and edit)."""
import json

M = "metrics_layer/core/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe_at, state=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": [f if f.startswith("metrics_layer/") else M + f for f in files],
                "state": state or [],
                "mechanism": [{"name": n, "where": (w if w.startswith("metrics_layer/") else M + w)} for n, w in mechanism],
                "observe_at": observe_at,
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Compiled aggregate queries return what the metric definitions denote",
    "Executing the SQL compiled for a request on one view returns exactly one row per combination of the requested dimensions among the rows that satisfy every where filter, and each metric's value is its declared aggregate (with its own filters, tiers, cases and references to other fields) over exactly those rows. Having conditions then drop whole result rows, and order_by and limit keep exactly the requested rows in the requested order. This holds in the syntax of every supported warehouse, and a request for raw rows (the metric view's primary key among the dimensions) returns the unaggregated rows.",
    ["inputs", "configurations", "programs"],
    "For every well-formed view definition, every table content (NULLs, duplicates, empty tables, negative numbers), every combination of metrics, dimensions, where, having, order_by, limit, and each of the ten warehouses.",
    "The tests compare SQL text with a hand-written expectation for a few hundred fixed requests against one fixed project; no SQL is ever executed, so they cannot say whether the text means what the metric means on any data.",
    ["sql/query_generator.py", "sql/query_dialect.py", "sql/query_filter.py", "sql/single_query_resolve.py", "model/field.py"],
    [("clause assembly", "sql/query_generator.py"), ("aggregate and raw field SQL", "model/field.py"), ("per-warehouse query builders", "sql/query_dialect.py")],
    ["get_sql_query result executed on generated tables"],
)
prop(
    "C02",
    "Joining other views never inflates or drops a metric",
    "When a request joins several views, every sum, count, count_distinct, average, sum_distinct, average_distinct, min and max equals the value computed over the distinct rows of the metric's own view (or distinct key) in each group of the joined result, no matter how many times the join repeats those rows, on every warehouse that supports it; a warehouse that cannot express this is refused or plainly aggregated only when the join cannot repeat rows. A NULL and a zero are interchangeable only for sums and counts over no rows.",
    ["inputs", "configurations", "programs"],
    "For every join tree over declared relationships (one-to-many, many-to-one, one-to-one, many-to-many), every table content including unmatched and repeated keys and NULL values, every metric type and filter on it, and the warehouses snowflake, redshift, bigquery, postgres and duckdb.",
    "Tests pin the text of the symmetric-aggregate formula for a handful of metrics; no data is ever aggregated, so neither the choice of when to use it nor the formula is settled.",
    ["sql/query_design.py", "model/field.py", "model/join_graph.py"],
    [("deciding which key stays unique after the joins", "sql/query_design.py:functional_pk"), ("symmetric aggregate formulas", "model/field.py")],
    ["get_sql_query result executed on generated tables"],
)
prop(
    "C03",
    "Joins follow the declared relationships, once each, or the request fails",
    "A compiled request joins exactly the views it needs plus intermediate views on a declared path, each once and only after the views its condition mentions, with the declared keys or condition and the declared join type, so that the joined row set equals that of the declared joins. If no declared path connects the views, or only a join that was not allowed (an undeclared fan-out) would, the request is refused with a join error rather than answered; and views are listed as joinable with each other exactly when a request over them can be answered.",
    ["configurations", "inputs", "histories"],
    "For every set of views and identifiers (primary, foreign, composite, custom join conditions, join_as duplicates, allowed fan-outs), every subset of views requested and any order of naming them.",
    "Tests use one fixed project graph; join ordering, key matching and reachability depend on the whole graph and on which subset and order of views is asked.",
    ["model/join_graph.py", "model/join.py", "sql/query_design.py"],
    [("identifier matching and graph building", "model/join_graph.py"), ("join ordering", "sql/query_design.py"), ("join condition rendering", "model/join.py")],
    ["FROM/JOIN clauses of the SQL and its executed rows", "join_graph listings on fields and views"],
)
prop(
    "C04",
    "Row-level access filters always restrict what a query can return",
    "For a user with an attribute value, every row of a view with a row-level access filter that the filter excludes has no influence on the result of any query that uses a field of that view (joining the view only as a stepping stone to another view is not covered), whatever kind of query it is (single, joined, merged, cumulative, funnel, group-by filter, arbitrarily merged, raw) and whatever filters, literal SQL conditions, or query-language text the caller adds. A caller can never widen the rows seen by adding conditions.",
    ["inputs", "configurations", "histories"],
    "For every view carrying an access filter, every user attribute value (including lists, wildcards and negations), every query kind and every extra where/having condition, including ones containing OR, comments or parentheses.",
    "Tests check the presence of one access-filter condition in the text of a few queries; non-interference over all query kinds and all caller conditions needs execution against perturbed data.",
    ["sql/query_design.py", "sql/query_generator.py", "sql/single_query_resolve.py", "sql/query_funnel.py", "sql/query_cumulative_metric.py", "sql/query_merged_results.py", "model/view.py"],
    [("access filter injection", "sql/query_design.py:get_access_filter"), ("where clause assembly", "sql/query_generator.py")],
    ["difference of executed results when only forbidden rows change"],
)
prop(
    "C05",
    "Access grants decide what the current user sees, in listings and queries",
    "A user whose attribute value is not among those a required access grant allows (on a view, field or dashboard) can neither see that object in any listing or lookup nor run a query that uses it directly, through another field's definition, a mapping, a filter or an ordering, or that reads that view's table; a user who has every required grant can do everything an unrestricted user can. The outcome depends only on the current user, never on which users were set before on the same project or connection.",
    ["configurations", "inputs", "histories"],
    "For every assignment of access grants to views, fields and dashboards, every user attribute set, every request, and every history of switching users and asking queries on one connection.",
    "Tests cover one user per fixture and a few fields; the caches keyed by user and the join graph make history matter, which a single-user test cannot reach.",
    ["model/project.py", "model/view.py", "model/field.py", "query/query.py"],
    [("grant evaluation", "model/project.py:can_access_*"), ("caches keyed by project and user", "model/project.py")],
    ["list_* / get_* results and get_sql_query outcome per user, compared with a project from which the object is absent"],
    [{"name": "user", "meaning": "current user's attributes", "where": M + "model/project.py"}],
)
prop(
    "C06",
    "Compiling a request is pure and repeatable",
    "The same request with the same project, user and clock compiles to the same SQL (or fails with the same error) every time: after any history of other requests, failed requests, listings and validations on the same connection, in a fresh process, and on a freshly loaded copy of the project. Compiling changes neither the arguments the caller passed nor the project's model, view and dashboard definitions.",
    ["histories", "inputs", "programs"],
    "For every sequence of requests, listings, failing calls and validations over any project, in any order, on one connection or on fresh ones, and for any hash seed.",
    "Each test builds a fresh project and issues one request; leaks between requests need histories.",
    ["query/query.py", "sql/resolve.py", "sql/query_generator.py", "sql/query_cumulative_metric.py", "sql/merged_query_resolve.py", "model/project.py", "model/field.py", "model/filter.py"],
    [("per-request resolvers working on shared project objects", "sql/resolve.py"), ("content-hash keyed caches", "model/project.py")],
    ["SQL text, argument snapshots, project definition snapshots before/after each call"],
)
prop(
    "C07",
    "Relative and absolute date filters select exactly the days they name",
    "A date filter expression (today, yesterday, this/last unit, 'N unit(s)', with ago, ago for, to date, ago to date; before/after/on and until with explicit dates, which stand for their first moment and are inclusive) selects exactly the timestamps, at whole seconds, in the calendar window it names, relative to the current moment in the project's timezone and with the configured first day of the week. A 'to date' window holds the complete days passed of the current period (at least its first day). Adjacent windows neither overlap nor leave gaps, and the meaning does not depend on which filters were evaluated, or failed, before; evaluating filters does not change the process's own calendar settings.",
    ["inputs", "configurations", "histories"],
    "For every supported expression, every current date and time (month ends, leap days, year ends, week boundaries, DST), all seven first days of the week, any project timezone, and any earlier evaluation in the process.",
    "Tests evaluate each expression at the real current date or a few frozen ones with mostly one week start, comparing with values computed by the same library calls.",
    ["model/filter.py", "sql/query_filter.py"],
    [("expression parsing and window arithmetic", "model/filter.py"), ("global week start state", "model/filter.py:_set_week_start_day")],
    ["filter_dict bounds and executed WHERE results, under a frozen clock"],
    [{"name": "week start", "meaning": "process-wide first day of week", "where": M + "model/filter.py"}],
)
prop(
    "C08",
    "Value filters select exactly the matching rows and values stay data",
    "A filter on a dimension or metric, in either structured form or looker-style string form (equality, lists, negation, null tests, comparisons, contains / starts / ends, booleans, case-insensitive variants, nested and/or groups), selects exactly the rows whose value satisfies it, with SQL three-valued logic only where the value is NULL. The text of a filter value in a request is always treated as data: no value, whatever quotes or SQL it contains, changes the structure of the query. (% and _ keep their pattern meaning in the contains/starts/ends/like operators, a value that is exactly a field's qualified name means that field, and text in definitions is the project author's.)",
    ["inputs", "configurations"],
    "For every filter operator, any value (quotes, percent signs, backslashes, semicolons, keywords, numbers as text, empty strings, booleans, NULL), any nesting of conditions, on dimensions, measures, and metric-level filters.",
    "Tests pin text for a few benign values; quoting and the grammar of string expressions are input-dependent.",
    ["sql/query_filter.py", "model/filter.py", "sql/query_generator.py"],
    [("criterion building", "sql/query_filter.py"), ("looker expression parsing", "model/filter.py")],
    ["executed WHERE/HAVING results and token structure of the SQL"],
)
prop(
    "C09",
    "Time and duration dimensions name the right period for every timestamp",
    "For every timestamp and every timeframe, the compiled expression yields the start of the calendar period containing it (or the named index/part of it), honouring the view's first day of the week, the model's fiscal month offset and the project timezone; truncation is idempotent, never later than the timestamp, and coarser frames contain finer ones. A duration dimension yields the number of units between its start and end, as the warehouse's own difference function counts them.",
    ["inputs", "configurations"],
    "For every timestamp (year and week boundaries, leap days), every timeframe and interval, seven week starts, fiscal offsets, timezones, date and timestamp datatypes, and each of the ten warehouses.",
    "Tests pin the SQL text per warehouse for a fixed field, and cannot see which dates the text maps to which period.",
    ["model/field.py", "model/view.py", "model/model.py"],
    [("timeframe SQL tables", "model/field.py:apply_dimension_group_time_sql"), ("duration SQL tables", "model/field.py:dimension_group_duration_sql"), ("week/fiscal/timezone adjustment", "model/field.py")],
    ["evaluating the compiled expressions under each warehouse's documented semantics"],
)
prop(
    "C10",
    "Merged results keep every metric's own total",
    "When metrics with different dates or from views that cannot be joined are requested together, the result has exactly one row per combination of the shared dimension values present for any metric, and each metric's value in a row is the value it has when requested alone for that dimension value; nothing is lost or duplicated when a combination exists for only some metrics. Filters apply to every metric and having conditions to the merged rows.",
    ["inputs", "configurations", "programs"],
    "For any two or more metrics with distinct dates/views, any mapped dimensions and timeframes, any data with partly disjoint keys, any where/having.",
    "Tests compare text of merged queries; row preservation across full outer joins depends on the data.",
    ["sql/merged_query_resolve.py", "sql/query_merged_results.py", "model/join_graph.py", "model/field.py"],
    [("splitting metrics by date and join group", "sql/merged_query_resolve.py"), ("full outer join and coalescing", "sql/query_merged_results.py")],
    ["executed merged result against per-metric results"],
)
prop(
    "C11",
    "Cumulative metrics accumulate everything up to each date",
    "A cumulative metric's value for a date and dimension combination is its base metric aggregated over all rows (after filters) with a date on or before that date and the same combination, and the non-cumulative metrics requested with it keep the values they have alone. Every period of the requested range that has data appears exactly once per combination.",
    ["inputs", "configurations"],
    "For any data, base metric type, dimensions, timeframe, filters and other metrics, on the warehouses that support cumulative metrics.",
    "Tests compare text for a few requests; the window and join conditions are only visible on data.",
    ["sql/query_cumulative_metric.py"],
    [("date spine, subquery and aggregation", "sql/query_cumulative_metric.py")],
    ["executed result against a reference computation"],
)
prop(
    "C12",
    "Funnels count each entity once per step, in order and within the window",
    "A funnel result has one row per step (and per requested dimension combination), in step order, whose metrics are computed over exactly the events by which an entity satisfied every step up to that one at successively later times and within the stated time limit of the first step, after applying where conditions and each step's filters; on warehouses with symmetric aggregates each such event counts once however many earlier events lead to it. A later step never counts an entity absent from an earlier step, and a funnel used as a filter keeps exactly the entities that converted or dropped off between its two steps.",
    ["inputs", "configurations", "histories"],
    "For any event data (ties, repeats, missing steps), any number of steps and filters, any window and unit, any dimensions.",
    "Tests compare text for four fixed funnels.",
    ["sql/query_funnel.py", "sql/single_query_resolve.py"],
    [("step CTE chain and link conditions", "sql/query_funnel.py")],
    ["executed result against a reference event-sequence computation"],
)
prop(
    "C13",
    "Non-additive metrics read only the chosen window row",
    "A metric with a non-additive dimension aggregates only the rows at the maximum (or minimum) of that dimension within its window groupings and the request's own groupings, after the request's filters, alone or together with other metrics; other metrics in the same request are unaffected.",
    ["inputs", "configurations"],
    "For any data (ties, NULL dates), window choice, groupings, dimensions, filters, combinations with other metrics and joins.",
    "Tests compare text for one fixed view.",
    ["sql/query_generator.py", "model/field.py"],
    [("non-additive CTEs and joins", "sql/query_generator.py"), ("metric filter on the window row", "model/field.py")],
    ["executed result against a reference computation"],
)
prop(
    "C14",
    "Explicitly merged queries join their parts as asked",
    "Merging several queries on named fields returns exactly the rows obtained by joining the parts' own results on those fields with the requested join type, the output has the columns the parts were asked for, except the later parts' join fields (a column named in several parts appears once, from the first), each with the values its part returns on its own, and the outer where, having, order_by and limit act on the merged rows. A join field or column that is not in a part is refused.",
    ["inputs", "configurations", "programs"],
    "For any number of parts, any join fields and join types, mapped fields, outer conditions, and data with partly disjoint keys.",
    "Tests compare text of fixed merged queries.",
    ["sql/arbitrary_merge_resolve.py", "sql/query_arbitrary_merged_queries.py"],
    [("part compilation and join assembly", "sql/query_arbitrary_merged_queries.py")],
    ["executed result against the join of the parts' executed results"],
)
prop(
    "C15",
    "The embedded query language means the structured request it spells",
    "Text in the embedded query language (MQL) compiles to a query with the same result as the structured request with the same metrics, dimensions, where, having, order by and funnel parts (a limit is given with the call, not inside the text); SQL around the embedded parts is preserved unchanged wherever they stand; malformed text, unknown names and unsupported clauses are refused with a parse or query error, never dropped. Keyword case, whitespace, line breaks and quoted text containing keywords do not change the meaning.",
    ["inputs", "programs"],
    "For every combination of clauses, any casing and whitespace layout, any filter literal, one or several embedded parts in any surrounding SQL.",
    "Tests cover a dozen fixed strings.",
    ["convert/convert.py", "query/query.py", "sql/resolve.py"],
    [("parsing and substitution", "convert/convert.py")],
    ["executed result of MQL against the structured request's"],
)
prop(
    "C16",
    "Always-filters restrict every query that touches their view",
    "If a view declares always-filters, every query that requests a metric or dimension of that view (by its own name, unqualified, or through a mapped name) returns what it would return if the caller had added those filters explicitly, in every query kind, whether the caller passes other filters or none, and however the filter names its field.",
    ["inputs", "configurations", "histories"],
    "For every set of always-filters (values, lists, dates, comparisons, negations, on own or joined views), every request form and history.",
    "Tests check text for two views and a few requests.",
    ["sql/resolve.py", "model/view.py"],
    [("always filter injection", "sql/resolve.py:_apply_always_filter")],
    ["executed result against the same request with explicit filters on a project without always-filters"],
)
prop(
    "C17",
    "Mapped field names resolve to a field the request can actually use",
    "A request that uses a mapped name (a model mapping or one of the built-in date mappings) instead of a field is equivalent to the same request with one of the mapping's fields in its place, the same field everywhere the name appears (dimensions, where, order_by; in any capitals; in single and merged requests); a request with one mapped name is refused only if none of the mapping's fields can be used with the other requested fields (or it brings metrics of several views together in a project whose joins fan out). A built-in date name (date, week, month, quarter, year) in a request for metrics is the first metric's own date at that timeframe, and brings metrics with different dates together on their own dates.",
    ["inputs", "configurations"],
    "For every mapping table, any combination of metrics, any place the mapped name is used.",
    "Tests use the two mappings of one fixed project.",
    ["sql/resolve.py", "model/model.py", "sql/merged_query_resolve.py"],
    [("mapping resolution", "sql/resolve.py"), ("mapping tables", "model/model.py")],
    ["SQL for the mapped request against the explicit one"],
)
prop(
    "C18",
    "Validation accepts working projects and reports broken ones",
    "Validating a project never raises for any loadable definition and never changes the project; it reports no errors for a well-formed project all of whose fields compile, and it reports at least one error, naming the offending object, whenever a definition refers to a field, view, access grant, set or model that does not exist, repeats a name that must be unique, or gives a property a value outside its allowed kind.",
    ["configurations", "inputs", "fault_sequences"],
    "For every well-formed project and every single (or double) corruption of it: removed target, renamed reference, wrong type, duplicate, unknown property value.",
    "Tests inject a fixed list of corruptions in one project; each definition property has its own hand-written branch.",
    ["model/project.py", "model/field.py", "model/view.py", "model/model.py", "model/dashboard.py", "model/set.py", "model/filter.py"],
    [("error collection", "model/*.py:collect_errors"), ("validate entry points", "model/project.py")],
    ["validate() output, exceptions, and project snapshots"],
)
prop(
    "C19",
    "Editing a project in memory takes effect at once and undoes exactly",
    "After a field is added to or removed from a project, every later lookup, listing and query behaves as on a project loaded with that definition; a temporary replacement of objects is seen inside its scope and, when the scope ends, normally or by an exception, the project is exactly as before. Validating with replacements reports what validating a project with those replacements would, and leaves the project unchanged.",
    ["histories", "configurations", "fault_sequences"],
    "For every sequence of adds, removes, temporary replacements (nested, failing in the middle) and lookups or queries between them.",
    "Tests do one edit on a fresh project; staleness of caches needs an earlier lookup and a later one.",
    ["model/project.py"],
    [("edit operations and cache refresh", "model/project.py"), ("replacement scope", "model/project.py:replace_objects")],
    ["queries and listings after edits compared with a freshly built project"],
)
prop(
    "C20",
    "Loading, dumping and seeding a project preserve its meaning",
    "A project written to files and loaded again has the same models, views, fields and dashboards and compiles every request identically, regardless of file layout under the configured folders; files elsewhere are not loaded. A project seeded from warehouse column metadata loads, validates without errors about its fields, has exactly one field per column with a type matching the column and SQL naming that exact column, and leaves existing models in place.",
    ["inputs", "configurations"],
    "For every project content (multi-line SQL, quotes, unicode, special YAML scalars), folder layout, and every table/column metadata including odd names and types, per warehouse.",
    "Tests mock the writing and compare a few generated dictionaries, never reading the files back.",
    ["parse/project_dumper.py", "parse/project_loader.py", "parse/project_reader_metrics_layer.py", "parse/project_reader_base.py", "parse/github_repo.py", "metrics_layer/cli/seeding.py"],
    [("dump ordering and file naming", "parse/project_dumper.py"), ("folder search and yaml reading", "parse/project_reader_metrics_layer.py"), ("column to field conversion", "metrics_layer/cli/seeding.py")],
    ["files written and project loaded back"],
)
prop(
    "C21",
    "Everything listed can be looked up and queried, and nothing else",
    "Every metric, dimension (at every timeframe), view, model and dashboard that a listing shows can be looked up by the name or id the listing gives, and the lookup returns that same object; a name that matches several fields is refused as ambiguous unless qualified, and an unknown name is refused. Hidden objects appear exactly when asked for, field sets and drill fields contain exactly the fields their inclusion and exclusion rules denote, and dashboard elements resolve to the metrics, dimensions and filters written in the dashboard.",
    ["configurations", "inputs"],
    "For every project, every filter of the listing functions, every qualified/unqualified name, every set expression.",
    "Tests count fields of one fixed project and look up a few names.",
    ["query/query.py", "model/project.py", "model/set.py", "model/dashboard.py", "model/view.py"],
    [("listing and lookup", "model/project.py"), ("set algebra", "model/set.py"), ("dashboard parsing", "model/dashboard.py")],
    ["listing/lookup results against a model of the project"],
)
prop(
    "C22",
    "Queries run verbatim on the right warehouse and connections never leak",
    "Running a query sends exactly the given SQL, once, to the warehouse of the connection chosen for the request, with the configured time limit, and returns the rows the driver produced; whether the query succeeds, fails or times out the driver connection is closed exactly once and the failure reaches the caller. Credentials given in a connection never appear in its printable form, and any accepted connection definition can be printed and converted for its driver.",
    ["fault_sequences", "inputs", "configurations"],
    "For every supported warehouse, every connection definition (optional parts present or not), every SQL text, and a fault at any driver call.",
    "Tests replace the whole runner with a stub; driver faults are never injected.",
    ["sql/query_runner.py", "query/query.py", "parse/connections.py"],
    [("driver call sequence", "sql/query_runner.py"), ("connection classes", "parse/connections.py")],
    ["call trace of stand-in drivers"],
)
prop(
    "C23",
    "Concurrent requests do not disturb each other",
    "Requests compiled at the same time in several threads, each on its own connection and project, give exactly the SQL each gives when run alone, for every interleaving; so do the date windows of their relative filters.",
    ["schedules", "histories"],
    "For every interleaving of two or more compilations with different projects, users, week starts, timezones and request kinds.",
    "The tests are single-threaded.",
    ["model/filter.py", "model/project.py", "model/field.py", "sql/resolve.py"],
    [("process-wide week start state", "model/filter.py"), ("process-wide caches", "model/project.py")],
    ["SQL per thread against the serial SQL, with forced preemption"],
    [{"name": "week start", "meaning": "process-wide first day of week used by the date library", "where": M + "model/filter.py"}],
)
prop(
    "C24",
    "Every request ends in valid SQL or a documented error",
    "Any request over a valid project either compiles to a single SQL statement that parses and resolves for its warehouse (every referenced table, column and alias exists, every non-aggregated output is grouped, the terminator is present exactly where that warehouse takes one), or is refused with one of the library's own error types whose message names the problem; it never fails with an internal error.",
    ["inputs", "configurations"],
    "For any combination of metrics, dimensions, filters, orderings, limits, flags and warehouses, including unknown names, unjoinable views, wrong value types and unsupported features.",
    "Tests list some expected errors; the cross product of request features is not covered.",
    ["query/query.py", "sql/resolve.py", "sql/single_query_resolve.py", "sql/query_generator.py", "sql/query_filter.py", "exceptions.py"],
    [("argument checking and error types", "sql/resolve.py")],
    ["exception types and parse/resolve of each SQL"],
)

seen = set()
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["id"] not in seen
    seen.add(p["id"])
with open(__file__.rsplit("/", 1)[0] + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
