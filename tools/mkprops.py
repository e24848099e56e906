"""writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)"""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or ["text of the generated SQL"], "hook_needed": None},
    })


M, S = "metrics_layer/core/model/", "metrics_layer/core/sql/"

prop("C01", "A filter keeps exactly the rows its comparison describes",
     "A filter on a field, given as comparison kind plus value, keeps a row exactly when that comparison is true of the row's "
     "value for the field, for every comparison kind, every value (text containing quotes included) and every column content; text "
     "kinds named case-insensitive ignore letter case and all others respect it (pattern characters % and _ inside the value of a substring kind keep their pattern meaning). A missing value never satisfies a comparison "
     "(negated ones included) and satisfies only the is-null test.",
     ["inputs"], "every comparison kind, filter value, field type, warehouse and every content of the filtered column including NULL",
     "Tests compare generated SQL text for a handful of values; nobody evaluates the condition over all column contents, so a wrong wildcard, operator or negation that is re-baselined or untested goes unnoticed.",
     [M + "filter.py", S + "query_filter.py"],
     [("comparison kind -> SQL condition table", M + "filter.py Filter.sql_query"),
      ("filter validation, yes/no and date handling", S + "query_filter.py MetricsLayerFilter")])

prop("C02", "Several filters and nested and/or groups keep their boolean meaning",
     "A query keeps exactly the rows satisfying every row-level filter and exactly the groups satisfying every metric-level filter it was "
     "given, where a filter group combines its members with the operator it states (and when unstated) at any nesting depth. No filter "
     "is dropped, duplicated into another group, or re-associated with its neighbours, whether members are plain conditions, "
     "groups, free-text conditions given as a whole clause, or yes/no fields whose definition itself contains an `or`.",
     ["inputs"], "every tree of filters (depth and width bounded), every truth assignment of its conditions",
     "The tests pin a few group shapes as text; operator precedence and group association must hold for every tree and every truth assignment.",
     [S + "query_filter.py", S + "query_generator.py", S + "resolve.py", M + "field.py"],
     [("recursive group rendering", S + "query_filter.py group_sql_query"),
      ("where/having assembly", S + "query_generator.py get_query")])

prop("C03", "Joins never change a measure: no double counting through fan-out",
     "When a query joins several views, each measure equals the aggregate it declares over the distinct rows of its own view that fall in "
     "each result group, however many times the joins repeat those rows. This holds for sum, count, count distinct, average, "
     "min, max, sum distinct and average distinct, for every combination of join relationships, and a request that cannot be answered this way is refused. (Warehouses with de-duplicating aggregates: Snowflake, Redshift, BigQuery, Postgres, DuckDB; views with a declared primary key.)",
     ["inputs", "configurations"], "every pair/chain/star of joins with every relationship, every table content (NULLs, empty sides, repeated keys), every aggregate",
     "Tests compare SQL text of a fixed project. Whether a plain or a de-duplicating aggregate is needed depends on the join relationships, and only evaluating the SQL over all table contents shows double counting.",
     [M + "field.py", S + "query_design.py", S + "query_generator.py", M + "join_graph.py"],
     [("functional primary key of the joined relation", S + "query_design.py functional_pk"),
      ("de-duplicating (symmetric) aggregates", M + "field.py *_symmetric_aggregate")])

prop("C04", "A measure equals its declared aggregate over the rows its own filters select",
     "In a query over one view, each measure equals, for each group of the requested dimensions, its declared aggregate (sum, count, count distinct, "
     "average, min, max, median, sum/average distinct) of its expression over the group's rows that satisfy the measure's own filters, all of them. "
     "Each group of dimension values present in the filtered rows appears exactly once, and asking for the row-level (primary key) grain returns the rows themselves.",
     ["inputs", "configurations"], "every aggregate kind, with and without measure filters, on every warehouse, over every bounded table content",
     "The tests fix the SQL text of selected measures; meaning over all rows (NULLs, rows failing filters, empty groups) is never evaluated.",
     [M + "field.py", M + "filter.py", S + "query_generator.py"],
     [("aggregate rendering", M + "field.py sql_query/_aggregate"),
      ("measure filters as case expressions", M + "filter.py translate_looker_filters_to_sql")])

prop("C05", "Metrics built from other metrics keep the arithmetic they state",
     "A metric defined by an expression over other metrics evaluates to that expression applied to the values of the referenced metrics, with the referenced definitions "
     "treated as operands (a reference to a sum inside a product is the product of the sum), at any reference depth. "
     "The same holds for dimensions defined through other dimensions of the same or another view.",
     ["configurations", "inputs"], "every operator combination and reference depth within the bound, every operand value",
     "Operator precedence across substitution boundaries depends on the combination of definitions; tests hold a few fixed combinations as text.",
     [M + "field.py"],
     [("reference substitution with parentheses", M + "field.py get_replaced_sql_query / _replace_sql_query")])

prop("C06", "Join paths use only permitted joins and the declared key columns",
     "Every join in a generated query is one the model permits (matching identifiers, restrictions on join partners and on fan-outs respected, explicit joins in both directions except implicit fan-outs), "
     "is made on exactly the declared key columns of the two views, and carries the relationship that the two identifier kinds imply. "
     "Every view the query needs is joined exactly once, and only after the view it is joined to; views with no permitted path are refused (or answered by separate sub-queries) rather than combined some other way; a request is refused for want of a join only when no view reaches all needed views through permitted joins.",
     ["configurations", "inputs"], "every assignment of identifier kinds, restrictions and allowances over a bounded set of views, every requested set of views",
     "The space of model configurations is combinatorial and the tests use one project.",
     [M + "join_graph.py", S + "query_design.py", M + "join.py", S + "query_generator.py"],
     [("join graph construction", M + "join_graph.py build"),
      ("join ordering", S + "query_design.py determine_join_order")])

prop("C07", "Row-level access filters constrain every query that uses the view",
     "When a view carries access filters and the querying user has a value for the filter's attribute, no result of any query that uses a field of that view "
     "(as metric, dimension, filter or ordering; in single, merged, cumulative, funnel, mapped or arbitrarily merged form) depends on rows of the view that fail any of those filters; "
     "user-supplied filters of any shape, free-text ones included, cannot widen the result, and a query over that view alone returns exactly what it would return if the failing rows did not exist. A user without a value for the attribute, or no user, is not filtered.",
     ["inputs", "configurations", "histories"], "every query shape that touches the view, every user attribute assignment, every row content, every free-text filter structure",
     "Leaks only show when the SQL is evaluated: a missing condition in one sub-query or a precedence slip leaves the text plausible.",
     [S + "query_design.py", S + "query_generator.py", S + "query_cumulative_metric.py", S + "query_funnel.py"],
     [("access filter collection", S + "query_design.py get_access_filter"),
      ("injection into where", S + "query_generator.py parse_definition")])

prop("C08", "Access grants hide exactly what they should, everywhere",
     "A view, field or dashboard that requires access grants is usable by a user exactly when, for every required grant, the user's value for the grant's attribute is "
     "among the allowed values (an unset attribute does not restrict); a field is additionally usable only if its view is. Inaccessible objects are absent from listings and are refused when looked up or "
     "queried directly or through another field's definition, with the same error as for an object that does not exist.",
     ["inputs", "configurations", "histories"], "every user attribute assignment, every grant definition and assignment within the bound",
     "Tests enumerate a few users; the rule must hold for every attribute value, every grant combination and after users change.",
     [M + "project.py", M + "model.py", M + "view.py", M + "dashboard.py"],
     [("grant evaluation", M + "project.py can_access_* / _can_access_object")],
     ["Project listings and lookups", "get_sql_query raising"])

prop("C09", "Merged results line up every metric by the shared dimensions",
     "When metrics that cannot be joined are requested together, each metric's value in the combined result equals what the metric's own single query returns for the same dimension values "
     "and filters, a row appears for every combination of dimension values that occurs for any of the metrics, and metrics without data for it are missing there rather than the row being lost (rows whose dimension value is itself missing are kept, but not aligned with each other). "
     "Filters given in terms of one date or mapped dimension constrain every metric through its own corresponding field.",
     ["inputs", "configurations"], "every bounded content of the underlying tables, dimension/filter/having combinations within the bound",
     "Row loss, mismatched join keys or a filter applied to one branch only are visible only when results are evaluated.",
     [S + "merged_query_resolve.py", S + "query_merged_results.py", S + "resolve.py", S + "single_query_resolve.py"],
     [("per-group sub queries", S + "merged_query_resolve.py"), ("outer join of sub queries", S + "query_merged_results.py")])

prop("C10", "Cumulative metrics accumulate from the start through each date",
     "A cumulative metric's value at a date bucket and dimension value is its underlying measure over all rows dated from the window's start through that bucket's end and matching the dimension values and all other filters; "
     "other metrics in the same query keep their ordinary values.",
     ["inputs", "configurations"], "every bounded table content, dates, dimension values, filters",
     "The tests only compare text; accumulation boundaries are a property of values.",
     [S + "query_cumulative_metric.py"],
     [("date spine join", S + "query_cumulative_metric.py")])

prop("C11", "Funnels count only those who did the steps in order and in time",
     "A funnel result counts for step n exactly the events (or distinct entities) that satisfy step n's filters and belong to an entity which had earlier events satisfying steps 1..n-1, each later in time than the previous, "
     "and within the stated time limit of the first step; the query's other filters apply to all steps. Filtering another query by conversion or drop-off keeps exactly the entities that did or did not reach the later step.",
     ["inputs", "histories"], "every event history within the bound, step filters, time limits",
     "Ordering and window boundaries are only visible on event histories, which tests never evaluate.",
     [S + "query_funnel.py", S + "query_filter.py"],
     [("step CTEs", S + "query_funnel.py"), ("converted/dropped_off", S + "query_filter.py funnel_cte")])

prop("C12", "Non-additive measures use only the chosen snapshot of each window",
     "A measure declared non-additive over a time dimension aggregates, within each result group, only the rows at the chosen (first or last) value of that dimension "
     "in the window the definition and the query's dimensions determine, after the query's row filters; the same query gives the same SQL no matter which queries ran before.",
     ["inputs", "histories", "configurations"], "every bounded table content, window grouping, choice, filter, and preceding queries",
     "Choice of snapshot is a property of values; leakage between queries needs a sequence of queries.",
     [S + "query_generator.py", M + "field.py"],
     [("snapshot CTE and join", S + "query_generator.py get_query/_non_additive_cte")])

prop("C13", "Relative date filters denote the right calendar window at every instant",
     "A relative date filter (today, yesterday, this/last/N day(s)/week(s)/month(s)/quarter(s)/year(s), ago, to date, ago to date, ago for, until, before/after/on a date) denotes, for every current instant, "
     "count, unit, time zone and first day of the week, the window that starts at the first instant of the stated period and ends at the stated end, aligned to calendar periods with weeks starting on the configured day; the to-date window of an earlier period holds as many days as have fully elapsed in the current period (at least one). "
     "Evaluating one filter never changes how later filters are evaluated.",
     ["inputs", "configurations", "histories"], "every current instant in a multi-year range, every count up to the bound, unit, first day of week",
     "Tests freeze a few instants; month ends, leap years, year boundaries and the seven week starts multiply beyond sampling.",
     [M + "filter.py"],
     [("date expressions", M + "filter.py parse_date_condition and helpers"), ("week start switch", M + "filter.py _set_week_start_day/_reset_week_start_day")],
     ["Filter.filter_dict", "generated where clause"])

prop("C14", "Time buckets are right on every warehouse, week start and fiscal calendar",
     "Grouping by a time bucket (second up to year, day/week/month names and indexes, fiscal periods) assigns every instant to the calendar period containing it, with weeks starting on the configured first day and fiscal periods shifted by the configured "
     "month offset, and gives corresponding results on every supported warehouse, including filters on those buckets.",
     ["inputs", "configurations"], "every instant in a multi-year range, seven week starts, fiscal offsets, ten warehouses, DATE and TIMESTAMP columns",
     "Tests compare text per warehouse; an off-by-one in a week shift is just another string.",
     [M + "field.py"],
     [("time bucket templates", M + "field.py dimension_group_timeframe_sql / _week_dimension_group_time_sql")])

prop("C15", "Duration fields measure from the start to the end column",
     "A duration field returns the number of the requested units from its start to its end column: positive when the end is later, negated when the columns swap, "
     "zero when equal, on every warehouse, and each unit uses that unit.",
     ["inputs", "configurations"], "every pair of instants in range, every unit and warehouse",
     "Argument order differs per warehouse and text tests cannot tell a swapped order from a right one.",
     [M + "field.py"],
     [("duration templates", M + "field.py dimension_group_duration_sql")])

prop("C16", "Time zone conversion is applied exactly where it is configured",
     "With a query time zone set, every time bucket of a field is taken of the instant converted from UTC to that zone, unless the field opts out of conversion, in which case (or when no zone is set) the stored instant is used; "
     "durations and raw values are not affected differently per warehouse, and filters on a bucket use the same instant as its display.",
     ["inputs", "configurations"], "zones, opt-outs, buckets, warehouses, instants",
     "Whether conversion happens before truncation matters only for instants near bucket boundaries.",
     [M + "field.py", M + "project.py"],
     [("timezone wrapping", M + "field.py _apply_timezone / time dimension sql")])

prop("C17", "Tiers and coded cases partition the values",
     "A tiered dimension puts every number in exactly one labelled range and the label names the range that contains the number; a missing number gets the label for unknown, and a dimension defined by filtered cases returns "
     "the first case whose conditions all hold, or the stated else value.",
     ["inputs", "configurations"], "every number, every increasing list of boundaries within the bound, every case list within the bound",
     "Boundaries equal to a value and missing values are point conditions on an infinite line.",
     [M + "field.py", M + "filter.py"],
     [("tier/case rendering", M + "field.py _translate_looker_tier_to_sql, case handling")])

prop("C18", "Filter shorthand is read as documented",
     "A filter shorthand string is read as documented for every string: leading -, %, <, <=, >, >=, =, <>, !=, comma lists, NULL / -NULL, TRUE / FALSE, and otherwise exact match; the operand is exactly the remaining text or number, "
     "nothing else of the string changes the reading, and a list mixing negated and plain entries is refused.",
     ["inputs"], "every string up to the bounded length over the alphabet of significant characters and ordinary ones",
     "The grammar is a cascade of overlapping tests, so a reordering changes the meaning of rare strings only.",
     [M + "filter.py"],
     [("shorthand cascade", M + "filter.py _filter_dict")],
     ["Filter.filter_dict"])

prop("C19", "Ordering and limits are exactly as requested",
     "A query orders its result by exactly the requested fields in the requested sequence and direction, whether given as text or as a list and whatever the fields are called, with missing values last where the warehouse supports it, "
     "and returns at most the requested number of rows using the warehouse's own syntax; without a request no limit is added and only the warehouses documented to have a default order get one.",
     ["inputs", "configurations"], "field names, directions, sequences, limits, warehouses",
     "Fields whose names contain direction words, combinations of directions and per-warehouse syntax exceed the samples.",
     [S + "query_generator.py", S + "query_dialect.py", S + "query_base.py"],
     [("order by parsing", S + "query_generator.py _parse_order_by_object")])

prop("C20", "Names resolve to the one field they denote",
     "A field reference, in any letter case, with or without its view, and with or without a time bucket or duration unit suffix, resolves to the single field and bucket it denotes; a reference matching no field or several fields is refused with an error and never resolved arbitrarily. "
     "Every field id the project lists resolves back to that field.",
     ["configurations", "inputs"], "every project within a bounded family of names, every reference form and letter case",
     "Collisions between names, suffixes and views are combinatorial.",
     [M + "project.py", M + "field.py", M + "view.py"],
     [("lookup", M + "project.py get_field / get_field_by_name"), ("bucket suffix", M + "field.py get_dimension_group_name / equal")],
     ["Project.get_field, MetricsLayerConnection.get_metric/get_dimension"])

prop("C21", "Field sets contain exactly what their expressions denote",
     "A field set denotes the fields it includes (directly, through other sets, or all fields of a view) minus the fields it excludes the same ways, in listed order and without duplicates. "
     "A set named without its view is the own view's set of that name when there is one. The drill fields of a field are exactly what such a list denotes.",
     ["configurations"], "every list of include/exclude entries within the bound over fields, sets and all-fields markers",
     "Set algebra over nested references has many shapes; tests list a few.",
     [M + "set.py", M + "view.py"],
     [("set expansion", M + "set.py field_names")],
     ["Set.field_names, drill fields"])

prop("C22", "A query's result never depends on what was asked before",
     "The SQL for a request depends only on the project, the user and the request: after any sequence of other queries, lookups, listings, user changes and field additions or removals, it equals what a freshly built project in the same state gives. "
     "Handling a request never modifies the lists and dictionaries the caller passed in, nor the project's definitions.",
     ["histories"], "every bounded sequence of operations, every probe request",
     "Caches and shared mutable definitions only show after particular sequences.",
     [M + "project.py", S + "resolve.py", S + "query_generator.py", M + "view.py"],
     [("caches keyed on content and user", M + "project.py __hash__, lru_cache methods"), ("copies of definitions", "to_dict/deepcopy uses")],
     ["get_sql_query", "caller's arguments"])

prop("C23", "A query written as text means the same as the structured query",
     "A query written in the textual metric query language gives the same SQL as the structured request with the same metrics, dimensions, filters, order and funnel, whatever the letter case, the spacing and the names of fields; text that is not understood is refused and not answered without it; embedding such a query inside larger SQL leaves the surrounding SQL untouched.",
     ["programs", "inputs"], "every textual query within the bounded grammar",
     "Clause order, letter case, whitespace and nesting multiply.",
     ["metrics_layer/core/convert/convert.py", S + "query_base.py", S + "resolve.py", "metrics_layer/core/query/query.py"],
     [("text to structured", "metrics_layer/core/convert/convert.py"), ("text inside SQL", "metrics_layer/core/query/query.py")])

prop("C24", "Trial edits leave the project as it was",
     "Validating a project with a replaced or added object, or temporarily changing fields while answering a query, leaves the project with the same objects and the same answers afterwards, also when validation or the query fails part-way; the reported problems are those of the edited project.",
     ["fault_sequences", "histories"], "every object kind, every failure point",
     "Failure in the middle of a trial edit is not sampled.",
     [M + "project.py"],
     [("replace_objects / validate_with_replaced_objects", M + "project.py")],
     ["Project state after the call"])

prop("C25", "Filters by the metric of a group keep exactly the qualifying groups",
     "A filter that restricts rows by a metric computed per other dimension keeps exactly the rows whose value of that dimension has the metric satisfying the comparison, where the metric is computed over that dimension alone; several such filters all apply.",
     ["inputs", "configurations"], "every bounded table content, comparison and number of such filters",
     "Only evaluation over rows shows which rows are kept.",
     [S + "query_filter.py", S + "query_generator.py"],
     [("group-by filter CTE", S + "query_filter.py cte / isin_sql_query")])

prop("C26", "A view's mandatory filters apply to every query on the view",
     "A view that declares mandatory filters has them applied, all of them and with their stated comparison, to every query that selects a field of the view as metric or dimension, in addition to the query's own filters, in single and in merged queries; requests and declared filters are left unmodified.",
     ["inputs", "configurations"], "every query shape using the view, every bounded table content",
     "Applies across query shapes; the tests check one or two texts.",
     [S + "resolve.py", M + "view.py"],
     [("always_filter", S + "resolve.py")])

prop("C27", "Mapped fields stand for the right field of each query",
     "A request in terms of a mapped name (a model-level mapping or the generic date) is answered with the member of the mapping that belongs to the views the query uses, consistently in selection, filters and ordering, so that the answer equals the request written with that member; a mapping with no usable member is refused.",
     ["inputs", "configurations"], "every use of a mapped name within the bound",
     "Replacement happens in several places (metrics, dimensions, where, having, order by) that must agree.",
     [S + "resolve.py", M + "model.py"],
     [("mapping replacement", S + "resolve.py _replace_mapped_field and callers")])

prop("C28", "Merging independent queries joins each on the stated fields only",
     "Merging several independently stated queries keeps each query's own rows and values, aligned on exactly the stated pairs of fields with the stated join type, and columns keep their values under the documented names.",
     ["inputs", "configurations"], "every bounded content, join pairs and types",
     "Needs evaluation of the merged SQL on contents with unmatched and missing keys.",
     [S + "arbitrary_merge_resolve.py", S + "query_arbitrary_merged_queries.py"],
     [("arbitrary merge", S + "query_arbitrary_merged_queries.py")])

prop("C29", "The same request gives the same answer in every process",
     "For a given project the same request gives the same SQL, the same refusal, and the listed fields, joinable views, join graphs and reported problems come in the same order, in every process: nothing depends on the iteration order of a set, which Python leaves open and which differs from process to process.",
     ["schedules", "histories"], "every iteration order of every set the code builds while answering",
     "A test process sees one hash seed, and a short set usually comes in the order the test was written for.",
     [S, M],
     [("set iteration", "metrics_layer/core/sql, metrics_layer/core/model")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
