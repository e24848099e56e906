"""C07: row-level access filters.  Every form of query that uses a field of the filtered view is produced by the real resolver for a
user with (and without) the attribute; the SQL is evaluated over all contents of bounded symbolic tables and again over the same tables
with the failing rows of the filtered view removed: the two results must be equal, so no result depends on a hidden row.  For queries over
the view alone the result must also equal what the same query returns, without access filters, on the visible rows."""
import z3

from .. import ref, spec, sx
from ..proj import *
from ..sqls import Eval, Row, Table, V, sym_table, ts_const
from ..sx import And, Eq, Iff, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = "tables of 2 rows (thorough 3; funnels 3) per view, 2 spine dates; 40 request forms; attribute values of 9 kinds (equality, negation, comparison, period, list, quote, null, yes/no, two filters, filter on another view's field); all on Snowflake, plus BigQuery/Redshift/Postgres for the cumulative, merged and literal forms"
OUTSIDE = "filters that accept missing values when the view is joined to another; more than two joined views; user attributes that are not valid filter values; raw SQL passed by the caller instead of a request"
ASSUMPTIONS = ["aggregates that the evaluator treats as opaque functions (digests, date truncation to week and longer) give equal results on equal input"]
BUDGET = {"quick": 600, "thorough": 850}

UCOLS = [("id", "int"), ("r", "code"), ("q", "code"), ("yn", "bool"), ("yo", "bool"), ("c", "int"), ("ts", "ts"), ("n", "int"), ("aid", "int")]
WCOLS = [("id", "int"), ("r", "code"), ("c", "int"), ("ts", "ts"), ("n", "int"), ("uid", "int")]
ACOLS = [("id", "int"), ("r", "code")]


def nn(v):
    return Not(v.null)


def in_window(v):
    return And(nn(v), v.v >= ts_const("2024-01-05"), v.v <= ts_const("2024-02-01"))


# kind -> (access filters, user attributes, (row, db, ev) -> visible)
def two(r, db, ev):
    return And(nn(r["r"]), r["r"].v == ev.code("EU"), nn(r["n"]), r["n"].v > 5)


def via_acct(r, db, ev):
    return And(nn(r["aid"]), Or(*[And(a.p, Eq(a.v[0].v, r["aid"].v), Not(a.v[1].null), a.v[1].v == ev.code("EU")) for a in db["db.a"].rows]))


AF = {
    "eq": ([("u.r", "reg")], {"reg": "EU"}, lambda r, db, ev: And(nn(r["r"]), r["r"].v == ev.code("EU"))),
    "neg": ([("u.r", "reg")], {"reg": "-EU"}, lambda r, db, ev: And(nn(r["r"]), r["r"].v != ev.code("EU"))),
    "gt": ([("u.n", "lim")], {"lim": ">5"}, lambda r, db, ev: And(nn(r["n"]), r["n"].v > 5)),
    "in": ([("u.r", "reg")], {"reg": "EU, US"}, lambda r, db, ev: And(nn(r["r"]), Or(r["r"].v == ev.code("EU"), r["r"].v == ev.code("US")))),
    "quote": ([("u.r", "reg")], {"reg": "O'Neil' or 'a'='a"}, lambda r, db, ev: And(nn(r["r"]), r["r"].v == ev.code("O'Neil' or 'a'='a"))),
    "null": ([("u.r", "reg")], {"reg": "NULL"}, lambda r, db, ev: r["r"].null),
    "yes": ([("u.yor", "flag")], {"flag": "TRUE"}, lambda r, db, ev: Or(And(nn(r["yn"]), r["yn"].v), And(nn(r["yo"]), r["yo"].v))),
    "no": ([("u.yor", "flag")], {"flag": "FALSE"}, lambda r, db, ev: And(nn(r["yn"]), nn(r["yo"]), Not(r["yn"].v), Not(r["yo"].v))),
    "two": ([("u.r", "reg"), ("u.n", "lim")], {"reg": "EU", "lim": ">5"}, two),
    "twoneg": ([("u.r", "reg"), ("u.r", "dep")], {"reg": "-EU", "dep": "-US"}, lambda r, db, ev: And(nn(r["r"]), r["r"].v != ev.code("EU"), r["r"].v != ev.code("US"))),
    "tworange": ([("u.n", "lo"), ("u.n", "hi"), ("u.r", "reg")], {"lo": ">2", "hi": "<=9", "reg": "EU"}, lambda r, db, ev: And(nn(r["n"]), r["n"].v > 2, r["n"].v <= 9, nn(r["r"]), r["r"].v == ev.code("EU"))),
    "partial": ([("u.r", "reg"), ("u.n", "lim")], {"reg": "EU"}, lambda r, db, ev: And(nn(r["r"]), r["r"].v == ev.code("EU"))),
    "range": ([("u.ts_raw", "win")], {"win": "2024-01-05 until 2024-02-01"}, lambda r, db, ev: in_window(r["ts"])),
    "dates": ([("u.ts_raw", "win"), ("u.r", "reg")], {"win": "2024-01-05 until 2024-02-01", "reg": "-EU, -US"}, lambda r, db, ev: And(in_window(r["ts"]), nn(r["r"]), r["r"].v != ev.code("EU"), r["r"].v != ev.code("US"))),
    "acct2": ([("u.r", "dep"), ("a.r", "reg")], {"reg": "EU", "dep": "US"}, lambda r, db, ev: And(via_acct(r, db, ev), nn(r["r"]), r["r"].v == ev.code("US"))),
    "acct": ([("a.r", "reg")], {"reg": "EU"}, via_acct),
    "none": ([("u.r", "reg")], None, lambda r, db, ev: True),
    "other": ([("u.r", "reg")], {"dep": "EU"}, lambda r, db, ev: True),
    "empty": ([("u.r", "reg")], {"reg": ""}, lambda r, db, ev: True),
}


def fields():
    return [
        pk("id", type="number"), dim("r"), dim("c", type="number", tags=["customer"]), timedim("ts"), dim("n", type="number"),
        meas("k", "count"), meas("t", "sum", "${TABLE}.n"), meas("cum", "cumulative", None, measure="t"), meas("x", "number", "${t} / ${k}"),
        meas("mx", "max", "${TABLE}.n"), meas("av", "average", "${n}"), meas("cd", "count_distinct", "${TABLE}.c"),
    ]


def views(af, joined):
    kw = {"access_filters": [{"field": f, "user_attribute": a} for f, a in af]} if af else {}
    uf = fields() + [
        dim("q"), dim("aid", type="number"), dim("yor", type="yesno", sql="${TABLE}.yn or ${TABLE}.yo"),
        dim("dd", type="number", sql="${n} * 2"),
        meas("na", "sum", "${TABLE}.n", non_additive_dimension={"name": "ts_raw", "window_choice": "max"}),
        meas("nag", "sum", "${TABLE}.n", non_additive_dimension={"name": "ts_raw", "window_choice": "min", "window_groupings": ["u.c"]}),
    ]
    wf = fields() + [
        dim("uid", type="number"), meas("viau", "number", "${u.t} + ${w.t}"), dim("ur", type="string", sql="${u.r}"),
        meas("mr", "number", "${u.t} / ${w.t}", is_merged_result=True),
        meas("tf", "sum", "${TABLE}.n", filters=[{"field": "u.r", "value": "A"}]),
    ]
    if joined:
        wf = [{k: v for k, v in f.items() if k != "tags"} for f in wf]
    ju = [{"name": "j", "type": "primary", "sql": "${id}"}] if joined else []
    jw = [{"name": "j", "type": "foreign", "sql": "${uid}"}] if joined else []
    ju = ju + [{"name": "acc", "type": "foreign", "sql": "${aid}"}]
    a = view("a", [pk("id", type="number"), dim("r"), meas("k", "count")], [{"name": "acc", "type": "primary", "sql": "${id}"}])
    return [view("u", uf, ju, default_date="ts", **kw), view("w", wf, jw, default_date="ts"), a]


STEPS = [[{"field": "u.r", "expression": "equal_to", "value": "A"}], [{"field": "u.r", "expression": "equal_to", "value": "B"}]]
FUNNEL = {"steps": STEPS, "within": {"value": 3, "unit": "days"}}
GT = {"field": "u.t", "expression": "greater_than", "value": 3}

# name -> (request, options).  options: joined (w and u are joinable), strong (only u is involved or views are merged, never joined)
FORMS = {
    "metric": dict(metrics=["u.t", "u.k"], dimensions=[]),
    "aggs": dict(metrics=["u.mx", "u.av", "u.cd", "u.x"], dimensions=["u.q"]),
    "dims": dict(metrics=[], dimensions=["u.q", "u.n"]),
    "derived": dict(metrics=[], dimensions=["u.dd"]),
    "metric_dim": dict(metrics=["u.t"], dimensions=["u.ts_month", "u.r"]),
    "grain": dict(metrics=["u.t"], dimensions=["u.id"]),
    "where": dict(metrics=["u.t"], dimensions=["u.q"], where=[{"field": "u.n", "expression": "less_than", "value": 9}]),
    "where_or": dict(metrics=["u.t"], dimensions=["u.q"], where=[{"conditional_filter_logic": None}]),
    "where_group": dict(metrics=["u.t"], dimensions=["u.q"], where=[{"logical_operator": "OR", "conditions": [{"field": "u.n", "expression": "less_than", "value": 9}, {"field": "u.r", "expression": "is_not_null"}]}]),
    "where_yn": dict(metrics=["u.t"], dimensions=["u.q"], where=[{"field": "u.yor", "expression": "equal_to", "value": True}]),
    "text": dict(metrics=["u.t"], dimensions=["u.q"], where="${u.n} > 1 or ${u.n} < 1"),
    "text_OR": dict(metrics=["u.t"], dimensions=["u.q"], where="${u.n} > 1 OR\n${u.n} < 1"),
    "text_tab": dict(metrics=["u.t"], dimensions=["u.q"], where="${u.n} > 1\tor\t${u.n} < 1"),
    "having": dict(metrics=["u.t"], dimensions=["u.q"], having=[GT]),
    "having_text": dict(metrics=["u.t"], dimensions=["u.q"], having="${u.t} > 3 or ${u.k} > 1"),
    "order": dict(metrics=["u.k"], dimensions=["u.q"], order_by=[{"field": "u.t", "sort": "desc"}]),
    "group_by": dict(metrics=["u.k"], dimensions=["u.q"], having=[dict(GT, group_by="u.c")]),
    "group_by_where": dict(metrics=["u.k"], dimensions=["u.q"], where=[dict(field="u.n", expression="greater_than", value=3, group_by="u.c")]),
    "non_additive": dict(metrics=["u.na"], dimensions=["u.q"]),
    "non_additive_g": dict(metrics=["u.nag", "u.k"], dimensions=["u.q"]),
    "cumulative": dict(metrics=["u.cum"], dimensions=["u.ts_date"]),
    "cumulative_dim": dict(metrics=["u.cum", "u.k"], dimensions=["u.ts_date", "u.q"]),
    "cumulative_nodate": dict(metrics=["u.cum"], dimensions=[]),
    "cumulative_where": dict(metrics=["u.cum"], dimensions=["u.ts_week"], where=[{"field": "u.n", "expression": "less_than", "value": 9}]),
    "funnel": dict(metrics=["u.k"], dimensions=[], funnel=FUNNEL),
    "funnel_dim": dict(metrics=["u.t"], dimensions=["u.q"], funnel=FUNNEL),
    "funnel_where": dict(metrics=["u.k"], dimensions=[], funnel=FUNNEL, where=[{"field": "u.n", "expression": "less_than", "value": 9}]),
    "converted": dict(metrics=["u.k"], dimensions=["u.q"], where=[{"field": "u.c", "expression": "converted", "from": 1, "to": 2, "funnel": FUNNEL}]),
    "dropped": dict(metrics=["u.k"], dimensions=["u.q"], where=[{"field": "u.c", "expression": "dropped_off", "from": 1, "to": 2, "funnel": FUNNEL}]),
    "mapped": dict(metrics=["u.t"], dimensions=["reg"]),
    "mapped_date": dict(metrics=["u.t"], dimensions=["date"]),
    "merged": dict(metrics=["u.t", "w.t"], dimensions=["u.ts_date"]),
    "merged_rev": dict(metrics=["w.t", "u.t"], dimensions=["reg"]),
    "merged_where": dict(metrics=["w.t", "u.t"], dimensions=["u.r"], where=[{"field": "reg", "expression": "not_equal_to", "value": "A"}]),
    "merged_having": dict(metrics=["w.t", "u.t"], dimensions=["u.r"], having=[GT]),
    "merged_metric": dict(metrics=["w.mr"], dimensions=["date"]),
    "arbitrary": dict(merged_queries=[dict(metrics=["w.k"], dimensions=["w.n"]), dict(metrics=["u.k"], dimensions=["u.n"], join_fields=[{"field": "u.n", "source_field": "w.n"}], join_type="left_outer")]),
    "arbitrary2": dict(merged_queries=[dict(metrics=["u.k"], dimensions=["u.n"]), dict(metrics=["w.k"], dimensions=["w.n"], join_fields=[{"field": "w.n", "source_field": "u.n"}], join_type="full_outer")]),
}
del FORMS["where_or"], FORMS["group_by_where"]
JOINED = {
    "j_metric": dict(metrics=["u.t"], dimensions=["w.r"]),
    "j_dim": dict(metrics=["w.t"], dimensions=["u.q"]),
    "j_where": dict(metrics=["w.t"], dimensions=["w.r"], where=[{"field": "u.n", "expression": "greater_than", "value": 3}]),
    "j_where_null": dict(metrics=["w.t"], dimensions=["w.r"], where=[{"field": "u.n", "expression": "is_null"}]),
    "j_having": dict(metrics=["w.t"], dimensions=["w.r"], having=[GT]),
    "j_order": dict(metrics=["w.t"], dimensions=["w.r"], order_by=[{"field": "u.t", "sort": "desc"}]),
    "j_number": dict(metrics=["w.viau"], dimensions=["w.r"]),
    "j_dimref": dict(metrics=["w.t"], dimensions=["w.ur"]),
    "j_mfilter": dict(metrics=["w.tf"], dimensions=["w.r"]),
    "j_text": dict(metrics=["w.t"], dimensions=["w.r"], where="${u.n} > 3 or ${w.n} > 3"),
    "j_group_by": dict(metrics=["w.k"], dimensions=["w.r"], having=[dict(GT, group_by="u.c")]),
    "j_group_by2": dict(metrics=["w.k"], dimensions=["w.r"], having=[dict(GT, group_by="w.c")]),
    "j_field": dict(metrics=["w.t"], dimensions=["w.r"], where=[{"field": "w.n", "expression": "greater_than", "value": "u.n"}]),
    "j_groupwhere": dict(metrics=["w.t"], dimensions=["w.r"], where=[{"logical_operator": "OR", "conditions": [{"field": "u.n", "expression": "is_null"}, {"field": "w.n", "expression": "greater_than", "value": 1}]}]),
    "j_cum": dict(metrics=["w.cum"], dimensions=["w.ts_date", "u.q"]),
    "j_funnel": dict(metrics=["w.k"], dimensions=["u.q"], funnel={"steps": [[{"field": "w.r", "expression": "equal_to", "value": "A"}], [{"field": "u.r", "expression": "equal_to", "value": "B"}]], "within": {"value": 3, "unit": "days"}}),
    "j_notouch": dict(metrics=["w.t"], dimensions=["w.r"]),
}


def visible(t, db, ev, f):
    return Table(t.name, t.cols, [Row(And(r.p, f({c: v for (c, _), v in zip(t.cols, r.v)}, db, ev)), r.v) for r in t.rows])


def form(ctx, name, af, dialect, rows, two_time=False):
    req = FORMS.get(name) or JOINED[name]
    joined = name in JOINED
    filters, user, vis = AF[af]
    m = model() if joined else model(mappings={"reg": {"fields": ["u.r", "w.r"]}})
    p = project(views(filters, joined), [m], dialect=dialect, user=user)
    sql = query(ctx, p, dialect, user=user, what="request under access filters", **copy.deepcopy(req))
    bare = query(ctx, project(views([], joined), [m], dialect=dialect), dialect, what="request", **copy.deepcopy(req))
    info = {"sql": sql, "user": user, "form": name, "sig": f"{name}|{af}"}
    q = parsed(ctx, sql)
    n = max(rows, 3 if "funnel" in name or name in ("converted", "dropped") else rows)
    db = {"db.u": sym_table(ctx, "u", UCOLS, n, pk="id"), "db.w": sym_table(ctx, "w", WCOLS, rows, pk="id"), "db.a": sym_table(ctx, "a", ACOLS, 2, pk="id")}
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    hidden_db = dict(db)
    hidden_db["db.u"] = visible(db["db.u"], db, ev, vis)

    def run(text, tables):
        ev.db = tables
        ev._sub = {}
        return sem(ctx, lambda: ev.query(text), sql, info)

    R = run(q, db)
    ctx.reached()
    if name != "j_notouch":
        ref.bags_equal(ctx, ev, R, run(q, hidden_db), info, "a result depends on rows the access filter hides")
    # a query that does not join anything returns exactly what it would return on the visible rows
    if not joined and af not in ("acct", "acct2") or name == "j_notouch" or user is None:
        B = run(parsed(ctx, bare), db if name == "j_notouch" else hidden_db)
        ref.bags_equal(ctx, ev, R, B, info, "the result is not that of the same query over the visible rows")


def user_change(ctx, name, dialect, rows):
    """the filter follows the current user of the project, not an earlier one"""
    req = FORMS[name]
    m = model(mappings={"reg": {"fields": ["u.r", "w.r"]}})
    filters, _, _ = AF["eq"]
    seq = [{"reg": "EU"}, {"reg": "US"}, None]
    order = ctx.pick("order", [[0, 1], [1, 0], [0, 2], [2, 0]])
    p = project(views(filters, False), [m], dialect=dialect, user=seq[order[0]])
    conn = connection(p, seq[order[0]])
    try:
        conn.get_sql_query(query_type=dialect, **copy.deepcopy(req))
        p.set_user(seq[order[1]] or {})
        sql = conn.get_sql_query(query_type=dialect, **copy.deepcopy(req))
    except sx.EngineError:
        raise
    except Exception as e:
        ctx.fail(f"request raised {type(e).__name__}: {e}", {"form": name})
    u = seq[order[1]]
    info = {"sql": sql, "user": u, "form": name}
    db = {"db.u": sym_table(ctx, "u", UCOLS, rows, pk="id"), "db.w": sym_table(ctx, "w", WCOLS, rows, pk="id")}
    ev = Eval(db, dialect, ctx=ctx)
    hid = dict(db)
    if u:
        hid["db.u"] = visible(db["db.u"], db, ev, lambda r, d, e: And(nn(r["r"]), r["r"].v == e.code(u["reg"])))
    bare = query(ctx, project(views([], False), [m], dialect=dialect), dialect, **copy.deepcopy(req))
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    ev.db, ev._sub = hid, {}
    B = sem(ctx, lambda: ev.query(parsed(ctx, bare)), sql, info)
    ref.bags_equal(ctx, ev, R, B, info, "after the user changed, the result is not that of the rows visible to the current user")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    rows = 2
    kinds = list(AF)
    for i, f in enumerate(FORMS):
        ks = kinds if deep else ["eq", "two", kinds[i % len(kinds)], "none", "range" if i % 2 else "dates"]
        for k in dict.fromkeys(ks):
            out.append(("form", dict(name=f, af=k, dialect="SNOWFLAKE", rows=rows)))
    for i, f in enumerate(JOINED):
        ks = kinds if deep else ["eq", "acct", "range" if i % 3 == 0 else "acct2", kinds[(3 * i + 1) % len(kinds)]]
        for k in dict.fromkeys(ks):
            if k == "null" or f == "j_notouch" and k in ("acct", "acct2"):
                continue
            out.append(("form", dict(name=f, af=k, dialect="SNOWFLAKE", rows=rows)))
    for k in kinds:
        out.append(("form", dict(name="metric_dim", af=k, dialect="SNOWFLAKE", rows=3)))
        out.append(("form", dict(name="text", af=k, dialect="SNOWFLAKE", rows=rows)))
    for k in ("acct", "acct2"):
        for f in ("metric", "dims", "where", "text", "merged", "cumulative", "funnel", "group_by", "non_additive", "arbitrary", "converted"):
            out.append(("form", dict(name=f, af=k, dialect="SNOWFLAKE", rows=rows)))
    for d in ("BIGQUERY", "REDSHIFT", "POSTGRES"):
        for f in ("cumulative_dim", "merged", "text", "metric_dim", "j_dim"):
            out.append(("form", dict(name=f, af="eq", dialect=d, rows=rows)))
    for d in [d for d in ALL if d not in ("BIGQUERY", "REDSHIFT", "POSTGRES", "SNOWFLAKE")]:
        for f in ("text", "metric_dim", "group_by"):
            out.append(("form", dict(name=f, af="two" if f != "text" else "eq", dialect=d, rows=rows)))
    for f in ("metric_dim", "merged", "cumulative", "text", "mapped"):
        out.append(("user_change", dict(name=f, dialect="SNOWFLAKE", rows=rows)))
    seen, res = set(), []
    for j in out:
        k = json.dumps(j, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(j)
    return res
