"""C10: cumulative metrics.  The real resolver produces the date-spine query; for all contents of a bounded symbolic table, any position of the
calendar days shown and any current date, each row of a cumulative metric is the declared aggregate over every selected row dated up to (and
including) the row's date bucket, per combination of the other dimensions, and exactly the buckets asked for are shown."""
import copy

import z3

from .. import ref, spec, sx
from ..proj import *
from ..sqls import NULL, Eval, Rel, Row, V, sym_table, to_real
from ..sx import And, Eq, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = "one fact view (and a joined one) x 2-3 rows, 2 calendar days at any position of the spine, any current date; sum/count/count_distinct/average/max/ratio measures; row, date and metric filters; cumulative_where; date/week/month/quarter/year; Snowflake, Redshift, BigQuery, Postgres"
OUTSIDE = "more rows or calendar days, window (rolling) cumulation (not offered by the product), other warehouses (refused by the product); buckets of weeks and longer are uninterpreted functions of the day (their calendar is C14's subject)"
ASSUMPTIONS = ["dimension values are not missing when several metrics are combined (SQL equality in joins)", "a bucket is shown when it starts no later than the current date", "requests that also ask for ordinary metrics show exactly the rows of those metrics' own query; row buckets lie among the spine days"]

UC = [("id", "int"), ("r", "code"), ("flag", "code"), ("n", "int"), ("ts", "ts"), ("ts2", "ts"), ("cid", "int")]
CC = [("id", "int"), ("reg", "code"), ("x", "int"), ("ts", "ts")]
DIALECTS = ["SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES"]


def build(dialect, week_start=None, datatype="timestamp"):
    kw = {"datatype": datatype}
    uf = [
        pk("id", type="number"), dim("r"), dim("flag"), dim("n", type="number"), dim("cid", type="number"),
        timedim("ts", **kw), timedim("ts2", **kw),
        meas("t", "sum", "${TABLE}.n"), meas("tf", "sum", "${TABLE}.n", filters=[{"field": "flag", "value": "act"}]), meas("k", "count"), meas("kd", "count_distinct", "${TABLE}.n"),
        meas("av", "average", "${TABLE}.n"), meas("mx", "max", "${TABLE}.n"), meas("ratio", "number", "${t} - 2 * ${k}"),
        meas("c_t", "cumulative", measure="t"), meas("c_tf", "cumulative", measure="tf"), meas("c_k", "cumulative", measure="k"), meas("c_kd", "cumulative", measure="kd"),
        meas("c_av", "cumulative", measure="av"), meas("c_mx", "cumulative", measure="mx"), meas("c_ratio", "cumulative", measure="ratio"),
        meas("c_cw", "cumulative", measure="t", cumulative_where="${u.ts2_date} < ${cumulative_date}"),
        meas("c_cw2", "cumulative", measure="k", cumulative_where="${ts2_raw} > ${cumulative_date}", update_where_timeframe=False),
        meas("c_cw3", "cumulative", measure="mx", cumulative_where="${u.ts2_date} < ${cumulative_date} and ${n} > 2 and ${u.flag} = 'act'"),
        meas("mix", "number", "${c_t} - 3 * ${c_k}"),
    ]
    cf = [pk("id", type="number"), dim("reg"), timedim("ts"), meas("ck", "count"), meas("c_ck", "cumulative", measure="ck"), meas("cm", "max", "${TABLE}.x"), meas("c_cm", "cumulative", measure="cm"),
          meas("mx", "max", "${TABLE}.x"), meas("c_mx", "cumulative", measure="mx")]
    m = {} if not week_start else {"week_start_day": week_start}
    return project([
        view("u", uf, [{"name": "c", "type": "foreign", "sql": "${cid}"}], default_date="ts"),
        view("c", cf, [{"name": "c", "type": "primary", "sql": "${id}"}], default_date="ts"),
    ], [model(**m)], dialect=dialect)


def isv(f, c="act"):
    return lambda ev: lambda r: And(Not(r[f].null), r[f].v == ev.code(c))


# measure -> (kind, row value, row filter(ev))
M = {
    "t": ("sum", lambda r: r["n"], None), "tf": ("sum", lambda r: r["n"], isv("flag")), "k": ("count", lambda r: r["id"], None), "kd": ("count_distinct", lambda r: r["n"], None),
    "av": ("average", lambda r: r["n"], None), "mx": ("max", lambda r: r["n"], None),
}
RATIO = {"ratio": (["t", "k"], lambda a, b: a - 2 * b)}
MIX = {"mix": (["t", "k"], lambda a, b: a - 3 * b)}


def value(ev, m, members):
    """declared value of measure m over member rows [(cond, row)]"""
    if m in RATIO or m in MIX:
        parts, f = (RATIO.get(m) or MIX[m])
        vs = [value(ev, q, members) for q in parts]
        return V("real", Or(*[v.null for v in vs]), f(*[to_real(sx.lit(v.v)) for v in vs]))
    kind, val, flt = M[m]
    return spec.agg(kind, [(And(c, flt(ev)(r)) if flt else c, val(r)) for c, r in members])


WHERE = {
    "none": ([], lambda ev, r: True),
    "flag": ([{"field": "u.flag", "expression": "equal_to", "value": "act"}], lambda ev, r: isv("flag")(ev)(r)),
    "reg": ([{"field": "c.reg", "expression": "equal_to", "value": "act"}, {"field": "u.n", "expression": "greater_than", "value": 3}], lambda ev, r: And(isv("reg")(ev)(r), Not(r["n"].null), r["n"].v > 3)),
    "date2": ([{"field": "u.ts2_date", "expression": "greater_than", "value": "2024-01-05T00:00:00"}], lambda ev, r: And(Not(r["ts2"].null), ev.cal.trunc("day", r["ts2"].v) > D0)),
}
D0 = 1704412800  # 2024-01-05
DATEW = {
    "dgt": ([{"field": "u.ts_date", "expression": "greater_than", "value": "2024-01-05T00:00:00"}], lambda ev, B: ev.cal.trunc("day", B) > D0),
    "dbetween": ([{"field": "u.ts_date", "expression": "greater_or_equal_than", "value": "2024-01-05T00:00:00"}, {"field": "u.ts_raw", "expression": "less_than", "value": "2024-03-05T00:00:00"}],
                 lambda ev, B: And(ev.cal.trunc("day", B) >= D0, B < D0 + 60 * 86400)),
    "dgroup": ([{"field": "u.ts_date", "expression": "equal_to", "value": "2024-01-05T00:00:00"}], lambda ev, B: ev.cal.trunc("day", B) == D0),
}
CW = {"cw": lambda tf, ev, r, B: And(Not(r["ts2"].null), bucket(ev, tf, r["ts2"].v) < B), "cw2": lambda tf, ev, r, B: And(Not(r["ts2"].null), r["ts2"].v > B),
      "cw3": lambda tf, ev, r, B: And(Not(r["ts2"].null), bucket(ev, tf, r["ts2"].v) < B, Not(r["n"].null), r["n"].v > 2, isv("flag")(ev)(r))}
UNDER = {"cw": "t", "cw2": "k", "cw3": "mx"}
UNIT = {"date": "day", "week": "week", "month": "month", "quarter": "quarter", "year": "year"}


def bucket(ev, tf, v, week_start=None):
    off = 86400 if week_start == "sunday" and tf == "week" else 0
    return ev.cal.trunc(UNIT[tf], v + off) - off


def source(ctx, rows, crows):
    u = sym_table(ctx, "u", UC, rows, pk="id")
    c = sym_table(ctx, "c", CC, crows, pk="id")
    src = []
    for p, r in ref.rows_of(u):
        m = [(And(q, Not(r["cid"].null), r["cid"].v == d["id"].v), d) for q, d in ref.rows_of(c)]
        row = dict(r)
        z = [V("code", True, d["reg"].v) for _, d in m[:1]] or [V("code", True, None)]
        v = z[0]
        for cond, d in m:
            v = V("code", Ite(cond, d["reg"].null, v.null), Ite(cond, d["reg"].v, v.v))
        row["reg"] = v
        src.append((p, row))
    return {"db.u": u, "db.c": c}, src


def cumulative(ctx, ms, tf, dims, dialect, where, datew, rows, datatype="timestamp", order=0, week_start=None):
    """only cumulative metrics, with the default date as a dimension"""
    p = build(dialect, week_start, datatype)
    ds = [f"u.ts_{tf}"] + [("c." if d == "reg" else "u.") + d for d in dims]
    if order:
        ds = ds[1:] + ds[:1]
    wl, wf = WHERE[where]
    dl, df = DATEW[datew] if datew else ([], None)
    req = dict(metrics=["u.c_" + m if m not in MIX else "u." + m for m in ms], dimensions=ds, where=copy.deepcopy((dl + wl) if order else (wl + dl)))
    sql = query(ctx, p, dialect, what="cumulative request", **req)
    info = {"sql": sql, "request": str(req), "sig": f"{ms} {tf} {dims} {where} {datew}"}
    db, src = source(ctx, rows, 1)
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    base = ev.var("spine.base", 0, 14500)
    days = [86400 * (10957 + base + i) for i in range(ev.SPINE_ROWS)]
    buckets, seen = [], []
    for d in days:
        b = bucket(ev, tf, d, week_start)
        buckets.append((Not(Or(*[b == x for x in seen])), b))
        seen.append(b)
    today = ev.today()
    src = [(And(c, Not(r["ts"].null), wf(ev, r)), r) for c, r in src]
    if len(ms) > 1 or ms[0] in MIX:
        for c, r in src:
            ctx.assume(sx.lit(Implies(c, And(*[Not(r[d].null) for d in dims]))))
    # keys: (bucket, dims of some row up to it)
    pairs = []
    for c, b in buckets:
        for d, r in src:
            pairs.append((And(c, b <= today, d, bucket(ev, tf, r["ts"].v, week_start) <= b, df(ev, b) if df else True), b, r))
    kcols = [(f"u_ts_{tf}", lambda b, r: V("ts", False, b))] + [((f"c_{d}" if d == "reg" else f"u_{d}"), (lambda d: lambda b, r: r[d])(d)) for d in dims]
    first = ms[0]
    exp = []
    for i, (c, b, r) in enumerate(pairs):
        same = [And(b == b2, *[ev.same(r[d], r2[d]) for d in dims]) for _, b2, r2 in pairs]
        vals = []
        for m in ms:
            mem = [(And(c2, s, CW[m](tf, ev, r2, b2) if m in CW else True), r2) for (c2, b2, r2), s in zip(pairs, same)]
            v = value(ev, UNDER.get(m, m), mem)
            if m in CW or first in CW:
                # a combination without any row passing cumulative_where is absent from that metric
                v = V(v.t, Or(v.null, Not(Or(*[x for x, _ in mem]))), v.v)
            vals.append(v)
        keep = And(c, Not(Or(*[And(c2, s) for (c2, _, _), s in list(zip(pairs, same))[:i]])))
        if first in CW:
            keep = And(keep, Or(*[And(c2, s, CW[first](tf, ev, r2, b2)) for (c2, b2, r2), s in zip(pairs, same)]))
        exp.append(Row(keep, [f(b, r) for _, f in kcols] + vals))
    names = [k for k, _ in kcols] + [al(m) for m in req["metrics"]]
    compare(ctx, ev, R, names, exp, ms, len(kcols), info)


def al(f):
    return f.replace(".", "_")


def compare(ctx, ev, R, names, exp, ms, nk, info):
    ix = sem(ctx, lambda: [find_col(R, a) for a in names], info["sql"], info)

    def norm(row):
        # a count over nothing may be missing or zero
        return row

    A = Rel([(None, a) for a in names], [Row(r.p, [r.v[i] for i in ix]) for r in R.rows])
    B = Rel([(None, a) for a in names], exp)
    # every expected row is there once and every row there is expected
    for r in exp:
        if r.p is False:
            continue
        hits = [And(o.p, *[ev.same(x, y) for x, y in zip(o.v[:nk], r.v[:nk])]) for o in A.rows]
        ctx.prove(Implies(r.p, spec.count(hits) == 1), "a date bucket of the cumulative metric is missing or repeated", info)
        for h, o in zip(hits, A.rows):
            for m, x, y in zip(ms, o.v[nk:], r.v[nk:]):
                if h is False:
                    continue
                ctx.prove(Implies(And(r.p, h), spec.same_value(x, y, zero_is_null=True)), f"cumulative {m} is not the aggregate of all rows up to the date", info)
    for o in A.rows:
        ctx.prove(Implies(o.p, Or(*[And(r.p, *[ev.same(x, y) for x, y in zip(o.v[:nk], r.v[:nk])]) for r in exp])), "a date bucket or combination that should not be shown is in the result", info)


def mixed(ctx, ms, plain, tf, dims, dialect, where, datew, rows, having=None):
    """cumulative and ordinary metrics together: the rows of the ordinary query, with the cumulative value of each row's bucket"""
    p = build(dialect)
    ds = ([f"u.ts_{tf}"] if tf else []) + [("c." if d == "reg" else "u.") + d for d in dims]
    wl, wf = WHERE[where]
    dl, df = DATEW[datew] if datew else ([], None)
    req = dict(metrics=["u." + m for m in plain] + ["u.c_" + m if m not in MIX else "u." + m for m in ms], dimensions=ds, where=copy.deepcopy(wl + dl))
    if having:
        req["having"] = [{"field": "u." + having, "expression": "greater_than", "value": 3}]
    sql = query(ctx, p, dialect, what="cumulative request", **req)
    single = query(ctx, build(dialect), dialect, metrics=["u." + m for m in plain], dimensions=ds, where=copy.deepcopy(wl + dl))
    info = {"sql": sql, "single": single, "request": str(req), "sig": f"mixed {ms} {tf} {dims} {where} {datew}"}
    if having and having in ms:
        info["sig"] = "having-on-ordinary-metric-also-cumulated-is-ambiguous"
    if having and having[2:] in ms and dialect not in ("SNOWFLAKE", "DUCK_DB"):
        info["sig"] = "having-on-cumulative-metric-refers-to-select-alias"
    db, src = source(ctx, rows, 1)
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    S = sem(ctx, lambda: ev.query(parsed(ctx, single)), single, info)
    ctx.reached()
    base = ev.var("spine.base", 0, 14500)
    days = [86400 * (10957 + base + i) for i in range(ev.SPINE_ROWS)]
    buckets = [bucket(ev, tf, d) for d in days]
    today = ev.today()
    src = [(And(c, wf(ev, r)), r) for c, r in src]
    # scope: dimension values not missing, every row's bucket among the (passed) spine days
    for c, r in src:
        cond = [Not(r[d].null) for d in dims]
        b = bucket(ev, tf, r["ts"].v)
        ctx.assume(sx.lit(Implies(c, And(Not(r["ts"].null), b <= today, Or(*[b == x for x in buckets]), *cond))))
    nk = len(ds)
    sx_ = [find_col(S, al(d)) for d in ds]
    exp = []
    for o in S.rows:
        key = [o.v[i] for i in sx_]
        B = key[0].v
        mem = [(And(c, bucket(ev, tf, r["ts"].v) <= B, *[ev.same(r[d], k) for d, k in zip(dims, key[1:])]), r) for c, r in src]
        vals = [o.v[find_col(S, "u_" + m)] for m in plain]
        vals += [value(ev, UNDER.get(m, m), [(And(c, CW[m](tf, ev, r, B)) if m in CW else c, r) for c, r in mem]) for m in ms]
        p = o.p
        if having:
            hv = vals[(list(plain) + ["c_" + m for m in ms]).index(having)]
            p = And(p, Not(hv.null), sx.lit(hv.v) > 3)
        exp.append(Row(p, key + vals))
    names = [al(d) for d in ds] + [al(m) for m in req["metrics"]]
    compare(ctx, ev, R, names, exp, list(plain) + list(ms), nk, info)


def other(ctx, what, dialect):
    """request shapes recorded as known findings"""
    p = build(dialect)
    req = {
        "nodate": dict(metrics=["u.c_t"], dimensions=["u.r"]),
        "group": dict(metrics=["u.c_t"], dimensions=["u.ts_date"], where=[{"logical_operator": "OR", "conditions": [{"field": "u.flag", "expression": "equal_to", "value": "act"}, {"field": "u.n", "expression": "greater_than", "value": 3}]}]),
        "literal": dict(metrics=["u.c_t"], dimensions=["u.ts_date"], where="${u.n} > 3"),
        "twoframes": dict(metrics=["u.c_t"], dimensions=["u.ts_date", "u.ts_month"]),
        "fanout": dict(metrics=["u.c_t", "c.c_ck"], dimensions=["u.ts_date"]),
        "crossview": dict(metrics=["u.c_t", "c.c_cm"], dimensions=["u.ts_date"]),
        "crossview3": dict(metrics=["u.c_t", "c.c_cm"], dimensions=["c.ts_date"]),
        "crossview4": dict(metrics=["u.c_mx", "c.c_mx"], dimensions=["u.ts_date"]),
        "crossview5": dict(metrics=["u.mx", "c.c_mx", "u.c_mx"], dimensions=["u.ts_date"]),
        "crossview2": dict(metrics=["u.c_t", "u.k", "c.c_cm"], dimensions=["u.ts_date"]),
    }[what]
    conn = connection(p)
    info = {"request": str(req), "sig": OTHER[what]}
    try:
        sql = conn.get_sql_query(query_type=dialect, **copy.deepcopy(req))
    except sx.EngineError:
        raise
    except Exception as e:
        ctx.reached()
        ctx.fail(f"cumulative request raised {type(e).__name__}: {e}", info)
    info["sql"] = sql
    db, src = source(ctx, 2, 1)
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    today = ev.today()
    base = ev.var("spine.base", 0, 14500)
    days = [86400 * (10957 + base + i) for i in range(ev.SPINE_ROWS)]
    usrc = src
    src = [(And(c, Not(r["ts"].null)), r) for c, r in src]
    if what == "nodate":
        for c, r in src:
            ctx.assume(sx.lit(Implies(c, Or(*[And(ev.cal.trunc("day", r["ts"].v) <= d, d <= today) for d in days]))))
        ref.compare_grouped(ctx, ev, R, find_col, src, [("u_r", lambda r: r["r"])], [("u_c_t", "sum", lambda r: r["n"], None, None)], info)
        return
    if what in ("fanout", "crossview", "crossview2", "crossview3", "crossview4", "crossview5"):
        cs = ref.rows_of(db["db.c"])
        pairs = [(And(d <= today), d) for d in days]
        i = find_col(R, "c_ts_date" if what == "crossview3" else "u_ts_date")
        m = "c_c_ck" if what == "fanout" else "c_c_mx" if what[-1] in "45" else "c_c_cm"
        j = find_col(R, m)
        for o in R.rows:
            # (rows of ordinary metrics: those on one of the spine's days)
            o = Row(And(o.p, Not(o.v[i].null), o.v[i].v <= today, Or(*[o.v[i].v == d for d in days])), o.v)
            # c rows reachable from some u row, dated up to the day
            mem = [(And(q, Not(d["ts"].null), ev.cal.trunc("day", d["ts"].v) <= o.v[i].v, what == "crossview3" or Or(*[And(c, Not(r["cid"].null), r["cid"].v == d["id"].v) for c, r in usrc])), d) for q, d in cs]
            v = spec.agg("count", [(c, d["id"]) for c, d in mem]) if what == "fanout" else spec.agg("max", [(c, d["x"]) for c, d in mem])
            ctx.prove(Implies(o.p, spec.same_value(o.v[j], v, zero_is_null=what == "fanout")), f"cumulative {m} of a joined view is not its aggregate over the joined view's rows up to the date", info)
            if what != "fanout":
                mem = [(And(c, ev.cal.trunc("day", r["ts"].v) <= o.v[i].v), r["n"]) for c, r in src]
                um, kind = ("u_c_mx", "max") if what[-1] in "45" else ("u_c_t", "sum")
                ctx.prove(Implies(o.p, spec.same_value(o.v[find_col(R, um)], spec.agg(kind, mem), zero_is_null=True)), f"cumulative {um} is not the aggregate of all rows up to the date", info)
        return
    i, j, k = find_col(R, "u_ts_date"), (find_col(R, "u_ts_month") if what == "twoframes" else None), find_col(R, "u_c_t")
    cond = {"twoframes": lambda r: True, "group": lambda r: Or(isv("flag")(ev)(r), And(Not(r["n"].null), r["n"].v > 3)), "literal": lambda r: And(Not(r["n"].null), r["n"].v > 3)}[what]
    for o in R.rows:
        mem = [(And(c, cond(r), ev.cal.trunc("day", r["ts"].v) <= o.v[i].v), r["n"]) for c, r in src]
        ctx.prove(Implies(o.p, spec.same_value(o.v[k], spec.agg("sum", mem), zero_is_null=True)), "cumulative t is not the aggregate of all rows up to the date", info)
        if j is not None:
            ctx.prove(Implies(o.p, o.v[j].v == ev.cal.trunc("month", o.v[i].v)), "the month shown is not the month of the date shown", info)


OTHER = {"nodate": "no-date-dimension-repeats-rows", "group": "group-filter-crashes", "literal": "literal-filter-crashes", "twoframes": "second-timeframe-shows-first", "fanout": "second-view-counted-per-joining-row", "crossview": "crossview", "crossview2": "crossview2", "crossview3": "crossview3", "crossview4": "crossview4", "crossview5": "crossview5"}


def jobs(tier):
    deep = True
    out = []
    n = 4 if tier == "thorough" else 3
    tfs = ["date", "week", "month", "quarter", "year"]
    ms = ["t", "tf", "k", "kd", "av", "mx", "ratio", "cw", "cw2", "cw3"]
    i = 0
    for m in ms:
        for tf in (tfs if deep else [tfs[ms.index(m) % 5]]):
            for d in (DIALECTS if deep else [DIALECTS[i % 4], "SNOWFLAKE"] if i % 4 else ["SNOWFLAKE"]):
                out.append(("cumulative", dict(ms=[m], tf=tf, dims=[["r"], [], ["r", "flag"], ["reg"]][i % 4], dialect=d, where=list(WHERE)[(i // 2) % 4], datew=[None, "dgt", "dbetween", "dgroup"][(i + 1) % 4], rows=n, datatype=["timestamp", "date"][i % 2] if d == "BIGQUERY" else "timestamp", order=i % 2)))
                i += 1
    for j, (mm, tf, dims) in enumerate([(["t", "k"], "date", ["r"]), (["mix"], "month", []), (["mix", "t"], "date", ["r"]), (["t", "cw"], "date", []), (["t", "cw3"], "month", ["r"]), (["k", "t", "mx"], "week", ["reg"])]):
        for d in (DIALECTS if deep else ["SNOWFLAKE", DIALECTS[1 + j % 3]]):
            out.append(("cumulative", dict(ms=mm, tf=tf, dims=dims, dialect=d, where=list(WHERE)[j % 4], datew=[None, "dbetween"][j % 2], rows=2, week_start="sunday" if tf == "week" else None)))
    for j, (mm, plain, tf, dims, w, dw, h) in enumerate([
        (["t"], ["t"], "date", [], "none", None, None), (["t"], ["k", "mx"], "date", ["r"], "flag", "dgt", None), (["k"], ["t"], "month", ["r"], "reg", None, None),
        (["mix"], ["k"], "date", [], "none", "dgt", None), (["t"], ["k"], "week", ["reg"], "none", None, None), (["cw"], ["t"], "date", [], "none", None, None),
        (["t"], ["t"], "date", [], "none", None, "t"), (["t"], ["k"], "date", ["r"], "flag", None, "k"), (["t"], ["k"], "date", ["r"], "none", None, "c_t"), (["kd", "av"], ["k"], "year", [], "date2", None, None),
    ]):
        for d in (DIALECTS if deep else ["SNOWFLAKE", DIALECTS[1 + j % 3]]):
            out.append(("mixed", dict(ms=mm, plain=plain, tf=tf, dims=dims, dialect=d, where=w, datew=dw, rows=n, having=h)))
    for w in OTHER:
        for d in DIALECTS if w.startswith("cross") else ["SNOWFLAKE"]:
            out.append(("other", dict(what=w, dialect=d)))
    return out
