"""C12: non-additive measures.  The real resolver produces the snapshot query; for all contents of bounded symbolic tables every group's value
is the declared aggregate over exactly the group's rows at the first/last value of the time dimension within their window."""
import copy
import itertools

import z3

from .. import ref, spec, sx
from ..proj import *
from ..sqls import NULL, Eval, Rel, Row, V, sym_table, to_real
from ..sx import And, Eq, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = "one fact view x 3 rows (thorough 4) with a joined lookup of 1-2 rows; sum/count/count_distinct/average/max and composed metrics; min/max windows at day, raw and month grain; window groupings (none, one, two, of a joined view), unaware windows, nulls_are_equal; row filters (list, or-group, date, joined view), metric filters, several snapshot metrics in one query, preceding queries on the same connection; 10 warehouses"
OUTSIDE = "more rows; snapshot measures under fan-out joins (C03); time buckets of weeks and longer are uninterpreted functions of the day (C14)"
ASSUMPTIONS = ["rows whose window key (window grouping or dimension) is missing are in no window unless nulls_are_equal is set", "window groupings are not missing when nulls_are_equal is set"]

UC = [("id", "int"), ("r", "code"), ("a", "code"), ("a2", "code"), ("flag", "code"), ("n", "int"), ("ts", "ts"), ("cid", "int")]
CC = [("id", "int"), ("reg", "code"), ("ts", "ts")]


def nad(name, choice, **k):
    return {"name": name, "window_choice": choice, **k}


# measure -> (aggregate, column, window timeframe, choice, groupings, aware, nulls equal, flag filter)
M = {
    "s_max": ("sum", "n", "date", "max", [], True, False, False),
    "s_min": ("sum", "n", "date", "min", [], True, False, False),
    "s_raw": ("sum", "n", "raw", "max", [], True, False, True),
    "k_max": ("count", "id", "date", "max", [], True, False, False),
    "kd_min": ("count_distinct", "a", "raw", "min", [], True, False, False),
    "av_max": ("average", "n", "date", "max", [], True, False, False),
    "mx_min": ("max", "n", "date", "min", [], True, False, False),
    "mn_max": ("min", "n", "raw", "max", ["a"], True, False, False),
    "s_month": ("sum", "n", "month", "max", [], True, False, False),
    "s_g": ("sum", "n", "date", "max", ["a"], True, False, False),
    "s_max_g": ("sum", "n", "date", "min", ["a"], True, False, True),
    "s_gg": ("sum", "n", "raw", "min", ["a", "a2"], True, False, False),
    "s_gj": ("sum", "n", "date", "max", ["reg"], True, False, False),
    "s_u": ("sum", "n", "date", "max", [], False, False, False),
    "s_ug": ("sum", "n", "raw", "max", ["a"], False, False, False),
    "k_ug": ("count", "id", "date", "min", ["a", "a2"], False, False, True),
    "s_ne": ("sum", "n", "date", "max", [], True, True, False),
    "s_neg": ("sum", "n", "date", "min", ["a"], True, True, False),
    "s_neu": ("sum", "n", "date", "max", ["a"], False, True, False),
}
COMP = {"diff": (["s_max", "s_min"], lambda a, b: a - b), "mixt": (["s_g", "t"], lambda a, b: a - 2 * b), "nest": (["diff", "k_max"], lambda a, b: a + 3 * b)}


def q(d):
    if d == "cts":
        return "c.ts_date"
    return ("c." if d == "reg" else "u.") + d


def al(d):
    return q(d).replace(".", "_")


def build(dialect):
    uf = [pk("id", type="number"), dim("r"), dim("a"), dim("a2"), dim("flag"), dim("n", type="number"), dim("cid", type="number"), timedim("ts"), meas("t", "sum", "${TABLE}.n"),
          meas("diff", "number", "${s_max} - ${s_min}"), meas("mixt", "number", "${u.s_g} - 2 * ${t}"), meas("nest", "number", "${diff} + 3 * ${k_max}")]
    for m, (kind, col, tf, choice, gs, aware, ne, flt) in M.items():
        d = nad(f"ts_{tf}" if len(m) % 2 else f"u.ts_{tf}", choice)
        if gs:
            d["window_groupings"] = [q(g) if i or g == "reg" else g for i, g in enumerate(gs)]
        if not aware:
            d["window_aware_of_query_dimensions"] = False
        if ne:
            d["nulls_are_equal"] = True
        kw = {"filters": [{"field": "flag", "value": "act"}]} if flt else {}
        uf.append(meas(m, kind, None if kind == "count" else "${TABLE}." + col, non_additive_dimension=d, **kw))
    cf = [pk("id", type="number"), dim("reg"), timedim("ts")]
    return project([
        view("u", uf, [{"name": "c", "type": "foreign", "sql": "${cid}"}], default_date="ts"),
        view("c", cf, [{"name": "c", "type": "primary", "sql": "${id}"}]),
    ], [model()], dialect=dialect)


def isv(ev, r, f, c="act"):
    return And(Not(r[f].null), r[f].v == ev.code(c))


D0 = 1704412800
WHERE = {
    "none": ([], lambda ev, r: True),
    "flag": ([{"field": "u.flag", "expression": "equal_to", "value": "act"}], lambda ev, r: isv(ev, r, "flag")),
    "reg": ([{"field": "c.reg", "expression": "equal_to", "value": "act"}], lambda ev, r: isv(ev, r, "reg")),
    "or": ([{"logical_operator": "OR", "conditions": [{"field": "u.r", "expression": "equal_to", "value": "act"}, {"field": "u.n", "expression": "greater_than", "value": 3}]}], lambda ev, r: Or(isv(ev, r, "r"), And(Not(r["n"].null), r["n"].v > 3))),
    "date": ([{"field": "u.ts_date", "expression": "less_than", "value": "2024-01-05T00:00:00"}, {"field": "u.n", "expression": "less_than", "value": 3}], lambda ev, r: And(Not(r["ts"].null), ev.cal.trunc("day", r["ts"].v) < D0, Not(r["n"].null), r["n"].v < 3)),
    "lit": ("${u.n} > 3 and ${c.reg} = 'act'", lambda ev, r: And(isv(ev, r, "reg"), Not(r["n"].null), r["n"].v > 3)),
    "litd": ([{"literal": "${u.r} = 'act' or ${c.reg} = 'act'"}, {"field": "u.n", "expression": "less_than", "value": 3}], lambda ev, r: And(Or(isv(ev, r, "reg"), isv(ev, r, "r")), Not(r["n"].null), r["n"].v < 3)),
}
UNIT = {"date": "day", "month": "month", "week": "week"}


def bucket(ev, tf, v):
    return v.v if tf == "raw" else ev.cal.trunc(UNIT[tf], v.v)


def source(ctx, rows, crows):
    u = sym_table(ctx, "u", UC, rows, pk="id")
    c = sym_table(ctx, "c", CC, crows, pk="id")
    cs = ref.rows_of(c)
    src = []
    for p, r in ref.rows_of(u):
        row = dict(r)
        v = V("code", True, cs[0][1]["reg"].v if cs else z3.IntVal(0))
        for k, d in cs:
            cond = And(k, Not(r["cid"].null), r["cid"].v == d["id"].v)
            v = V("code", Ite(cond, d["reg"].null, v.null), Ite(cond, d["reg"].v, v.v))
        row["reg"] = v
        w = V("ts", True, cs[0][1]["ts"].v if cs else z3.IntVal(0))
        for k, d in cs:
            cond = And(k, Not(r["cid"].null), r["cid"].v == d["id"].v)
            w = V("ts", Ite(cond, d["ts"].null, w.null), Ite(cond, d["ts"].v, w.v))
        row["cts"] = w
        src.append((p, row))
    return {"db.u": u, "db.c": c}, src


def base_measures(ms):
    out = []
    for m in ms:
        out += base_measures(COMP[m][0]) if m in COMP else [m]
    return list(dict.fromkeys(out))


def form(ctx, ms, dims, dialect, where, rows, having=None, before=0, text=None):
    p = build(dialect)
    wl, wf = WHERE[where]
    req = dict(metrics=[f"u.{m}" for m in ms], dimensions=[q(d) for d in dims], where=copy.deepcopy(wl))
    if having:
        req["having"] = {None: [{"field": f"u.{having}", "expression": "greater_than", "value": 3}], "str": "${u.%s} > 3" % having, "dict": [{"literal": "${u.%s} > 3" % having}]}[text]
    info = {"request": str(req), "sig": f"{ms} {dims} {where} {having}"}
    if before:
        conn = connection(p)
        other = copy.deepcopy(req)
        other["dimensions"] = [q(d) for d in (["a2", "reg"] if before == 1 else [])]
        other["where"] = []
        try:
            conn.get_sql_query(query_type=dialect, **other)
            again = conn.get_sql_query(query_type=dialect, **copy.deepcopy(req))
            third = connection(p).get_sql_query(query_type=dialect, **copy.deepcopy(req))
        except sx.EngineError:
            raise
        except Exception as e:
            ctx.fail(f"snapshot request raised {type(e).__name__}: {e}", info)
        sql = again
        ctx.prove(third == again, "the SQL of a snapshot request depends on the connection it is asked on", {**info, "one": again, "other": third})
    else:
        sql = query(ctx, p, dialect, what="snapshot request", **req)
    info["sql"] = sql
    db, src = source(ctx, rows, 1)
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    src = [(And(c, wf(ev, r)), r) for c, r in src]

    def cell(r, d):
        if d.startswith("ts_"):
            return V("ts", r["ts"].null, bucket(ev, d[3:], r["ts"]))
        if d == "cts":
            return V("ts", r["cts"].null, bucket(ev, "date", r["cts"]))
        return r[d]

    snap = {}
    bases = base_measures(ms + ([having] if having else []))
    for m in bases:
        if m == "t":
            continue
        kind, col, tf, choice, gs, aware, ne, flt = M[m]
        if ne:
            for c, r in src:
                ctx.assume(sx.lit(Implies(c, And(*[Not(r[g].null) for g in gs]))))
        win = list(gs) + ([d for d in dims if d not in gs] if aware else [d for d in dims if d.startswith("ts_")])
        ks = [[cell(r, d) for d in win] for _, r in src]
        for i, (c, r) in enumerate(src):
            conds = [c, Not(r["ts"].null)]
            if not ne:
                conds += [Not(k.null) for k in ks[i]]
            for j, (c2, r2) in enumerate(src):
                if i == j:
                    continue
                same = And(c2, Not(r2["ts"].null), *[ev.same(x, y) for x, y in zip(ks[i], ks[j])])
                x, y = bucket(ev, tf, r["ts"]), bucket(ev, tf, r2["ts"])
                conds.append(Implies(same, x >= y if choice == "max" else x <= y))
            if flt:
                conds.append(isv(ev, r, "flag"))
            snap[m, i] = And(*conds)

    def value(m, members):
        if m in COMP:
            parts, f = COMP[m]
            vs = [value(x, members) for x in parts]
            # a sum over no row of the snapshot may be 0 or missing; it counts as 0 in a formula when the group has rows
            return V("real", Or(*[v.null for v in vs]), f(*[to_real(sx.lit(v.v)) for v in vs]))
        if m == "t":
            return spec.agg("sum", [(c, src[i][1]["n"]) for c, i in members])
        kind, col = M[m][:2]
        v = spec.agg(kind, [(And(c, snap[m, i]), src[i][1][col]) for c, i in members])
        if kind == "sum" and inner[0]:
            # rows outside the snapshot contribute zero
            v = V(v.t, And(v.null, Not(Or(*[And(c, Not(snap[m, i])) for c, i in members]))), v.v)
        return v

    inner = [False]
    keys = [al(d) for d in dims]
    kv = [[cell(r, d) for d in dims] for _, r in src]
    ko = sem(ctx, lambda: [find_col(R, k) for k in keys], sql, info)
    mo = sem(ctx, lambda: [find_col(R, f"u_{m}") for m in ms], sql, info)

    def hv(members):
        if not having:
            return True
        inner[0] = True
        v = value(having, members)
        inner[0] = False
        return And(Not(v.null), sx.lit(v.v) > 3)

    for i, (c, r) in enumerate(src if dims else []):
        mem = [(And(d, *[ev.same(x, y) for x, y in zip(kv[i], kv[j])]), j) for j, (d, _) in enumerate(src)]
        hits = [And(o.p, *[ev.same(o.v[k], x) for k, x in zip(ko, kv[i])]) for o in R.rows]
        ctx.prove(Implies(And(c, hv(mem)), spec.count(hits) == 1), "a group is missing or repeated", info)
    if not dims and not having:
        ctx.prove(And(*[o.p for o in R.rows]) if len(R.rows) == 1 else False, "an ungrouped request must give one row", info)
    for o in R.rows:
        if o.p is False:
            continue
        mem = [(And(d, *[ev.same(o.v[k], x) for k, x in zip(ko, kv[j])]), j) for j, (d, _) in enumerate(src)]
        if dims:
            ctx.prove(Implies(o.p, Or(*[c for c, _ in mem])), "a result row corresponds to no source row", info)
        if having:
            ctx.prove(Implies(o.p, hv(mem)), "a group failing the metric filter is shown", info)
        for m, k in zip(ms, mo):
            inner[0] = m in COMP
            want = value(m, mem)
            inner[0] = False
            z = m in M and M[m][0] in ("sum", "count", "count_distinct")
            ctx.prove(Implies(o.p, spec.same_value(o.v[k], want, zero_is_null=z)), f"{m} is not the aggregate of the chosen snapshot rows", info)


def namesake(ctx, dialect):
    """two views with equally named snapshot measures in one query"""
    uf = [pk("id", type="number"), dim("r"), dim("cid", type="number"), timedim("ts"), meas("s", "max", "${TABLE}.n", non_additive_dimension=nad("ts_raw", "max"))]
    p = project([view("u", uf, [{"name": "c", "type": "foreign", "sql": "${cid}"}]), view("c", uf[:2] + uf[3:], [{"name": "c", "type": "primary", "sql": "${id}"}])], [model()], dialect=dialect)
    sql = query(ctx, p, dialect, metrics=["u.s", "c.s"], dimensions=[])
    info = {"sql": sql, "sig": "equally-named-snapshot-measures-share-one-snapshot"}
    cols = [("id", "int"), ("r", "code"), ("n", "int"), ("ts", "ts"), ("cid", "int")]
    db = {f"db.{v}": sym_table(ctx, v, cols, 2, pk="id") for v in "uc"}
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    src = ref.rows_of(db["db.u"])
    last = [And(c, Not(r["ts"].null), *[Implies(And(d, Not(q["ts"].null)), r["ts"].v >= q["ts"].v) for d, q in src]) for c, r in src]
    want = spec.agg("max", [(c, r["n"]) for c, (_, r) in zip(last, src)])
    ctx.prove(spec.same_value(R.rows[0].v[find_col(R, "u_s")], want), "s is not the aggregate of the chosen snapshot rows", info)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    n = 4 if deep else 3
    dimsets = [[], ["r"], ["a"], ["ts_month"], ["ts_date", "r"], ["reg"], ["r", "a2"], ["cts"]]
    i = 0
    for m in M:
        ds = dimsets if deep else [dimsets[i % 8], dimsets[(i + 1) % 8], dimsets[(i + 3) % 8]]
        for d in ds:
            i += 1
            for dia in ALL if deep else (["SNOWFLAKE"] if i % 3 else ["SNOWFLAKE", ALL[1 + i % 9]]):
                out.append(("form", dict(ms=[m], dims=d, dialect=dia, where=list(WHERE)[i % 7], rows=n)))
    for j, (ms, d, w, h) in enumerate([
        (["s_max", "s_min"], ["r"], "none", None), (["s_max", "s_max_g", "s_g"], ["ts_month"], "flag", None), (["diff"], [], "or", None), (["diff", "s_max"], ["r"], "none", None),
        (["mixt"], ["r"], "none", None), (["t", "s_g"], ["a"], "date", None), (["nest"], ["ts_month"], "reg", None), (["s_max"], ["r"], "none", "s_max"), (["t"], ["r"], "none", "s_g"),
        (["s_u", "s_max"], ["r"], "none", None), (["t"], [], "flag", "diff"), (["s_gj", "s_ug"], ["reg"], "reg", None),
    ]):
        for dia in ALL if deep else ["SNOWFLAKE", ALL[1 + j % 9]]:
            out.append(("form", dict(ms=ms, dims=d, dialect=dia, where=w, rows=n if len(base_measures(ms)) < 3 else 2, having=h)))
    for dia in ALL:
        out.append(("form", dict(ms=["s_neg"], dims=["r"], dialect=dia, where="none", rows=2)))
        out.append(("form", dict(ms=["s_neu"], dims=["ts_month"], dialect=dia, where="none", rows=2)))
    for m in ("s_u", "s_ug", "s_neu"):
        out.append(("form", dict(ms=[m], dims=["cts"], dialect="SNOWFLAKE", where="none", rows=n)))
    for j, (m, h, x) in enumerate([("t", "s_max", "str"), ("t", "diff", "dict"), ("s_g", "s_g", "str"), ("s_min", "mixt", "str")]):
        out.append(("form", dict(ms=[m], dims=[["r"], [], ["ts_month"]][j % 3], dialect="SNOWFLAKE", where=["lit", "none", "flag", "litd"][j], rows=2, having=h, text=x)))
    out.append(("namesake", dict(dialect="SNOWFLAKE")))
    for j, m in enumerate(["s_max", "s_g", "s_gg", "s_ug", "s_neg", "nest", "s_gj", "mixt"]):
        for b in (1, 2):
            out.append(("form", dict(ms=[m], dims=[["r"], [], ["ts_month"], ["a"]][(j + b) % 4], dialect="SNOWFLAKE", where="none", rows=n if len(base_measures([m])) < 3 else 2, before=b)))
    return out
