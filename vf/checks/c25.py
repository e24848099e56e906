"""C25: filters by the metric of a group.  The real resolver produces the SQL; for all contents of bounded symbolic tables the result is the
declared aggregates over exactly the rows whose group qualifies, the group's metric being computed over that dimension alone."""
import copy
import itertools

import z3

from .. import ref, spec, sx
from ..proj import *
from ..sqls import Eval, V, sym_table, to_real
from ..sx import And, Eq, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = ("two fact views x 3 and 2 rows (thorough 4 and 3) joined to a lookup of 2 rows; sum/count/average/max/filtered/composed metrics; groups of the own view, the joined view, its primary key and the "
          "other fact, time buckets; primary-key grain, merged results; one to three such filters in where or having, with other row and group filters, access filters; every comparison; 10 warehouses")
OUTSIDE = "more rows; group metrics under fan-out joins (C03)"
ASSUMPTIONS = ["rows without a value of the group's dimension are in no group", "a value of the dimension for which the metric's view has no row does not qualify", "a group filter inside an AND/OR group may be refused"]

UC = [("id", "int"), ("r", "code"), ("a", "int"), ("flag", "code"), ("n", "int"), ("cid", "int")]
XC = [("id", "int"), ("z", "code"), ("n", "int"), ("cid", "int")]
CC = [("id", "int"), ("reg", "code")]

M = {"u.t": ("sum", "n"), "u.k": ("count", "id"), "u.av": ("average", "n"), "u.mx": ("max", "n"), "u.kf": ("count", "id"), "u.kd": ("count_distinct", "a"), "x.s": ("sum", "n"), "x.k": ("count", "id")}
COMP = {"u.diff": (["u.t", "u.k"], lambda a, b: a - 2 * b), "u.tot": (["u.diff", "u.mx"], lambda a, b: a + b)}
CMP = {
    "greater_than": (3, lambda v: v > 3), "less_than": (2, lambda v: v < 2), "equal_to": (2, lambda v: v == 2), "not_equal_to": (2, lambda v: v != 2),
    "greater_or_equal_than": (2, lambda v: v >= 2), "less_or_equal_than": (0, lambda v: v <= 0), "isin": ([1, 3], lambda v: Or(v == 1, v == 3)), "isnotin": ([1, 3], lambda v: And(v != 1, v != 3)),
    "is_null": (None, None), "is_not_null": (None, None),
}


def build(dialect, access):
    uf = [pk("id", type="number"), dim("r"), dim("a", type="number"), dim("flag"), dim("n", type="number"), dim("cid", type="number"),
          meas("t", "sum", "${TABLE}.n"), meas("k", "count"), meas("av", "average", "${n}"), meas("mx", "max", "${n}"), meas("kf", "count", filters=[{"field": "flag", "value": "act"}]), meas("kd", "count_distinct", "${a}"),
          meas("diff", "number", "${t} - 2 * ${k}"), meas("tot", "number", "${u.diff} + ${mx}")]
    xf = [pk("id", type="number"), dim("z"), dim("n", type="number"), dim("cid", type="number"), meas("s", "sum", "${n}"), meas("k", "count")]
    cf = [pk("id", type="number"), dim("reg")]
    kw = {"access_filters": [{"field": "c.reg", "user_attribute": "reg"}]} if access else {}
    return project([
        view("u", uf, [{"name": "c", "type": "foreign", "sql": "${cid}"}]),
        view("x", xf, [{"name": "c", "type": "foreign", "sql": "${cid}"}]),
        view("c", cf, [{"name": "c", "type": "primary", "sql": "${id}"}], **kw),
    ], dialect=dialect, user={"reg": "act"} if access else None)


def joined(u, c):
    """rows of a fact with the columns of the lookup row they belong to"""
    out = []
    cs = ref.rows_of(c)
    for p, r in ref.rows_of(u):
        row = dict(r)
        for col, t in (("cid_", "int"), ("reg", "code")):
            v = V(t, True, z3.IntVal(0))
            for k, d in cs:
                d = {"cid_": d["id"], "reg": d["reg"]}
                cond = And(k, Not(r["cid"].null), r["cid"].v == d["cid_"].v)
                v = V(t, Ite(cond, d[col].null, v.null), Ite(cond, d[col].v, v.v))
            row[col] = v
        out.append((p, row))
    return out


COL = {"u.r": "r", "u.a": "a", "c.reg": "reg", "c.id": "cid_", "x.z": "z", "u.flag": "flag", "u.n": "n"}


def value(ev, metric, members):
    if metric in COMP:
        ins, f = COMP[metric]
        vs = [value(ev, m, members) for m in ins]
        return V("real", Or(*[v.null for v in vs]), f(*[to_real(sx.lit(v.v)) for v in vs]))
    kind, col = M[metric]
    ms = members if metric != "u.kf" else [(And(c, Not(r["flag"].null), r["flag"].v == ev.code("act")), r) for c, r in members]
    return spec.agg(kind, [(c, r[col]) for c, r in ms])


def holds(v, expr):
    if expr == "is_null":
        return v.null
    if expr == "is_not_null":
        return Not(v.null)
    return And(Not(v.null), CMP[expr][1](sx.lit(v.v)))


def run(ctx, metrics, dims, filters, dialect, rows=(3, 2), slot="having", where=False, having=False, access=False, spell="full"):
    p = build(dialect, access)
    fl = []
    for i, (m, g, e) in enumerate(filters):
        d = {"field": m, "expression": e, "group_by": g}
        if CMP[e][0] is not None:
            d["value"] = CMP[e][0]
        if spell == "mixed":
            d["field"], d["group_by"] = (m.upper(), g.upper()) if i % 2 == 0 else (m, g.split(".")[1] if g != "c.id" else g)
        fl.append(d)
    req = dict(metrics=list(metrics), dimensions=list(dims))
    if slot == "split":
        req["having"], req["where"] = fl[:1], fl[1:]
    else:
        req[slot] = fl
    if where:
        req.setdefault("where", [])
        req["where"] = [{"field": "u.a", "expression": "greater_than", "value": 2}] + req["where"]
    if having:
        req.setdefault("having", [])
        req["having"] = req["having"] + [{"field": "u.t", "expression": "less_than", "value": 9}]
    info = {"request": str(req), "dialect": dialect, "sig": f"{dims} {[(m, g) for m, g, _ in filters]} {slot} {where} {having} {access}"}
    sql = query(ctx, p, dialect, user={"reg": "act"} if access else None, **copy.deepcopy(req))
    info["sql"] = sql
    q = parsed(ctx, sql)
    u, x, c = sym_table(ctx, "u", UC, rows[0], pk="id"), sym_table(ctx, "x", XC, rows[1], pk="id"), sym_table(ctx, "c", CC, 2, pk="id")
    ev = Eval({"db.u": u, "db.x": x, "db.c": c}, dialect)
    act = ev.code("act")
    R = sem(ctx, lambda: ev.query(q), sql, info)
    ctx.reached()
    J = {"u": joined(u, c), "x": joined(x, c)}
    vis = lambda r, g: And(Not(r["reg"].null), r["reg"].v == act) if access and (g.startswith("c.") or any(d.startswith("c.") for d in dims)) else True

    def keep(r):
        cs = [vis(r, "")]
        for m, g, e in filters:
            k = r[COL[g]]
            members = [(And(cc, ev.same(k, o[COL[g]]), vis(o, g)) if g.startswith("c.") else And(cc, ev.same(k, o[COL[g]])), o) for cc, o in J[m[0]]]
            cs += [Not(k.null), Or(*[cc for cc, _ in members]), holds(value(ev, m, members), e), vis(r, g)]
        if where:
            cs += [Not(r["a"].null), r["a"].v > 2]
        return And(*cs)

    base = metrics[0][0] if metrics else "u"
    src = [(And(cc, keep(r)), r) for cc, r in J[base]]
    keys = [(d.replace(".", "_"), (lambda d: lambda r: r[COL[d]])(d)) for d in dims]
    ms = []
    for m in metrics:
        kind, col = M[m]
        ms.append((m.replace(".", "_"), kind, (lambda col: lambda r: r[col])(col), (lambda r: And(Not(r["flag"].null), r["flag"].v == act)) if m == "u.kf" else None, None))
    hv = None
    if having:
        hv = lambda vals, r: And(Not(vals["u_t"].null), vals["u_t"].v < 9)
    sem(ctx, lambda: ref.compare_grouped(ctx, ev, R, find_col, src, keys, ms, info, having=hv), sql, info)


def dated(dialect):
    p = build(dialect, False)
    for v in p._views:
        if v["name"] != "c":
            v["fields"].append(timedim("ts"))
            v["default_date"] = "ts"
    return project([{k: w for k, w in v.items()} for v in p._views], dialect=dialect)


DC = lambda cols: cols + [("ts", "ts")]


def qualifies(ev, J, m, g, e):
    def f(r):
        k = gval(ev, g, r)
        members = [(And(cc, ev.same(k, gval(ev, g, o))), o) for cc, o in J[m[0]]]
        return And(Not(k.null), Or(*[cc for cc, _ in members]), holds(value(ev, m, members), e))
    return f


def gval(ev, g, r):
    if g.endswith(("ts_month", "ts_date")):
        return V("ts", r["ts"].null, ev.cal.trunc({"month": "month", "date": "day"}[g.split("_")[1]], r["ts"].v))
    return r[COL[g]]


def other(ctx, kind, filt, dialect, slot, dims=("u.r",), rows=(3, 2)):
    """time groups, primary key grain, merged results, groups of filters"""
    p = dated(dialect)
    m, g, e = filt
    d = {"field": m, "expression": e, "group_by": g}
    if CMP[e][0] is not None:
        d["value"] = CMP[e][0]
    second = {**d, "field": "u.k", "group_by": "c.reg"}
    metrics = {"merged": ["u.t", "x.s"], "merged3": ["u.t", "x.s", "u.k"]}.get(kind, ["u.t"])
    flt = [{"logical_operator": kind[6:], "conditions": [d, second]}] if kind.startswith("group_") else [d]
    req = dict(metrics=metrics, dimensions=list(dims), **{slot: flt})
    info = {"request": str(req), "dialect": dialect, "sig": f"{kind} {dims} {m} {g} {slot}"}
    try:
        sql = query(ctx, p, dialect, may_refuse=kind.startswith("group_"), **copy.deepcopy(req))
    except Refused:
        return ctx.reached()
    info["sql"] = sql
    q = parsed(ctx, sql)
    u, x, c = sym_table(ctx, "u", DC(UC), rows[0], pk="id"), sym_table(ctx, "x", DC(XC), rows[1], pk="id"), sym_table(ctx, "c", CC, 2, pk="id")
    ev = Eval({"db.u": u, "db.x": x, "db.c": c}, dialect)
    ev.code("act")
    R = sem(ctx, lambda: ev.query(q), sql, info)
    ctx.reached()
    J = {"u": joined(u, c), "x": joined(x, c)}
    ok = qualifies(ev, J, m, g, e)
    if kind.startswith("group_"):
        ok2 = qualifies(ev, J, "u.k", "c.reg", e)
        ok1 = ok
        ok = lambda r: (And if kind == "group_AND" else Or)(ok1(r), ok2(r))
    S = {v: [(And(cc, ok(r)), r) for cc, r in J[v]] for v in (("u", "x") if kind.startswith("merged") else ("u",))}
    if kind == "pk":
        cs = [(a.replace(".", "_"), (lambda a: lambda r: r["id"] if a == "u.id" else r[COL[a]])(a)) for a in dims] + [("u_t", lambda r: r["n"])]
        return sem(ctx, lambda: ref.compare_rows(ctx, ev, R, find_col, S["u"], cs, info), sql, info)
    if not kind.startswith("merged"):
        keys = [(a.replace(".", "_"), (lambda a: lambda r: gval(ev, a, r))(a)) for a in dims]
        return sem(ctx, lambda: ref.compare_grouped(ctx, ev, R, find_col, S["u"], keys, [("u_t", "sum", lambda r: r["n"], None, None)], info), sql, info)

    def compare():
        cols = {"u.t": "n", "x.s": "n", "u.k": "id"}
        kout = [find_col(R, a.replace(".", "_")) for a in dims]
        match = lambda r, o: And(*[ev.same(gval(ev, a, r), o.v[i]) for a, i in zip(dims, kout)])
        for v in S:
            for cc, r in S[v]:
                ctx.prove(Implies(cc, spec.count([And(o.p, match(r, o)) for o in R.rows]) == 1), "a group is missing or repeated in the merged result", info)
        for o in R.rows:
            if dims:
                ctx.prove(Implies(o.p, Or(*[And(cc, match(r, o)) for v in S for cc, r in S[v]])), "a row of the merged result belongs to no qualifying group", info)
            for a in metrics:
                want = spec.agg(M[a][0], [(And(cc, match(r, o)), r[cols[a]]) for cc, r in S[a[0]]])
                ctx.prove(Implies(o.p, spec.same_value(o.v[find_col(R, a.replace(".", "_"))], want, zero_is_null=True)), f"{a} of a merged result is not computed over the qualifying rows", info)

    sem(ctx, compare, sql, info)


PAIRS = [("u.t", "u.r"), ("u.k", "c.reg"), ("x.s", "c.id"), ("x.k", "c.reg"), ("u.kf", "u.r"), ("u.av", "c.id"), ("u.diff", "u.r"), ("u.tot", "u.a"), ("u.kd", "c.reg"), ("u.mx", "u.a")]


def jobs(tier):
    deep = tier == "thorough"
    rows = (4, 3) if deep else (3, 2)
    out = []
    J = lambda **k: out.append(("run", k))
    es = list(CMP)
    for i, (m, g) in enumerate(PAIRS):
        for j, dims in enumerate((["u.r"], ["c.reg"], [])):
            if not deep and (i + j) % 2 and i > 3:
                continue
            e = es[(i + 3 * j) % len(es)]
            J(metrics=["u.t", "u.k"], dims=dims, filters=[(m, g, e)], dialect=ALL[(i + j) % len(ALL)], rows=rows, slot="where" if (i + j) % 2 else "having", spell="mixed" if i % 3 == 2 else "full")
    for i, e in enumerate(es):
        J(metrics=["u.t"], dims=["u.r"], filters=[("u.t", "u.r" if i % 2 else "c.reg", e)], dialect="SNOWFLAKE" if i % 2 else "BIGQUERY", rows=rows)
    for i, (a, b) in enumerate(itertools.combinations(PAIRS[:5] if not deep else PAIRS, 2)):
        J(metrics=["u.t"], dims=[["u.r"], ["c.reg"]][i % 2], filters=[(*a, es[i % 5]), (*b, es[(i + 2) % 5])], dialect=ALL[i % len(ALL)], rows=(3, 2), slot=("having", "where", "split")[i % 3])
    J(metrics=["u.t"], dims=["u.r"], filters=[("u.t", "u.r", "greater_than"), ("u.t", "c.reg", "less_than")], dialect="SNOWFLAKE", rows=(3, 2))
    J(metrics=["u.t"], dims=["u.r"], filters=[("u.t", "u.r", "greater_than"), ("u.k", "u.r", "less_than"), ("u.mx", "c.reg", "not_equal_to")], dialect="POSTGRES", rows=(3, 2))
    for i, (m, g) in enumerate(PAIRS[:6]):
        J(metrics=["u.t", "u.kf"], dims=["u.r"], filters=[(m, g, es[i])], dialect=ALL[i], rows=(3, 2), where=True, slot=("having", "where")[i % 2])
        J(metrics=["u.t"], dims=["c.reg"] if i % 2 else ["u.r"], filters=[(m, g, es[i])], dialect=ALL[i + 3], rows=(3, 2), having=True, slot=("having", "where")[i % 2])
        J(metrics=["u.k"], dims=["c.reg"] if i % 2 else ["u.r"], filters=[(m, g, es[i])], dialect=ALL[i + 2], rows=(3, 2), access=True)
    O = lambda *a: out.append(("other", dict(zip(("kind", "filt", "dialect", "slot", "dims"), a))))
    for i, g in enumerate(("u.ts_month", "u.ts_date", "x.ts_month")):
        m = "x.s" if g[0] == "x" else "u.t"
        if m[0] == "u":
            O("time", (m, g, "greater_than"), ("SNOWFLAKE", "BIGQUERY")[i], "having", ["u.r"])
            O("time", ("u.k", g, "equal_to"), ("TRINO", "POSTGRES")[i], "where", ["u.ts_month"])
    for i, dims in enumerate((["u.id"], ["u.id", "u.r"], ["c.reg", "u.id"])):
        O("pk", (*PAIRS[i], es[i]), ALL[i], "where", dims)
    for i, (m, e) in enumerate((("u.t", "greater_than"), ("x.s", "less_than"), ("x.k", "equal_to"), ("u.k", "not_equal_to"))):
        O("merged", (m, "c.reg", e), ("SNOWFLAKE", "BIGQUERY", "REDSHIFT", "DUCK_DB")[i], ("where", "having")[i % 2], ["c.reg"])
        O("merged3", (m, "c.reg", e), ("SNOWFLAKE", "BIGQUERY", "POSTGRES", "DUCK_DB")[i], ("having", "where")[i % 2], [])
    for op in ("AND", "OR"):
        for slot in ("where", "having"):
            O("group_" + op, ("u.t", "u.r", "greater_than"), "SNOWFLAKE", slot, ["u.r"])
            O("group_" + op, ("u.mx", "u.a", "less_than"), "SNOWFLAKE", slot, ["c.reg"])
    J(metrics=["x.s"], dims=["x.z"], filters=[("u.t", "c.id", "greater_than"), ("x.k", "x.z", "less_than")], dialect="DUCK_DB", rows=(3, 2))
    J(metrics=[], dims=["u.r", "c.reg"], filters=[("u.t", "u.r", "greater_than")], dialect="TRINO", rows=(3, 2))
    return out
