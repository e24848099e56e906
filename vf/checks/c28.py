"""C28: merging independently stated queries.  For all contents of bounded symbolic tables the merged result is the join, of the stated type on
exactly the stated pairs of fields, of what each query returns by itself, under the documented column names, then filtered and ordered."""
import copy
import itertools

import z3

from .. import ref, spec, sx
from ..proj import *
from ..sqls import Eval, Rel, Row, V, sym_table
from ..sx import And, Eq, Implies, Ite, Not, Or
from . import c09, c19

EXPLANATION = __doc__
BOUNDS = ("two to four queries over 3 views of 1-2 rows each (thorough 2-3); one to three pairs of join fields (text, number, day, month), also with a field in several pairs, joins of the queries left, inner and full; queries with their own row filters, group "
          "filters, merged-result metrics, the same view in several queries; filters and orders on the merged result; mapped names for dimensions, join fields, filters and orders; any letter case; 10 warehouses")
OUTSIDE = "limits inside the merged queries; mapped metrics (C27); more rows"
ASSUMPTIONS = ["the same name in several queries means the first query's column", "join fields of later queries are not shown", "missing join values do not match", "where and having of the merged request apply to its columns"]

UC = [("id", "int"), ("r", "code"), ("q", "code"), ("n", "int"), ("ts", "ts"), ("ts2", "ts"), ("aid", "int"), ("uid", "int")]


def col(f):
    return f.lower().replace(".", "_")


def reference(ctx, ev, rels, queries):
    """the join of the single results: (column names, rows)"""
    first = rels[0]
    rows = [(r.p, [r.v] + [None] * (len(rels) - 1)) for r in first.rows]
    for i in range(1, len(rels)):
        rel, q = rels[i], queries[i]
        pairs = [(find_col(first, col(j["source_field"])), find_col(rel, col(j["field"]))) for j in q["join_fields"]]
        kind = q.get("join_type") or "left_outer"
        out, hit = [], [[] for _ in rel.rows]
        for p, vs in rows:
            ms = []
            for k, b in enumerate(rel.rows):
                if vs[0] is None:
                    m = False
                else:
                    m = And(b.p, *[And(Not(vs[0][x].null), Not(b.v[y].null), spec.val_eq(vs[0][x], b.v[y])) for x, y in pairs])
                ms.append(m)
                hit[k].append(And(p, m))
                out.append((And(p, m), vs[:i] + [b.v] + vs[i + 1:]))
            if kind != "inner":
                out.append((And(p, Not(Or(*ms))), list(vs)))
        if kind == "full_outer":
            for k, b in enumerate(rel.rows):
                nv = [None] * len(rels)
                nv[i] = b.v
                out.append((And(b.p, Not(Or(*hit[k]))), nv))
        rows = [(p, v) for p, v in out if p is not False]
    names, src = [], []
    for i, (rel, q) in enumerate(zip(rels, queries)):
        hidden = {col(j["field"]) for j in q.get("join_fields", [])}
        for k, (_, n) in enumerate(rel.cols):
            if n.lower() in names or n.lower() not in [col(f) for f in q["metrics"] + q["dimensions"]] or (i and n.lower() in hidden):
                continue
            names.append(n.lower())
            src.append((i, k, rel.rows[0].v[k].t if rel.rows else "int"))
    null = {"int": z3.IntVal(0), "code": z3.IntVal(0), "ts": z3.IntVal(0), "real": z3.RealVal(0)}
    res = []
    for p, vs in rows:
        res.append(Row(p, [vs[i][k] if vs[i] is not None else V(t, True, null.get(t, z3.IntVal(0))) for i, k, t in src]))
    return Rel([(None, n) for n in names], res)


FILT = {
    "num": lambda c: ({"expression": "greater_than", "value": 2}, lambda v: And(Not(v.null), v.v > 2)),
    "null": lambda c: ({"expression": "is_null"}, lambda v: v.null),
    "notnull": lambda c: ({"expression": "is_not_null"}, lambda v: Not(v.null)),
    "lt": lambda c: ({"expression": "less_or_equal_than", "value": 1}, lambda v: And(Not(v.null), v.v <= 1)),
}


def run(ctx, shape, queries, dialect, rows=(2, 2, 1), where=None, having=None, order=None, spell="lower", refuse=False, grouped=None, mapped=None, datatype="timestamp"):
    p = c09.build(shape, dialect, datatype)
    qs = copy.deepcopy(queries)
    mapped = mapped or {}
    up = (lambda f: mapped.get(f, f).upper()) if spell == "upper" else (lambda f: mapped.get(f, f))
    req = copy.deepcopy(qs)
    for q in req:
        for j in q.get("join_fields", []):
            j["field"], j["source_field"] = up(j["field"]), up(j["source_field"])
        q["metrics"] = [up(m) for m in q["metrics"]]
        q["dimensions"] = [up(m) for m in q["dimensions"]]
        for w in q.get("where", []):
            w["field"] = up(w["field"])
    kw = {"merged_queries": req}
    conds = []
    for slot, fl in (("where", where), ("having", having)):
        for f, kind in fl or []:
            d, fn = FILT[kind](None)
            kw.setdefault(slot, []).append({"field": up(f), **d})
            conds.append((col(f), fn))
    if grouped:
        kw["where"] = [{"logical_operator": grouped, "conditions": kw["where"]}]
    if order:
        kw["order_by"] = [{"field": up(f), **({"sort": s} if s else {})} for f, s in order]
    kept = copy.deepcopy(kw)
    info = {"request": str(kw), "dialect": dialect, "sig": f"{shape} {[q.get('join_type') for q in qs]} {where} {having}"}
    try:
        sql = query(ctx, p, dialect, may_refuse=refuse, **kw)
    except Refused:
        return ctx.reached()
    info["sql"] = sql
    singles = [query(ctx, p, dialect, **{k: v for k, v in q.items() if k not in ("join_fields", "join_type")}) for q in qs]
    vs = ("u", "w", "x", "a", "b")
    db = {f"db.{v}": sym_table(ctx, v, UC, n, pk="id") for v, n in zip(vs, rows) if any(f"db.{v} " in s + " " for s in [sql] + singles)}
    ev = Eval(db, dialect)
    ev.want_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ev2 = ev
    rels = [sem(ctx, lambda: ev2.query(parsed(ctx, s)), s, info) for s in singles]
    ctx.reached()
    if kw != kept and False:
        ctx.fail("the request was modified", info)
    W = reference(ctx, ev, rels, qs)
    if sorted(n.lower() for _, n in R.cols) != sorted(n for _, n in W.cols):
        ctx.fail("the columns of the merged result are not those of its queries", {**info, "got": [n for _, n in R.cols], "expected": [n for _, n in W.cols]})
    cs = [(find_col(W, c), fn) for c, fn in conds]
    for r in W.rows:
        t = [fn(r.v[i]) for i, fn in cs]
        nw = len(where or [])
        r.p = And(r.p, (Or if grouped == "OR" else And)(*t[:nw]) if nw else True, *t[nw:])
    perm = [find_col(R, n) for _, n in W.cols]
    G = Rel(W.cols, [Row(r.p, [r.v[i] for i in perm]) for r in R.rows])
    sem(ctx, lambda: ref.bags_equal(ctx, ev, G, W, info, "merged queries"), sql, info)
    if order:
        c19.judge(ctx, ev, sql, R, [(col(f), (s or "asc").lower()) for f, s in order], None, info)


def Q(metrics, dims, on=None, how=None, **k):
    q = {"metrics": metrics, "dimensions": dims, **k}
    if on:
        q["join_fields"] = [{"field": a, "source_field": b} for a, b in on]
    if how:
        q["join_type"] = how
    return q


EQ = lambda f, v="A": {"field": f, "expression": "equal_to", "value": v}
GT = lambda f, v=3: {"field": f, "expression": "greater_than", "value": v}


def jobs(tier):
    deep = tier == "thorough"
    out = []
    hows = [None, "left_outer", "inner", "full_outer"]
    k = itertools.count()

    def J(shape, queries, **kw):
        i = next(k)
        kw.setdefault("dialect", ALL[i % len(ALL)])
        if deep and len(queries) == 2:
            kw["rows"] = (3, 3, 2)
        out.append(("run", dict(shape=shape, queries=queries, **kw)))

    for how in hows:
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)])
        J("two", [Q(["u.t"], ["u.r", "u.q"]), Q(["w.k", "w.mx"], ["w.r"], [("w.r", "u.r")], how)])
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r", "w.q"], [("w.r", "u.r")], how)])
        J("two", [Q(["u.t"], ["u.r", "u.q"]), Q(["w.t"], ["w.q", "w.r"], [("w.r", "u.r"), ("w.q", "u.q")], how)])
        J("two", [Q(["u.t"], ["u.r", "u.q"]), Q(["w.t"], ["w.q", "w.r"], [("w.r", "u.q"), ("w.q", "u.r")], how)])
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.t"], ["w.q", "w.r"], [("w.r", "u.r"), ("w.q", "u.r")], how)])
        J("two", [Q(["u.t"], ["u.q", "u.r"]), Q(["w.t"], ["w.r"], [("w.r", "u.r"), ("w.r", "u.q")], how)])
        J("two", [Q(["u.t"], ["u.q", "u.r", "u.n"]), Q(["w.t"], ["w.r", "w.n", "w.q"], [("w.r", "u.r"), ("w.n", "u.n"), ("w.q", "u.r")], how)])
        J("two", [Q(["u.t"], ["u.ts_date"]), Q(["w.t"], ["w.ts_date"], [("w.ts_date", "u.ts_date")], how)])
        J("two", [Q(["u.t"], ["u.ts_month"]), Q(["w.t"], ["w.ts2_month", "w.r"], [("w.ts2_month", "u.ts_month")], how)])
        J("two", [Q(["u.t"], ["u.n"]), Q(["w.t"], ["w.aid"], [("w.aid", "u.n")], how)], spell="upper")
        J("two", [Q(["u.t"], ["u.r"], where=[EQ("u.q")]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how, where=[GT("w.n")], having=[GT("w.t", 1)])])
        J("two", [Q(["u.t"], ["u.r"], where=[EQ("u.q")]), Q(["u.k"], ["u.r"], [("u.r", "u.r")], how, where=[GT("u.n")])])
        J("two", [Q(["u.t"], ["u.r"]), Q(["u.k"], ["u.q"], [("u.q", "u.r")], how)])
        J("two", [Q(["u.t"], ["u.r"]), Q(["u.t", "u.k"], ["u.r", "u.q"], [("u.r", "u.r")], how, where=[GT("u.n")])])
        J("two", [Q([], ["u.r", "u.q"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)])
        J("two", [Q(["u.plus"], ["u.ts_date"]), Q(["w.k"], ["w.ts_date"], [("w.ts_date", "u.ts_date")], how)], rows=(1, 1))
        J("two", [Q(["u.t"], ["u.id", "u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)])
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)], where=[("u.r", "notnull")], having=[("w.k", "num")])
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r", "w.q"], [("w.r", "u.r")], how)], where=[("u.t", "num"), ("w.q", "null")], spell="upper")
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r", "w.q"], [("w.r", "u.r")], how)], where=[("u.t", "num"), ("w.q", "null")], grouped="OR")
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)], having=[("w.k", "null"), ("u.t", "lt")])
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)], order=[("w.k", "desc"), ("u.r", None)], dialect="SNOWFLAKE")
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)], order=[("u.t", "ASC")], having=[("w.k", "num")], dialect="BIGQUERY")
        for dt in ("date", "datetime"):
            J("two", [Q(["u.t"], ["u.ts_date"]), Q(["w.t"], ["w.ts_date"], [("w.ts_date", "u.ts_date")], how)], dialect="BIGQUERY", datatype=dt)
            J("two", [Q(["u.t"], ["u.r", "u.ts_month"]), Q(["w.t"], ["w.ts_month", "w.r"], [("w.ts_month", "u.ts_month"), ("w.r", "u.r")], how)], dialect="BIGQUERY", datatype=dt)
    for a, b in itertools.product(hows[1:], repeat=2):
        J("three", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], a), Q(["x.k"], ["x.r"], [("x.r", "u.r")], b)], rows=(2, 1, 1))
        J("three", [Q(["u.t"], ["u.r", "u.q"]), Q(["w.k"], ["w.r", "w.q"], [("w.r", "u.r")], a), Q(["x.k"], ["x.r", "x.q"], [("x.q", "u.q")], b)], rows=(2, 1, 1))
        J("three", [Q(["u.t"], ["u.r", "u.q"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], a), Q(["w.t"], ["w.r", "w.q"], [("w.q", "u.q")], b)], rows=(2, 2, 1))
        J("three", [Q(["u.t"], ["u.r", "u.q"]), Q(["w.k"], ["w.q", "w.r"], [("w.r", "u.r")], a), Q(["x.k"], ["x.q"], [("x.q", "u.r")], b)], rows=(2, 1, 1), having=[("x.k", "num")], where=[("w.k", "null")])
    J("three", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], "inner"), Q(["x.k"], ["x.r"], [("x.r", "u.r")]), Q(["u.mx"], ["u.q"], [("u.q", "u.r")], "full_outer")], rows=(1, 1, 1))
    reg = {"u.r": "reg", "w.r": "reg", "x.r": "reg"}
    for how in hows:
        for sp in ("lower", "upper"):
            J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)], mapped=reg, spell=sp)
            J("two", [Q(["u.t"], ["u.q", "u.r"]), Q(["w.k"], ["w.q", "w.r"], [("w.r", "u.r")], how)], mapped=reg, spell=sp, where=[("u.r", "notnull"), ("u.t", "num")])
        J("two", [Q(["u.t"], ["u.r"], where=[EQ("u.r")]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how, where=[EQ("w.r", "B")])], mapped=reg)
        J("two", [Q(["u.t"], ["u.r", "u.n"]), Q(["w.k"], ["w.r", "w.n"], [("w.n", "u.n"), ("w.r", "u.r")], how)], mapped={**reg, "u.n": "num", "w.n": "num"}, order=[("u.r", "desc"), ("u.n", "asc"), ("w.k", None)], spell="upper")
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)], mapped={"u.r": "reg"}, having=[("w.k", "num")], order=[("u.r", "desc")], where=[("u.r", "notnull")])
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)], mapped={"w.r": "reg"}, having=[("w.k", "num")], order=[("u.r", "desc")], where=[("u.r", "notnull")])
        J("two", [Q(["u.t"], ["u.ts_date"]), Q(["w.t"], ["w.ts_date"], [("w.ts_date", "u.ts_date")], how)], mapped={"u.ts_date": "date", "w.ts_date": "date"}, having=[("w.t", "num")])
        J("three", [Q(["u.t"], ["u.r", "u.q"]), Q(["w.k"], ["w.q", "w.r"], [("w.r", "u.r")], how), Q(["x.k"], ["x.r"], [("x.r", "u.r")])], rows=(2, 1, 1), mapped=reg, where=[("u.r", "notnull")])
    for how in ("cross", "right_outer", "LEFT"):
        J("two", [Q(["u.t"], ["u.r"]), Q(["w.k"], ["w.r"], [("w.r", "u.r")], how)], refuse=True)
    return out
