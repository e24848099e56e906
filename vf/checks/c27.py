"""C27: mapped names.  The real resolver answers a request written with mapped names (model mappings, the generic dates); on all contents of bounded
symbolic tables the answer is the one of the request in which every mapped name is replaced by the member that belongs to the query's views."""
import copy

from .. import ref, sx
from ..proj import *
from ..sqls import Eval, Rel, Row, sym_table
from ..sx import And, Or
from . import c09, c19

EXPLANATION = __doc__
BOUNDS = ("2 unjoined pairs of joined views, 1-2 rows per table; mappings with 1-4 members over them, for dimensions, metrics, dates, in any letter case; every combination of mapped and plain names over metrics, dimensions, row filters "
          "(single, nested AND/OR groups, literal texts), metric filters, orders and texts; all warehouses")
OUTSIDE = "requests that need merging (C09); mappings with a link; more rows"
ASSUMPTIONS = ["of several members that can be joined to the query's own fields the first in the mapping is used", "generic dates mean the date of the first metric, without a metric the date of the dimensions' view with most measures"]

UC = [("id", "int"), ("r", "code"), ("q", "code"), ("regx", "code"), ("n", "int"), ("ts", "ts"), ("ts2", "ts"), ("aid", "int")]
AC = [("id", "int"), ("r", "code"), ("g", "code"), ("n", "int"), ("ts", "ts")]
# mapped name -> members
MAPS = {
    "reg": ["w.r", "u.r"], "re": ["u.q", "w.q"], "areg": ["b.r", "a.r"], "num": ["w.n", "u.n"], "amt": ["w.t", "u.t"], "cnt": ["u.k", "w.k"], "uq": ["b.g", "u.regx", "u.q"], "r": ["b.r", "a.g"],
    "only": ["w.id"], "av": ["a.avgn", "b.avgn"],
}


def build(dialect):
    def fields(v):
        return [pk("id", type="number"), dim("r", label="R"), dim("q"), dim("regx"), dim("n", type="number"), dim("aid", type="number"), timedim("ts"), timedim("ts2"),
                meas("t", "sum", "${TABLE}.n"), meas("k", "count"), meas("mx", "max", "${TABLE}.n"), meas("t2", "sum", "${TABLE}.n", canon_date="ts2")]

    def side(v):
        return [pk("id", type="number"), dim("r"), dim("g"), dim("n", type="number"), timedim("ts"), meas("avgn", "max", "${TABLE}.n")]

    vs = [view("u", fields("u"), [{"name": "aid", "type": "foreign", "sql": "${aid}"}], default_date="ts"), view("w", fields("w"), [{"name": "bid", "type": "foreign", "sql": "${aid}"}], default_date="ts"),
          view("a", side("a"), [{"name": "aid", "type": "primary", "sql": "${id}", "allowed_fanouts": ["u"]}], default_date="ts"), view("b", side("b"), [{"name": "bid", "type": "primary", "sql": "${id}", "allowed_fanouts": ["w"]}], default_date="ts")]
    return project(vs, [model(mappings={k: {"fields": v} for k, v in MAPS.items()})], dialect=dialect)


def eq(f, v="A"):
    return {"field": f, "expression": "equal_to", "value": v}


def gt(f, v=2):
    return {"field": f, "expression": "greater_than", "value": v}


D0 = "2024-01-05T00:00:00"
OR = lambda *c: {"logical_operator": "OR", "conditions": list(c)}
AND = lambda *c: {"logical_operator": "AND", "conditions": list(c)}

# name -> (request with @mapped names, {mapped name: member})
U = {"reg": "u.r", "re": "u.q", "areg": "a.r", "num": "u.n", "amt": "u.t", "cnt": "u.k", "uq": "u.regx", "r": "a.g", "av": "a.avgn", "date": "u.ts_date", "month": "u.ts_month", "year": "u.ts_year", "week": "u.ts_week"}
W = {"reg": "w.r", "re": "w.q", "areg": "b.r", "num": "w.n", "amt": "w.t", "cnt": "w.k", "uq": "b.g", "r": "b.r", "av": "b.avgn", "date": "w.ts_date", "month": "w.ts_month", "year": "w.ts_year", "week": "w.ts_week"}
U2 = {**U, "date": "u.ts2_date", "month": "u.ts2_month", "year": "u.ts2_year"}
A = {**U, "date": "a.ts_date", "month": "a.ts_month", "year": "a.ts_year"}


def side(s, metric=None, **k):
    """a template with ~ for the view of side s"""
    return k


# {~}: u or w, {^}: a or b
FORMS = {
    "dim": dict(metrics=["~.t"], dimensions=["@reg"]),
    "dims": dict(metrics=["~.k", "~.t"], dimensions=["@num", "~.q", "@reg"]),
    "joined": dict(metrics=["~.t"], dimensions=["@areg"]),
    "joined2": dict(metrics=["~.t"], dimensions=["@areg", "@re"], where=[gt("@num")]),
    "sub": dict(metrics=["~.t"], dimensions=["@re", "@reg", "@r"]),
    "first": dict(metrics=["~.t"], dimensions=["@uq"]),
    "where": dict(metrics=["~.t"], dimensions=["~.q"], where=[eq("@reg"), gt("@num")]),
    "where_one": dict(metrics=["~.t"], dimensions=["~.q"], where=eq("@reg")),
    "where_twice": dict(metrics=["~.t"], dimensions=["@reg"], where=[gt("@num", 1), {"field": "@num", "expression": "less_than", "value": 9}, eq("@reg")]),
    "group": dict(metrics=["~.t"], dimensions=["~.q"], where=[OR(eq("@reg"), AND(gt("@num"), eq("~.q", "B"))), eq("@re", "C")]),
    "deep": dict(metrics=["~.t"], dimensions=["@reg"], where=[AND(eq("@reg"), OR(gt("@num"), AND(eq("@reg", "B"), OR(eq("@re"), gt("@num", 5)))))]),
    "text": dict(metrics=["~.t"], dimensions=["~.q"], where="${@reg} = 'A'"),
    "text2": dict(metrics=["~.t"], dimensions=["~.q"], where="${@reg} = 'reg' or ${~.regx} = 're' and ${@re} = ${@reg}"),
    "text3": dict(metrics=["~.t"], dimensions=["~.q"], where=[{"literal": "${@reg} = 'Reg' or ${~.regx} = 'num' and ${@num} > 2"}, gt("@num", 1)]),
    "text4": dict(metrics=["~.t"], dimensions=["~.q", "@r"], where=[{"literal": "${@r} = 'r' or ${@re} = '.r'"}]),
    "textgroup": dict(metrics=["~.t"], dimensions=["~.q"], where=[OR({"literal": "${@reg} = 'reg'"}, gt("@num", 1))]),
    "having": dict(metrics=["~.t"], dimensions=["~.q"], having=[gt("@amt", 1)]),
    "having2": dict(metrics=["~.mx"], dimensions=["@reg"], having=[gt("@amt", 1), OR(gt("@cnt", 1), {"field": "@amt", "expression": "less_than", "value": 5})]),
    "havingtext": dict(metrics=["~.t"], dimensions=["~.q"], having="${@amt} > 1 and ${@cnt} < 3"),
    "havingtext2": dict(metrics=["~.t"], dimensions=["~.q"], having=[{"literal": "${@cnt} > 1 or ${@amt} > 2"}]),
    "order": dict(metrics=["~.t"], dimensions=["@reg"], order_by=[{"field": "@reg", "sort": "desc"}, {"field": "~.t"}]),
    "ordertext": dict(metrics=["@amt"], dimensions=["~.q", "@reg"], order_by="@amt desc, @reg, ~.q desc"),
    "order2": dict(metrics=["@amt", "~.mx"], dimensions=["~.q"], order_by=[{"field": "~.mx"}, {"field": "@amt", "sort": "desc"}], limit=3),
    "metric": dict(metrics=["@amt"], dimensions=["~.q"]),
    "metrics": dict(metrics=["@cnt", "~.mx", "@amt"], dimensions=["@reg"], where=[gt("@num")], having=[gt("@amt")]),
    "metric_dup": dict(metrics=["@amt", "~.k"], dimensions=["@re"], having=[gt("@cnt", 0)], order_by=[{"field": "@cnt", "sort": "asc"}]),
    "metric_w": dict(metrics=["@amt"], dimensions=[], where=[eq("~.q")]),
    "metric_j": dict(metrics=["~.t", "@av"], dimensions=["~.q"]),
    "nometric": dict(metrics=[], dimensions=["@reg", "~.q"]),
    "nometric2": dict(metrics=[], dimensions=["~.q", "@areg"], where=[gt("@num")]),
    "date": dict(metrics=["~.t"], dimensions=["@date"]),
    "date2": dict(metrics=["~.t", "~.k"], dimensions=["@month", "@reg"], where=[dict(gt("@date"), value=D0), {"field": "@year", "expression": "less_than", "value": "2025-03-01T00:00:00"}]),
    "dateorder": dict(metrics=["~.mx"], dimensions=["@date", "@month"], order_by=[{"field": "@month", "sort": "desc"}, {"field": "@date"}]),
    "datetext": dict(metrics=["~.t"], dimensions=["~.q"], where="${@date} > ${~.ts2_date}"),
    "datetext2": dict(metrics=["~.t"], dimensions=["@date"], where=[{"literal": "${@date} is not null and ${@month} is not null"}]),
    "dateor": dict(metrics=["~.t"], dimensions=["@reg"], where=[OR(dict(gt("@week"), value=D0), eq("@re"))]),
    "date_canon": dict(metrics=["~.t2"], dimensions=["@date"], where=[dict(gt("@month"), value=D0)]),
    "date_canon2": dict(metrics=["~.t2"], dimensions=["@month", "~.q"], order_by="@month desc"),
    "date_join": dict(metrics=["^.avgn"], dimensions=["@date", "@areg"]),
    "date_nometric": dict(metrics=[], dimensions=["~.q", "@date"]),
    "date_metric": dict(metrics=["~.t", "@cnt"], dimensions=["@date"]),
    "gb": dict(metrics=["~.t"], dimensions=["@reg"], having=[{**gt("~.k", 1), "group_by": "~.q"}]),
}
REFUSE = {
    "no_member": dict(metrics=["u.t"], dimensions=["@only"]),
    "no_member2": dict(metrics=["u.t"], dimensions=["u.q"], where=[eq("@only")]),
    "no_member3": dict(metrics=["u.t"], dimensions=["u.q"], where="${@only} = 'A'"),
    "no_member4": dict(metrics=["u.t"], dimensions=["u.q"], where=[OR(eq("u.q"), eq("@only"))]),
    "split": dict(metrics=["u.t"], dimensions=["w.q", "@areg"]),
}


def members(s, name):
    m = dict(U if s == "u" else W)
    if name.startswith("date_canon"):
        m.update({k: m[k].replace("ts_", "ts2_") for k in ("date", "month", "year")})
    if name == "date_join":
        m.update({k: m[k].replace("u.", "a.").replace("w.", "b.") for k in ("date", "month", "year")})
    return m


def subst(x, fn):
    if isinstance(x, str):
        import re
        return re.sub(r"@(\w+)", lambda g: fn(g.group(1)), x)
    if isinstance(x, list):
        return [subst(v, fn) for v in x]
    if isinstance(x, dict):
        return {k: subst(v, fn) for k, v in x.items()}
    return x


def sided(x, s):
    if isinstance(x, str):
        return x.replace("~", s).replace("^", {"u": "a", "w": "b"}[s])
    if isinstance(x, list):
        return [sided(v, s) for v in x]
    if isinstance(x, dict):
        return {k: sided(v, s) for k, v in x.items()}
    return x


CASES = {"lower": str.lower, "upper": str.upper, "mixed": lambda n: n[0].upper() + n[1:]}


def uses(x, out=None):
    out = [] if out is None else out
    subst(x, lambda n: out.append(n) or n)
    return out


def form(ctx, name, side, dialect, case="lower", rows=2):
    t = sided(FORMS[name], side)
    m = members(side, name)
    # every use of a mapped name is written as the mapped name or as the member, independently
    n = len(uses(t))
    how = [ctx.flag(f"use{i}") for i in range(n)] if n <= 3 else [True] * n if ctx.flag("all") else None
    if how is None:
        k = ctx.pick("plain", range(n))
        how = [i != k for i in range(n)]
    if not any(how):
        return ctx.reached()
    left = list(how)
    req = subst(copy.deepcopy(t), lambda x: CASES[case](x) if left.pop(0) else m[x])
    plain = subst(copy.deepcopy(t), lambda x: m[x])
    info = {"request": str(req), "dialect": dialect, "sig": name}
    sql = query(ctx, build(dialect), dialect, what="mapped request", **copy.deepcopy(req))
    want = query(ctx, build(dialect), dialect, what="plain request", **copy.deepcopy(plain))
    info.update(sql=sql, plain=want)
    db = {f"db.{v}": sym_table(ctx, v, UC, rows, pk="id") for v in ("u", "w") if v == side}
    db.update({f"db.{v}": sym_table(ctx, v, AC, 1, pk="id") for v in ("a", "b") if f"db.{v} " in sql + want})
    for v in "uwab":
        if f"db.{v} " in sql + " " and f"db.{v}" not in db:
            ctx.fail("a view that does not belong to the query is used", info)
    ev = Eval(db, dialect)
    ev.want_order = "order_by" in req
    ev.lax_order = not ev.want_order
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    S = sem(ctx, lambda: ev.query(parsed(ctx, want)), want, info)
    ctx.reached()
    if ev.want_order:
        o = plain["order_by"]
        o = [{"field": x.split()[0], "sort": (x.split() + ["asc"])[1]} for x in o.split(",")] if isinstance(o, str) else o
        c19.judge(ctx, ev, sql, R, [(x["field"].replace(".", "_"), x.get("sort", "asc")) for x in o], req.get("limit"), info)
    ref.bags_equal(ctx, ev, R, S, info, "the mapped request is not answered like the plain one")


def refused(ctx, name, dialect, case="lower"):
    req = subst(copy.deepcopy(REFUSE[name]), CASES[case])
    try:
        sql = query(ctx, build(dialect), dialect, may_refuse=True, **req)
    except Refused:
        ctx.reached()
        return ctx.prove(True, "refused")
    ctx.fail("a mapping with no usable member is answered", {"request": str(req), "sql": sql, "sig": name})


# metrics with different dates and a generic date: the merged query by the first metric's date
DATES = {
    "two": dict(metrics=["~.t", "~.t2"], dimensions=["@date"]),
    "other first": dict(metrics=["~.t2", "~.t"], dimensions=["@month"]),
    "last differs": dict(metrics=["~.t", "~.k", "~.t2"], dimensions=["@date"]),
    "joined": dict(metrics=["~.t2", "^.avgn"], dimensions=["@date"]),
    "filtered": dict(metrics=["~.mx", "~.t2"], dimensions=["@date"], where=[dict(gt("@month"), value=D0), eq("~.q")]),
    "ordered": dict(metrics=["~.k", "~.t", "~.t2"], dimensions=["@year"], order_by=[{"field": "@year", "sort": "desc"}]),
    "only filtered": dict(metrics=["~.t2", "~.t"], dimensions=["~.q"], where=[dict(gt("@date"), value=D0)]),
    "no dimension": dict(metrics=["~.t", "~.t2"], dimensions=[], where=[dict(gt("@date"), value=D0)]),
}


def dates(ctx, name, side, dialect, rows):
    t = sided(DATES[name], side)
    first = f"{side}.ts2" if t["metrics"][0].endswith("t2") else f"{side}.ts"
    req, plain = subst(copy.deepcopy(t), str.upper if ctx.flag("upper") else str), {**subst(copy.deepcopy(t), lambda n: f"{first}_{n}"), "merged_result": True}
    info = {"request": str(req), "dialect": dialect, "sig": "dates " + name}
    sql = query(ctx, build(dialect), dialect, what="mapped request", **req)
    want = query(ctx, build(dialect), dialect, what="plain request", **plain)
    info.update(sql=sql, plain=want)
    db = {f"db.{side}": sym_table(ctx, side, UC, rows, pk="id")}
    db.update({f"db.{v}": sym_table(ctx, v, AC, 1, pk="id") for v in ("a", "b") if f"db.{v} " in sql + want})
    ev = Eval(db, dialect)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    S = sem(ctx, lambda: ev.query(parsed(ctx, want)), want, info)
    ctx.reached()
    ref.bags_equal(ctx, ev, R, S, info, "the request by the generic date is not answered like the merged one by the first metric's date")


def three(ctx, dialect):
    """a mapping with a member in each of three merged views"""
    p = c09.build("three", dialect)
    want = query(ctx, p, dialect, metrics=["u.t", "w.t", "x.t"], dimensions=["w.r"])
    info = {"request": "u.t, w.t, x.t by reg", "sig": "three-merged-views-mapped-name"}
    try:
        sql = query(ctx, c09.build("three", dialect), dialect, may_refuse=True, metrics=["u.t", "w.t", "x.t"], dimensions=["reg"])
    except Refused as e:
        ctx.reached()
        ctx.fail(f"a mapped name is refused although the query with its member is answered: {e}", {**info, "plain": want})
    ctx.reached()
    db = {f"db.{v}": sym_table(ctx, v, UC, 1, pk="id") for v in "uwx"}
    ev = Eval(db, dialect)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    S = sem(ctx, lambda: ev.query(parsed(ctx, want)), want, info)
    A, B = [Rel([(None, c) for c in ("r", "u_t", "w_t", "x_t")], [Row(r.p, [r.v[i] for i in [next(find_col(X, k) for k in ("u_r", "w_r", "x_r") if k in [n for _, n in X.cols])] + [find_col(X, c) for c in ("u_t", "w_t", "x_t")]]) for r in X.rows]) for X in (R, S)]
    ref.bags_equal(ctx, ev, A, B, info, "the mapped request is not answered like the plain one")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for i, f in enumerate(FORMS):
        for j, s in enumerate("uw"):
            if s == "w" and "uq" in str(FORMS[f]):
                pass
            for d in (ALL if deep else [ALL[(i + 5 * j) % 10]]):
                for c in CASES if deep else [list(CASES)[(i + j) % 3]]:
                    out.append(("form", dict(name=f, side=s, dialect=d, case=c, rows=3 if deep and d == "SNOWFLAKE" else 2)))
    for i, f in enumerate(DATES):
        for j, s in enumerate("uw"):
            for d in ALL if deep else [ALL[(i * 3 + 5 * j) % 10]]:
                out.append(("dates", dict(name=f, side=s, dialect=d, rows=2 if deep else 1)))
    for i, f in enumerate(REFUSE):
        for c in CASES:
            out.append(("refused", dict(name=f, dialect=ALL[i], case=c)))
    out.append(("three", dict(dialect="SNOWFLAKE")))
    return out
