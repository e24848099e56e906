"""C11: funnels and conversion filters.  The real resolver produces the funnel SQL; for all histories of a bounded number of events the result of
every step is the metric over exactly the events that complete a chain of steps in order and in time."""
import copy

import z3

from .. import ref, spec, sx
from ..proj import *
from ..sqls import NULL, Eval, Rel, Row, V, sym_table, to_real, ts_const
from ..sx import And, Eq, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = "4 events (thorough 5) of any entities and times, joined customer table of 1-2 rows; 1-4 steps of one or two conditions or free text; limits in seconds to years; count/sum/count_distinct/average/max/ratio metrics, 0-2 dimensions, row filters (list, or-group, joined view), metric filters; entity key in the event or the joined view; conversion/drop-off between any two steps; all warehouses with multi-pass sums, counts on all"
OUTSIDE = "more events or steps; the length of time between two instants is an uninterpreted function per unit (its definition is C15's subject)"
ASSUMPTIONS = ["digest collisions do not occur", "primary keys are unique and not null"]

EC = [("id", "int"), ("cid", "int"), ("typ", "code"), ("q", "code"), ("n", "int"), ("yn", "bool"), ("ts", "ts")]
CC = [("id", "int"), ("reg", "code"), ("cust", "int")]


def build(dialect, link="e"):
    tags = ["pii", "customers"] if dialect in ("REDSHIFT", "BIGQUERY", "TRINO") else ["customer"]  # either spelling marks the link
    ef = [pk("id", type="number"), dim("cid", type="number", **({"tags": tags} if link == "e" else {})), dim("typ"), dim("q"), dim("n", type="number"), dim("yn", type="yesno"), timedim("ts"),
          meas("k", "count"), meas("t", "sum", "${TABLE}.n"), meas("kd", "count_distinct", "${TABLE}.cid"), meas("av", "average", "${TABLE}.n"), meas("mx", "max", "${TABLE}.n"),
          meas("kf", "count", filters=[{"field": "yn", "value": "TRUE"}]), meas("rt", "number", "${t} - 2 * ${k}")]
    cf = [pk("id", type="number"), dim("reg"), dim("cust", type="number", **({"tags": tags} if link == "c" else {}))]
    return project([view("e", ef, [{"name": "c", "type": "foreign", "sql": "${cid}"}], default_date="ts"),
                    view("c", cf, [{"name": "c", "type": "primary", "sql": "${id}"}])], [model()], dialect=dialect)


def eq(f, v):
    return {"field": f, "expression": "equal_to", "value": v}


def nn(r, f):
    return Not(r[f].null)


def code(ev, r, f, c):
    return And(nn(r, f), r[f].v == ev.code(c))


COND = {
    "A": ([eq("e.typ", "A")], lambda ev, r: code(ev, r, "typ", "A")),
    "B": ([eq("e.typ", "B")], lambda ev, r: code(ev, r, "typ", "B")),
    "C": ([eq("e.typ", "C"), {"field": "e.n", "expression": "greater_than", "value": 3}], lambda ev, r: And(code(ev, r, "typ", "C"), nn(r, "n"), r["n"].v > 3)),
    "two": ([{"field": "e.typ", "expression": "isin", "value": ["A", "B"]}, {"field": "e.q", "expression": "not_equal_to", "value": "A"}], lambda ev, r: And(Or(code(ev, r, "typ", "A"), code(ev, r, "typ", "B")), nn(r, "q"), r["q"].v != ev.code("A"))),
    "reg": ([eq("c.reg", "A")], lambda ev, r: code(ev, r, "reg", "A")),
    "yn": ([eq("e.yn", True)], lambda ev, r: And(nn(r, "yn"), r["yn"].v)),
    "range": ([{"field": "e.n", "expression": "greater_than", "value": 2}, {"field": "e.n", "expression": "less_than", "value": 7}], lambda ev, r: And(nn(r, "n"), r["n"].v > 2, r["n"].v < 7)),
    "null": ([{"field": "e.q", "expression": "is_null"}], lambda ev, r: r["q"].null),
    "late": ([{"field": "e.ts_date", "expression": "greater_than", "value": "2021-03-05"}], lambda ev, r: And(nn(r, "ts"), r["ts"].v >= ts_const("2021-03-06"))),
    "text": ("${e.typ} = 'A' or ${e.typ} = 'B'", lambda ev, r: Or(code(ev, r, "typ", "A"), code(ev, r, "typ", "B"))),
    "any": ([{"value": True, "expression": "equal_to"}], lambda ev, r: True),
}
WHERE = {
    "none": ([], lambda ev, r: True),
    "q": ([eq("e.q", "A")], lambda ev, r: code(ev, r, "q", "A")),
    "reg": ([eq("c.reg", "A"), {"field": "e.n", "expression": "less_than", "value": 9}], lambda ev, r: And(code(ev, r, "reg", "A"), nn(r, "n"), r["n"].v < 9)),
    "or": ([{"logical_operator": "OR", "conditions": [eq("e.q", "A"), {"field": "e.n", "expression": "less_than", "value": 9}]}], lambda ev, r: Or(code(ev, r, "q", "A"), And(nn(r, "n"), r["n"].v < 9))),
}
M = {"k": ("count", "id", None), "t": ("sum", "n", None), "kd": ("count_distinct", "cid", None), "av": ("average", "n", None), "mx": ("max", "n", None), "kf": ("count", "id", "yn")}


def source(ctx, rows, crows):
    e = sym_table(ctx, "e", EC, rows, pk="id")
    c = sym_table(ctx, "c", CC, crows, pk="id")
    cs = ref.rows_of(c)
    src = []
    for p, r in ref.rows_of(e):
        row = dict(r)
        for f, t in (("reg", "code"), ("cust", "int")):
            v = V(t, True, cs[0][1][f].v if cs else z3.IntVal(0))
            for k, d in cs:
                cond = And(k, Not(r["cid"].null), r["cid"].v == d["id"].v)
                v = V(t, Ite(cond, d[f].null, v.null), Ite(cond, d[f].v, v.v))
            row[f] = v
        src.append((p, row))
    return {"db.e": e, "db.c": c}, src


def durations(ctx, ev, src, unit, dialect):
    """time from event f to event i in the warehouse's duration function for this unit (the real code's, judged by C15)"""
    from metrics_layer.core.model.field import Field

    expr = Field.dimension_group_duration_sql("pair.a", "pair.b", query_type=dialect, dimension_group=unit + "s")
    N = len(src)
    ev.db["db.pair"] = Rel([("a", "ts"), ("b", "ts")], [Row(True, [src[f][1]["ts"], src[i][1]["ts"]]) for f in range(N) for i in range(N)])
    R = ev.query(parsed(ctx, f"SELECT {expr} as d FROM db.pair pair"))
    return {(f, i): R.rows[f * N + i].v[0] for f in range(N) for i in range(N)}


def chains(ctx, ev, src, steps, within, link, dialect):
    """per step: every (condition, last event) in which events taken in time order complete the steps so far"""
    value, unit = within
    N = len(src)
    dur = durations(ctx, ev, src, unit, dialect)
    cur = [(And(src[i][0], COND[steps[0]][1](ev, src[i][1])), (i,)) for i in range(N)]
    out = [cur]
    for s in steps[1:]:
        new = []
        for c, ch in cur:
            j, f = ch[-1], ch[0]
            q, fr = src[j][1], src[f][1]
            for i in range(N):
                if i in ch:
                    continue
                p, r = src[i]
                cond = And(c, p, COND[s][1](ev, r), nn(r, link), nn(q, link), q[link].v == r[link].v, nn(q, "ts"), nn(r, "ts"), q["ts"].v < r["ts"].v, nn(fr, "ts"), Not(dur[f, i].null), sx.lit(dur[f, i].v) <= value)
                new.append((cond, ch + (i,)))
        cur = new
        out.append(cur)
    return out


def funnel_of(steps, within):
    return {"steps": [copy.deepcopy(COND[s][0]) for s in steps], "within": {"value": within[0], "unit": within[1] + "s" if within[0] != 1 else within[1]}}


def value(m, members, ev):
    if m == "rt":
        a, b = value("t", members, ev), value("k", members, ev)
        return V("real", a.null, to_real(sx.lit(a.v)) - 2 * to_real(sx.lit(b.v)))
    kind, col, flt = M[m]
    return spec.agg(kind, [(And(c, nn(r, flt), r[flt].v) if flt else c, r[col]) for c, r in members])


def digests(src):
    return ref.digest_hyp([(r["id"], [0, r["n"].v * 1000000]) for _, r in src])


def form(ctx, ms, dims, steps, within, dialect, where, rows, link="e", having=None):
    p = build(dialect, link)
    wl, wf = WHERE[where]
    req = dict(metrics=[f"e.{m}" for m in ms], dimensions=[("c." if d == "reg" else "e.") + d for d in dims], where=copy.deepcopy(wl), funnel=funnel_of(steps, within))
    if having:
        req["having"] = [{"field": f"e.{having}", "expression": "greater_than", "value": 1}]
    info = {"request": str(req), "sig": "free-text-funnel-step" if "text" in steps else f"{ms} {dims} {steps} {where}"}
    sql = query(ctx, p, dialect, what="funnel request", **req)
    info["sql"] = sql
    db, src = source(ctx, rows, 1)
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    src = [(And(c, wf(ev, r)), r) for c, r in src]
    lk = "cid" if link == "e" else "cust"
    got = chains(ctx, ev, src, steps, within, lk, dialect)
    got = [[(Or(*[c for c, ch in g if ch[-1] == i]), (i,)) for i in range(len(src))] for g in got]
    if dialect not in SYMM and not set(ms) <= {"kd", "mx"} and len(steps) > 1:
        info["sig"] = "event-counted-once-per-way-on-warehouses-without-symmetric-aggregates"
    hyp = digests(src)
    al = [("c_" if d == "reg" else "e_") + d for d in dims]
    ko = sem(ctx, lambda: [find_col(R, a) for a in al], sql, info)
    mo = sem(ctx, lambda: [find_col(R, f"e_{m}") for m in ms + ([having] if having and having not in ms else [])], sql, info)
    so = find_col(R, "step_order")
    names = ms + ([having] if having and having not in ms else [])
    for n in range(len(steps)):
        mem0 = [(c, src[ch[-1]][1]) for c, ch in got[n]]

        def ok(members):
            if not having:
                return True
            v = value(having, members, ev)
            return And(Not(v.null), sx.lit(v.v) > 1)

        for i, (c, r) in enumerate(mem0 if dims else [(True, None)]):
            if c is False:
                continue
            mem = [(And(d, *[ev.same(r[x], q[x]) for x in dims]) if dims else d, q) for d, q in mem0]
            hits = [And(o.p, o.v[so].v == n + 1, *[ev.same(o.v[k], r[d]) for k, d in zip(ko, dims)]) for o in R.rows]
            ctx.prove(Implies(And(c, ok(mem)), spec.count(hits) == 1), f"a group of step {n + 1} is missing or repeated", info, hyp)
        for o in R.rows:
            here = And(o.p, o.v[so].v == n + 1)
            if here is False or sx.is_conc_bool(z3.simplify(sx.lit(here))) is False:
                continue
            mem = [(And(c, *[ev.same(o.v[k], r[d]) for k, d in zip(ko, dims)]), r) for c, r in mem0]
            if dims:
                ctx.prove(Implies(here, Or(*[c for c, _ in mem])), f"a group of step {n + 1} has no qualifying event", info, hyp)
            if having:
                ctx.prove(Implies(here, ok(mem)), "a group failing the metric filter is shown", info, hyp)
            for m, k in zip(names, mo):
                z = m in ("k", "kf", "t", "kd")
                known = Or(*[And(c, nn(r, "n")) for c, r in mem]) if m == "rt" else True  # an empty sum is 0 or null by design of the de-duplicating sum
                ctx.prove(Implies(And(here, known), spec.same_value(o.v[k], value(m, mem, ev), zero_is_null=z)), f"{m} of step {n + 1} does not count exactly the events completing the steps", info, hyp)
    for o in R.rows:
        ctx.prove(Implies(o.p, And(Not(o.v[so].null), o.v[so].v >= 1, o.v[so].v <= len(steps))), "a row of no step", info)


def converted(ctx, ms, dims, steps, within, dialect, where, rows, frm, to, kind, link="e"):
    p = build(dialect, link)
    wl, wf = WHERE[where]
    lf = "e.cid" if link == "e" else "c.cust"
    req = dict(metrics=[f"e.{m}" for m in ms], dimensions=[("c." if d == "reg" else "e.") + d for d in dims],
               where=copy.deepcopy(wl) + [{"field": lf, "expression": kind, "from": frm, "to": to, "funnel": funnel_of(steps, within)}])
    info = {"request": str(req), "sig": f"{ms} {dims} {steps} {where} {kind}"}
    sql = query(ctx, p, dialect, what="conversion filter", **req)
    info["sql"] = sql
    db, src = source(ctx, rows, 1)
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    src = [(And(c, wf(ev, r)), r) for c, r in src]
    lk = "cid" if link == "e" else "cust"
    got = chains(ctx, ev, src, steps, within, lk, dialect)
    if kind == "dropped_off" and to == 1:
        for c, r in src:
            ctx.assume(sx.lit(Implies(c, nn(r, lk))))

    def entity(n, r):
        return Or(*[And(c, nn(src[ch[-1]][1], lk), src[ch[-1]][1][lk].v == r[lk].v) for c, ch in got[n - 1]])

    keep = [(And(c, nn(r, lk), entity(frm, r), entity(to, r) if kind == "converted" else Not(entity(to, r))), r) for c, r in src]
    keys = [(("c_" if d == "reg" else "e_") + d, (lambda d: lambda r: r[d])(d)) for d in dims]
    msr = [(f"e_{m}", M[m][0], (lambda col: lambda r: r[col])(M[m][1]), (lambda r: And(nn(r, "yn"), r["yn"].v)) if M[m][2] else None, None) for m in ms]
    sem(ctx, lambda: ref.compare_grouped(ctx, ev, R, find_col, keep, keys, msr, info, hyp=digests(src), label=f"{kind} filter"), sql, info)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    n = 5 if deep else 4
    units = [(3, "day"), (1, "hour"), (10, "minute"), (2, "week"), (1, "month"), (30, "second"), (1, "quarter"), (2, "year"), (120, "day"), (1000, "hour")]
    base = [
        (["k"], [], ["A", "B"], "none", "e", None), (["k"], ["q"], ["A", "B"], "q", "e", None), (["t"], [], ["A", "B"], "none", "e", None), (["kd"], [], ["A", "B", "C"], "none", "e", None),
        (["kd"], [], ["late", "B"], "none", "e", None), (["kd", "mx"], ["q"], ["A", "late"], "none", "e", None), (["k"], [], ["text", "C"], "none", "e", None), (["k"], [], ["C", "text"], "none", "e", None),
       
        (["k", "t"], ["q"], ["A", "two"], "or", "e", None), (["mx"], [], ["range", "yn"], "none", "e", None), (["kf"], ["q"], ["any", "B"], "none", "e", None), (["rt"], [], ["A", "B"], "q", "e", None),
        (["av"], [], ["A", "B"], "none", "e", None), (["k"], ["reg"], ["A", "B"], "none", "e", None), (["k"], [], ["reg", "B"], "reg", "e", None), (["k"], [], ["A", "B"], "none", "c", None),
        (["k"], ["q"], ["A", "B"], "none", "c", None), (["k"], [], ["A", "B"], "none", "e", "k"), (["k"], ["q"], ["A", "B"], "none", "e", "t"), (["k"], [], ["A"], "none", "e", None),
        (["k"], [], ["A", "A", "A"], "none", "e", None), (["k", "mx"], ["typ"], ["null", "any"], "none", "e", None), (["k"], ["q", "yn"], ["C", "range"], "or", "e", None), (["kd"], ["reg"], ["any", "any"], "none", "c", None),
    ]
    for i, (ms, ds, st, w, link, h) in enumerate(base):
        counts = all(m in ("kd", "mx") for m in ms) and h is None or len(st) == 1
        dl = ALL if counts else SYMM
        for d in dl if deep else ["SNOWFLAKE", dl[1 + i % (len(dl) - 1)]]:
            out.append(("form", dict(ms=ms, dims=ds, steps=st, within=units[i % 10], dialect=d, where=w, rows=n, link=link, having=h)))
    for i, d in enumerate(ALL if deep else ["SNOWFLAKE", "BIGQUERY", "TRINO"]):
        out.append(("form", dict(ms=["kd"], dims=[], steps=["A", "B", "A", "B"], within=units[(8, 0, 9)[i % 3]], dialect=d, where="none", rows=4)))
    out.append(("form", dict(ms=["k"], dims=[], steps=["A", "B"], within=(3, "day"), dialect="TRINO", where="none", rows=3)))
    for i, (ms, ds, st, f, t, w, link) in enumerate([
        (["k"], [], ["A", "B"], 1, 2, "none", "e"), (["k"], ["q"], ["A", "B"], 1, 2, "q", "e"), (["t"], ["reg"], ["A", "B"], 1, 2, "reg", "e"), (["k"], [], ["A", "B", "C"], 1, 3, "none", "e"),
        (["k", "mx"], [], ["A", "any", "B"], 2, 3, "none", "e"), (["k"], ["q"], ["A", "B"], 1, 2, "or", "c"), (["k"], [], ["range", "yn"], 2, 1, "none", "e"),
    ]):
        for kind in ("converted", "dropped_off"):
            dl = ALL if ms == ["k"] else SYMM
            for d in dl if deep else ["SNOWFLAKE", dl[1 + (3 * i) % (len(dl) - 1)]]:
                out.append(("converted", dict(ms=ms, dims=ds, steps=st, within=units[(i * 3) % 10], dialect=d, where=w, rows=n, frm=f, to=t, kind=kind, link=link)))
    return out
