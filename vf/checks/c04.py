"""C04: single-view measures.  The real resolver produces the SQL on each warehouse; for all contents of a bounded symbolic
table every measure equals its declared aggregate over the rows its filters select, and groups occur exactly once."""
from .. import ref, spec, sx
from ..proj import *
from ..sqls import Eval, V, sym_table
from ..sx import And, Implies, Not, Or

EXPLANATION = __doc__
BOUNDS = "1 view x 3-4 rows (thorough 4-5), every aggregate kind with no/one/two/NULL/range filters, 0-2 dimensions, primary-key grain, 10 warehouses, unbounded integers and NULLs"
OUTSIDE = "non-integer measure values, more rows, percentile-like aggregates"
ASSUMPTIONS = ["digest collisions do not occur", "primary keys are unique and not null", "a sum/count over no rows may be shown as 0 or as missing", "rows with equal distinct key agree on the measured value and on the filter columns"]

BASE = {"sum": {}, "count": {}, "count_distinct": {}, "average": {}, "min": {}, "max": {}, "median": {}, "sum_distinct": {"sql_distinct_key": "${idk}"}, "average_distinct": {"sql_distinct_key": "${TABLE}.idk"}}
FILTERS = {
    "eq": ([{"field": "flag", "value": "act"}], lambda r, ev: And(Not(r["flag"].null), r["flag"].v == ev.code("act"))),
    "two": ([{"field": "flag", "value": "act"}, {"field": "n", "value": ">5"}], lambda r, ev: And(Not(r["flag"].null), r["flag"].v == ev.code("act"), Not(r["n"].null), r["n"].v > 5)),
    "in": ([{"field": "flag", "value": "act, bct"}], lambda r, ev: And(Not(r["flag"].null), Or(r["flag"].v == ev.code("act"), r["flag"].v == ev.code("bct")))),
    "neg": ([{"field": "flag", "value": "-act"}, {"field": "n", "value": "<=5"}], lambda r, ev: And(Not(r["flag"].null), r["flag"].v != ev.code("act"), Not(r["n"].null), r["n"].v <= 5)),
    "twoneg": ([{"field": "flag", "value": "-act"}, {"field": "flag", "value": "-bct"}], lambda r, ev: And(Not(r["flag"].null), r["flag"].v != ev.code("act"), r["flag"].v != ev.code("bct"))),
    "range": ([{"field": "n", "value": ">2"}, {"field": "n", "value": ">=5"}, {"field": "n", "value": "<9"}, {"field": "n", "value": "-7"}], lambda r, ev: And(Not(r["n"].null), r["n"].v >= 5, r["n"].v < 9, r["n"].v != 7)),
    "notin": ([{"field": "flag", "value": "-act, -bct"}, {"field": "flag", "value": "-cct, -dct"}], lambda r, ev: And(Not(r["flag"].null), *[r["flag"].v != ev.code(c) for c in ("act", "bct", "cct", "dct")])),
    "null": ([{"field": "flag", "value": "NULL"}], lambda r, ev: r["flag"].null),
    "notnull": ([{"field": "n", "value": "-NULL"}], lambda r, ev: Not(r["n"].null)),
    "bool": ([{"field": "yn", "value": "TRUE"}], lambda r, ev: And(Not(r["yn"].null), r["yn"].v)),
}
NOMEDIAN = {"DRUID", "POSTGRES", "BIGQUERY", "SQL_SERVER", "AZURE_SYNAPSE", "TRINO"}


def ms(kinds, flt):
    out = []
    for k in kinds:
        kw = dict(BASE[k])
        if flt:
            kw["filters"] = FILTERS[flt][0]
        out.append(meas("m_" + k, k, "${TABLE}.x", **kw))
    return out


def single(ctx, dialect, flt, dims, rows, where=False, kinds=None):
    kinds = [k for k in (kinds or BASE) if not (k == "median" and dialect in NOMEDIAN) and not (k.endswith("_distinct") and k != "count_distinct" and dialect not in SYMM)]
    fields = [pk("id", type="number"), dim("d"), dim("e", type="number"), dim("flag"), dim("n", type="number"), dim("yn", type="yesno"), dim("idk", type="number", hidden=True)]
    extra = [meas("m_rows", "count")] if flt is None else [meas("m_rows", "count", filters=FILTERS[flt][0])]
    p = project([view("u", fields + ms(kinds, flt) + extra, [])], dialect=dialect)
    kw = {}
    if where:
        kw["where"] = [{"field": "u.n", "expression": "greater_than", "value": 2}]
    grain = "id" in dims
    sql = query(ctx, p, dialect, metrics=[f"u.m_{k}" for k in kinds] + ["u.m_rows"], dimensions=[f"u.{d}" for d in dims], **kw)
    q = parsed(ctx, sql)
    info = {"sql": sql, "dialect": dialect, "filters": flt}
    cols = [("id", "int"), ("d", "code"), ("e", "int"), ("flag", "code"), ("n", "int"), ("yn", "bool"), ("x", "int"), ("idk", "int")]
    t = sym_table(ctx, "u", cols, rows, pk="id")
    src = ref.rows_of(t)
    if not grain:
        for i, (pa, a) in enumerate(src):
            for pb, b in src[i + 1:]:
                ev0 = Eval({}, dialect)
                ctx.assume(sx.lit(Implies(And(pa, pb, Not(a["idk"].null), Not(b["idk"].null), a["idk"].v == b["idk"].v), And(*[ev0.same(a[c], b[c]) for c in ("x", "flag", "n", "yn")]))))
    ev = Eval({"db.u": t}, dialect)
    cond = FILTERS[flt][1] if flt else None
    if where:
        src = [(And(c, Not(r["n"].null), r["n"].v > 2), r) for c, r in src]
    mcond = (lambda r: cond(r, ev)) if cond else None
    ev.code("act"), ev.code("bct")
    R = sem(ctx, lambda: ev.query(q), sql, info)
    ctx.reached()
    hyp = ref.digest_hyp([(r["idk"], [0, r["x"].v * 1000000]) for _, r in src])
    if grain:
        # the rows themselves, each measure its own (filtered) expression
        def val(k):
            def f(r):
                x = r["x"] if k != "rows" else r["id"]
                return V(x.t, Or(x.null, Not(mcond(r))) if mcond else x.null, x.v)

            return f

        cs = [(f"u_{d}", (lambda d: lambda r: r[d])(d)) for d in dims] + [(f"u_m_{k}", val(k)) for k in list(kinds) + ["rows"]]
        sem(ctx, lambda: ref.compare_rows(ctx, ev, R, find_col, src, cs, info), sql, info)
        return
    keys = [(f"u_{d}", (lambda d: lambda r: r[d])(d)) for d in dims]
    measures = []
    for k in kinds:
        key = (lambda r: r["idk"]) if k in ("sum_distinct", "average_distinct") else None
        kk = {"sum_distinct": "sum", "average_distinct": "average"}.get(k, k)
        measures.append((f"u_m_{k}", kk, lambda r: r["x"], mcond, key))
    measures.append(("u_m_rows", "count", lambda r: r["id"], mcond, None))
    sem(ctx, lambda: ref.compare_grouped(ctx, ev, R, find_col, src, keys, measures, info, hyp), sql, info)


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for d in ALL:
        for flt in [None] + list(FILTERS):
            if not deep and d not in ("SNOWFLAKE", "BIGQUERY") and flt not in (None, "two"):
                continue
            out.append(("single", dict(dialect=d, flt=flt, dims=["d"], rows=4 if d in ("SNOWFLAKE", "BIGQUERY") or deep else 3)))
        out.append(("single", dict(dialect=d, flt="eq", dims=["id", "d"], rows=3)))
        out.append(("single", dict(dialect=d, flt="eq", dims=[], rows=3)))
        out.append(("single", dict(dialect=d, flt="neg", dims=["d", "e"], rows=3 if deep else 2, where=True)))
        out.append(("single", dict(dialect=d, flt=None, dims=["yn"], rows=2)))
    if deep:
        for k in BASE:
            out.append(("single", dict(dialect="SNOWFLAKE", flt="two", dims=["d"], rows=5, kinds=[k])))
    return out
