"""C09: merged results.  The real resolver splits a request over views that cannot be joined into sub-queries and combines them.  For all
contents of bounded symbolic tables the combined result must be the full alignment, on the requested dimensions, of what the metrics' own
single queries (written with each side's own fields and filters, resolved by the same code) return on the same tables."""
import copy
import json
import re

from .. import ref, sx
from ..proj import *
from ..sqls import Eval, Rel, Row, V, sym_table
from ..sx import And, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = "2 unjoinable views (with a joined view each) or 3, 2 rows per table; dates, mapped and shared dimensions, up to 3; row filters, or-groups, metric filters; merged-result metrics; several dates in one view; all warehouses"
OUTSIDE = "more than 3 sub-queries, more rows, orderings (C19)"
ASSUMPTIONS = ["rows whose dimension value is missing are kept on each side and not aligned with each other (SQL equality in joins)"]

UC = [("id", "int"), ("r", "code"), ("q", "code"), ("n", "int"), ("ts", "ts"), ("ts2", "ts"), ("aid", "int"), ("uid", "int")]
AC = [("id", "int"), ("r", "code"), ("g", "code")]


def fields(v):
    return [
        pk("id", type="number"), dim("r"), dim("q"), dim("n", type="number"), dim("aid", type="number"),
        timedim("ts"), timedim("ts2"),
        meas("t", "sum", "${TABLE}.n"), meas("k", "count"), meas("mx", "max", "${TABLE}.n"), meas("t2", "sum", "${TABLE}.n", canon_date="ts2"),
    ]


def build(shape, dialect, datatype="timestamp"):
    m = {"reg": {"fields": ["u.r", "w.r"]}, "num": {"fields": ["w.n", "u.n"]}}
    uf, wf = fields("u"), fields("w")
    if datatype != "timestamp":
        for f in wf:
            if f["name"] in ("ts", "ts2"):
                f["datatype"] = datatype
    vs = []
    if shape == "two":
        uf += [meas("plus", "number", "${t} + 2 * ${w.t}", is_merged_result=True), meas("auto", "number", "${t} - ${w.k}")]
        vs = [view("u", uf, [], default_date="ts"), view("w", wf, [], default_date="ts")]
    elif shape == "sides":
        m = {"areg": {"fields": ["a.r", "b.r"]}, "reg": {"fields": ["u.r", "w.r"]}, "mix": {"fields": ["u.q", "b.g"]}}
        vs = [view("u", uf, [{"name": "aid", "type": "foreign", "sql": "${aid}"}], default_date="ts"),
              view("w", wf, [{"name": "bid", "type": "foreign", "sql": "${aid}"}], default_date="ts"),
              view("a", [pk("id", type="number"), dim("r"), dim("g"), meas("k", "count")], [{"name": "aid", "type": "primary", "sql": "${id}", "allowed_fanouts": ["u"]}], default_date="u.ts"),
              view("b", [pk("id", type="number"), dim("r"), dim("g"), meas("k", "count")], [{"name": "bid", "type": "primary", "sql": "${id}", "allowed_fanouts": ["w"]}], default_date="w.ts")]
    elif shape == "dates":
        m = {}
        uf += [meas("both", "number", "${t} - 3 * ${t2}", is_merged_result=True), meas("t3", "max", "${TABLE}.n", canon_date="u.ts2")]
        vs = [view("u", uf, [], default_date="ts")]
    elif shape == "joined":
        m = {}
        uf = [dict(f) for f in uf]
        wf += [dim("uid", type="number"), meas("mr", "number", "${u.t} + 2 * ${w.t}", is_merged_result=True)]
        vs = [view("u", uf, [{"name": "j", "type": "primary", "sql": "${id}"}], default_date="ts"), view("w", wf, [{"name": "j", "type": "foreign", "sql": "${uid}"}], default_date="ts")]
    elif shape == "names":
        m = {}
        wf += [dim("uid", type="number"), meas("mr", "number", "${u.t} + 2 * ${uu.t}", is_merged_result=True)]
        vs = [view("u", uf, [{"name": "j", "type": "primary", "sql": "${id}", "allowed_fanouts": ["uu"]}], default_date="ts"), view("uu", wf, [{"name": "j", "type": "foreign", "sql": "${uid}", "allowed_fanouts": ["u"]}], default_date="ts")]
    elif shape == "joinedmap":
        uf = [dict(f) for f in uf]
        wf += [dim("uid", type="number"), meas("mr", "number", "${u.t} + 2 * ${w.t}", is_merged_result=True)]
        vs = [view("u", uf, [{"name": "j", "type": "primary", "sql": "${id}"}], default_date="ts"), view("w", wf, [{"name": "j", "type": "foreign", "sql": "${uid}"}], default_date="ts")]
    elif shape == "three":
        m = {"reg": {"fields": ["u.r", "w.r", "x.r"]}, "num": {"fields": ["w.n", "u.n", "x.n"]}}
        vs = [view(v, fields(v), [], default_date="ts") for v in ("u", "w", "x")]
    return project(vs, [model(mappings=m)], dialect=dialect)


def eq(f, v="A"):
    return {"field": f, "expression": "equal_to", "value": v}


def gt(f, v=3):
    return {"field": f, "expression": "greater_than", "value": v}


D0 = "2024-01-05T00:00:00"

# name -> shape, request, [(metrics, dims, where) of each side in the order of requested dimensions], expressions of merged metrics
FORMS = {
    "date": ("two", dict(metrics=["u.t", "w.t"], dimensions=["u.ts_date"]), [(["u.t"], ["u.ts_date"], []), (["w.t"], ["w.ts_date"], [])]),
    "gdate": ("two", dict(metrics=["u.t", "u.k", "w.mx"], dimensions=["date"]), [(["u.t", "u.k"], ["u.ts_date"], []), (["w.mx"], ["w.ts_date"], [])]),
    "rev": ("two", dict(metrics=["w.t", "u.t"], dimensions=["w.ts_month"]), [(["u.t"], ["u.ts_month"], []), (["w.t"], ["w.ts_month"], [])]),
    "nodim": ("two", dict(metrics=["u.t", "w.k"], dimensions=[]), [(["u.t"], [], []), (["w.k"], [], [])]),
    "reg": ("two", dict(metrics=["u.t", "w.t"], dimensions=["reg"]), [(["u.t"], ["u.r"], []), (["w.t"], ["w.r"], [])]),
    "ur": ("two", dict(metrics=["u.t", "w.t"], dimensions=["u.r"]), [(["u.t"], ["u.r"], []), (["w.t"], ["w.r"], [])]),
    "wr": ("two", dict(metrics=["u.t", "w.t"], dimensions=["w.r"]), [(["u.t"], ["u.r"], []), (["w.t"], ["w.r"], [])]),
    "regdate": ("two", dict(metrics=["u.t", "w.t"], dimensions=["reg", "date"]), [(["u.t"], ["u.r", "u.ts_date"], []), (["w.t"], ["w.r", "w.ts_date"], [])]),
    "datereg": ("two", dict(metrics=["w.t", "u.t"], dimensions=["week", "num", "w.r"]), [(["u.t"], ["u.ts_week", "u.n", "u.r"], []), (["w.t"], ["w.ts_week", "w.n", "w.r"], [])]),
    "twodates": ("two", dict(metrics=["w.t", "u.t"], dimensions=["w.ts_week", "w.ts_month"]), [(["u.t"], ["u.ts_week", "u.ts_month"], []), (["w.t"], ["w.ts_week", "w.ts_month"], [])]),
    "wdate": ("two", dict(metrics=["u.t", "w.t"], dimensions=["reg"], where=[dict(gt("date"), value=D0)]),
              [(["u.t"], ["u.r"], [dict(gt("u.ts_date"), value=D0)]), (["w.t"], ["w.r"], [dict(gt("w.ts_date"), value=D0)])]),
    "wdate2": ("two", dict(metrics=["u.t", "w.t"], dimensions=["u.ts_month"], where=[dict(gt("w.ts_raw"), value=D0), eq("u.r")]),
               [(["u.t"], ["u.ts_month"], [dict(gt("u.ts_raw"), value=D0), eq("u.r")]), (["w.t"], ["w.ts_month"], [dict(gt("w.ts_raw"), value=D0), eq("w.r")])]),
    "wreg": ("two", dict(metrics=["u.t", "w.t"], dimensions=["date"], where=[eq("reg"), gt("num")]),
             [(["u.t"], ["u.ts_date"], [eq("u.r"), gt("u.n")]), (["w.t"], ["w.ts_date"], [eq("w.r"), gt("w.n")])]),
    "wor": ("two", dict(metrics=["u.t", "w.t"], dimensions=["w.r"], where=[{"logical_operator": "OR", "conditions": [eq("w.r"), {"logical_operator": "AND", "conditions": [gt("u.n", 2), {"field": "num", "expression": "less_than", "value": 9}]}]}]),
            [(["u.t"], ["u.r"], [{"logical_operator": "OR", "conditions": [eq("u.r"), {"logical_operator": "AND", "conditions": [gt("u.n", 2), {"field": "u.n", "expression": "less_than", "value": 9}]}]}]),
             (["w.t"], ["w.r"], [{"logical_operator": "OR", "conditions": [eq("w.r"), {"logical_operator": "AND", "conditions": [gt("w.n", 2), {"field": "w.n", "expression": "less_than", "value": 9}]}]}])]),
    "wtwice": ("two", dict(metrics=["u.t", "w.t"], dimensions=["w.r"], where=[gt("num", 2), gt("u.n", 4), {"field": "w.n", "expression": "less_than", "value": 9}]),
               [(["u.t"], ["u.r"], [gt("u.n", 4), {"field": "u.n", "expression": "less_than", "value": 9}]), (["w.t"], ["w.r"], [gt("w.n", 4), {"field": "w.n", "expression": "less_than", "value": 9}])]),
    "wtext": ("two", dict(metrics=["u.t", "w.t"], dimensions=["date"], where="${u.r} = 'u.r' or ${w.n} > 3"),
              [(["u.t"], ["u.ts_date"], [{"literal": "${u.r} = 'u.r' or ${u.n} > 3"}]), (["w.t"], ["w.ts_date"], [{"literal": "${w.r} = 'u.r' or ${w.n} > 3"}])]),
    "wtext2": ("two", dict(metrics=["u.t", "w.t"], dimensions=["w.r"], where=[{"logical_operator": "OR", "conditions": [{"literal": "${reg} = 'A' or ${num} > 3 and ${u.r} is not null"}, gt("u.n", 7)]}, {"literal": "${w.ts_date} is not null or ${num} = 1"}]),
               [(["u.t"], ["u.r"], [{"logical_operator": "OR", "conditions": [{"literal": "${u.r} = 'A' or ${u.n} > 3 and ${u.r} is not null"}, gt("u.n", 7)]}, {"literal": "${u.ts_date} is not null or ${u.n} = 1"}]),
                (["w.t"], ["w.r"], [{"logical_operator": "OR", "conditions": [{"literal": "${w.r} = 'A' or ${w.n} > 3 and ${w.r} is not null"}, gt("w.n", 7)]}, {"literal": "${w.ts_date} is not null or ${w.n} = 1"}])]),
    "having": ("two", dict(metrics=["u.t", "w.t"], dimensions=["u.r"], having=[gt("u.t")]), [(["u.t"], ["u.r"], []), (["w.t"], ["w.r"], [])]),
    "having2": ("two", dict(metrics=["u.t"], dimensions=["u.r"], having=[gt("w.t"), gt("u.t", 5)]), [(["u.t"], ["u.r"], []), (["w.t"], ["w.r"], [])]),
    "havingor": ("two", dict(metrics=["u.t", "w.k"], dimensions=["reg"], having=[{"logical_operator": "OR", "conditions": [gt("u.t"), gt("w.k", 1)]}]), [(["u.t"], ["u.r"], []), (["w.k"], ["w.r"], [])]),
    "mr": ("two", dict(metrics=["u.plus"], dimensions=["date"]), [(["u.t"], ["u.ts_date"], []), (["w.t"], ["w.ts_date"], [])]),
    "mrreg": ("two", dict(metrics=["u.plus", "u.k", "u.t"], dimensions=["w.r"], where=[gt("num")]), [(["u.t", "u.k"], ["u.r"], [gt("u.n")]), (["w.t"], ["w.r"], [gt("w.n")])]),
    "mrhaving": ("two", dict(metrics=["u.plus"], dimensions=["w.r"], having=[gt("u.plus")]), [(["u.t"], ["u.r"], []), (["w.t"], ["w.r"], [])]),
    "auto": ("two", dict(metrics=["u.auto"], dimensions=["u.ts_quarter"]), [(["u.t"], ["u.ts_quarter"], []), (["w.k"], ["w.ts_quarter"], [])]),
    "side_date": ("sides", dict(metrics=["u.t", "w.t"], dimensions=["w.ts_date"], where=[dict(gt("date"), value=D0)]), [(["u.t"], ["u.ts_date"], [dict(gt("u.ts_date"), value=D0)]), (["w.t"], ["w.ts_date"], [dict(gt("w.ts_date"), value=D0)])]),
    "side_same": ("sides", dict(metrics=["u.k", "a.k", "w.t"], dimensions=["u.ts_date"]), [(["u.k", "a.k"], ["u.ts_date"], []), (["w.t"], ["w.ts_date"], [])]),
    "side_areg": ("sides", dict(metrics=["u.t", "w.t"], dimensions=["areg"]), [(["u.t"], ["a.r"], []), (["w.t"], ["b.r"], [])]),
    "side_breg": ("sides", dict(metrics=["u.t", "w.t"], dimensions=["b.r", "u.r"]), [(["u.t"], ["a.r", "u.r"], []), (["w.t"], ["b.r", "w.r"], [])]),
    "side_mix": ("sides", dict(metrics=["u.t", "w.t"], dimensions=["u.q"], where=[eq("b.r")]), [(["u.t"], ["u.q"], [eq("a.r")]), (["w.t"], ["b.g"], [eq("b.r")])]),
    "side_where": ("sides", dict(metrics=["u.t", "w.k"], dimensions=["date"], where=[eq("mix"), eq("a.r", "B")]), [(["u.t"], ["u.ts_date"], [eq("u.q"), eq("a.r", "B")]), (["w.k"], ["w.ts_date"], [eq("b.g"), eq("b.r", "B")])]),
    "dates": ("dates", dict(metrics=["u.both"], dimensions=["date"]), [(["u.t"], ["u.ts_date"], []), (["u.t2"], ["u.ts2_date"], [])]),
    "datesq": ("dates", dict(metrics=["u.both"], dimensions=["u.q"]), [(["u.t"], ["u.q"], []), (["u.t2"], ["u.q"], [])]),
    "dates2": ("dates", dict(metrics=["u.t2", "u.t"], dimensions=["date", "u.q"], where=[gt("u.n")]), [(["u.t"], ["u.ts_date", "u.q"], [gt("u.n")]), (["u.t2"], ["u.ts2_date", "u.q"], [gt("u.n")])]),
    "dates3": ("dates", dict(metrics=["u.both", "u.k"], dimensions=["u.ts_month", "u.r"], where=[dict(gt("u.ts_date"), value=D0)]),
               [(["u.t", "u.k"], ["u.ts_month", "u.r"], [dict(gt("u.ts_date"), value=D0)]), (["u.t2"], ["u.ts2_month", "u.r"], [dict(gt("u.ts2_date"), value=D0)])]),
    "dates4": ("dates", dict(metrics=["u.t", "u.k", "u.t2"], dimensions=["date"], where=[dict(gt("date"), value=D0)]), [(["u.t", "u.k"], ["u.ts_date"], [dict(gt("u.ts_date"), value=D0)]), (["u.t2"], ["u.ts2_date"], [dict(gt("u.ts2_date"), value=D0)])]),
    "dates5": ("dates", dict(metrics=["u.mx", "u.k", "u.t2"], dimensions=[], where=[dict(gt("date"), value=D0)]), [(["u.mx", "u.k"], [], [dict(gt("u.ts_date"), value=D0)]), (["u.t2"], [], [dict(gt("u.ts2_date"), value=D0)])]),
    "dates6": ("dates", dict(metrics=["u.t", "u.k", "u.mx", "u.t2"], dimensions=["u.q"], where=[{"logical_operator": "OR", "conditions": [dict(gt("week"), value=D0), eq("u.r")]}]),
               [(["u.t", "u.k", "u.mx"], ["u.q"], [{"logical_operator": "OR", "conditions": [dict(gt("u.ts_week"), value=D0), eq("u.r")]}]), (["u.t2"], ["u.q"], [{"logical_operator": "OR", "conditions": [dict(gt("u.ts2_week"), value=D0), eq("u.r")]}])]),
    "dates7": ("dates", dict(metrics=["u.t2", "u.t3", "u.t"], dimensions=["month"], where=[gt("u.n")]), [(["u.t2", "u.t3"], ["u.ts2_month"], [gt("u.n")]), (["u.t"], ["u.ts_month"], [gt("u.n")])]),
    "names_date": ("names", dict(metrics=["u.t", "u.k", "uu.t"], dimensions=["date"], where=[dict(gt("date"), value=D0)]), [(["u.t", "u.k"], ["u.ts_date"], [dict(gt("u.ts_date"), value=D0)]), (["uu.t"], ["uu.ts_date"], [dict(gt("uu.ts_date"), value=D0)])]),
    "names_date2": ("names", dict(metrics=["uu.t", "uu.k", "u.t"], dimensions=["month"], where=[dict(gt("date"), value=D0)]), [(["u.t"], ["u.ts_month"], [dict(gt("u.ts_date"), value=D0)]), (["uu.t", "uu.k"], ["uu.ts_month"], [dict(gt("uu.ts_date"), value=D0)])]),
    "names_date4": ("names", dict(metrics=["uu.mr"], dimensions=["u.q"], where=[dict(gt("u.ts_raw"), value=D0)]), [(["u.t"], ["u.q"], [dict(gt("u.ts_raw"), value=D0)]), (["uu.t"], ["u.q"], [dict(gt("uu.ts_raw"), value=D0)])]),
    "names_date3": ("names", dict(metrics=["uu.mr"], dimensions=["u.q"], where=[dict(gt("uu.ts_raw"), value=D0), eq("u.r")]), [(["u.t"], ["u.q"], [dict(gt("u.ts_raw"), value=D0), eq("u.r")]), (["uu.t"], ["u.q"], [dict(gt("uu.ts_raw"), value=D0), eq("u.r")])]),
    "joined_date2": ("joined", dict(metrics=["u.t", "u.k", "w.t"], dimensions=["date"], where=[dict(gt("date"), value=D0)]), [(["u.t", "u.k"], ["u.ts_date"], [dict(gt("u.ts_date"), value=D0)]), (["w.t"], ["w.ts_date"], [dict(gt("w.ts_date"), value=D0)])]),
    "joined_date": ("joined", dict(metrics=["w.mr"], dimensions=["date"]), [(["u.t"], ["u.ts_date"], []), (["w.t"], ["w.ts_date"], [])]),
    "joined_r": ("joined", dict(metrics=["w.mr"], dimensions=["w.r"]), [(["u.t"], ["w.r"], []), (["w.t"], ["w.r"], [])]),
    "joined_ur": ("joined", dict(metrics=["w.mr"], dimensions=["u.r", "u.ts_date"], where=[gt("w.n")]), [(["u.t"], ["u.r", "u.ts_date"], [gt("w.n")]), (["w.t"], ["u.r", "w.ts_date"], [gt("w.n")])]),
    "joinedmap_r": ("joinedmap", dict(metrics=["w.mr"], dimensions=["w.r"]), [(["u.t"], ["w.r"], []), (["w.t"], ["w.r"], [])]),
    "joinedmap_u": ("joinedmap", dict(metrics=["w.mr"], dimensions=["u.r", "u.ts_date"]), [(["u.t"], ["u.r", "u.ts_date"], []), (["w.t"], ["u.r", "w.ts_date"], [])]),
    "shared_map": ("two", dict(metrics=["u.t", "u.t2", "w.t"], dimensions=["reg", "date"]), [(["u.t2"], ["u.r", "u.ts2_date"], []), (["u.t"], ["u.r", "u.ts_date"], []), (["w.t"], ["w.r", "w.ts_date"], [])]),
    "shared_mapw": ("two", dict(metrics=["w.t", "u.t2", "u.t"], dimensions=["w.ts_date", "w.r"]), [(["u.t2"], ["u.ts2_date", "u.r"], []), (["u.t"], ["u.ts_date", "u.r"], []), (["w.t"], ["w.ts_date", "w.r"], [])]),
    "three_date": ("three", dict(metrics=["u.t", "w.t", "x.t"], dimensions=["date"]), [([v + ".t"], [v + ".ts_date"], []) for v in "uwx"]),
    "three_reg": ("three", dict(metrics=["x.t", "u.t", "w.t"], dimensions=["w.r"], where=[gt("x.n")]), [([v + ".t"], [v + ".r"], [gt(v + ".n")]) for v in "uwx"]),
    "three_nodim": ("three", dict(metrics=["u.t", "w.t", "x.t"], dimensions=[]), [([v + ".t"], [], []) for v in "uwx"]),
}
MERGED = {"u.plus": (["u.t", "w.t"], lambda a, b: a + 2 * b), "u.auto": (["u.t", "w.k"], lambda a, b: a - b), "u.both": (["u.t", "u.t2"], lambda a, b: a - 3 * b), "w.mr": (["u.t", "w.t"], lambda a, b: a + 2 * b), "uu.mr": (["u.t", "uu.t"], lambda a, b: a + 2 * b)}
HAVING = {"having": lambda v: v("u.t", 3), "having2": lambda v: And(v("w.t", 3), v("u.t", 5)), "havingor": lambda v: Or(v("u.t", 3), v("w.k", 1)), "mrhaving": lambda v: v("u.plus", 3)}

SHARED = {"shared_map": "u_r", "shared_mapw": "u_r"}


def al(f):
    return f.replace(".", "_")


def align(ev, sides, ndims):
    """full alignment of the sides on their first ndims columns; rows (present, keys, [values of each side])"""
    out = []

    def match(a, b):
        return And(*[And(Not(x.null), Not(y.null), ev.same(x, y)) for x, y in zip(a[:ndims], b[:ndims])])

    for i, rel in enumerate(sides):
        for r in rel.rows:
            if r.p is False:
                continue
            led = Or(*[And(o.p, match(r.v, o.v)) for s in sides[:i] for o in s.rows])
            vals = []
            for j, s in enumerate(sides):
                if j == i:
                    vals.append(list(r.v[ndims:]))
                    continue
                w = [V(c.t, True, c.v) for c in (s.rows[0].v[ndims:] if s.rows else [V('int', True, 0)] * (len(s.cols) - ndims))]
                for o in s.rows:
                    if o.p is False:
                        continue
                    m = And(o.p, match(r.v, o.v))
                    w = [V(x.t, Ite(m, x.null, y.null), Ite(m, x.v, y.v)) for x, y in zip(o.v[ndims:], w)]
                vals.append(w)
            out.append((And(r.p, Not(led)), list(r.v[:ndims]), vals))
    return out


def form(ctx, name, dialect, rows, datatype="timestamp", shared=False):
    shape, req, sides = FORMS[name]
    p = build(shape, dialect, datatype)
    sql = query(ctx, p, dialect, what="merged request", **copy.deepcopy(req))
    info = {"sql": sql, "form": name, "sig": name}
    if name == "mrhaving" and dialect not in ("SNOWFLAKE", "DUCK_DB"):
        info["sig"] = "having-on-merged-metric-refers-to-select-alias"
    singles = []
    for ms, ds, wh in sides:
        s = query(ctx, build(shape, dialect, datatype), dialect, what="single request", metrics=list(ms), dimensions=list(ds), where=copy.deepcopy(wh))
        singles.append(s)
    info["single queries"] = singles
    db = {f"db.{v}": sym_table(ctx, v, UC, rows, pk="id") for v in (("u", "uu") if shape == "names" else ("u", "w", "x"))}
    db.update({f"db.{v}": sym_table(ctx, v, AC, rows, pk="id") for v in ("a", "b")})
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    nd = len(sides[0][1])
    rels = []
    for (ms, ds, _), s in zip(sides, singles):
        S = sem(ctx, lambda: ev.query(parsed(ctx, s)), s, info)
        ix = [find_col(S, al(f)) for f in list(ds) + list(ms)]
        rels.append(Rel([S.cols[i] for i in ix], [Row(r.p, [r.v[i] for i in ix]) for r in S.rows]))
    rows_ = align(ev, rels, nd)
    names, exp = [], []
    for i in range(nd):
        for a in dict.fromkeys(al(ds[i]) for _, ds, _ in sides):
            names.append((a, ("key", i)))
    metrics = {}
    for g, (ms, _, _) in enumerate(sides):
        for j, m in enumerate(ms):
            metrics[m] = (g, j)
            names.append((al(m), ("val", m)))
    for m in req["metrics"]:
        if m in MERGED:
            names.append((al(m), ("merged", m)))
    if name in SHARED:
        # see the known finding: this column is judged by a job of its own
        if shared:
            info["sig"] = "shared-mapped-field-loses-values"
        else:
            names = [n for n in names if n[0] != SHARED[name]]
    for c, keys, vals in rows_:
        def value(m):
            if m in MERGED:
                ops, f = MERGED[m]
                a, b = [value(o) for o in ops]
                return V("int", Or(a.null, b.null), f(sx.lit(a.v), sx.lit(b.v)))
            g, j = metrics[m]
            return vals[g][j]

        if name in HAVING:
            c = And(c, HAVING[name](lambda m, k: And(Not(value(m).null), value(m).v > k)))
        exp.append(Row(c, [keys[x] if k == "key" else value(x) for _, (k, x) in names]))
    ix = sem(ctx, lambda: [find_col(R, a) for a, _ in names], sql, info)
    A = Rel([(None, a) for a, _ in names], [Row(r.p, [r.v[i] for i in ix]) for r in R.rows])
    B = Rel([(None, a) for a, _ in names], exp)
    # a count over no row may be shown as missing
    if len(sides) == 3 and nd:
        # with three sides: every key of the later sub-queries also occurs in the first one (see the known finding otherwise)
        hyp = []
        for s in rels[1:]:
            for r in s.rows:
                hyp.append(Implies(r.p, Or(*[And(o.p, *[And(Not(x.null), Not(y.null), ev.same(x, y)) for x, y in zip(o.v[:nd], r.v[:nd])]) for o in rels[0].rows])))
        ctx.assume(sx.lit(And(*hyp)))
    ref.bags_equal(ctx, ev, A, B, info, "the merged result is not the alignment of the metrics' own queries")


def three_open(ctx, name, dialect):
    """three sides without the hypothesis that the first side has every key"""
    shape, req, sides = FORMS[name]
    p = build(shape, dialect)
    sql = query(ctx, p, dialect, what="merged request", **copy.deepcopy(req))
    info = {"sql": sql, "form": name, "sig": "three-sides-key-missing-in-first"}
    db = {f"db.{v}": sym_table(ctx, v, UC, 1, pk="id", fixed_present=v != "u", notnull=("r", "ts", "n")) for v in ("u", "w", "x")}
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    rels = []
    for ms, ds, wh in sides:
        s = query(ctx, build(shape, dialect), dialect, metrics=list(ms), dimensions=list(ds), where=copy.deepcopy(wh))
        S = sem(ctx, lambda: ev.query(parsed(ctx, s)), s, info)
        ix = [find_col(S, al(f)) for f in list(ds) + list(ms)]
        rels.append(Rel([S.cols[i] for i in ix], [Row(r.p, [r.v[i] for i in ix]) for r in S.rows]))
    ctx.reached()
    nd = len(sides[0][1])
    names = [al(sides[0][1][0])] + [al(ms[0]) for ms, _, _ in sides]
    exp = [Row(c, keys + [v[0] for v in vals]) for c, keys, vals in align(ev, rels, nd)]
    ix = [find_col(R, a) for a in names]
    A = Rel([(None, a) for a in names], [Row(r.p, [r.v[i] for i in ix]) for r in R.rows])
    ref.bags_equal(ctx, ev, A, Rel(A.cols, exp), info, "rows of the second and third sub-query with equal dimension values are not aligned when the first has no such row")


MANY = [
    dict(metrics=["u.t", "w.t"], dimensions=["x.r"], where=[eq("x.r")]),
    dict(metrics=["w.t", "u.t"], dimensions=["x.r"], where=[gt("num")]),
    dict(metrics=["u.t", "w.t"], dimensions=["u.r"], where=[eq("reg")]),
    dict(metrics=["u.t", "x.k", "w.mx"], dimensions=["reg", "date"], where=[dict(gt("w.ts_date"), value=D0)]),
    dict(metrics=["x.t", "u.t"], dimensions=["w.n", "u.ts_week"], where=[gt("x.n")]),
]


def unrelated(ctx, request, dialect):
    """other views, that share no join and no mapping with those of the request, make no difference to it, wherever their names stand"""
    at = [ctx.pick("place of " + v, [0, 3, 11, 12, 13]) for v in ("u", "w", "x")]
    if len(set(at)) < 3:
        ctx.assume(False)
    mine = {v: f"z{i:02d}" for i, v in zip(at, ("u", "w", "x"))}

    def renamed(x):
        return json.loads(re.sub(r"\b([uwx])\.", lambda m: mine[m[1]] + ".", json.dumps(x)))

    def ask(names):
        m = {"reg": {"fields": ["u.r", "w.r", "x.r"]}, "num": {"fields": ["w.n", "u.n", "x.n"]}}
        p = project([view(v, fields(v), [], default_date="ts") for v in names], [model(mappings=renamed(m))], dialect=dialect)
        try:
            sql = query(ctx, p, dialect, may_refuse=True, **renamed(MANY[request]))
        except Refused:
            return "refused"
        seen = {}
        return re.sub(r"cte_subquery_\d+", lambda m: seen.setdefault(m[0], f"cte_subquery_{len(seen)}"), sql)

    few, many = ask(sorted(mine.values())), ask([f"z{i:02d}" for i in range(14)])
    ctx.reached()
    ctx.prove(few == many, "the merged result depends on views that have nothing to do with it", {"sig": f"unrelated views: {request}", "with": many, "without": few, "places": str(at)})


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for i, f in enumerate(FORMS):
        ds = ALL if deep else ["SNOWFLAKE", ALL[1 + i % 9]]
        for d in ds:
            out.append(("form", dict(name=f, dialect=d, rows=3 if deep and d == "SNOWFLAKE" and FORMS[f][0] == "two" else 2)))
        if FORMS[f][0] in ("two", "sides") and (deep or i % 3 == 0):
            out.append(("form", dict(name=f, dialect="BIGQUERY", rows=2, datatype="date")))
    for d in ("POSTGRES", "DUCK_DB"):
        out.append(("form", dict(name="mrhaving", dialect=d, rows=2)))
    for d in ("REDSHIFT", "BIGQUERY"):
        out.append(("form", dict(name="nodim", dialect=d, rows=2)))
        out.append(("form", dict(name="three_nodim", dialect=d, rows=2)))
    out.append(("form", dict(name="shared_map", dialect="SNOWFLAKE", rows=2, shared=True)))
    out.append(("three_open", dict(name="three_date", dialect="SNOWFLAKE")))
    for i in range(len(MANY)):
        out.append(("unrelated", dict(request=i, dialect="SNOWFLAKE")))
    return out


MAX_FOUND = 60
