"""C17: tiers and coded cases.  The real field code writes the classification of a tiered or coded dimension with symbolic cutoffs; for
every cutoff list, every number (also fractions) or missing value, and every truth value of the conditions, the label shown, filtered
on, or aggregated is the one the definition states."""
from .. import sx
from ..proj import *
from ..sqls import Eval, Row, Table, V, sym_table, to_real
from ..sx import And, Eq, Iff, Implies, Not, Or, lit

EXPLANATION = __doc__
BOUNDS = "1-4 cutoffs in any order (any integers), any real number or missing value; 1-3 cases over any truth values with and without an else value; labels with quotes, repeated spaces, commas, brackets; 10 warehouses; dimension, filter, reference, other view, measure, measure filter"
OUTSIDE = "labels that already double their quotes, an empty list of cutoffs, fractional cutoffs (validation rejects them), text that is not SQL in a case condition"
ASSUMPTIONS = ["CASE evaluates its conditions in order with three-valued logic"]

COLS = [("id", "int"), ("x", "real"), ("n", "int"), ("m", "int"), ("s", "code"), ("b", "bool"), ("c", "bool")]
VIA = ["dim", "ref", "cross", "where", "max", "mfilter"]


def build(ctx, dialect, d, via):
    """project in which dimension d is used via ...; d named k"""
    fields = [pk("id", type="number"), d, dim("n", type="number"), dim("m", type="number"), dim("y", type="yesno", sql="${TABLE}.b or ${TABLE}.c"), dim("sum3", "${n} + ${m}", type="number"), dim("r", "${k}"),
              meas("cnt", "count"), meas("mx", "max", "${k}")]
    if via == "mfilter":
        fields.append(meas("cf", "count", filters=[{"field": "k", "value": "pick me"}]))
    views = [view("u", fields, [{"name": "u", "type": "primary", "sql": "${id}"}])]
    views.append(view("o", [pk("id", type="number"), meas("cnt", "count"), dim("uid", type="number"), dim("r", "${u.k}")], [{"name": "u", "type": "foreign", "sql": "${uid}"}]))
    return project(views, dialect=dialect)


def ask(ctx, dialect, p, via, value=None):
    """-> sql, reads result of the query"""
    req = {
        "dim": dict(metrics=["u.cnt"], dimensions=["u.k"]), "ref": dict(metrics=["u.cnt"], dimensions=["u.r"]), "cross": dict(metrics=["o.cnt"], dimensions=["o.r"]),
        "where": dict(metrics=["u.cnt"], dimensions=["u.id"], where=[{"field": "u.k", "expression": "equal_to", "value": value}]),
        "max": dict(metrics=["u.mx"], dimensions=["u.id"]), "mfilter": dict(metrics=["u.cf"], dimensions=["u.n"]),
    }[via]
    return query(ctx, p, dialect, **req)


COL = {"dim": "u_k", "ref": "u_r", "cross": "o_r", "max": "u_mx"}


def decide(ctx, dialect, p, via, want, labels, cols, info):
    """want(ev,row) -> [(label or None, condition)] covering every case"""
    for value in ([None] if via != "where" else labels):
        sql = ask(ctx, dialect, p, via, value)
        inf = {**info, "sql": sql, "value": value}
        t = sym_table(ctx, "u", cols, 1, pk="id", fixed_present=True)
        row = {c: t.rows[0].v[i] for i, (c, _) in enumerate(cols)}
        ev = Eval({"db.u": t, "db.o": Table("o", [("id", "int"), ("uid", "int")], [Row(True, [V("int", False, 1), row["id"]])])}, dialect)
        ev.numlits = getattr(ctx, "magic", {})
        ev.lax_order = True
        ctx.reached()
        R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, inf)
        cases = want(ev, row)
        if via == "where":
            keeps = Or(*[r.p for r in R.rows])
            ctx.prove(Iff(keeps, Or(*[c for l, c in cases if l == value])), "a filter on the label does not keep exactly the values with that label", inf)
            continue
        if via == "mfilter":
            g = R.rows[0].v[find_col(R, "u_cf")]
            ctx.prove(Iff(And(Not(g.null), Not(Eq(g.v, 0))), Or(*[c for l, c in cases if l == "pick me"])), "a measure filtered on the label counts other values", inf)
            continue
        g = R.rows[0].v[find_col(R, COL[via])]
        for l, c in cases:
            ok = g.null if l is None else And(Not(g.null), Eq(g.v, ev.code(l)) if g.t == "code" else Eq(g.v, True) if g.t == "bool" else False)
            ctx.prove(Implies(c, ok), "a value gets another label than the definition states", {**inf, "label": l})


def tier(ctx, dialect, n, via="dim", sql="${TABLE}.x", sorted_=True):
    ts = [ctx.int(f"tier{i}", -1000, 100000) for i in range(n)]
    if sorted_:
        for a, b in zip(ts, ts[1:]):
            ctx.assume(sx.ze(a) < sx.ze(b))
    p = build(ctx, dialect, {**dim("k", sql, type="tier"), "tiers": ts}, via)
    z = [sx.ze(t) for t in ts]
    names = [f"Below {ts[0]}"] + [f"[{a},{b})" for a, b in zip(ts, ts[1:])] + [f"[{ts[-1]},inf)", "Unknown"]

    def want(ev, row):
        if sql == "${TABLE}.x":
            x, null = row["x"].v, row["x"].null
        else:
            x, null = to_real(lit(row["n"].v) + lit(row["m"].v)), Or(row["n"].null, row["m"].null)
        b = [to_real(v) for v in z]
        rs = [x < b[0]] + [And(x >= l, x < h) for l, h in zip(b, b[1:])] + [x >= b[-1]]
        out = [(names[-1], null)]
        if sorted_:
            return [(l, And(Not(null), c)) for l, c in zip(names, rs)] + out
        # cutoffs in any order: the label has to name a range that holds the number
        return [(l, And(Not(null), c, *[Not(o) for o in rs[:i]])) for i, (l, c) in enumerate(zip(names, rs))] + out

    if not sorted_:
        return loose(ctx, dialect, p, names, z, ts)
    decide(ctx, dialect, p, via, want, names, COLS, {"dialect": dialect, "tiers": str(ts)})


def loose(ctx, dialect, p, names, z, ts):
    """cutoffs in any order: whatever label a number gets names a range that holds it"""
    sql = ask(ctx, dialect, p, "dim")
    info = {"sql": sql, "dialect": dialect, "tiers": str(ts)}
    t = sym_table(ctx, "u", COLS, 1, pk="id", fixed_present=True)
    x = t.rows[0].v[1]
    ev = Eval({"db.u": t}, dialect)
    ev.numlits, ev.lax_order = getattr(ctx, "magic", {}), True
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    g = R.rows[0].v[find_col(R, "u_k")]
    b = [to_real(v) for v in z]
    rs = {"Unknown": False}
    for i, a in enumerate(b):
        rs[f"Below {ts[i]}"] = x.v < a
        rs[f"[{ts[i]},inf)"] = x.v >= a
        for j, c in enumerate(b):
            rs[f"[{ts[i]},{ts[j]})"] = And(x.v >= a, x.v < c)
    ctx.prove(And(Not(g.null), Or(x.null, *[And(Eq(g.v, ev.code(l)), c) for l, c in rs.items()])), "the label of a number names a range that does not hold it", info)
    ctx.prove(Implies(x.null, Eq(g.v, ev.code("Unknown"))), "a missing number gets the label of a range", info)


CONDS = {
    "gt": ("${TABLE}.n > 5", lambda r, ev: And(Not(r["n"].null), lit(r["n"].v) > 5)),
    "ref": ("${n} > 5", lambda r, ev: And(Not(r["n"].null), lit(r["n"].v) > 5)),
    "xref": ("${u.n} <= ${m}", lambda r, ev: And(Not(r["n"].null), Not(r["m"].null), lit(r["n"].v) <= r["m"].v)),
    "or": ("${TABLE}.b or ${TABLE}.c", lambda r, ev: Or(And(Not(r["b"].null), r["b"].v), And(Not(r["c"].null), r["c"].v))),
    "noty": ("not ${y}", lambda r, ev: And(Not(r["b"].null), Not(r["b"].v), Not(r["c"].null), Not(r["c"].v))),
    "dq": ('${TABLE}.s = "act"', lambda r, ev: And(Not(r["s"].null), Eq(r["s"].v, ev.code("act")))),
    "sq": ("${TABLE}.s in ('act', 'bct')", lambda r, ev: And(Not(r["s"].null), Or(Eq(r["s"].v, ev.code("act")), Eq(r["s"].v, ev.code("bct"))))),
    "two": ("${TABLE}.s = 'a  b'", lambda r, ev: And(Not(r["s"].null), Eq(r["s"].v, ev.code("a  b")))),
    "null": ("${m} is null", lambda r, ev: r["m"].null),
    "sum": ("${sum3} * 2 > 10", lambda r, ev: And(Not(r["n"].null), Not(r["m"].null), 2 * (lit(r["n"].v) + lit(r["m"].v)) > 10)),
}
LABELS = ["pick me", "O'Brien", "two  spaces", "[0,20)", 'said "no"', "ünï", "100%", "-x", "a.b", "case when", "", "0"]
ELSES = [None, "other", "O'Neil", "", "0", "two  spaces", "pick me", "NULL"]


def coded(ctx, dialect, conds, labels, els="none", via="dim"):
    case = {"whens": [{"sql": CONDS[c][0], "label": l} for c, l in zip(conds, labels)]}
    if els != "none":
        case["else"] = els
    d = {"field_type": "dimension", "name": "k", "type": "string", "case": case}
    p = build(ctx, dialect, d, via)

    def want(ev, row):
        out, before = [], []
        for c, l in zip(conds, labels):
            h = CONDS[c][1](row, ev)
            out.append((l, And(h, *[Not(b) for b in before])))
            before.append(h)
        return out + [(None if els in ("none", None) else els, And(*[Not(b) for b in before]))]

    vals = [v for v in dict.fromkeys(labels + ([els] if els not in ("none", None) else [])) if "." not in v or True]
    decide(ctx, dialect, p, via, want, vals, COLS, {"dialect": dialect, "case": case})


def sifted(ctx, dialect, els, via="dim"):
    """a dimension with sql and filters shows its value where all filters hold and is missing elsewhere"""
    flt = {"one": [{"field": "n", "value": ">5"}], "two": [{"field": "n", "value": ">5"}, {"field": "m", "value": "<=9"}], "yn": [{"field": "y", "value": "FALSE"}], "null": [{"field": "m", "value": "-NULL"}, {"field": "n", "value": "-7"}]}[els]
    d = dim("k", "${TABLE}.s", filters=flt)
    p = build(ctx, dialect, d, via)
    sql = ask(ctx, dialect, p, via)
    info = {"sql": sql, "dialect": dialect, "filters": flt}
    t = sym_table(ctx, "u", COLS, 1, pk="id", fixed_present=True)
    row = {c: t.rows[0].v[i] for i, (c, _) in enumerate(COLS)}
    ev = Eval({"db.u": t, "db.o": Table("o", [("id", "int"), ("uid", "int")], [Row(True, [V("int", False, 1), row["id"]])])}, dialect)
    ev.lax_order = True
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    g = R.rows[0].v[find_col(R, COL[via])]
    n, m, b, c = (row[x] for x in ("n", "m", "b", "c"))
    h = {"one": lambda: And(Not(n.null), lit(n.v) > 5), "two": lambda: And(Not(n.null), lit(n.v) > 5, Not(m.null), lit(m.v) <= 9),
         "yn": lambda: And(Not(b.null), Not(b.v), Not(c.null), Not(c.v)), "null": lambda: And(Not(m.null), Not(n.null), lit(n.v) != 7)}[els]()
    s = row["s"]
    ctx.prove(Iff(g.null, Or(Not(h), s.null)), "a filtered dimension is present for other rows", info)
    ctx.prove(Or(g.null, Eq(g.v, s.v)), "a filtered dimension shows another value", info)


def jobs(tier_):
    deep = tier_ == "thorough"
    out = []
    names = list(CONDS)
    for i, d in enumerate(ALL):
        for n in (1, 2, 3) + ((4, 5) if deep else (4,)):
            for j, v in enumerate(VIA[:5]):
                if v == "dim" or deep or (i + j + n) % 3 == 0:
                    out.append(("tier", dict(dialect=d, n=n, via=v)))
            out.append(("tier", dict(dialect=d, n=n, sql="${TABLE}.n + ${m}")))
        for n in (1, 2, 3):
            if d != "DRUID" or True:
                out.append(("tier", dict(dialect=d, n=n, sorted_=False)))
        for j, a in enumerate(names):
            for k, b in enumerate(names):
                if a == b or not (deep or (i + j * 3 + k) % 5 == 0):
                    continue
                v = VIA[(i + j + k) % len(VIA)]
                e = ELSES[(i + 2 * j + k) % len(ELSES)]
                l = LABELS[(j + k + i) % len(LABELS)]
                m = LABELS[(j + k + i + 1 + (k % 3)) % len(LABELS)]
                c = names[(j + k + 1) % len(names)]
                ls = [("pick me" if v == "mfilter" else l), m] + (["third"] if c not in (a, b) else [])
                out.append(("coded", dict(dialect=d, conds=[a, b] + ([c] if c not in (a, b) else []), labels=ls, els="none" if e is None else e, via=v)))
        for e in ELSES:
            out.append(("coded", dict(dialect=d, conds=["gt"], labels=["hi"], els="none" if e is None else e)))
        for l in LABELS:
            out.append(("coded", dict(dialect=d, conds=["or", "gt"], labels=[l, "other"])))
        for e in ("one", "two", "yn", "null"):
            for j, v in enumerate(["dim", "ref", "cross", "max"]):
                if deep or (i + j) % 2 == 0:
                    out.append(("sifted", dict(dialect=d, els=e, via=v)))
    return out
