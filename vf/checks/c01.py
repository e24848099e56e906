"""C01: single filters.  For every comparison kind the real resolver renders the filter with a symbolic comparison value; for every
value and every column content (NULL included) the row is kept exactly when the comparison, specified independently here, holds."""
import datetime

import z3

from .. import ref, spec, sx
from ..proj import *
from ..sqls import BStr, Eval, UFCalendar, V, lt, sym_table
from ..sx import And, Eq, Iff, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = "text columns up to 4 characters (thorough 5) x comparison texts up to 2 (thorough 3) over printable ASCII incl. quotes; all integers; booleans; timestamps; lists of 2-3 values; all kinds; 10 warehouses"
OUTSIDE = "longer texts, % _ and backslash inside the comparison value of substring kinds (they keep their LIKE meaning), non-ASCII case folding, collations, empty lists"
ASSUMPTIONS = ["the warehouse's LIKE/LOWER/comparison operators follow standard SQL three-valued semantics with case-sensitive equality"]

STR = [
    "equal_to", "not_equal_to", "like", "contains", "does_not_contain", "contains_case_insensitive", "does_not_contain_case_insensitive",
    "starts_with", "ends_with", "does_not_start_with", "does_not_end_with", "starts_with_case_insensitive", "ends_with_case_insensitive",
    "does_not_start_with_case_insensitive", "does_not_end_with_case_insensitive", "isin", "isnotin", "is_null", "is_not_null",
]
NUM = ["less_than", "less_or_equal_than", "equal_to", "not_equal_to", "greater_or_equal_than", "greater_than", "isin", "isnotin", "is_null", "is_not_null"]


def at(h, n, i):
    """h contains n at offset i"""
    cs = []
    for k in range(len(n.c)):
        inside = lt(k, n.n)
        if inside is False:
            continue
        cs.append(Implies(inside, h.c[i + k] == n.c[k]) if i + k < len(h.c) else Not(inside))
    return And(*cs, *( [] if isinstance(h.n, int) and isinstance(n.n, int) and i + n.n <= h.n else [sx.lit(i + n.n <= h.n)] if not isinstance(i + n.n <= h.n, bool) else [i + n.n <= h.n]))


def str_spec(kind, col, vals):
    """col: V(str); vals: list of BStr"""
    if kind == "is_null":
        return col.null
    if kind == "is_not_null":
        return Not(col.null)
    h = col.v
    if kind in ("isin", "isnotin"):
        m = Or(*[h.eq(v) for v in vals])
        return And(Not(col.null), m if kind == "isin" else Not(m))
    n = vals[0]
    neg = kind.startswith("does_not") or kind == "not_equal_to"
    k = kind
    if k.endswith("_case_insensitive"):
        h, n, k = h.lower(), n.lower(), k[: -len("_case_insensitive")]
    if k in ("equal_to", "not_equal_to"):
        m = h.eq(n)
    elif k == "like":
        m = h.like(n)
    elif "contain" in k:
        m = Or(*[at(h, n, i) for i in range(len(h.c) + 1)])
    elif "start" in k:
        m = at(h, n, 0)
    else:
        m = Or(*[And(at(h, n, i), Eq(h.n, i + n.n)) for i in range(len(h.c) + 1)])
    return And(Not(col.null), Not(m) if neg else m)


def num_spec(kind, col, vals):
    if kind == "is_null":
        return col.null
    if kind == "is_not_null":
        return Not(col.null)
    x, y = col.v, vals[0] if vals else 0
    if kind in ("isin", "isnotin"):
        m = Or(*[Eq(x, v) for v in vals])
        m = m if kind == "isin" else Not(m)
    else:
        x = sx.lit(x)
        m = {"less_than": x < y, "less_or_equal_than": x <= y, "equal_to": x == y, "not_equal_to": x != y, "greater_or_equal_than": x >= y, "greater_than": x > y}[kind]
    return And(Not(col.null), m)


def fields():
    return [pk("id", type="number"), dim("s"), dim("n", type="number"), dim("n2", type="number"), dim("f", type="number"), dim("yn", type="yesno"), dim("yo", type="yesno", sql="${TABLE}.b1 or ${TABLE}.b2"),
            timedim("ts", timeframes=["raw", "time", "date"]), timedim("dt", datatype="date", timeframes=["raw", "date"]), meas("k", "count"), meas("t", "sum", "${TABLE}.n")]


COLS = [("id", "int"), ("s", "str"), ("n", "int"), ("n2", "int"), ("f", "real"), ("yn", "bool"), ("b1", "bool"), ("b2", "bool"), ("ts", "ts"), ("dt", "ts")]


def sym_text(ctx, name, maxlen, exclude="%_\\."):
    """(python value to hand to the real code, BStr).  Symbolically the value is an opaque token."""
    if ctx.concrete:
        n = ctx._get(name + ".len", 0)
        cs = []
        for i in range(n):
            b = ctx._get(f"{name}.c{i}", None)
            cs.append(chr(b.as_long()) if b is not None else " ")
        s = "".join(cs)
        return s, BStr.const(s)
    b = BStr.sym(ctx, name, maxlen)
    for c in b.c:
        ctx.assume(z3.And(z3.UGE(c, 32), z3.ULE(c, 126), *[c != ord(x) for x in exclude]))
    return ctx.register_token(name, b), b


def lits_of(ctx, pairs):
    return {} if ctx.concrete else {t: V("str", False, b) for t, b in pairs}


def run(ctx, dialect, where, lits, numlits, cond, maxlen=3, where_on="where", extra=None, tsdims=()):
    p = project([view("u", fields(), [])], dialect=dialect)
    dims = ["u.id"] + list(tsdims)
    sql = query(ctx, p, dialect, metrics=["u.k"], dimensions=dims, where=[where])
    q = parsed(ctx, sql)
    cols = COLS
    t = sym_table(ctx, "u", [c for c in cols if c[0] != "s"], 1, pk="id")
    null = ctx.zbool("s.null")
    sv = BStr.sym(ctx, "s", maxlen)
    if not ctx.concrete:
        for c in sv.c:
            ctx.assume(z3.And(z3.UGE(c, 32), z3.ULE(c, 126)))
    t.cols.append(("s", "str"))
    t.rows[0].v.append(V("str", null, sv))
    ev = Eval({"db.u": t}, dialect, lits=lits, numlits=numlits, strmode="str")
    info = {"sql": sql, "filter": str(where), "sig": f"{where.get('expression')}|{where.get('field')}"}
    R = sem(ctx, lambda: ev.query(q), sql, info)
    ctx.reached()
    (present, row), = ref.rows_of(t)
    keep = sem(ctx, lambda: And(present, cond(row, ev)), sql, info)
    ix = find_col(R, "u_id")
    got = Or(*[And(o.p, ev.same(o.v[ix], row["id"])) for o in R.rows])
    ctx.prove(Iff(got, keep), f"filter {where.get('expression')} does not keep exactly the rows its comparison describes", info)


def bucket(ctx, kind, dialect, field, how):
    """a day bucket compared with an instant: the field's value is the start of the row's day"""
    if how == "text":
        e = ctx.zint("value_ts", 0, 4000000000)
        if ctx.concrete:
            value, lits = (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=e.as_long())).strftime("%Y-%m-%dT%H:%M:%S"), {}
        else:
            value = "2024-01-05T00:00:00"
            lits = {value: V("ts", False, e)}
    else:
        value = datetime.datetime(2024, 2, 29)
        e, lits = int((value - datetime.datetime(1970, 1, 1)).total_seconds()), {}
    where = {"field": f"u.{field}_date", "expression": kind, "value": value}
    run(ctx, dialect, where, lits, {}, lambda r, ev: num_spec(kind, V("ts", r[field].null, r[field].v - r[field].v % 86400), [sx.lit(e)]))


def number_text(ctx, kind, dialect):
    """a list of numbers given as text on a number field"""
    vs = [ctx.int(f"value{i}", 0, 10**9) for i in range(2)]
    run(ctx, dialect, {"field": "u.n", "expression": kind, "value": [str(v) for v in vs]}, {}, ctx.magic, lambda r, ev: num_spec(kind, r["n"], [sx.lit(sx.ze(v)) for v in vs]))


def dotted(ctx, kind, dialect, n):
    """comparison text that looks like a field reference but is none"""
    (a, ba), (b, bb) = sym_text(ctx, "value0", 1), sym_text(ctx, "value1", 1)
    whole = ba.concat(BStr.const(".")).concat(bb)
    v = a + "." + b
    where = {"field": "u.s", "expression": kind, "value": [v] if kind in ("isin", "isnotin") else v}
    run(ctx, dialect, where, lits_of(ctx, [(a, ba), (b, bb)]), {}, lambda r, ev: str_spec(kind, r["s"], [whole]), maxlen=n)


def text(ctx, kind, dialect, n, m, vals=1):
    pairs = []
    for i in range(0 if kind in ("is_null", "is_not_null") else vals):
        pairs.append(sym_text(ctx, f"value{i}", m, "\\." if kind == "like" else "%_\\." if kind not in ("equal_to", "not_equal_to", "isin", "isnotin") else "\\."))
    where = {"field": "u.s", "expression": kind}
    if kind in ("isin", "isnotin"):
        where["value"] = [v for v, _ in pairs]
    elif pairs:
        where["value"] = pairs[0][0]
        if ctx.concrete and not where["value"] and kind == "x":
            raise sx.PathAbort()
    run(ctx, dialect, where, lits_of(ctx, pairs), {}, lambda r, ev: str_spec(kind, r["s"], [b for _, b in pairs]), maxlen=n)


def number(ctx, kind, dialect, vals=1, field="n"):
    vs = [ctx.int(f"value{i}") for i in range(0 if kind in ("is_null", "is_not_null") else vals)]
    where = {"field": "u.n", "expression": kind}
    if kind in ("isin", "isnotin"):
        where["value"] = vs
    elif vs:
        where["value"] = vs[0]
    run(ctx, dialect, where, {}, ctx.magic, lambda r, ev: num_spec(kind, r["n"], [sx.lit(sx.ze(v)) for v in vs]))


FRACTIONS = [[1.5, -2.25], ["1.5", "-2"], [0.1, "3"], [-0.5, 10**12], ["1e3", 0], ["007", "-0.75"]]


def fraction(ctx, kind, dialect, vals):
    """fractional, negative and large numbers, given as numbers or as text, against a column of arbitrary real numbers"""
    import fractions

    where = {"field": "u.f", "expression": kind, "value": list(vals) if kind in ("isin", "isnotin") else vals[0]}
    cs = [z3.RealVal(str(fractions.Fraction(str(v)))) for v in vals]
    run(ctx, dialect, where, {}, {}, lambda r, ev: num_spec(kind, r["f"], cs))


def field_value(ctx, kind, dialect):
    where = {"field": "u.n", "expression": kind, "value": "u.n2"}
    run(ctx, dialect, where, {}, {}, lambda r, ev: And(Not(r["n2"].null), num_spec(kind, r["n"], [r["n2"].v])))


def yesno(ctx, kind, value, field, dialect):
    where = {"field": f"u.{field}", "expression": kind}
    if value is not None:
        where["value"] = value

    def cond(r, ev):
        if field == "yn":
            t, f, nl = And(Not(r["yn"].null), r["yn"].v), And(Not(r["yn"].null), Not(r["yn"].v)), r["yn"].null
        else:
            a, b = r["b1"], r["b2"]
            t = Or(And(Not(a.null), a.v), And(Not(b.null), b.v))
            f = And(Not(a.null), Not(a.v), Not(b.null), Not(b.v))
            nl = And(Not(t), Not(f))
        if kind == "is_null":
            return nl
        if kind == "is_not_null":
            return Not(nl)
        if kind in ("isin", "isnotin"):
            inn = Or(*[t if v else f for v in value])
            return inn if kind == "isin" else And(Not(nl), Not(inn))
        pos = kind == "boolean_true" or (kind == "equal_to") == (str(value) == "True")
        if kind == "boolean_false":
            pos = False
        return t if pos else f

    run(ctx, dialect, where, {}, {}, cond)


def instant(ctx, kind, dialect, field, how):
    """raw timestamps against a symbolic instant (given as text), or a concrete datetime object"""
    if how == "text":
        e = ctx.zint("value_ts", 0, 4000000000)
        if ctx.concrete:
            tok = (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=e.as_long())).strftime("%Y-%m-%dT%H:%M:%S")
            lits = {}
        else:
            tok = "2024-01-05T00:00:00"
            lits = {tok: V("ts", False, e)}
        value = tok
    else:
        value = datetime.datetime(2024, 2, 29, 13, 5, 7)
        e, lits = int((value - datetime.datetime(1970, 1, 1)).total_seconds()), {}
    vs = [sx.lit(e)]
    where = {"field": f"u.{field}_raw", "expression": kind}
    if kind in ("isin", "isnotin"):
        where["value"] = [value]
    elif kind not in ("is_null", "is_not_null"):
        where["value"] = value
    run(ctx, dialect, where, lits, {}, lambda r, ev: num_spec(kind, r[field], vs))


def having(ctx, kind, dialect, rows):
    """filters on a measure: groups kept exactly when the comparison holds for the group's value"""
    v = ctx.int("value")
    p = project([view("u", fields(), [])], dialect=dialect)
    h = {"field": "u.t", "expression": kind}
    if kind in ("isin", "isnotin"):
        h["value"] = [v, 7]
    elif kind not in ("is_null", "is_not_null"):
        h["value"] = v
    sql = query(ctx, p, dialect, metrics=["u.t"], dimensions=["u.n2"], having=[h])
    q = parsed(ctx, sql)
    t = sym_table(ctx, "u", [c for c in COLS if c[1] != "str"], rows, pk="id")
    ev = Eval({"db.u": t}, dialect, numlits=ctx.magic)
    info = {"sql": sql, "having": str(h)}
    R = sem(ctx, lambda: ev.query(q), sql, info)
    ctx.reached()
    vs = [sx.lit(sx.ze(v)), z3.IntVal(7)]
    sem(ctx, lambda: ref.compare_grouped(
        ctx, ev, R, find_col, ref.rows_of(t), [("u_n2", lambda r: r["n2"])], [("u_t", "sum", lambda r: r["n"], None, None)], info,
        zero_is_null=False, having=lambda vals, r: num_spec(kind, vals["u_t"], vs if kind in ("isin", "isnotin") else vs[:1])), sql, info)


def jobs(tier):
    deep = tier == "thorough"
    n, m = (5, 3) if deep else (4, 2)
    out = []
    for i, d in enumerate(ALL):
        for k in STR:
            if not deep and d not in ("SNOWFLAKE", "BIGQUERY") and (STR.index(k) + i) % 5:
                continue
            out.append(("text", dict(kind=k, dialect=d, n=n, m=m, vals=2 if k in ("isin", "isnotin") else 1)))
        for k in NUM:
            if not deep and d not in ("SNOWFLAKE", "BIGQUERY") and (NUM.index(k) + i) % 5:
                continue
            out.append(("number", dict(kind=k, dialect=d, vals=2)))
            if k not in ("isin", "isnotin", "is_null", "is_not_null"):
                out.append(("field_value", dict(kind=k, dialect=d)))
                out.append(("instant", dict(kind=k, dialect=d, field="ts", how="text")))
                out.append(("instant", dict(kind=k, dialect=d, field="ts", how="object")))
                for f in ("ts", "dt"):
                    out.append(("bucket", dict(kind=k, dialect=d, field=f, how="text")))
                    out.append(("bucket", dict(kind=k, dialect=d, field=f, how="object")))
            if k not in ("is_null", "is_not_null"):
                for vs in FRACTIONS if deep or d == "SNOWFLAKE" else FRACTIONS[:2]:
                    out.append(("fraction", dict(kind=k, dialect=d, vals=vs)))
            if k in ("isin", "isnotin"):
                out.append(("number_text", dict(kind=k, dialect=d)))
            out.append(("having", dict(kind=k, dialect=d, rows=3 if deep else 2)))
        for f in ("yn", "yo"):
            for k, v in (("equal_to", True), ("equal_to", False), ("not_equal_to", True), ("not_equal_to", False), ("equal_to", "True"), ("equal_to", "False"),
                         ("boolean_true", None), ("boolean_false", None), ("is_null", None), ("is_not_null", None), ("isin", [True]), ("isin", [False, True]), ("isnotin", [True])):
                if not deep and d not in ("SNOWFLAKE", "BIGQUERY") and v is not True:
                    continue
                out.append(("yesno", dict(kind=k, value=v, field=f, dialect=d)))
    for k in STR:
        if k not in ("is_null", "is_not_null", "like"):
            out.append(("dotted", dict(kind=k, dialect="SNOWFLAKE", n=n)))
    for k in ("isin", "isnotin", "is_null", "is_not_null"):
        out.append(("instant", dict(kind=k, dialect="SNOWFLAKE", field="dt", how="text")))
        out.append(("text", dict(kind=k, dialect="SNOWFLAKE", n=n, m=m, vals=3)))
    return out
