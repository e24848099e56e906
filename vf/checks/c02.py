"""C02: combinations of filters.  The real resolver renders trees of filter groups (every operator at every node is explored); each leaf
condition has its own symbolic column, so for all truth values (NULL included) of all leaves the kept rows / groups must be exactly
those the tree denotes."""
import itertools

import z3

from .. import ref, spec, sx
from ..proj import *
from ..sqls import Eval, V, sym_table
from ..sx import And, Eq, Iff, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = "group trees up to depth 3 (thorough 4) with up to 6 leaves, every operator (AND, OR, unstated) at every group, up to 3 top-level filters, 9 leaf kinds with independent symbolic columns; free-text clauses of 6 shapes alone and with access filters; group filters over 3 measures x 2 rows"
OUTSIDE = "deeper trees; free text other than the listed shapes; free text mixed with structured filters (refused by the product)"

NLEAF = 7
LEAF = ["eq", "null", "or_true", "or_false", "in", "notin", "field", "neq", "gt", "text"]


def fields():
    f = [pk("id", type="number"), dim("d")]
    for i in range(NLEAF):
        f += [dim(f"n{i}", type="number"), dim(f"o{i}", type="yesno", sql="${TABLE}.a%d or ${TABLE}.b%d" % (i, i)), dim(f"s{i}"), dim(f"q{i}", type="number")]
    return f + [meas("k", "count")] + [meas(f"t{i}", "sum", "${TABLE}.n%d" % i) for i in range(NLEAF)] + [meas("r", "number", "${t0} - ${t1}")]


COLS = [("id", "int"), ("d", "code")]
for _i in range(NLEAF):
    COLS += [(f"n{_i}", "int"), (f"q{_i}", "int"), (f"a{_i}", "bool"), (f"b{_i}", "bool"), (f"s{_i}", "code")]


def tv(v):
    return And(Not(v.null), v.v)


def fv(v):
    return And(Not(v.null), Not(v.v))


def leaf(kind, i):
    """(filter dictionary, row -> condition that the filter is true)"""
    n, o = f"u.n{i}", f"u.o{i}"
    if kind == "eq":
        return {"field": n, "expression": "equal_to", "value": 1}, lambda r, ev: And(Not(r[f"n{i}"].null), r[f"n{i}"].v == 1)
    if kind == "neq":
        return {"field": n, "expression": "not_equal_to", "value": 1}, lambda r, ev: And(Not(r[f"n{i}"].null), r[f"n{i}"].v != 1)
    if kind == "gt":
        return {"field": n, "expression": "greater_than", "value": 1}, lambda r, ev: And(Not(r[f"n{i}"].null), r[f"n{i}"].v > 1)
    if kind == "null":
        return {"field": n, "expression": "is_null"}, lambda r, ev: r[f"n{i}"].null
    if kind == "or_true":
        return {"field": o, "expression": "equal_to", "value": True}, lambda r, ev: Or(tv(r[f"a{i}"]), tv(r[f"b{i}"]))
    if kind == "or_false":
        return {"field": o, "expression": "equal_to", "value": False}, lambda r, ev: And(fv(r[f"a{i}"]), fv(r[f"b{i}"]))
    if kind == "in":
        return {"field": n, "expression": "isin", "value": [1, 2]}, lambda r, ev: And(Not(r[f"n{i}"].null), Or(r[f"n{i}"].v == 1, r[f"n{i}"].v == 2))
    if kind == "notin":
        return {"field": n, "expression": "isnotin", "value": [1, 2]}, lambda r, ev: And(Not(r[f"n{i}"].null), r[f"n{i}"].v != 1, r[f"n{i}"].v != 2)
    if kind == "field":
        return {"field": n, "expression": "less_than", "value": f"u.q{i}"}, lambda r, ev: And(Not(r[f"n{i}"].null), Not(r[f"q{i}"].null), r[f"n{i}"].v < r[f"q{i}"].v)
    if kind == "text":
        return {"field": f"u.s{i}", "expression": "equal_to", "value": "x or y"}, lambda r, ev: And(Not(r[f"s{i}"].null), r[f"s{i}"].v == ev.code("x or y"))
    raise ValueError(kind)


def mleaf(i, kind):
    f = f"u.t{i}"
    if kind == "null":
        return {"field": f, "expression": "is_null"}, lambda vals, ev: vals[f"u_t{i}"].null
    if kind in ("in", "notin"):
        s = kind == "in"
        return {"field": f, "expression": "isin" if s else "isnotin", "value": [3, 5]}, lambda vals, ev: And(Not(vals[f"u_t{i}"].null), Or(vals[f"u_t{i}"].v == 3, vals[f"u_t{i}"].v == 5) if s else And(vals[f"u_t{i}"].v != 3, vals[f"u_t{i}"].v != 5))
    return {"field": f, "expression": "greater_than", "value": 3}, lambda vals, ev: And(Not(vals[f"u_t{i}"].null), vals[f"u_t{i}"].v > 3)


def build(ctx, shape, mk, counter, path="g"):
    """shape: "L" or list; returns (filter, condition)"""
    if shape == "L":
        i = counter[0]
        counter[0] += 1
        return mk(i)
    parts = [build(ctx, s, mk, counter, f"{path}.{j}") for j, s in enumerate(shape)]
    op = ctx.pick("op:" + path, ["AND", "OR", None])
    g = {"conditions": [p for p, _ in parts]}
    if op:
        g["logical_operator"] = op
    conds = [c for _, c in parts]
    join = Or if op == "OR" else And
    return g, lambda r, ev: join(*[c(r, ev) for c in conds])


def check_rows(ctx, dialect, info, sql, want, user=None, extra_cols=(), twice=False):
    q = parsed(ctx, sql)
    t = sym_table(ctx, "u", COLS + list(extra_cols), 1, pk="id")
    ev = Eval({"db.u": t}, dialect)
    info = {"sql": sql, **info}
    R = sem(ctx, lambda: ev.query(q), sql, info)
    ctx.reached()
    (present, row), = ref.rows_of(t)
    keep = And(present, want(row, ev))
    ix = find_col(R, "u_id")
    got = Or(*[And(o.p, ev.same(o.v[ix], row["id"])) for o in R.rows])
    ctx.prove(Implies(got, keep), "a row that fails the combination of filters is in the result", info)
    ctx.prove(Implies(keep, got), "a row that satisfies every filter is missing from the result", info)


def tree(ctx, shapes, kinds, dialect, grain=True):
    """where = several top-level filters; the result holds exactly the rows satisfying all of them"""
    counter = [0]
    parts = [build(ctx, s, lambda i: leaf(kinds[i % len(kinds)], i), counter, f"f{j}") for j, s in enumerate(shapes)]
    p = project([view("u", fields(), [])], dialect=dialect)
    where = [w for w, _ in parts]
    info = {"where": str(where)}
    sql = query(ctx, p, dialect, metrics=["u.k"] if grain else [], dimensions=["u.id"], where=where)
    check_rows(ctx, dialect, info, sql, lambda r, ev: And(*[c(r, ev) for _, c in parts]))


TEXTS = {
    "or": ("${u.n0} = 1 or ${u.n1} = 1", lambda a, b, c, o: Or(a, b)),
    "OR": ("${u.n0} = 1 OR ${u.n1} = 1", lambda a, b, c, o: Or(a, b)),
    "and": ("${u.n0} = 1 and ${u.n1} = 1", lambda a, b, c, o: And(a, b)),
    "andor": ("${u.n0} = 1 and ${u.n1} = 1 or ${u.n2} = 1", lambda a, b, c, o: Or(And(a, b), c)),
    "paren": ("${u.n0} = 1 and (${u.n1} = 1 or ${u.n2} = 1)", lambda a, b, c, o: And(a, Or(b, c))),
    "nl": ("${u.n0} = 1\nor ${u.n1} = 1", lambda a, b, c, o: Or(a, b)),
    "yn": ("${u.o3} and ${u.n0} = 1", lambda a, b, c, o: And(o, a)),
}


def text_where(ctx, shape, dialect, access=0, grain=True):
    """free text alone, or next to row-level access filters of the querying user"""
    txt, sp = TEXTS[shape]
    af = [{"field": "u.s5", "user_attribute": "reg"}, {"field": "u.s6", "user_attribute": "dep"}][:access]
    kw = {"access_filters": af} if af else {}
    user = {"reg": "EU", "dep": "X"} if access else None
    p = project([view("u", fields(), [], **kw)], dialect=dialect, user=user)
    sql = query(ctx, p, dialect, user=user, metrics=["u.k"] if grain else [], dimensions=["u.id"], where=txt)

    def want(r, ev):
        n = [And(Not(r[f"n{i}"].null), r[f"n{i}"].v == 1) for i in range(3)]
        c = [sp(*n, Or(tv(r["a3"]), tv(r["b3"])))]
        for col, v in (("s5", "EU"), ("s6", "X"))[:access]:
            c.append(And(Not(r[col].null), r[col].v == ev.code(v)))
        return And(*c)

    check_rows(ctx, dialect, {"where": txt}, sql, want)


def access_tree(ctx, shape, kinds, dialect):
    counter = [0]
    w, cond = build(ctx, shape, lambda i: leaf(kinds[i % len(kinds)], i), counter)
    user = {"reg": "EU"}
    p = project([view("u", fields(), [], access_filters=[{"field": "u.s6", "user_attribute": "reg"}])], dialect=dialect, user=user)
    sql = query(ctx, p, dialect, user=user, metrics=["u.k"], dimensions=["u.id"], where=[w])
    check_rows(ctx, dialect, {"where": str(w)}, sql, lambda r, ev: And(cond(r, ev), Not(r["s6"].null), r["s6"].v == ev.code("EU")))


HTEXTS = {
    "or": ("${u.t0} > 3 or ${u.t1} > 3", lambda a, b: Or(a, b)),
    "and": ("${u.t0} > 3 and ${u.t1} > 3", lambda a, b: And(a, b)),
}


def having_tree(ctx, shapes, kinds, dialect, rows, where=None, text=None):
    counter = [0]
    p = project([view("u", fields(), [])], dialect=dialect)
    kw = {}
    if text:
        having, sp = HTEXTS[text]

        def hcond(vals, ev):
            g = [And(Not(vals[f"u_t{i}"].null), vals[f"u_t{i}"].v > 3) for i in range(2)]
            return sp(*g)

        counter[0] = 2
    else:
        parts = [build(ctx, s, lambda i: mleaf(i, kinds[i % len(kinds)]), counter, f"f{j}") for j, s in enumerate(shapes)]
        having = [w for w, _ in parts]
        hcond = lambda vals, ev: And(*[c(vals, ev) for _, c in parts])
    wcond = None
    if where:
        c2 = [5]
        w, wcond = build(ctx, where, lambda i: leaf("or_true" if i == 5 else "eq", i), c2, "w")
        kw["where"] = [w]
    metrics = [f"u.t{i}" for i in range(counter[0])]
    sql = query(ctx, p, dialect, metrics=metrics, dimensions=["u.d"], having=having, **kw)
    q = parsed(ctx, sql)
    t = sym_table(ctx, "u", [c for c in COLS if c[0] in ("id", "d") or c[0][0] == "n" and int(c[0][1:]) < counter[0] or c[0][1:] in ("5", "6")], rows, pk="id")
    ev = Eval({"db.u": t}, dialect)
    info = {"sql": sql, "having": str(having)}
    R = sem(ctx, lambda: ev.query(q), sql, info)
    ctx.reached()
    src = ref.rows_of(t)
    if wcond:
        src = [(And(c, wcond(r, ev)), r) for c, r in src]
    ms = [(f"u_t{i}", "sum", (lambda i: lambda r: r[f"n{i}"])(i), None, None) for i in range(counter[0])]
    sem(ctx, lambda: ref.compare_grouped(ctx, ev, R, find_col, src, [("u_d", lambda r: r["d"])], ms, info, zero_is_null=False, having=lambda vals, r: hcond(vals, ev)), sql, info)


def group_filter_of_expression(ctx, dialect, op, rows):
    """a filter on a metric that is itself an expression of other metrics"""
    p = project([view("u", fields(), [])], dialect=dialect)
    h = {"conditions": [{"field": "u.r", "expression": "less_than", "value": 2}, {"field": "u.t2", "expression": "equal_to", "value": 7}]}
    if op:
        h["logical_operator"] = op
    sql = query(ctx, p, dialect, metrics=["u.t0", "u.t1", "u.t2"], dimensions=["u.d"], having=[h])
    q = parsed(ctx, sql)
    t = sym_table(ctx, "u", [("id", "int"), ("d", "code"), ("n0", "int"), ("n1", "int"), ("n2", "int")], rows, pk="id")
    ev = Eval({"db.u": t}, dialect)
    info = {"sql": sql, "having": str(h)}
    R = sem(ctx, lambda: ev.query(q), sql, info)
    ctx.reached()

    def hc(vals, r):
        a, b, c = (vals[f"u_t{i}"] for i in range(3))
        x = And(Not(a.null), Not(b.null), sx.lit(a.v) - sx.lit(b.v) < 2)
        y = And(Not(c.null), c.v == 7)
        return Or(x, y) if op == "OR" else And(x, y)

    ms = [(f"u_t{i}", "sum", (lambda i: lambda r: r[f"n{i}"])(i), None, None) for i in range(3)]
    sem(ctx, lambda: ref.compare_grouped(ctx, ev, R, find_col, ref.rows_of(t), [("u_d", lambda r: r["d"])], ms, info, zero_is_null=False, having=hc), sql, info)


L = "L"
SHAPES = [
    [L, L], [L, L, L], [[L, L]], [[L, L], L], [L, [L, L]], [[L, L], [L, L]], [[L, [L, L]]], [[[L, L], L]], [[[L, L], [L, L]]], [[L, [L, L], L]],
    [[L]], [[[L]]], [[L], L], [[L, L, L]], [[L, [L, [L, L]]]], [L, [L, [L, L]], [L, L]],
]
DEEP = [[[[[L, L], L], L]], [[L, [L, [L, [L, L]]]]], [[[L, L], [L, L]], [L, [L, L]]], [[[L, [L, L]], [[L, L], L]]]]


def rot(k):
    return LEAF[k % len(LEAF):] + LEAF[: k % len(LEAF)]


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for n, s in enumerate(SHAPES + (DEEP if deep else [])):
        for k in range(len(LEAF) if deep else 4):
            out.append(("tree", dict(shapes=s, kinds=rot(n + k * 3), dialect=ALL[(n + k) % len(ALL)], grain=k % 2 == 0)))
        out.append(("tree", dict(shapes=s, kinds=["eq"], dialect="SNOWFLAKE")))
        out.append(("tree", dict(shapes=s, kinds=["or_true", "eq", "or_false"], dialect="BIGQUERY")))
    for i, s in enumerate([[L, L], [L, [L, L]], [[L, L], L], [[L, L], [L, L]]]):
        for k in (0, 3, 6):
            out.append(("access_tree", dict(shape=s, kinds=rot(i + k), dialect=ALL[(i + k) % len(ALL)])))
    for s in TEXTS:
        for a in (0, 1, 2):
            for j, d in enumerate(ALL if deep else ["SNOWFLAKE", "POSTGRES"]):
                out.append(("text_where", dict(shape=s, dialect=d, access=a, grain=(a + j) % 2 == 0)))
    hs = [[L], [L, L], [[L, L]], [L, [L, L]], [[L, [L, L]]], [[[L, L], L]]]
    for i, s in enumerate(hs):
        for k, ks in enumerate((["gt"], ["gt", "null", "in"], ["notin", "gt"])):
            out.append(("having_tree", dict(shapes=s, kinds=ks, dialect=ALL[(i * 3 + k) % len(ALL)], rows=3 if deep else 2, where=[L, L] if k == 1 else None)))
    for tx in HTEXTS:
        for d in ("SNOWFLAKE", "BIGQUERY"):
            out.append(("having_tree", dict(shapes=[], kinds=[], dialect=d, rows=2, text=tx)))
            out.append(("having_tree", dict(shapes=[], kinds=[], dialect=d, rows=2, text=tx, where=[L, L])))
    for op in ("AND", "OR", None):
        out.append(("group_filter_of_expression", dict(dialect="SNOWFLAKE", op=op, rows=2)))
    return out
