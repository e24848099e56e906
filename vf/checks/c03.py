"""C03: joins never change a measure.  For every bounded join topology and relationship the real resolver produces the
SQL; every measure column must equal, for all contents of the bounded symbolic tables, its declared aggregate over the
distinct rows of its own view in each group of the joined relation."""
import itertools

from .. import spec, sx
from ..proj import *
from ..sqls import Eval, Row, sym_table
from ..sx import And, Implies, Not, Or

EXPLANATION = __doc__
BOUNDS = "2 views x 2-3 rows and 3 views x 2 rows (chain and star, all roles), every relationship per edge, all aggregates, integer measure values unbounded, NULLs and unmatched rows included"
OUTSIDE = "more than 3 views, more rows per table, non-integer measures (the de-duplicating sum rounds to 6 decimals by design), hash collisions, medians, warehouses without de-duplicating aggregates, views without a primary key"
ASSUMPTIONS = [
    "the warehouse's digest function does not collide: rows with different keys give different digest-plus-value sums",
    "declared keys are unique and not null in the data, as the relationship declares",
    "a sum/count over no rows may be shown as 0 or as missing",
]
BUDGET = {"quick": 700, "thorough": 850}

KINDS = ["sum", "count", "count_distinct", "average", "min", "max", "sum_distinct", "average_distinct", "fsum", "fcount", "favg", "rowcount"]
# relationship of an edge seen from its left view
SIDES = {"m2o": ("foreign", "primary"), "o2o": ("primary", "primary"), "o2m": ("primary", "foreign"), "m2m": ("foreign", "foreign")}


def measures():
    f = [{"field": "flag", "value": "act"}]
    return [
        meas("m_sum", "sum", "${TABLE}.x"),
        meas("m_count", "count", "${TABLE}.x"),
        meas("m_count_distinct", "count_distinct", "${TABLE}.x"),
        meas("m_average", "average", "${TABLE}.x"),
        meas("m_min", "min", "${TABLE}.x"),
        meas("m_max", "max", "${TABLE}.x"),
        meas("m_sum_distinct", "sum_distinct", "${TABLE}.x", sql_distinct_key="${TABLE}.idk"),
        meas("m_average_distinct", "average_distinct", "${TABLE}.x", sql_distinct_key="${TABLE}.idk"),
        meas("m_fsum", "sum", "${TABLE}.x", filters=f),
        meas("m_fcount", "count", "${TABLE}.x", filters=f),
        meas("m_favg", "average", "${TABLE}.x", filters=f),
        meas("m_rowcount", "count"),
    ]


def build(names, edges, explicit):
    """edges: (left, right, rel).  Every edge i uses key column k<i> on a foreign side and the primary key on a primary side."""
    ids = {n: [] for n in names}
    for i, (a, b, rel) in enumerate(edges):
        sa, sb = SIDES[rel]
        if explicit:
            ca = f"{a}_id" if sa == "primary" else f"k{i}"
            cb = f"{b}_id" if sb == "primary" else f"k{i}"
            relname = {"m2o": "many_to_one", "o2o": "one_to_one", "o2m": "one_to_many", "m2m": "many_to_many"}[rel]
            ids[a].append({"name": f"e{i}", "type": "join", "relationship": relname, "reference": b,
                           "sql_on": "${%s.%s}=${%s.%s}" % (a, ca, b, cb)})
            continue
        for n, s, o in ((a, sa, b), (b, sb, a)):
            d = {"name": f"e{i}", "type": s, "sql": "${%s_id}" % n if s == "primary" else "${k%d}" % i}
            d["allowed_fanouts"] = [o]
            ids[n].append(d)
    views = []
    for n in names:
        fk = [dim(f"k{i}", type="number", hidden=True) for i, (a, b, r) in enumerate(edges) if n in (a, b)]
        views.append(view(n, [pk(f"{n}_id", type="number"), dim("d"), dim("flag")] + fk + measures(), ids[n]))
    return views


def expected_kind(k):
    return {"fsum": "sum", "fcount": "count", "favg": "average", "sum_distinct": "sum", "average_distinct": "average", "rowcount": "count"}.get(k, k)


def topo(ctx, shape, rels, mviews, dviews, dialect, rows, explicit=False, extra_filter=False, kinds=None):
    kinds = kinds or KINDS
    names, edges = shape
    edges = [(a, b, r) for (a, b), r in zip(edges, rels)]
    p = project(build(names, edges, explicit), dialect=dialect)
    metrics = [f"{v}.m_{k}" for v in mviews for k in kinds]
    dims = [f"{v}.d" for v in dviews]
    kw = {}
    if extra_filter:
        kw["where"] = [{"field": f"{dviews[0]}.flag", "expression": "equal_to", "value": "act"}]
    try:
        sql = query(ctx, p, dialect, may_refuse=explicit, metrics=metrics, dimensions=dims, **kw)
    except Refused:
        return
    q = parsed(ctx, sql)
    s = core_select(q)
    db = {}
    for n in names:
        fk = [(f"k{i}", "int") for i, (a, b, r) in enumerate(edges) if n in (a, b)]
        cols = [(f"{n}_id", "int"), ("d", "code"), ("flag", "code"), ("x", "int"), ("idk", "int")] + fk
        t = sym_table(ctx, n, cols, rows, pk=f"{n}_id")
        # idk determines x (what sum_distinct requires)
        for a, b in itertools.combinations(t.rows, 2):
            same = And(a.p, b.p, Not(a.v[4].null), Not(b.v[4].null), a.v[4].v == b.v[4].v)
            eqx = Or(And(a.v[3].null, b.v[3].null), And(Not(a.v[3].null), Not(b.v[3].null), a.v[3].v == b.v[3].v))
            flg = Or(And(a.v[2].null, b.v[2].null), And(Not(a.v[2].null), Not(b.v[2].null), a.v[2].v == b.v[2].v))
            ctx.assume(sx.lit(Implies(same, And(eqx, flg))))
        db[f"db.{n}"] = t
    ev = Eval(db, dialect)
    on = ev.code("act")
    info = {"sql": sql, "relationships": edges, "sig": f"{edges}|{mviews}|{dviews}"}

    def sem_():
        if q.k != "query" or q.ctes or s.frm is None:
            raise SqlError("a single joined SELECT was expected")
        J = ev.source(s.frm, {})
        if s.where is not None:
            from ..sqls import Env

            J.rows[:] = [Row(And(r.p, ev.truth(ev.ev(s.where, Env(J, r), {}))), r.v) for r in J.rows]
            J.rows[:] = [r for r in J.rows if r.p is not False]
        return J, ev.query(q)

    J, R = sem(ctx, sem_, sql, info)
    ctx.reached()
    keyix = [J.find(v, "d")[0] for v in dviews]
    outkey = [find_col(R, f"{v}_d") for v in dviews]
    # digest injectivity over every pair of rows
    import z3

    dg = z3.Function("digest", z3.IntSort(), z3.IntSort())
    hyp = []
    for n in names:
        t = db[f"db.{n}"]
        for col in (0, 4):
            for a, b in itertools.combinations(t.rows, 2):
                ka, kb = a.v[col], b.v[col]
                for xa in (0, a.v[3].v * 1000000):
                    for xb in (0, b.v[3].v * 1000000):
                        hyp.append(sx.lit(Implies(ka.v != kb.v, dg(ka.v) + xa != dg(kb.v) + xb)))
    for r in R.rows:
        members = []
        for j in J.rows:
            eq = And(*[ev.same(j.v[ki], r.v[oi]) for ki, oi in zip(keyix, outkey)])
            c = And(j.p, eq)
            if c is not False:
                members.append((c, j))
        for v in mviews:
            ip, ix, ifl, ik = (J.find(v, c)[0] for c in (f"{v}_id", "x", "flag", "idk"))
            for k in kinds:
                rows_ = []
                for c, j in members:
                    val = j.v[ix]
                    if k == "rowcount":
                        val = j.v[ip]
                    key = j.v[ip]
                    cc = c
                    if k in ("fsum", "fcount", "favg"):
                        cc = And(c, Not(j.v[ifl].null), j.v[ifl].v == on)
                    if k in ("sum_distinct", "average_distinct"):
                        key = j.v[ik]
                    rows_.append((cc, key, val))
                want = spec.agg(expected_kind(k), spec.distinct_by(rows_))
                got = r.v[find_col(R, f"{v}_m_{k}")]
                z = expected_kind(k) in ("sum", "count")
                ctx.prove(
                    Implies(r.p, spec.same_value(got, want, zero_is_null=z)),
                    f"measure {v}.m_{k} is not its aggregate over the distinct rows of {v} in the group", info, hyp,
                )


PAIR = (["u", "w"], [("u", "w")])
CHAIN = (["u", "v", "w"], [("u", "v"), ("v", "w")])
STAR = (["a", "u", "w"], [("a", "u"), ("a", "w")])
REL = ["m2o", "o2o", "o2m", "m2m"]


SHORT = ["sum", "average", "fcount", "sum_distinct"]


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for rel in REL:
        for mv, dv in ((["u"], ["w"]), (["w"], ["u"]), (["u", "w"], ["u"])):
            for dia in SYMM:
                if dia != "SNOWFLAKE" and not deep and (rel not in ("o2m", "m2m") or mv != ["u", "w"]):
                    continue
                out.append(("topo", dict(shape=PAIR, rels=[rel], mviews=mv, dviews=dv, dialect=dia, rows=3 if deep and dia == "SNOWFLAKE" else 2)))
        for mv, dv in ((["u"], ["w"]), (["w"], ["u"])):
            out.append(("topo", dict(shape=PAIR, rels=[rel], mviews=mv, dviews=dv, dialect="SNOWFLAKE", rows=2, explicit=True)))
        out.append(("topo", dict(shape=PAIR, rels=[rel], mviews=["u"], dviews=["w"], dialect="SNOWFLAKE", rows=2, extra_filter=True)))
    for shape in (CHAIN, STAR):
        names = shape[0]
        for rels in itertools.product(REL, REL):
            for nm in names:
                rest = [n for n in names if n != nm]
                if not deep:
                    # every view is still needed in the request: one as grouping, one as measure owner or grouping
                    out.append(("topo", dict(shape=shape, rels=list(rels), mviews=[nm], dviews=rest, dialect="SNOWFLAKE", rows=2, kinds=SHORT)))
                else:
                    out.append(("topo", dict(shape=shape, rels=list(rels), mviews=[nm], dviews=rest, dialect="SNOWFLAKE", rows=2)))
    return out
