"""Reference meaning of a grouped query, compared with the relation the generated SQL denotes."""
import itertools

import z3

from . import spec, sx
from .sqls import V
from .sx import And, Eq, Iff, Implies, Ite, Not, Or


def rows_of(table):
    """[(present, {column: V})]"""
    return [(r.p, {c: v for (c, _), v in zip(table.cols, r.v)}) for r in table.rows]


def digest_hyp(pairs, sort=None):
    """pairs: list of (key V, [possible summands]); distinct keys have distinct digest + summand"""
    dg = z3.Function("digest", sort or z3.IntSort(), z3.IntSort())
    hyp = []
    for (ka, xas), (kb, xbs) in itertools.combinations(pairs, 2):
        for xa in xas:
            for xb in xbs:
                hyp.append(sx.lit(Implies(ka.v != kb.v, dg(ka.v) + xa != dg(kb.v) + xb)))
    return hyp


def compare_grouped(ctx, ev, R, find, src, keys, measures, info, hyp=(), zero_is_null=True, label="query", having=None):
    """src: [(cond, row)], keys: [(out column, row -> V)], measures: [(out column, kind, row -> V, row -> cond, key or None)].
    having: optional fn(dict out column -> V) -> condition on the reference values of the group."""
    kout = [find(R, c) for c, _ in keys]
    kv = [[f(r) for _, f in keys] for _, r in src]

    def same_keys(vals, out):
        return And(*[ev.same(v, out[i]) for v, i in zip(vals, kout)])

    def group_vals(members):
        vals = {}
        for name, kind, val, cond, key in measures:
            ms = [(And(c, cond(r)) if cond else c, r) for c, r in members]
            ms = [(c, r) for c, r in ms if c is not False]
            if key is not None:
                rows = spec.distinct_by([(c, key(r), val(r)) for c, r in ms])
            else:
                rows = [(c, val(r)) for c, r in ms]
            vals[name] = spec.agg(kind, rows)
        return vals

    if keys:
        # every group occurs exactly once, and only groups that exist occur
        for i, (c, r) in enumerate(src):
            want = c
            if having is not None:
                members = [(And(d, *[ev.same(x, y) for x, y in zip(kv[i], kv[j])]), q) for j, (d, q) in enumerate(src)]
                want = And(c, having(group_vals(members), r))
            ctx.prove(Implies(want, Or(*[And(o.p, same_keys(kv[i], o.v)) for o in R.rows])), f"{label}: a group of the source rows is missing from the result", info, hyp)
        dup = Or(*[And(a.p, b.p, *[ev.same(a.v[k], b.v[k]) for k in kout]) for a, b in itertools.combinations(R.rows, 2)])
        ctx.prove(Not(dup), f"{label}: a group occurs twice", info, hyp)
    else:
        if having is None:
            ctx.prove(And(*[o.p for o in R.rows]) if len(R.rows) == 1 else False, f"{label}: an ungrouped aggregate must have exactly one row", info, hyp)
    for o in R.rows:
        members = []
        for i, (c, r) in enumerate(src):
            m = And(c, same_keys(kv[i], o.v))
            if m is not False:
                members.append((m, r))
        if keys:
            ctx.prove(Implies(o.p, Or(*[c for c, _ in members])), f"{label}: a result row corresponds to no source row", info, hyp)
        vals = group_vals(members)
        if having is not None:
            h = having(vals, None)
            ctx.prove(Implies(o.p, h), f"{label}: a group failing the group filter is in the result", info, hyp)
            if not keys:
                ctx.prove(Implies(h, o.p), f"{label}: the result row is missing though the group filter holds", info, hyp)
        for name, kind, *_ in measures:
            got = o.v[find(R, name)]
            z = zero_is_null and kind in ("sum", "count", "count_distinct")
            ctx.prove(Implies(o.p, spec.same_value(got, vals[name], zero_is_null=z)), f"{label}: {name} is not the {kind} of its rows", info, hyp)


def compare_rows(ctx, ev, R, find, src, cols, info, label="query", hyp=()):
    """the result is exactly the source rows (as a bag): every src row appears with the same number of copies"""
    ix = [find(R, c) for c, _ in cols]

    def eqv(vals, o):
        return And(*[ev.same(v, o.v[i]) for v, i in zip(vals, ix)])

    vals = [[f(r) for _, f in cols] for _, r in src]
    for i, (c, _) in enumerate(src):
        n = spec.count([And(o.p, eqv(vals[i], o)) for o in R.rows])
        m = spec.count([And(d, *[ev.same(x, y) for x, y in zip(vals[i], vals[j])]) for j, (d, _) in enumerate(src)])
        ctx.prove(Implies(c, n == m), f"{label}: a row is missing or repeated", info, hyp)
    for o in R.rows:
        ctx.prove(Implies(o.p, Or(*[And(c, eqv(v, o)) for (c, _), v in zip(src, vals)])), f"{label}: a result row corresponds to no source row", info, hyp)


def bags_equal(ctx, ev, A, B, info, what, cols=None):
    """two relations hold the same rows with the same multiplicities"""
    if [n.lower() for _, n in A.cols] != [n.lower() for _, n in B.cols]:
        ctx.fail(f"{what}: the result columns differ", info)
    ix = range(len(A.cols)) if cols is None else cols

    def eqv(a, b):
        return And(*[ev.same(a[i], b[i]) for i in ix])

    rows = [(r, "left") for r in A.rows if r.p is not False] + [(r, "right") for r in B.rows if r.p is not False]
    for r, _ in rows:
        n = spec.count([And(o.p, eqv(r.v, o.v)) for o in A.rows])
        m = spec.count([And(o.p, eqv(r.v, o.v)) for o in B.rows])
        ctx.prove(Implies(r.p, n == m), f"{what}: a row is missing, changed or repeated", info)
