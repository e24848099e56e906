"""Independent reference meaning of measures over symbolic rows (not derived from the SQL text)."""
import z3

from . import sx
from .sqls import NULL, V, to_real
from .sx import And, Eq, Iff, Implies, Ite, Not, Or


def count(conds):
    t = [Ite(c, z3.IntVal(1), z3.IntVal(0)) for c in conds if c is not False]
    return z3.Sum(t) if t else z3.IntVal(0)


def agg(kind, rows):
    """rows: list of (member condition, V).  Returns V (numbers)."""
    live = [(And(c, Not(v.null)), v) for c, v in rows]
    live = [(c, v) for c, v in live if c is not False]
    none = Not(Or(*[c for c, _ in live]))
    if kind == "count":
        return V("int", False, count([c for c, _ in live]))
    if kind == "count_distinct":
        out = []
        for i, (c, v) in enumerate(live):
            out.append(And(c, Not(Or(*[And(d, val_eq(w, v)) for d, w in live[:i]]))))
        return V("int", False, count(out))
    if kind == "sum":
        real = any(v.t == "real" for _, v in live)
        z = z3.RealVal(0) if real else z3.IntVal(0)
        ts = [Ite(c, to_real(v.v) if real else sx.lit(v.v), z) for c, v in live]
        return V("real" if real else "int", none, z3.Sum(ts) if ts else z)
    if kind == "average":
        s = agg("sum", rows)
        c = count([c for c, _ in live])
        r = z3.RealVal(0)
        for k in range(1, len(live) + 1):
            r = Ite(c == k, to_real(s.v) / k, r)
        return V("real", none, r)
    if kind in ("min", "max"):
        r, has = None, False
        for c, v in live:
            x = sx.lit(v.v)
            if r is None:
                r, has = x, c
                continue
            r = Ite(And(c, Or(Not(has), x < r if kind == "min" else x > r)), x, r)
            has = Or(has, c)
        return V("int" if r is None or z3.is_int(r) else "real", none, r if r is not None else z3.IntVal(0))
    if kind == "median":
        # exact: mean of the middle order statistics
        cnt = count([c for c, _ in live])
        lo = hi = z3.RealVal(0)
        n = len(live)
        for i in range(n):
            xi = to_real(live[i][1].v)
            rank = count([And(live[j][0], (to_real(live[j][1].v) < xi) if j > i else (to_real(live[j][1].v) <= xi)) for j in range(n) if j != i])
            lo = Ite(And(live[i][0], rank == (cnt - 1) / 2), xi, lo)
            hi = Ite(And(live[i][0], rank == cnt / 2), xi, hi)
        return V("real", none, (lo + hi) / 2)
    raise ValueError(kind)


def val_eq(a, b):
    if a.t == "bool":
        return Iff(a.v, b.v)
    if {a.t, b.t} == {"int", "real"}:
        return to_real(a.v) == to_real(b.v)
    return Eq(a.v, b.v)


def distinct_by(rows):
    """rows: list of (cond, key V, payload).  Keeps the first present row of every non-null key."""
    out = []
    for i, (c, k, v) in enumerate(rows):
        cc = And(c, Not(k.null))
        dup = Or(*[And(d, Not(l.null), val_eq(l, k)) for d, l, _ in rows[:i]])
        cc = And(cc, Not(dup))
        if cc is not False:
            out.append((cc, v))
    return out


def same_value(a, b, zero_is_null=False):
    """results equal (both missing or equal numbers); optionally missing and zero are the same"""
    if a.t == "null" and b.t == "null":
        return True
    if a.t == "null" or b.t == "null":
        o = b if a.t == "null" else a
        r = o.null
        if zero_is_null and o.t in ("int", "real", "hash"):
            r = Or(r, num(o) == 0)
        return r
    if a.t in ("int", "real", "hash") and b.t in ("int", "real", "hash"):
        x, y = num(a), num(b)
        if zero_is_null:
            x = Ite(a.null, z3.RealVal(0), x)
            y = Ite(b.null, z3.RealVal(0), y)
            return x == y
        eq = x == y
    else:
        eq = val_eq(a, b)
    return Or(And(a.null, b.null), And(Not(a.null), Not(b.null), eq))


def num(v):
    return to_real(sx.lit(v.v))
