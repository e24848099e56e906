"""C15: duration fields.  The real field code writes each unit's SQL for each warehouse; over two instants (any seconds of 1990-2060) the
number is the number of units from the start column to the end column: whole elapsed units, or unit boundaries crossed."""
import datetime as dt

from .. import sx
from ..civ import instants, tdiv
from ..proj import *
from ..sqls import Row, Table, V
from ..sx import And, Eq, Iff, Implies, Not, Or

EXPLANATION = __doc__
BOUNDS = "two instants, any second from 1990 to 2060 or missing; all 10 warehouses, all 8 units, timestamp and date columns; columns written directly, through another field, through a joined view; used as dimension, in a measure and in a filter with any bound from -1000 to 1000"
OUTSIDE = "sub-second instants; warehouse session settings; a warehouse's choice between counting elapsed units and boundaries crossed is accepted either way"
ASSUMPTIONS = ["date functions mean what each warehouse documents (vf/civ.py); DATEDIFF/DATE_DIFF count boundaries except on Trino, Druid and Databricks, where they count elapsed units"]
UNITS = ["second", "minute", "hour", "day", "week", "month", "quarter", "year"]


def age_count(cal, u, a, b):
    g = cal.age(b, a)
    return {"month": g["year"] * 12 + g["month"], "quarter": g["year"] * 4 + tdiv(g["month"], 3), "year": g["year"]}[u]


def lemma(ctx, unit):
    """whole units of PostgreSQL's age() are the whole elapsed units"""
    ev, row = instants(ctx, "POSTGRES", "u", ["a", "b"], nullable=False)
    ctx.reached()
    a, b = row["a"].v, row["b"].v
    ctx.prove(Eq(age_count(ev.cal, unit, a, b), ev.cal.elapsed(unit, a, b)), "age() does not count whole units", {})


def readings(cal, u, a, b):
    r = []
    if cal.dialect == "POSTGRES" and u in ("month", "quarter", "year"):
        r = [age_count(cal, u, a, b)]  # equal to the elapsed units (lemma)
    r += [cal.elapsed(u, a, b), cal.crossed(u, a, b, 1)]
    if u == "week":
        r.append(cal.crossed(u, a, b, 0))
    return r


def known(ev, u, a, b):
    cal, d = ev.cal, ev.dialect
    if d == "POSTGRES" and u in ("second", "minute", "hour", "day", "week"):
        g = cal.age(b, a)
        v = {"day": g["day"], "week": tdiv(g["day"], 7), "hour": g["day"] * 24 + g["hour"], "minute": g["day"] * 24 + g["hour"] * 60 + g["minute"], "second": g["day"] * 24 + g["hour"] * 60 + g["minute"] * 60 + g["second"]}
        return f"postgres-{u}s-from-parts-of-age", v[u]
    if d == "BIGQUERY" and u == "year":
        return "bigquery-years-are-iso-years", cal.crossed("isoyear", a, b)
    return None, None


def fields_(units, via):
    a, b = ("${TABLE}.a", "${TABLE}.b") if via != "ref" else ("${a_raw}", "${b_raw}")
    if via == "cross":
        b = "${o.b_raw}"
    g = lambda n, s, e: {"field_type": "dimension_group", "name": n, "type": "duration", "sql_start": s, "sql_end": e, "intervals": units}
    out = [pk("id", type="number"), timedim("a"), timedim("b"), g("dur", a, b), g("rev", b, a), g("self", a, a), meas("c", "count"), dim("oid", type="number")]
    out += [meas(f"m_{u}", "max", "${" + u + "s_dur}") for u in units] + [dim(f"r_{u}", "${" + u + "s_dur} * 2 + 1", type="number") for u in units]
    return out


def build(units, via, dialect, tz=None):
    ids = [{"name": "o", "type": "foreign", "sql": "${oid}"}]
    views = [view("u", fields_(units, via), ids), view("o", [pk("id", type="number"), timedim("b")], [{"name": "o", "type": "primary", "sql": "${id}"}])]
    return project(views, [model()], dialect=dialect, timezone=tz)


def setup(ctx, dialect, days, at, via):
    rng = dict(nullable=False) if at else {}
    ev, row = instants(ctx, dialect, "u", ["a", "b"], [("id", "int"), ("oid", "int")], days=["a", "b"] if days else (), **rng)
    if at:
        for c, (d, s) in zip("ab", at):
            row[c] = V("ts", False, ev.cal.make(dt.date.fromisoformat(d).toordinal(), s))
    ev.db["db.u"] = Table("u", [(c, "ts" if c in "ab" else "int") for c in row], [Row(True, list(row.values()))])
    ev.db["db.o"] = Table("o", [("id", "int"), ("b", "ts")], [Row(True, [row["oid"], row["b"]])])
    ev.lax_order = True
    return ev, row


def number(ctx, dialect, unit, how="dim", via=None, days=False, at=None, tz=None):
    units = [unit] if how != "default" else None
    p = build([unit], via, dialect, tz)
    cols = {"dim": ["dur", "rev", "self"], "measure": ["dur"], "ref": ["dur"]}[how]
    if how == "dim":
        req = dict(metrics=["u.c"], dimensions=[f"u.{unit}s_{c}" for c in cols])
    elif how == "measure":
        req = dict(metrics=[f"u.m_{unit}"], dimensions=[])
    else:
        req = dict(metrics=["u.c"], dimensions=[f"u.r_{unit}"])
    sql = query(ctx, p, dialect, **req)
    info = {"sql": sql, "dialect": dialect}
    ev, row = setup(ctx, dialect, days, at, via)
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    a, b = row["a"], row["b"]
    null = Or(a.null, b.null)
    for c in cols:
        got = R.rows[0].v[find_col(R, f"u_{unit}s_{c}" if how == "dim" else f"u_{'m' if how == 'measure' else 'r'}_{unit}")]
        x, y = {"dur": (a, b), "rev": (b, a), "self": (a, a)}[c]
        if c != "self":
            ctx.prove(Iff(got.null, null), f"{unit}s are missing for two instants or present without one", info)
        f = (lambda v: 2 * v + 1) if how == "ref" else (lambda v: v)
        skip = Or(x.null, y.null)
        ok = Or(skip, *[Eq(got.v, f(v)) for v in readings(ev.cal, unit, x.v, y.v)])
        if c == "self":
            ok = Or(skip, Eq(got.v, 0))
        sig, dev = known(ev, unit, x.v, y.v)
        if sig and at and c == "dur":
            ctx.prove(ok, f"not the number of {unit}s from start to end", {**info, "sig": sig})
        elif sig and c != "self":
            ok = Or(ok, Eq(got.v, f(dev)))
        ctx.prove(ok, f"not the number of {unit}s from start to end", info)


OPS = {"greater_than": lambda a, b: a > b, "less_or_equal_than": lambda a, b: a <= b, "equal_to": Eq, "not_equal_to": lambda a, b: Not(Eq(a, b))}


def filtered(ctx, dialect, unit, op):
    p = build([unit], None, dialect)
    value = ctx.int("bound", -1000, 1000)
    sql = query(ctx, p, dialect, metrics=["u.c"], dimensions=["u.id"], where=[{"field": f"u.{unit}s_dur", "expression": op, "value": value}])
    info = {"sql": sql, "dialect": dialect}
    ev, row = setup(ctx, dialect, False, None, None)
    ev.numlits = getattr(ctx, "magic", {})
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    a, b = row["a"], row["b"]
    shown = Or(*[o.p for o in R.rows])
    sig, dev = known(ev, unit, a.v, b.v)
    live = And(Not(a.null), Not(b.null))
    rs = readings(ev.cal, unit, a.v, b.v) + ([dev] if sig else [])
    ctx.prove(Or(*[Iff(shown, And(live, OPS[op](r, sx.ze(value)))) for r in rs]), f"a filter on {unit}s keeps other rows", info)


AT = {"second": [("2024-01-01", 0), ("2024-01-02", 5)], "minute": [("2024-01-01", 0), ("2024-01-02", 5)], "hour": [("2024-01-01", 0), ("2024-03-02", 0)], "day": [("2024-01-01", 0), ("2024-03-02", 0)], "week": [("2024-01-01", 0), ("2024-03-11", 0)], "year": [("2024-12-29", 0), ("2024-12-30", 0)]}


def jobs(tier):
    deep = tier == "thorough"
    out = [("lemma", dict(unit=u)) for u in (["month", "quarter", "year"] if deep else ["month"])]
    for i, d in enumerate(ALL):
        for j, u in enumerate(UNITS):
            if u in AT and d in ("POSTGRES", "BIGQUERY"):
                out.append(("number", dict(dialect=d, unit=u, at=AT[u])))
            out.append(("number", dict(dialect=d, unit=u)))
            out.append(("number", dict(dialect=d, unit=u, days=True)))
            out.append(("number", dict(dialect=d, unit=u, via="ref")))
            out.append(("number", dict(dialect=d, unit=u, via="cross")))
            out.append(("number", dict(dialect=d, unit=u, how="measure")))
            out.append(("number", dict(dialect=d, unit=u, how="ref")))
            for o in OPS if deep else [list(OPS)[(i + j) % 4]]:
                out.append(("filtered", dict(dialect=d, unit=u, op=o)))
    return out
