"""C14: time buckets.  The real field code writes each bucket's SQL for each warehouse; over an instant of any second of 1990-2060 (civil
calendar on integers) the bucket must be the calendar period holding the instant, for every first day of the week and month offset."""
import datetime as dt

import z3

from .. import sx
from ..cal import S, civil, conc, day_of, div, fake_date, floor_to
from ..civ import DAYS, DY, EPOCH, MON, MONTHS, choose, instants
from ..proj import *
from ..sqls import Row, Table, Unsupported, V
from ..sx import And, Eq, Iff, Implies, Not, Or

EXPLANATION = __doc__
BOUNDS = "one instant, any second from 1990 to 2060 or missing; all 10 warehouses, all 25 buckets and their aliases, timestamp/datetime/date columns, all seven first days of the week, every month offset from -24 to 24 (symbolic); filters comparing a bucket with any date or number"
OUTSIDE = "sub-second instants; warehouse session settings other than the defaults (week start, date first, time zone); whether a function exists in a warehouse, beyond EXTRACT on SQL Server"
ASSUMPTIONS = ["date functions mean what each warehouse documents (vf/civ.py)", "week numbers follow ISO 8601 after moving the configured first day to the next Monday", "the text of month and weekday names is the warehouse's English one"]
WEEKDAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
MSSQL = ("SQL_SERVER", "AZURE_SYNAPSE")

SPAN = ["second", "minute", "hour", "date", "month", "quarter", "year"]
PARTS = ["month_of_year_index", "month_index", "quarter_of_year", "hour_of_day", "day_of_month", "day_of_year"]
NAMES = ["month_of_year", "month_name", "day_of_week"]
FISCAL = ["fiscal_month", "fiscal_quarter", "fiscal_year", "fiscal_month_of_year_index", "fiscal_month_index", "fiscal_quarter_of_year"]
WEEKS = ["week", "week_index", "week_of_year", "week_of_month"]
ALLTF = ["raw", "time"] + SPAN + PARTS + NAMES + FISCAL + WEEKS


def week_start(ctx, n, ws):
    return floor_to(ctx, n, 7, WEEKDAYS.index((ws or "monday").lower()) + 1)


def want(ev, tf, v, ws, k):
    """(kind, value) of the bucket of instant v"""
    ctx, cal = ev.ctx, ev.cal
    n, s = cal.parts(v)
    day = lambda d: cal.make(d, 0)
    if tf in ("raw", "time", "second"):
        return "ts", v
    if tf in ("minute", "hour"):
        return "ts", cal.make(n, floor_to(ctx, s, 60 if tf == "minute" else 3600))
    if tf == "date":
        return "ts", day(n)
    if tf == "hour_of_day":
        return "int", div(s, 3600)
    if tf == "week":
        return "ts", day(week_start(ctx, n, ws))
    if tf in ("week_index", "week_of_year"):
        mid = floor_to(ctx, n + (7 - WEEKDAYS.index((ws or "monday").lower())) % 7, 7, 1) + 3  # ISO number of the day moved so that weeks start on Monday
        y = S(ctx, floor_to(ctx, civil(ctx, mid)[0], 12))
        return "int", div(mid - y, 7) + 1
    mi, d = civil(ctx, n)
    if tf == "week_of_month":
        return "int", div(week_start(ctx, n, ws) - week_start(ctx, day_of(ctx, mi, 1), ws), 7) + 1
    if tf == "day_of_month":
        return "int", d
    if tf == "day_of_year":
        return "int", n - S(ctx, floor_to(ctx, mi, 12)) + 1
    if tf == "day_of_week":
        return "code", choose((n - 1) % 7, [x.upper() for x in DAYS] if ev.dialect == "BIGQUERY" else DY, ev)
    if tf in ("month_of_year", "month_name"):
        return "code", choose(conc(mi - floor_to(ctx, mi, 12)), MONTHS if ev.dialect == "BIGQUERY" else MON, ev)
    if tf.startswith("fiscal_"):
        mi = conc(mi + k)
        tf = tf[7:]
    p = {"month": 1, "quarter": 3, "year": 12}.get(tf)
    if p:
        return "ts", day(day_of(ctx, floor_to(ctx, mi, p), 1))
    m = conc(mi - floor_to(ctx, mi, 12))
    if tf in ("month_of_year_index", "month_index"):
        return "int", m + 1
    if tf == "quarter_of_year":
        return "int", div(m, 3) + 1
    raise KeyError(tf)


def known(ev, tf, v, ws):
    """(signature, value) a recorded deviation gives"""
    ctx, cal, d = ev.ctx, ev.cal, ev.dialect
    n, s = cal.parts(v)
    off = (7 - WEEKDAYS.index((ws or "monday").lower())) % 7
    mi = lambda: civil(ctx, n)[0]
    if tf == "week" and d == "BIGQUERY":
        return "bigquery-weeks-start-a-day-early", cal.make(floor_to(ctx, n + off, 7, 0) - off, 0)
    if tf == "week" and d in MSSQL:
        # DATEDIFF(WEEK) counts Sundays: the last day of each week goes to the next week
        return "sql-server-last-day-of-week-in-next-week", cal.make(floor_to(ctx, n + off + 1, 7, 1) - off, 0)
    if tf in ("week_index", "week_of_year") and d == "BIGQUERY":
        return "bigquery-week-number-counts-sundays", cal.part("week", cal.make(n + off, 0))
    if tf in ("week_index", "week_of_year") and d in MSSQL:
        return "sql-server-week-number-counts-sundays", cal.part("week", cal.make(n + off, 0))
    if tf == "week_of_month":
        return "week-of-month-is-a-difference-of-week-numbers", cal.part("week", v) - cal.part("week", cal.make(day_of(ctx, mi(), 1), 0)) + 1
    return None, None


def same(ev, got, kind, w):
    if got.t == "ts" and kind == "ts" or got.t in ("int", "code") and kind in ("int", "code"):
        return Eq(got.v, w)
    raise Unsupported(f"{got.t} against {kind}")


def build(ctx, dialect, tfs, ws, k, datatype, via):
    fields = [pk("id", type="number"), timedim("ts", timeframes=tfs, datatype=datatype), meas("c", "count")]
    if via == "ref":
        fields += [dim(f"r_{t}", "${ts_" + t + "}") for t in tfs]
    if via == "max":
        fields += [meas(f"r_{t}", "max", "${ts_" + t + "}") for t in tfs]
    mk = {}
    if ws:
        mk["week_start_day"] = ws
    if k is not None:
        mk["fiscal_month_offset"] = k
    if via == "other":  # a second model with another calendar, listed first
        w2 = WEEKDAYS[(WEEKDAYS.index((ws or "monday").lower()) + 3) % 7]
        views = [view("u", fields, [], model="m2"), view("o", [pk("id", type="number"), meas("c", "count")], [])]
        return project(views, [model(week_start_day=w2, fiscal_month_offset=5), model("m2", **mk)], dialect=dialect)
    if via == "cross":
        fields = [f for f in fields if f["name"] != "c"]
        o = [pk("id", type="number"), meas("c", "count"), dim("uid", type="number")] + [dim(f"r_{t}", "${u.ts_" + t + "}") for t in tfs]
        views = [view("u", fields, [{"name": "u", "type": "primary", "sql": "${id}"}]), view("o", o, [{"name": "u", "type": "foreign", "sql": "${uid}"}])]
        return project(views, [model(**mk)], dialect=dialect)
    return project([view("u", fields, [])], [model(**mk)], dialect=dialect)


def bucket(ctx, dialect, tfs, ws=None, datatype="timestamp", via=None, fiscal=None, at=None):
    k = ctx.int("offset", -24, 24) if fiscal == "sym" else fiscal
    p = build(ctx, dialect, tfs, ws, k, datatype, via)
    v = "o" if via == "cross" else "u"
    names = [(f"r_{t}" if via in ("ref", "max", "cross") else f"ts_{t}") for t in tfs]
    shown = [f"{v}.{x}" for x in names]
    sql = query(ctx, p, dialect, metrics=shown if via == "max" else [f"{v}.c"], dimensions=[] if via == "max" else shown)
    info = {"sql": sql, "dialect": dialect, "week_start_day": ws}
    rng = dict(lo=dt.date.fromisoformat(at), hi=dt.date.fromisoformat(at), nullable=False) if at else {}
    ev, row = instants(ctx, dialect, "u", ["ts"], [("id", "int")], days=["ts"] if datatype == "date" else (), **rng)
    ev.numlits = getattr(ctx, "magic", {})
    ev.lax_order = True
    if via == "cross":
        ev.db["db.o"] = Table("o", [("id", "int"), ("uid", "int")], [Row(True, [V("int", False, 1), row["id"]])])
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    r = row["ts"]
    for t, x in zip(tfs, names):
        got = R.rows[0].v[find_col(R, f"{v}_{x}")]
        if dialect == "DRUID" and t in NAMES and not ctx.decide(Implies(r.null, got.null)):
            label = ev.code("Invalid Day" if t == "day_of_week" else "Invalid Month")
            ctx.prove(And(Not(got.null), Eq(got.v, label)), f"{t} of a missing instant", info)
            ctx.prove(Implies(r.null, got.null), f"{t} is present without an instant", {**info, "sig": "druid-name-of-a-missing-date"})
        else:
            ctx.prove(Iff(got.null, r.null), f"{t} is missing for an instant or present without one", info)
        kind, w = want(ev, t, r.v, ws, sx.ze(k) if k is not None else 0)
        ok = Or(r.null, same(ev, got, kind, w))
        sig, dev = known(ev, t, r.v, ws)
        if sig and at:
            ctx.prove(ok, f"{t} is not the calendar period of the instant", {**info, "sig": sig})
        elif sig:
            ok = Or(same(ev, got, kind, dev), ok)
        ctx.prove(ok, f"{t} is not the calendar period of the instant", info)


OPS = {"greater_than": lambda a, b: a > b, "less_or_equal_than": lambda a, b: a <= b, "equal_to": Eq, "not_equal_to": lambda a, b: Not(Eq(a, b)), "greater_or_equal_than": lambda a, b: a >= b, "less_than": lambda a, b: a < b}


def bucket_filter(ctx, dialect, tf, op, ws=None, fiscal=None, datatype="timestamp", via="filter"):
    """rows a filter on the bucket keeps"""
    k = ctx.int("offset", -24, 24) if fiscal == "sym" else fiscal
    p = build(ctx, dialect, [tf] if tf == "raw" else [tf, "raw"], ws, k, datatype, None)
    ev, row = instants(ctx, dialect, "u", ["ts"], [("id", "int")], days=["ts"] if datatype == "date" else ())
    kind = "code" if tf in NAMES else "int" if tf in PARTS or "_of_" in tf or tf.endswith("_index") else "ts"
    if kind == "ts":
        n = ctx.zint("bound", dt.date(1991, 1, 1).toordinal(), dt.date(2059, 1, 1).toordinal())
        value, b = fake_date(ctx, conc(n)), ev.cal.make(n, 0)
        if ctx.concrete:
            value = dt.date.fromordinal(conc(n)).isoformat()
    elif kind == "int":
        value = ctx.int("bound", 0, 400)
        b = sx.ze(value)
    else:
        value = ctx.pick("bound", [x.upper() for x in DAYS] + MONTHS if dialect == "BIGQUERY" else DY + MON)
        b = ev.code(value)
    sql = query(ctx, p, dialect, metrics=["u.c"], dimensions=["u.ts_raw"], where=[{"field": f"u.ts_{tf}", "expression": op, "value": value}])
    info = {"sql": sql, "dialect": dialect, "week_start_day": ws}
    ev.numlits = getattr(ctx, "magic", {})
    ev.lax_order = True
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    r = row["ts"]
    _, w = want(ev, tf, r.v, ws, sx.ze(k) if k is not None else 0)
    shown = Or(*[o.p for o in R.rows])
    ok = Iff(shown, And(Not(r.null), OPS[op](w, b)))
    if dialect == "DRUID" and tf in NAMES:
        ok = Or(r.null, ok)  # its missing dates have a name (recorded)
    sig, dev = known(ev, tf, r.v, ws)
    if sig:
        ok = Or(Iff(shown, And(Not(r.null), OPS[op](dev, b))), ok)
    ctx.prove(ok, "a filter on the bucket keeps other rows than those of the calendar period", info)


def mssql(ctx, dialect, tf):
    """what SQL Server cannot execute: EXTRACT, and a count of seconds since 1900 that leaves the 32-bit integers"""
    p = build(ctx, dialect, [tf], None, 1, "timestamp", None)
    sql = query(ctx, p, dialect, metrics=["u.c"], dimensions=[f"u.ts_{tf}"])
    info = {"sql": sql, "dialect": dialect}
    ctx.reached()
    q = parsed(ctx, sql)
    if "EXTRACT(" in sql.upper():
        ctx.fail(f"{tf} uses EXTRACT, which SQL Server does not have", {**info, "sig": f"sql-server-extract:{tf}"})
    ev, row = instants(ctx, dialect, "u", ["ts"], [("id", "int")])
    ev.lax_order = True
    diffs = []
    real = ev.cal.diff
    ev.cal.diff = lambda *a, **k: diffs.append(real(*a, **k)) or diffs[-1]
    sem(ctx, lambda: ev.query(q), sql, info)
    ctx.prove(And(*[Or(row["ts"].null, And(x >= -(2**31), x < 2**31)) for x in diffs]), f"{tf} counts past the 32-bit integers, which SQL Server refuses", {**info, "sig": "sql-server-second-overflow"} if tf == "second" else info)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for d in MSSQL:
        for t in ALLTF:
            if t != "raw":
                out.append(("mssql", dict(dialect=d, tf=t)))
    for i, d in enumerate(ALL):
        for at in ("2024-03-03", "2023-12-31"):  # recorded deviations, at dates that show them
            out += [("bucket", dict(dialect=d, tfs=[t], at=at)) for t in WEEKS]
        for ws in [None] + WEEKDAYS:
            out.append(("bucket", dict(dialect=d, tfs=WEEKS, ws=ws)))
        for j, t in enumerate(ALLTF):
            ops = list(OPS)
            for o in ops if deep else [ops[(i + j) % 6], ops[(i + j + 1) % 6]]:
                if t in NAMES and o not in ("equal_to", "not_equal_to"):
                    o = "equal_to"
                for ws in (WEEKDAYS if deep else [WEEKDAYS[(i + j) % 7]]) if t in WEEKS else [None]:
                    out.append(("bucket_filter", dict(dialect=d, tf=t, op=o, ws=ws, fiscal="sym" if t in FISCAL else None)))
        for dt_ in ("date", "datetime"):
            out.append(("bucket", dict(dialect=d, tfs=["raw", "time"] + SPAN + PARTS + NAMES, datatype=dt_)))
            out.append(("bucket", dict(dialect=d, tfs=FISCAL, fiscal="sym", datatype=dt_)))
            out.append(("bucket", dict(dialect=d, tfs=WEEKS, ws=WEEKDAYS[(i + len(dt_)) % 7], datatype=dt_)))
        out.append(("bucket", dict(dialect=d, tfs=SPAN + PARTS + NAMES, via="ref")))
        for v in ("other", "cross"):
            out.append(("bucket", dict(dialect=d, tfs=SPAN + PARTS + NAMES, via=v)))
            out.append(("bucket", dict(dialect=d, tfs=FISCAL, fiscal="sym", via=v)))
            out.append(("bucket", dict(dialect=d, tfs=WEEKS, ws=WEEKDAYS[(i + len(v)) % 7], via=v)))
        out.append(("bucket", dict(dialect=d, tfs=WEEKS, ws=WEEKDAYS[(i + 5) % 7].title())))
        out.append(("bucket", dict(dialect=d, tfs=SPAN + PARTS, via="max")))
        out.append(("bucket", dict(dialect=d, tfs=["fiscal_quarter", "fiscal_month_index"], fiscal="sym", via="max")))
        out.append(("bucket", dict(dialect=d, tfs=WEEKS, ws=WEEKDAYS[(i + 6) % 7], via="max")))
        out.append(("bucket", dict(dialect=d, tfs=FISCAL, fiscal="sym", via="ref")))
        out.append(("bucket", dict(dialect=d, tfs=WEEKS, ws=WEEKDAYS[(i + 2) % 7], via="ref")))
        out.append(("bucket", dict(dialect=d, tfs=["raw", "time"] + SPAN)))
        out.append(("bucket", dict(dialect=d, tfs=PARTS)))
        out.append(("bucket", dict(dialect=d, tfs=NAMES)))
        out.append(("bucket", dict(dialect=d, tfs=FISCAL, fiscal="sym")))
    return out
