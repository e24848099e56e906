"""C16: time zone conversion.  The real field code writes buckets, filters, references and durations with a query time zone set in every
way it can be set; the zone's conversion is an uninterpreted function of the instant, so the converted instant must be used exactly where
configured, for every zone rule and every second of 1990-2060."""
import datetime as dt

from .. import sx
from ..cal import conc, fake_date
from ..civ import instants
from ..proj import *
from ..sqls import Row, Table, Unsupported, V
from ..sx import And, Eq, Iff, Implies, Not, Or
from . import c14, c15
from .c14 import FISCAL, NAMES, OPS, PARTS, SPAN, WEEKS, known, same, want

EXPLANATION = __doc__
BOUNDS = "one instant, any second from 1990 to 2060 or missing, any conversion moving it by up to 14 hours; every bucket, 10 warehouses, zone from the project or the model, set before or after other queries; field and model opt-outs in every combination; timestamp/datetime/date columns; dimensions, filters, references, other views, measures, measure filters, durations"
OUTSIDE = "what a zone's rules are (the warehouse knows them); session time zones other than UTC; Druid, SQL Server and Azure Synapse, which the code documents as not converting, are checked to leave instants alone"
ASSUMPTIONS = ["stored instants are UTC and sessions run in UTC", "date functions mean what each warehouse documents (vf/civ.py)"]
NOTZ = ("DRUID", "SQL_SERVER", "AZURE_SYNAPSE")
UNITS = ["second", "minute", "hour", "day", "week", "month", "quarter", "year"]
CONF = {
    # name: (field keys, model keys, converts)
    "plain": ({}, {}, True), "off": ({"convert_timezone": False}, {}, False), "off2": ({"convert_tz": False}, {}, False), "on": ({"convert_timezone": True}, {}, True),
    "moff": ({}, {"default_convert_tz": False}, False), "moff2": ({}, {"default_convert_timezone": False}, False), "moff_on": ({"convert_timezone": True}, {"default_convert_tz": False}, True),
    "moff_on2": ({"convert_tz": True}, {"default_convert_timezone": False}, True), "mon_off": ({"convert_tz": False}, {"default_convert_tz": True}, False), "mon": ({}, {"default_convert_tz": True}, True),
}


def build(ctx, dialect, tfs, conf, zone, source, datatype, via):
    fk, mk, conv = CONF[conf]
    mk = dict(mk)
    if source in ("model", "both"):
        mk["timezone"] = zone if source == "model" else "Asia/Tokyo"
    g = lambda n, s, e: {"field_type": "dimension_group", "name": n, "type": "duration", "sql_start": s, "sql_end": e, "intervals": UNITS}
    fields = [pk("id", type="number"), timedim("ts", timeframes=list(dict.fromkeys(tfs + ["raw", "date"])), datatype=datatype, **fk), timedim("b", **fk),
              g("dur", "${TABLE}.ts", "${TABLE}.b"), g("durr", "${ts_raw}", "${b_raw}"), meas("c", "count")]
    fields += [dim(f"r_{t}", "${ts_" + t + "}") for t in tfs]
    fields += [meas(f"x_{t}", "max", "${ts_" + t + "}") for t in tfs]
    o = [pk("id", type="number"), meas("c", "count"), dim("uid", type="number")] + [dim(f"r_{t}", "${u.ts_" + t + "}") for t in tfs]
    views = [view("u", fields, [{"name": "u", "type": "primary", "sql": "${id}"}])]
    if via == "cross":
        views.append(view("o", o, [{"name": "u", "type": "foreign", "sql": "${uid}"}]))
    p = project(views, [model(**mk)], dialect=dialect, timezone=zone if source in ("set", "both") else None)
    if source == "late":
        q = [f"u.ts_{t}" for t in tfs]
        query(ctx, p, dialect, metrics=["u.c"], dimensions=q, where=[{"field": f"u.ts_{tfs[0]}", "expression": "is_not_null"}])
        p.set_timezone("Asia/Tokyo")
        query(ctx, p, dialect, metrics=["u.c"], dimensions=q)
        p.set_timezone(zone)
    if source == "unset":
        p.set_timezone(zone)
        query(ctx, p, dialect, metrics=["u.c"], dimensions=[f"u.ts_{t}" for t in tfs])
        p.set_timezone(None)
    return p, conv and source not in ("unset", "none") and dialect not in NOTZ


def setup(ctx, dialect, datatype):
    ev, row = instants(ctx, dialect, "u", ["ts", "b"], [("id", "int")], days=["ts"] if datatype == "date" else ())
    ev.numlits = getattr(ctx, "magic", {})
    ev.lax_order = True
    ev.db["db.o"] = Table("o", [("id", "int"), ("uid", "int")], [Row(True, [V("int", False, 1), row["id"]])])
    return ev, row


def instant(ev, v, zone, conv, datatype):
    if conv:
        v = conc(ev.local(zone, v))
        if datatype == "date":
            v = ev.cal.date(v)
    return v


def shown(ctx, dialect, tfs, conf="plain", zone="America/New_York", source="set", datatype="timestamp", via="dim"):
    p, conv = build(ctx, dialect, tfs, conf, zone, source, datatype, via)
    names = {"dim": [f"u.ts_{t}" for t in tfs], "ref": [f"u.r_{t}" for t in tfs], "cross": [f"o.r_{t}" for t in tfs], "max": [f"u.x_{t}" for t in tfs]}[via]
    req = dict(metrics=names, dimensions=[]) if via == "max" else dict(metrics=["o.c" if via == "cross" else "u.c"], dimensions=names)
    sql = query(ctx, p, dialect, **req)
    info = {"sql": sql, "dialect": dialect}
    ev, row = setup(ctx, dialect, datatype)
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    r = row["ts"]
    v = instant(ev, r.v, zone, conv, datatype)
    for t, x in zip(tfs, names):
        got = R.rows[0].v[find_col(R, x.replace(".", "_"))]
        if not (dialect == "DRUID" and t in NAMES):
            ctx.prove(Iff(got.null, r.null), f"{t} is missing for an instant or present without one", info)
        kind, w = want(ev, t, v, None, 0)
        sig, dev = known(ev, t, v, None)
        ok = Or(r.null, same(ev, got, kind, w))
        if sig:
            ok = Or(same(ev, got, kind, dev), ok)
        ctx.prove(ok, f"{t} is not that of the instant {'converted to the zone' if conv else 'as stored'}", info)


def filtered(ctx, dialect, tf, op, conf="plain", zone="America/New_York", source="set", datatype="timestamp", how="where"):
    p, conv = build(ctx, dialect, [tf], conf, zone, source, datatype, "dim")
    ev, row = setup(ctx, dialect, datatype)
    if tf in PARTS or tf.endswith("_index") or "_of_" in tf:
        value = ctx.int("bound", 0, 400)
        b = sx.ze(value)
    else:
        n = ctx.zint("bound", dt.date(1991, 1, 1).toordinal(), dt.date(2059, 1, 1).toordinal())
        value, b = fake_date(ctx, conc(n)), ev.cal.make(n, 0)
        if ctx.concrete:
            value = dt.date.fromordinal(conc(n)).isoformat()
    sql = query(ctx, p, dialect, metrics=["u.c"], dimensions=["u.id"], where=[{"field": f"u.ts_{tf}", "expression": op, "value": value}])
    info = {"sql": sql, "dialect": dialect}
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    r = row["ts"]
    v = instant(ev, r.v, zone, conv, datatype)
    _, w = want(ev, tf, v, None, 0)
    keeps = Or(*[o.p for o in R.rows])
    ok = Iff(keeps, And(Not(r.null), OPS[op](w, b)))
    sig, dev = known(ev, tf, v, None)
    if sig:
        ok = Or(Iff(keeps, And(Not(r.null), OPS[op](dev, b))), ok)
    ctx.prove(ok, f"a filter on {tf} uses another instant than its display", info)


def duration(ctx, dialect, unit, zone="America/New_York", source="set", conf="plain"):
    """durations between stored columns do not depend on the zone; between converted fields they are of the converted instants"""
    p, conv = build(ctx, dialect, ["date"], conf, zone, source, "timestamp", "dim")
    sql = query(ctx, p, dialect, metrics=["u.c"], dimensions=[f"u.{unit}s_dur", f"u.{unit}s_durr"])
    ev, row = setup(ctx, dialect, "timestamp")
    info = {"sql": sql, "dialect": dialect}
    ctx.reached()
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    null = Or(row["ts"].null, row["b"].null)
    for c, cv in (("dur", False), ("durr", conv)):
        a, b = (instant(ev, row[x].v, zone, cv, "timestamp") for x in ("ts", "b"))
        got = R.rows[0].v[find_col(R, f"u_{unit}s_{c}")]
        sig, dev = c15.known(ev, unit, a, b)
        rs = c15.readings(ev.cal, unit, a, b) + ([dev] if sig else [])
        ctx.prove(Or(null, *[Eq(got.v, r) for r in rs]), f"a {unit}s duration is not between the {'converted' if cv else 'stored'} instants", info)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for i, d in enumerate(ALL):
        for j, c in enumerate(CONF):
            for k, s in enumerate(["set", "model", "both", "late", "unset"]):
                if c == "plain" or deep or (i + j + k) % 3 == 0:
                    out.append(("shown", dict(dialect=d, tfs=["raw", "time"] + SPAN + PARTS, conf=c, source=s)))
            for k, v in enumerate(["dim", "ref", "cross", "max"]):
                if c in ("plain", "off") or deep or (i + j + k) % 3 == 0:
                    out.append(("shown", dict(dialect=d, tfs=["raw", "hour"] + PARTS, conf=c, via=v, zone="Asia/Kolkata")))
                    out.append(("shown", dict(dialect=d, tfs=["week", "week_index", "month"], conf=c, via=v)))
            for k, t in enumerate(SPAN + ["raw", "time", "week", "week_index", "hour_of_day", "day_of_month", "quarter_of_year"]):
                if deep or c in ("plain", "off") or (i + j + k) % 4 == 0:
                    out.append(("filtered", dict(dialect=d, tf=t, op=["greater_than", "less_or_equal_than", "equal_to"][(i + j + k) % 3], conf=c, source=["set", "model", "late", "unset", "both"][(i + k) % 5], datatype=["timestamp", "datetime"][(j + k) % 2])))
            for dt_ in ("date", "datetime"):
                if deep or c in ("plain", "off"):
                    out.append(("shown", dict(dialect=d, tfs=["raw", "time", "date", "month", "week", "year", "day_of_year"], conf=c, datatype=dt_)))
                    out.append(("shown", dict(dialect=d, tfs=NAMES + FISCAL, conf=c, datatype=dt_, source="model")))
        for j, u in enumerate(UNITS):
            for c in ("plain", "off", "moff_on"):
                out.append(("duration", dict(dialect=d, unit=u, source=["set", "model", "late"][(i + j) % 3], conf=c)))
    return out
