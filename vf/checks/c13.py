"""C13: relative date filters.  Filter, the query filters, mandatory filters, measure filters and dashboards of the real code run with
`pendulum.now` answering a symbolic instant (any second of twelve years, wall clocks of real zones through their UTC-offset tables) and
with symbolic counts; the window they render must be the calendar window the phrase denotes."""
import datetime as dt

import pendulum
import z3

from .. import sx
from ..cal import S, Clock, civil, decode, fake_date, floor_to
from ..proj import *
from ..sqlp import Node, parse
from ..sx import And, Eq, Iff, Ite, Not, Or, ze
from metrics_layer.core.model import filter as filter_mod
from metrics_layer.core.model.filter import Filter

EXPLANATION = __doc__
BOUNDS = "every second from 2019-01-01 to 2030-12-31 UTC; counts up to 400 days / 200 weeks / 60 months / 24 quarters / 12 years (all symbolic); zones unset, UTC, America/New_York, Asia/Kolkata, Australia/Sydney; all seven first days of the week and unset; singular and plural words; arbitrary dates in on/not on/before/after/until"
OUTSIDE = "zones that change their offset at midnight; other zones; pendulum's own arithmetic is represented by vf/cal.py (compared with pendulum in setup, and every reported violation is replayed on the real pendulum)"
ASSUMPTIONS = ["pendulum.now(zone) is the only clock the code reads", "vf/cal.py computes what pendulum 3 computes for add/subtract/start_of/end_of/first_of/last_of"]

UNITS = ["day", "week", "month", "quarter", "year"]
MAXN = {"day": 400, "week": 200, "month": 60, "quarter": 24, "year": 12}
ZONES = [None, "UTC", "America/New_York", "Asia/Kolkata", "Australia/Sydney"]
WEEKDAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)


class SInt(metaclass=_IntMeta):
    """int() of the filter module: digits written by a symbolic count are read back as that count"""

    def __new__(cls, x=0, *a):
        v = int(x, *a) if not isinstance(x, sx.SymInt) else x
        m = getattr(sx.CUR, "magic", {})
        if not isinstance(v, sx.SymInt) and v in m:
            return sx.SymInt(m[v])
        return v


class World:
    def __init__(self, ctx, tz, week):
        self.ctx, self.tz, self.week = ctx, tz, week
        self.clock = Clock(ctx)

    def __enter__(self):
        self.clock.__enter__()
        self.had = filter_mod.__dict__.get("int")
        if not self.ctx.concrete:
            filter_mod.int = SInt
        pendulum.week_starts_at(pendulum.MONDAY)
        pendulum.week_ends_at(pendulum.SUNDAY)
        return self

    def __exit__(self, *a):
        self.clock.__exit__()
        filter_mod.__dict__.pop("int", None)
        pendulum.week_starts_at(pendulum.MONDAY)
        pendulum.week_ends_at(pendulum.SUNDAY)

    # ---- the calendar the phrases speak about
    def today(self):
        return self.clock.wall(self.tz)[0]

    def start(self, unit, k):
        """first day of the k-th period before the current one"""
        n = self.today()
        if unit == "day":
            return n - k
        if unit == "week":
            ws = WEEKDAYS.index(self.week or "monday")
            return floor_to(self.ctx, n, 7, ws + 1) - 7 * k
        mi = civil(self.ctx, n)[0]
        p = {"month": 1, "quarter": 3, "year": 12}[unit]
        return S(self.ctx, floor_to(self.ctx, mi, p) - p * k)

    def end(self, unit, k):
        return self.start(unit, k - 1) - 1

    def period_end(self, n, unit, k):
        """last day of the k-th period after the one containing day n"""
        if unit == "day":
            return n + k
        if unit == "week":
            ws = WEEKDAYS.index(self.week or "monday")
            return floor_to(self.ctx, n, 7, ws + 1) + 7 * k + 6
        mi = civil(self.ctx, n)[0]
        p = {"month": 1, "quarter": 3, "year": 12}[unit]
        return S(self.ctx, floor_to(self.ctx, mi, p) + p * (k + 1)) - 1


def number(ctx, name, lo, hi):
    v = ctx.int(name, lo, hi)
    return str(int.__repr__(v)) if isinstance(v, sx.SymInt) else str(v), ze(v)


def word(ctx, name, unit):
    return unit + ("s" if ctx.flag("plural:" + name) else "")


def phrase(ctx, w, form, unit, unit2=None, tag=""):
    """(text, first day, last day, quarter-ended) or for single comparisons (text, [(kind, day)])"""
    if form == "today":
        return "today", w.start("day", 0), w.start("day", 0), False
    if form == "yesterday":
        return "yesterday", w.start("day", 1), w.start("day", 1), False
    u = word(ctx, tag + "u", unit)
    q = unit == "quarter"
    if form in ("this", "last"):
        k = 0 if form == "this" else 1
        return f"{form} {u}", w.start(unit, k), w.end(unit, k), q
    if form == "n":
        t, n = number(ctx, tag + "n", 1, MAXN[unit])
        return f"{t} {u}", w.start(unit, n - 1), w.end(unit, 0), q
    if form == "ago":
        t, n = number(ctx, tag + "n", 0, MAXN[unit])
        return f"{t} {u} ago", w.start(unit, n), w.end(unit, n), q
    elapsed = w.today() - w.start(unit, 0)
    elapsed = Ite(elapsed > 0, elapsed - 1, 0)
    if form in ("to date", "this to date", "last to date", "n to date", "ago to date"):
        if form in ("to date", "this to date"):
            s, text = w.start(unit, 0), ("this " if form != "to date" else "") + u + " to date"
        elif form == "last to date":
            s, text = w.start(unit, 1), f"last {u} to date"
        elif form == "n to date":
            t, n = number(ctx, tag + "n", 1, MAXN[unit])
            s, text = w.start(unit, n - 1), f"{t} {u} to date"
        else:
            t, n = number(ctx, tag + "n", 0, MAXN[unit])
            s, text = w.start(unit, n), f"{t} {u} ago to date"
        return text, s, s + elapsed, False
    if form == "for":
        t, n = number(ctx, tag + "n", 0, MAXN[unit])
        t2, n2 = number(ctx, tag + "n2", 1, min(MAXN[unit2], 60))
        s = w.start(unit, n)
        return f"{t} {u} ago for {t2} {word(ctx, tag + 'u2', unit2)}", s, w.period_end(s, unit2, n2 - 1), unit2 == "quarter"
    raise ValueError(form)


def date_value(ctx, name):
    n = ctx.zint("date." + name, dt.date(2015, 1, 1).toordinal(), dt.date(2035, 12, 31).toordinal())
    if ctx.concrete:
        return dt.date.fromordinal(z3.simplify(n).as_long()).isoformat(), n
    return fake_date(ctx, n), n


LO, HI = ("greater_or_equal_than", "less_or_equal_than")


def bounds(ctx, w, out, text, lo, hi, qend, what="", **extra):
    """out: [(expression, rendered value)] must be the window lo 00:00:00 .. hi 23:59:59"""
    info = {**extra, "value": text, "zone": w.tz, "week_start_day": w.week, "got": [(e, str(v)) for e, v in out]}
    if [e for e, v in out] != [LO, HI]:
        ctx.fail(f"{what}'{text}' is not read as a window: {[e for e, v in out]}", info)
    for side, (e, v), n, sec in (("start", out[0], lo, 0), ("end", out[1], hi, 86399)):
        d = decode(ctx, v)
        if d is None:
            ctx.fail(f"{what}'{text}': {v!r} is not a date", info)
        ctx.prove(lz(d[0] == n), f"{what}'{text}': the window's {side} is on the wrong day", info)
        if side == "end" and qend:
            ctx.prove(lz(Or(d[1] == sec, d[1] == 0)), f"{what}'{text}': the window's {side} is at the wrong time of day", info)
        else:
            ctx.prove(lz(d[1] == sec), f"{what}'{text}': the window's {side} is at the wrong time of day", info)


def lz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def evaluate(ctx, value, tz, week, keys=True):
    d = {"field": "v.d", "value": value}
    if week is not None or keys:
        d["week_start_day"] = week
    if tz is not None or keys:
        d["timezone"] = tz
    return [(f["expression"].value, f["value"]) for f in Filter(d).filter_dict()]


def run(ctx, value, tz, week):
    try:
        return evaluate(ctx, value, tz, week)
    except sx.EngineError:
        raise
    except Exception as e:
        ctx.fail(f"'{value}' raised {type(e).__name__}: {e}", {"value": value})


def window(ctx, form, tz, unit=None, unit2=None, weeks=None):
    week = ctx.pick("week_start", weeks or [None] + WEEKDAYS)
    with World(ctx, tz, week) as w:
        text, lo, hi, q = phrase(ctx, w, form, unit, unit2)
        ctx.reached()
        out = run(ctx, text, tz, week)
        bounds(ctx, w, out, text, lo, hi, q)


def quarter_end(ctx, tz):
    """known finding: windows of quarters end when their last day begins"""
    with World(ctx, tz, None) as w:
        text, lo, hi, q = phrase(ctx, w, ctx.pick("form", ["this", "last", "n", "ago"]), "quarter")
        ctx.reached()
        out = run(ctx, text, tz, None)
        d = decode(ctx, out[1][1])
        ctx.prove(lz(d[1] == 86399), f"'{text}': the window ends when the quarter's last day begins", {"sig": "quarter-window-ends-at-midnight", "value": text})


def until(ctx, first, second, tz, u1=None, u2=None):
    week = ctx.pick("week_start", [None, "sunday", "wednesday"])
    with World(ctx, tz, week) as w:
        def side(form, unit, tag):
            if form == "date":
                t, n = date_value(ctx, tag)
                return t, n, n, None
            return phrase(ctx, w, form, unit, tag=tag)

        t1, lo, _, _ = side(first, u1, "a")
        t2, _, hi, q = side(second, u2, "b")
        ctx.reached()
        out = run(ctx, f"{t1} until {t2}", tz, week)
        if q is None:  # until a plain date: the date's first instant
            info = {"value": f"{t1} until {t2}"}
            d = decode(ctx, out[1][1]) if [e for e, v in out] == [LO, HI] else None
            if d is None:
                ctx.fail(f"'{t1} until {t2}' is not read as a window", info)
            ctx.prove(lz(And(lz(d[0] == hi), lz(d[1] == 0))), f"'{t1} until {t2}': wrong end", info)
            d = decode(ctx, out[0][1])
            ctx.prove(lz(And(lz(d[0] == lo), lz(d[1] == 0))), f"'{t1} until {t2}': wrong start", info)
        else:
            bounds(ctx, w, out, f"{t1} until {t2}", lo, hi, q)


DATEWORD = {"on": "equal_to", "not on": "not_equal_to", "before": LO.replace("greater", "less"), "after": LO}


def on_date(ctx, tz):
    kind = ctx.pick("kind", list(DATEWORD))
    with World(ctx, tz, None) as w:
        t, n = date_value(ctx, "d")
        ctx.reached()
        out = run(ctx, f"{kind} {t}", tz, None)
        info = {"value": f"{kind} {t}", "got": [(e, str(v)) for e, v in out]}
        if len(out) != 1 or out[0][0] != DATEWORD[kind]:
            ctx.fail(f"'{kind} <date>' is read as {[e for e, v in out]}", info)
        d = decode(ctx, out[0][1])
        if d is None:
            ctx.fail(f"'{kind} <date>': {out[0][1]!r} is not a date", info)
        ctx.prove(lz(And(lz(d[0] == n), lz(d[1] == 0))), f"'{kind} <date>' means another day", info)


FIRST = ["this week", "yesterday until today", "2 weeks ago to date", "1 month ago for 2 weeks", "plain"] + ["2021-01-01 until 2021-01-02 until 2021-01-03", "after lunch", "-a, b", "x until 2020-13-45"]


def history(ctx, tz, unit, first):
    """an earlier evaluation (also one that fails) leaves nothing behind"""
    with World(ctx, tz, None) as w:
        wk1 = ctx.pick("week1", [None, "sunday"])
        failed = False
        try:
            evaluate(ctx, first, ctx.pick("tz1", ["Asia/Kolkata"]), wk1)
        except sx.EngineError:
            raise
        except Exception:
            failed = True
        if not failed and (int(pendulum._WEEK_STARTS_AT), int(pendulum._WEEK_ENDS_AT)) != (0, 6):
            ctx.fail(f"evaluating '{first}' leaves pendulum's first day of the week changed", {"week_start_day": wk1})
        week = ctx.pick("week2", [None, "saturday"])
        w.week = week
        text, lo, hi, q = phrase(ctx, w, ctx.pick("form", ["this", "last to date"]), unit)
        ctx.reached()
        d = {"field": "v.d", "value": text}
        if week is not None:
            d["week_start_day"] = week
        if tz is not None:
            d["timezone"] = tz
        out = [(f["expression"].value, f["value"]) for f in Filter(d).filter_dict()]
        bounds(ctx, w, out, text, lo, hi, q, "after another filter, ")


# ---- through queries
def leaf_window(ctx, sql, tree, col):
    """predicate `second of time x is kept` of a rendered condition on one date column"""
    x = z3.Int("x.at")

    def val(e):
        k = e.k
        if k == "str":
            d = decode(ctx, e.v)
            if d is None:
                ctx.fail(f"{e.v!r} is not a date", {"sql": sql})
            return d[0] * 86400 + d[1]
        if k == "paren":
            return val(e.e)
        if k == "cast":
            return val(e.e)
        if k == "col":
            return x
        if k == "func":
            for a in e.args:
                if a.k in ("col", "func", "cast", "str"):
                    return val(a)
        raise SqlSyntax(f"unexpected term {k}")

    return x, val


def request_bounds(ctx, sql, column):
    """[(comparison, rendered value)] of the conditions on `column` anywhere in the statement"""
    import re

    out = []
    for m in re.finditer(r"(>=|<=|<>|!=|=|>|<)\s*(?:CAST\(|TIMESTAMP\(|DATETIME\(|DATE\()*\s*'(\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d)'", sql):
        left = sql[: m.start()]
        if not re.search(rf"{column}[^\s]*\s*$", left.rstrip("'") + " ") and column not in left[-90:]:
            continue
        out.append((m.group(1), m.group(2)))
    return out


SYM = {">=": LO, "<=": HI}


def in_query(ctx, how, dialect, tz, week, unit, tz_from="project"):
    form = ctx.pick("form", ["this", "n to date", "ago", "n"])
    with World(ctx, tz, week) as w:
        text, lo, hi, q = phrase(ctx, w, form, unit)
        # phrases inside definitions go through JSON: plain text carries the marker digits
        fields = [pk("id", type="number"), timedim("d", timeframes=["raw", "date", "week", "month"]), dim("s"), meas("k", "count")]
        f = {"field": "d_raw", "value": text}
        extra = {}
        if how == "always":
            extra["always_filter"] = [f]
        if how == "measure":
            fields.append(meas("mf", "sum", "${TABLE}.x", filters=[f]))
        if how == "count":
            fields.append(meas("mf", "count", filters=[f]))
        mk = model(week_start_day=week) if week else model()
        if tz and tz_from == "model":
            mk["timezone"] = tz
        dash = [{"type": "dashboard", "name": "b", "elements": [{"model": "m", "metric": "u.k", "filters": [{"field": "u.d_raw", "value": text}]}], "filters": [{"field": "u.d_raw", "value": text}]}] if how in ("element", "dashboard") else []
        if how in ("field", "fieldnotz"):
            fields[1]["convert_timezone"] = how == "field"
        p = project([view("u", fields, **extra)], [mk], dash, dialect, timezone=tz if tz_from == "project" else None)
        ctx.reached()
        if how in ("element", "dashboard"):
            d = p.get_dashboard("b")
            src = d.elements()[0] if how == "element" else d
            out = [(x["expression"].value, x["value"]) for x in src.parsed_filters()]
            bounds(ctx, w, out, text, lo, hi, q, f"{how} filter ")
            return
        req = {"metrics": ["u.mf" if how in ("measure", "count") else "u.k"], "dimensions": ["u.s"]}
        if how in ("where", "field", "fieldnotz"):
            req["where"] = [{"field": "u.d_raw", "expression": "matches", "value": text}]
        if how == "group":
            req["where"] = [{"conditions": [{"field": "u.d_raw", "expression": "matches", "value": text}, {"field": "u.s", "expression": "equal_to", "value": "a"}], "logical_operator": "OR"}]
        sql = query(ctx, p, dialect, **req)
        got = request_bounds(ctx, sql, "d")
        if how in ("measure", "count") and (tz or week not in (None, "monday")):
            # known finding: filters in a measure's definition are read as UTC dates with weeks starting on Monday
            if [s for s, v in got[:2]] != [">=", "<="]:
                ctx.fail(f"{how}: expected one window on the date column, found {got}", {"sql": sql})
            out = [(SYM[s], v) for s, v in got[:2]]
            default = World.__new__(World)
            default.ctx, default.tz, default.week, default.clock = ctx, None, None, w.clock
            text2, lo2, hi2, _ = phrase(ctx, default, form, unit)
            a, b = decode(ctx, out[0][1]), decode(ctx, out[1][1])
            asdefault = And(a[0] == lo2, b[0] == hi2)
            right = And(a[0] == lo, b[0] == hi)
            ctx.prove(lz(And(Or(asdefault, right), a[1] == 0, b[1] == 86399)), f"{how} filter '{text}' is neither the configured window nor the default one", {"sql": sql})
            ctx.prove(lz(right), f"{how} filter '{text}' ignores the configured zone and first day of the week", {"sql": sql, "sig": "measure-filter-ignores-zone-and-week-start"})
            return
        if how == "count":
            got = got[:2]
        if [s for s, v in got] != [">=", "<="]:
            ctx.fail(f"{how}: expected one window on the date column, found {got}", {"sql": sql})
        bounds(ctx, w, [(SYM[s], v) for s, v in got], text, lo, hi, q, f"{how} filter ")


def jobs(tier):
    out = []
    thorough = tier != "quick"
    for tz in ZONES:
        for form in ("today", "yesterday"):
            out.append(("window", dict(form=form, tz=tz, weeks=[None])))
        for form in ("this", "last", "n", "ago", "to date", "this to date", "last to date", "n to date", "ago to date"):
            for unit in UNITS:
                if not thorough and tz in ("UTC", "Asia/Kolkata") and form in ("this to date", "last to date", "ago"):
                    continue
                out.append(("window", dict(form=form, tz=tz, unit=unit, weeks=None if unit == "week" else [None] if not thorough else None)))
        for unit in UNITS:
            for unit2 in UNITS:
                if thorough or tz in (None, "America/New_York"):
                    out.append(("window", dict(form="for", tz=tz, unit=unit, unit2=unit2, weeks=None if "week" in (unit, unit2) and tz is None or thorough else [None, "sunday"] if "week" in (unit, unit2) else [None])))
        out.append(("on_date", dict(tz=tz)))
    out.append(("quarter_end", dict(tz=None)))
    for a, ua in (("date", None), ("yesterday", None), ("last", "week"), ("n", "month"), ("ago", "quarter"), ("ago to date", "year")):
        for b, ub in (("date", None), ("today", None), ("this", "week"), ("ago", "day"), ("n to date", "month")):
            for tz in ([None, "America/New_York"] if not thorough else ZONES):
                out.append(("until", dict(first=a, second=b, tz=tz, u1=ua, u2=ub)))
    for unit in ("week", "month") if not thorough else UNITS:
        for tz in (None, "America/New_York"):
            for first in FIRST if unit == "week" or thorough else FIRST[:2]:
                out.append(("history", dict(tz=tz, unit=unit, first=first)))
    for how in ("where", "group", "always", "measure", "count", "element", "dashboard", "field", "fieldnotz"):
        for tz in (None, "America/New_York", "Australia/Sydney") if thorough else (None, "Australia/Sydney"):
            for week in (None, "monday", "sunday", "thursday") if thorough else (None, "sunday"):
                for unit in ("week", "day", "month") if thorough else ("week", "day"):
                    for dialect in ALL if thorough and how in ("where", "measure") else ("SNOWFLAKE", "BIGQUERY") if how == "where" else ("SNOWFLAKE",):
                        if dialect not in ("SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "DUCK_DB") and how == "where" and tz:
                            continue
                        out.append(("in_query", dict(how=how, dialect=dialect, tz=tz, week=week, unit=unit)))
                        if tz and how in ("where", "measure") and dialect == "SNOWFLAKE":
                            out.append(("in_query", dict(how=how, dialect=dialect, tz=tz, week=week, unit=unit, tz_from="model")))
    return out
