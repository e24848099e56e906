"""Evaluates generated SQL over the real (civil) calendar: date functions with the meaning each warehouse documents."""
import datetime as dt

import z3

from . import sx
from .cal import S, civil, conc, day_of, div, floor_to, month_days
from .sqlp import strip
from .sqls import Eval, Row, SqlError, Table, Unsupported, V
from .sx import And, Eq, Ite, Not, Or

EPOCH = dt.date(1970, 1, 1).toordinal()
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DY = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
LIN = {"second": 1, "minute": 60, "hour": 3600, "day": 86400, "week": 604800}
ABBR = {"seconds": "second", "minutes": "minute", "hours": "hour", "days": "day", "weeks": "week", "months": "month", "quarters": "quarter",
        "years": "year", "dayofyear": "doy", "y": "doy", "dy": "doy", "hh": "hour", "mi": "minute", "ss": "second", "dd": "day", "mm": "month",
        "qq": "quarter", "yy": "year", "yyyy": "year", "isowk": "isoweek", "iso_week": "isoweek"}
ELAPSED = {"TRINO", "DRUID", "DATABRICKS"}  # differences count whole elapsed units; the other warehouses count boundaries crossed


def tdiv(x, k):
    """quotient towards zero"""
    if isinstance(x, int):
        return abs(x) // k * (1 if x >= 0 else -1)
    return Ite(x >= 0, div(x, k), -div(-x, k))


class Civil:
    def __init__(self, ctx, dialect):
        self.ctx, self.dialect = ctx, dialect
        self.memo = {}

    # -- instants: seconds since 1970; parts are (day number, second of the day)
    def make(self, n, sec):
        v = conc((n - EPOCH) * 86400 + sec)
        if not isinstance(v, int):
            self.memo[v.get_id()] = (v, n, sec)
        return v

    def parts(self, v):
        v = conc(v)
        if isinstance(v, int):
            return v // 86400 + EPOCH, v % 86400
        if v.get_id() not in self.memo:
            for w, n, s in list(self.memo.values()):
                d = z3.simplify(v - w)
                if z3.is_int_value(d) and d.as_long() % 86400 == 0:
                    k = d.as_long() // 86400
                    self.memo[v.get_id()] = (v, conc(n + k), s)
                    break
            else:
                f = floor_to(self.ctx, v, 86400)
                n = z3.FreshInt("civ.n")
                self.ctx.assume(n * 86400 == f)
                self.memo[v.get_id()] = (v, n + EPOCH, v - f)
        return self.memo[v.get_id()][1:]

    def unit(self, u):
        u = u.lower()
        return ABBR.get(u, u)

    def week0(self, u):
        """residue (of the day number modulo 7) of the first day of the week"""
        if u == "isoweek" or u == "week(monday)":
            return 1
        if u == "week(sunday)" or self.dialect == "BIGQUERY":
            return 0
        return 1

    def thursday_year(self, n):
        th = floor_to(self.ctx, n, 7, 1) + 3
        return floor_to(self.ctx, civil(self.ctx, th)[0], 12), th

    def trunc(self, unit, v):
        u = self.unit(unit)
        n, s = self.parts(v)
        if u in ("second", "minute", "hour"):
            return self.make(n, floor_to(self.ctx, s, LIN[u])) if u != "second" else v
        return self.make(self.trunc_day(u, n), 0)

    def trunc_day(self, u, n):
        if u == "day":
            return n
        if u in ("week", "isoweek") or u.startswith("week("):
            return floor_to(self.ctx, n, 7, self.week0(u))
        mi = civil(self.ctx, n)[0]
        p = {"month": 1, "quarter": 3, "year": 12}.get(u)
        if not p:
            raise SqlError(f"date part {u}")
        return day_of(self.ctx, floor_to(self.ctx, mi, p), 1)

    def add(self, unit, k, v):
        u = self.unit(unit)
        n, s = self.parts(v)
        if u == "day":
            return self.make(n + k, s)
        if u == "week":
            return self.make(n + 7 * k, s)
        if u in LIN:
            return conc(v + k * LIN[u])
        p = {"month": 1, "quarter": 3, "year": 12}.get(u)
        if not p:
            raise SqlError(f"date part {u}")
        mi, d = civil(self.ctx, n)
        mi = conc(mi + p * k)
        ln = month_days(self.ctx, mi)
        return self.make(day_of(self.ctx, mi, conc(Ite(d <= ln, d, ln))), s)

    def index(self, u, v, week0=None):
        """number of the unit-sized period an instant lies in"""
        n, s = self.parts(v)
        if u in ("second", "minute", "hour"):
            k = LIN[u]
            return conc(n * (86400 // k) + div(s, k))
        if u == "day":
            return n
        if u in ("week", "isoweek") or u.startswith("week("):
            w0 = self.week0(u) if week0 is None else week0
            return conc(div(floor_to(self.ctx, n, 7, w0) - w0, 7))
        if u == "isoyear":
            return conc(div(self.thursday_year(n)[0], 12))
        mi = civil(self.ctx, n)[0]
        p = {"month": 1, "quarter": 3, "year": 12}.get(u)
        if not p:
            raise SqlError(f"date part {u}")
        return conc(div(floor_to(self.ctx, mi, p), p))

    def crossed(self, u, a, b, week0=None):
        return conc(self.index(u, b, week0) - self.index(u, a, week0))

    def elapsed(self, u, a, b):
        if u in LIN:
            return conc(tdiv(conc(b - a), LIN[u]))
        (na, sa), (nb, sb) = self.parts(a), self.parts(b)
        (ma, da), (mb, db) = civil(self.ctx, na), civil(self.ctx, nb)
        m = mb - ma
        later = Or(nb > na, And(Eq(nb, na), sb >= sa))
        before = Or(db < da, And(Eq(db, da), sb < sa))
        after = Or(db > da, And(Eq(db, da), sb > sa))
        m = Ite(later, Ite(And(before, m > 0), m - 1, m), Ite(And(after, m < 0), m + 1, m))
        return conc(tdiv(conc(m), {"month": 1, "quarter": 3, "year": 12}[u]))

    def diff(self, unit, a, b, kind=None):
        u = self.unit(unit)
        if u == "sub":
            return conc(self.parts(b)[0] - self.parts(a)[0])
        kind = kind or ("elapsed" if self.dialect in ELAPSED else "crossed")
        if kind == "elapsed":
            return self.elapsed(u, a, b)
        return self.crossed(u, a, b, 0 if self.dialect in ("SQL_SERVER", "AZURE_SYNAPSE") and u == "week" else None)

    def part(self, unit, v):
        u = self.unit(unit)
        n, s = self.parts(v)
        if u == "hour":
            return conc(div(s, 3600))
        if u == "minute":
            return conc(div(s, 60) % 60)
        if u == "second":
            return conc(s % 60)
        if u in ("week", "isoweek", "weekofyear"):
            if u == "week" and self.dialect == "BIGQUERY":
                y = S(self.ctx, floor_to(self.ctx, civil(self.ctx, n)[0], 12))
                # Sunday weeks; days before the year's first Sunday are in week 0
                return conc(div(floor_to(self.ctx, n, 7, 0) - floor_to(self.ctx, y - 1, 7, 0), 7))
            if u == "week" and self.dialect in ("SQL_SERVER", "AZURE_SYNAPSE"):
                y = S(self.ctx, floor_to(self.ctx, civil(self.ctx, n)[0], 12))
                return conc(div(floor_to(self.ctx, n, 7, 0) - floor_to(self.ctx, y, 7, 0), 7) + 1)
            return self.iso_week(n)
        if u == "dow":
            if self.dialect == "DRUID":
                return conc((n - 1) % 7 + 1)
            return conc(n % 7)
        mi, d = civil(self.ctx, n)
        if u == "day":
            return d
        if u == "month":
            return conc(mi - floor_to(self.ctx, mi, 12) + 1)
        if u == "quarter":
            return conc(div(mi - floor_to(self.ctx, mi, 12), 3) + 1)
        if u == "year":
            return conc(div(floor_to(self.ctx, mi, 12), 12))
        if u == "doy":
            return conc(n - S(self.ctx, floor_to(self.ctx, mi, 12)) + 1)
        raise SqlError(f"date part {u}")

    def iso_week(self, n):
        y, th = self.thursday_year(n)
        return conc(div(th - S(self.ctx, y), 7) + 1)

    def date(self, v):
        return self.make(self.parts(v)[0], 0)

    def age(self, b, a):
        """PostgreSQL's age(b, a): years, months, days, hours, minutes, seconds"""
        (na, sa), (nb, sb) = self.parts(a), self.parts(b)
        (ma, da), (mb, db) = civil(self.ctx, na), civil(self.ctx, nb)
        neg = Not(Or(nb > na, And(Eq(nb, na), sb >= sa)))
        sg = lambda x: Ite(neg, -x, x)
        mon, day, sec = sg(mb - ma), sg(db - da), sg(sb - sa)
        day, sec = Ite(sec < 0, day - 1, day), Ite(sec < 0, sec + 86400, sec)
        # days are borrowed from the month of the earlier instant
        early = conc(Ite(neg, mb, ma))
        ln = month_days(self.ctx, early) if not (conc(neg) is True or conc(neg) is False) else month_days(self.ctx, mb if conc(neg) is True else ma)
        for _ in range(2):
            b_ = day < 0
            mon, day = Ite(b_, mon - 1, mon), Ite(b_, day + ln, day)
        mon, day, sec = conc(mon), conc(day), conc(sec)
        y = div(floor_to(self.ctx, mon, 12), 12)
        return {
            "year": conc(sg(y)), "month": conc(sg(mon - 12 * y)), "day": conc(sg(day)), "hour": conc(sg(div(sec, 3600))),
            "minute": conc(sg(div(sec, 60) % 60)), "second": conc(sg(sec % 60)),
        }


def choose(i, names, ev):
    """code of names[i]"""
    e = ev.code(names[-1])
    for k in range(len(names) - 2, -1, -1):
        e = Ite(Eq(i, k), ev.code(names[k]), e)
    return e


class CivEval(Eval):
    def __init__(self, db, dialect, ctx, **k):
        super().__init__(db, dialect, cal=Civil(ctx, dialect), ctx=ctx, **k)

    # names
    def name_of(self, fmt, v):
        n = self.cal.parts(v.v)[0]
        month = lambda: conc(civil(self.ctx, n)[0] - floor_to(self.ctx, civil(self.ctx, n)[0], 12))
        wd = lambda: conc((n - 1) % 7)
        table = {"Mon": (month, MON), "Month": (month, MONTHS), "Dy": (wd, DY), "Day": (wd, DAYS), "DAY": (wd, [d.upper() for d in DAYS])}
        if fmt not in table:
            raise SqlError(f"date format {fmt!r}")
        f, names = table[fmt]
        return V("code", v.null, choose(f(), names, self))

    def _fmt(self, n, env, ctes, ix, table):
        a = n.args[ix[0]]
        f = strip(n.args[ix[1]])
        if f.k != "str" or f.v not in table:
            raise SqlError(f"date format {getattr(f, 'v', '?')!r}")
        return self.name_of(table[f.v], self.tsv(self.ev(a, env, ctes)))

    def fx_to_char(self, n, env, ctes):
        return self._fmt(n, env, ctes, (0, 1), {"Mon": "Mon", "Dy": "Dy"})

    def fx_date_format(self, n, env, ctes):
        return self._fmt(n, env, ctes, (0, 1), {"MMM": "Mon", "MMMM": "Month", "E": "Dy", "EEE": "Dy", "EEEE": "Day"})

    def fx_format_datetime(self, n, env, ctes):
        if self.dialect == "BIGQUERY":
            return self._fmt(n, env, ctes, (1, 0), {"%B": "Month", "%b": "Mon", "%a": "Dy", "%A": "Day"})
        return self._fmt(n, env, ctes, (0, 1), {"MMM": "Mon", "MMMM": "Month", "E": "Dy", "EEE": "Dy", "EEEE": "Day"})

    def fx_datename(self, n, env, ctes, cut=False):
        u = self.unit_of(n.args[0], env, ctes)
        v = self.tsv(self.ev(n.args[1], env, ctes))
        return self.name_of({"month": "Month", "weekday": "Day"}[u] if not cut else {"month": "Mon", "weekday": "Dy"}[u], v)

    def fx_left(self, n, env, ctes):
        f = strip(n.args[0])
        if f.k == "func" and f.name.lower() == "datename" and strip(n.args[1]).k == "num" and int(strip(n.args[1]).v) == 3:
            return self.fx_datename(f, env, ctes, cut=True)
        raise Unsupported("left")

    # parts and differences
    def fx_date_part(self, n, env, ctes):
        u = self.unit_of(n.args[0], env, ctes)
        a = strip(n.args[1])
        if a.k == "func" and a.name.lower() == "age":
            b, c = (self.tsv(self.ev(x, env, ctes)) for x in a.args)
            return V("int", Or(b.null, c.null), self.cal.age(b.v, c.v)[self.cal.unit(u)])
        v = self.tsv(self.ev(a, env, ctes))
        return V("int", v.null, self.cal.part(u, v.v))

    fx_datepart = fx_date_part

    def fx_trunc(self, n, env, ctes):
        v = self.num(self.ev(n.args[0], env, ctes))
        if v.t == "int":
            return v
        x = v.v
        return V("int", v.null, Ite(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

    def _diff(self, n, env, ctes, kind):
        u = self.unit_of(n.args[2], env, ctes)
        a = self.tsv(self.ev(n.args[0], env, ctes))
        b = self.tsv(self.ev(n.args[1], env, ctes))
        return V("int", Or(a.null, b.null), self.cal.diff(u, b.v, a.v, kind))

    def fx_timestamp_diff(self, n, env, ctes):
        return self._diff(n, env, ctes, "elapsed")

    def fx_dateadd(self, n, env, ctes):
        return super().fx_dateadd(n, env, ctes)

    # zones: CONVERT_TIMEZONE and AT TIME ZONE, over an uninterpreted zone conversion that moves an instant by at most 14 hours
    def local(self, zone, v):
        f = z3.Function("local_in_" + "".join(c if c.isalnum() else "_" for c in zone), z3.IntSort(), z3.IntSort())
        v = conc(v)
        e = f(sx.lit(v))
        self.ctx.assume(And(e - v >= -14 * 3600, e - v <= 14 * 3600))
        return e

    def fx_convert_timezone(self, n, env, ctes):
        zs = [strip(a) for a in n.args[:-1]]
        if any(z.k != "str" for z in zs) or (len(zs) == 2 and zs[0].v.upper() != "UTC") or len(zs) not in (1, 2):
            raise SqlError("CONVERT_TIMEZONE from a zone other than UTC")
        v = self.tsv(self.ev(n.args[-1], env, ctes))
        return V("ts", v.null, self.local(zs[-1].v, v.v))

    def ev_attz(self, n, env, ctes):
        inner = strip(n.e)
        z = strip(n.z)
        if z.k != "str":
            raise Unsupported("zone expression")
        if inner.k == "attz":
            zi = strip(inner.z)
            v = self.tsv(self.ev(inner.e, env, ctes))
            if zi.k == "str" and zi.v.upper() == "UTC":
                return V("ts", v.null, self.local(z.v, v.v))
        raise SqlError("AT TIME ZONE without a source zone of UTC")

    def fx_datetime(self, n, env, ctes):
        v = self.tsv(self.ev(n.args[0], env, ctes))
        if len(n.args) == 1:
            return v
        z = strip(n.args[1])
        if z.k != "str":
            raise Unsupported("zone expression")
        return V("ts", v.null, self.local(z.v, v.v))

    def ev_cast(self, n, env, ctes):
        fmt = n.a.get("fmt")
        if fmt:
            v = self.tsv(self.ev(n.e, env, ctes))
            if fmt == "HH24":
                return V("int", v.null, self.cal.part("hour", v.v))  # digits; only read back as a number
            return self.name_of(fmt, v)
        return super().ev_cast(n, env, ctes)


def ts_row(ctx, name, cols, cal, lo=dt.date(1990, 1, 1), hi=dt.date(2060, 12, 31), days=(), nullable=True):
    """one present row of instants; `days` are whole-day columns"""
    vals = {}
    for c in cols:
        n = lo.toordinal() if lo == hi else ctx.zint(f"{name}.{c}.day", lo.toordinal(), hi.toordinal())
        s = 0 if c in days else ctx.zint(f"{name}.{c}.second", 0, 86399)
        null = ctx.zbool(f"{name}.{c}.null") if nullable else False
        vals[c] = (n, s, null)
    return vals


class Instants(CivEval):
    """CivEval whose table texts may be dates written by cal.fake_date"""

    def conv_lit(self, a, t):
        if t in ("ts", "date") and a.v not in self.lits:
            from .cal import decode

            r = decode(self.ctx, a.v)
            if r is not None and not isinstance(r[0], int):
                return V("ts", a.null, self.cal.make(*r))
        return super().conv_lit(a, t)


def instants(ctx, dialect, name, cols, extra=(), **k):
    """evaluator over one table with one present row holding symbolic instants, and the row"""
    ev = Instants({}, dialect, ctx)
    raw = ts_row(ctx, name, cols, ev.cal, **k)
    row = {c: V("ts", null, ev.cal.make(n, s)) for c, (n, s, null) in raw.items()}
    tcols = [(c, "ts") for c in cols]
    for c, t in extra:
        tcols.append((c, t))
        row[c] = V(t, False, ctx.zint(f"{name}.{c}"))
    ev.db[f"db.{name}"] = Table(name, tcols, [Row(True, [row[c] for c, _ in tcols])])
    return ev, row
