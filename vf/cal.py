"""Civil calendar over z3 integers (proleptic Gregorian, years 1901..2099) and a symbolic stand-in for pendulum's DateTime.

Days are numbered as date.toordinal() does.  A stand-in holds a wall-clock day number and second of day in a zone whose UTC offsets
come from the time zone database (table of transitions over the bounded range)."""
import datetime as dt
import functools
import zoneinfo

import pendulum
import z3

from . import sx
from .sx import And, Ite, Not, Or, SymInt, mkint, ze

# a month is numbered 12 * year + month - 1; S(month) is the day number of its first day.  Years 1901..2099 repeat every 48 months.
_T = [(dt.date(2000 + i // 12, i % 12 + 1, 1) - dt.date(2000, 1, 1)).days for i in range(48)]
_C = dt.date(2000, 1, 1).toordinal() - 1461 * 500
S_UF = z3.Function("first_day_of_month", z3.IntSort(), z3.IntSort())


def div(a, b):
    return a // b if isinstance(a, int) else a / b


def conc(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else e


def floor_to(ctx, e, k, r=0):
    """largest number congruent to r modulo k that is <= e"""
    e = conc(e)
    if isinstance(e, int):
        return e - (e - r) % k
    if k == 1:
        return e
    memo = ctx.__dict__.setdefault("_floor", {})
    key = (e.get_id(), k, r % k)
    if key not in memo:
        q = z3.FreshInt("cal.q")
        f = k * q + r % k
        ctx.assume(And(f <= e, e < f + k))
        for (i, k2, r2), (e2, f2) in list(memo.items()):
            if (k2, r2) == (k, r % k) and not ctx.concrete:
                # periods apart by a fixed multiple: the difference decides the new one
                d = z3.simplify(e - e2)
                if not ctx._check(z3.Not(d % k == 0)):
                    ctx.assume(f == f2 + d)
                    break
        memo[key] = (e, f)
    return memo[key][1]


def S(ctx, mi):
    """first day of a month: uninterpreted in the first place, its definition is supplied when that does not decide (ctx.defs)"""
    mi = conc(mi)
    if isinstance(mi, int):
        return _C + 1461 * (mi // 48) + _T[mi % 48]
    memo = ctx.__dict__.setdefault("_S", {})
    if mi.get_id() not in memo:
        for m, app in list(memo.values()):
            if not ctx.concrete and not ctx._check(m != mi):
                memo[mi.get_id()] = (mi, app)
                return app
        t = z3.IntVal(_T[47])
        b = z3.FreshInt("cal.b")
        a = z3.FreshInt("cal.a")
        for i in range(46, -1, -1):
            t = z3.If(b == i, z3.IntVal(_T[i]), t)
        app = S_UF(mi)
        memo[mi.get_id()] = (mi, app)
        ctx.defs.append(z3.And(mi == 48 * a + b, b >= 0, b < 48, app == _C + 1461 * a + t))
    return memo[mi.get_id()][1]


def month_days(ctx, mi):
    ln = S(ctx, mi + 1) - S(ctx, mi)
    if not isinstance(ln, int):
        ctx.assume(And(ln >= 28, ln <= 31))  # a fact of every month; saves unfolding S
    return ln


def weekday(n):
    return (n - 1) % 7


@functools.lru_cache(None)
def transitions(zone, lo=2018, hi=2032):
    """[(utc second, offset before, offset after)] and the first offset; seconds count from ordinal day 0"""
    z = zoneinfo.ZoneInfo(zone)
    base = dt.datetime(lo, 1, 1, tzinfo=dt.timezone.utc)
    off = lambda h: int((base + dt.timedelta(hours=h)).astimezone(z).utcoffset().total_seconds())
    n = (dt.datetime(hi, 1, 1, tzinfo=dt.timezone.utc) - base).days
    out, first = [], off(0)
    prev = first
    for day in range(n):
        cur = off(24 * (day + 1))
        if cur != prev:
            for h in range(24 * day, 24 * day + 25):
                if off(h) != prev:
                    out.append((base.toordinal() * 86400 + h * 3600, prev, off(h)))
                    break
            prev = cur
    return first, out


class Zone:
    def __init__(self, name):
        self.name = name
        self.first, self.trans = transitions(name)

    def at_utc(self, sec):
        e = self.first
        for t, a, b in self.trans:
            e = Ite(sec >= t, b, e)
        return e

    def at_wall(self, sec):
        e = self.first
        for t, a, b in self.trans:
            e = Ite(sec >= t + a, b, e)
        return e


def civil(ctx, n):
    """(month number, day of the month) of a day number, as fresh integers with their defining constraint"""
    n = conc(n)
    if isinstance(n, int):
        d = dt.date.fromordinal(n)
        return 12 * d.year + d.month - 1, d.day
    memo = ctx.__dict__.setdefault("_civil", {})
    if n.get_id() not in memo:
        for m, md in list(memo.values()):
            if not ctx.concrete and not ctx._check(m != n):  # the same day, written differently
                memo[n.get_id()] = (n, md)
                return md
        k = len(memo)
        mi, d = ctx.zint(f"civil{k}.month", 12 * 1930, 12 * 2090), ctx.zint(f"civil{k}.day", 1, 31)
        ctx.assume(And(d <= month_days(ctx, mi), S(ctx, mi) + d - 1 == n))
        memo[n.get_id()] = (n, (mi, d))
    return memo[n.get_id()][1]


def day_of(ctx, mi, d):
    """day number of day d (1..length) of a month, remembering its civil form"""
    n = conc(S(ctx, mi) + d - 1)
    if not isinstance(n, int):
        ctx.__dict__.setdefault("_civil", {}).setdefault(n.get_id(), (n, (mi, d)))
    return n


FAKE0 = dt.date(2900, 1, 1).toordinal()


def fake_date(ctx, n):
    """a date-shaped text standing for day number n"""
    lst = ctx.__dict__.setdefault("_fake", [])
    for i, e in enumerate(lst):
        if e is n or (not isinstance(e, int) and not isinstance(n, int) and e.eq(n)):
            return dt.date.fromordinal(FAKE0 + 1000 * i).isoformat()
    lst.append(n)
    return dt.date.fromordinal(FAKE0 + 1000 * (len(lst) - 1)).isoformat()


def decode(ctx, text):
    """(day number, second of day) of a rendered date text"""
    s = str.__str__(text).replace("T", " ").strip()
    try:
        d = dt.datetime.fromisoformat(s)
    except ValueError:
        return None
    if d.tzinfo is not None:
        return None
    n, sec = d.toordinal(), d.hour * 3600 + d.minute * 60 + d.second
    lst = ctx.__dict__.get("_fake", [])
    if n >= FAKE0 - 400:
        k = (n - FAKE0 + 400) // 1000
        if k < len(lst):
            base = ctx.__dict__.get("_fakesec", {}).get((k, sec))
            return lst[k] + (n - FAKE0 - 1000 * k), base if base is not None else sec
    return n, sec


def fake_text(ctx, n, sec, sep="T"):
    day = fake_date(ctx, n)
    if not isinstance(sec, int):
        sec = z3.simplify(sec)
        if z3.is_int_value(sec):
            sec = sec.as_long()
        else:
            tab = ctx.__dict__.setdefault("_fakesec", {})
            k = (dt.date.fromisoformat(day).toordinal() - FAKE0) // 1000
            code = 7 + 60 * len(tab)
            tab[(k, code)] = sec
            sec = code
    return f"{day}{sep}{sec // 3600:02d}:{sec % 3600 // 60:02d}:{sec % 60:02d}"


class Span:
    """difference of two stand-ins"""

    def __init__(self, secs):
        self.secs = secs

    def _n(self, unit):
        s = self.secs
        return mkint(z3.simplify(Ite(s >= 0, div(s, unit), -div(-s, unit)))) if not isinstance(s, int) else int(s / unit)

    @property
    def days(self):
        return self._n(86400)

    def in_days(self):
        return self._n(86400)

    def in_hours(self):
        return self._n(3600)

    def total_seconds(self):
        return mkint(self.secs)

    def in_seconds(self):
        return mkint(self.secs)

    in_weeks = property(lambda self: lambda: self._n(7 * 86400))


class SDate:
    def __init__(self, n):
        self.n = n

    def _md(self):
        return civil(sx.CUR, self.n)

    year = property(lambda s: mkint(div(s._md()[0], 12)))
    month = property(lambda s: mkint(s._md()[0] % 12 + 1))
    day = property(lambda s: mkint(s._md()[1]))
    quarter = property(lambda s: mkint(div(s._md()[0] % 12, 3) + 1))
    day_of_week = property(lambda s: mkint(weekday(s.n)))
    days_in_month = property(lambda s: mkint(month_days(sx.CUR, s._md()[0])))
    day_of_year = property(lambda s: mkint(s.n - s._start("year") + 1))

    def weekday(self):
        return mkint(weekday(self.n))

    def isoweekday(self):
        return mkint(weekday(self.n) + 1)

    def toordinal(self):
        return mkint(self.n)

    def __sub__(self, o):
        if isinstance(o, SDate):
            return Span((self.n - o.n) * 86400)
        return NotImplemented

    def diff(self, o, abs=True):
        s = (o.n - self.n) * 86400
        return Span(Ite(s < 0, -s, s) if abs else s)

    def _new(self, n):
        return SDate(n)

    def _shift(self, years=0, months=0, weeks=0, days=0, sign=1):
        years, months, weeks, days = (ze(x) * sign for x in (years, months, weeks, days))
        n = self.n
        if not (isinstance(years, int) and isinstance(months, int) and years == 0 and months == 0):
            mi, d = self._md()
            mi = mi + 12 * years + months
            ln = month_days(sx.CUR, mi)
            n = day_of(sx.CUR, mi, Ite(d > ln, ln, d))
        return n + 7 * weeks + days

    def add(self, **k):
        return self._new(self._shift(**k))

    def subtract(self, **k):
        return self._new(self._shift(sign=-1, **k))

    def _start(self, unit):
        if unit in ("day",):
            return self.n
        if unit == "week":
            return floor_to(sx.CUR, self.n, 7, int(pendulum._WEEK_STARTS_AT) + 1)
        mi = self._md()[0]
        k = {"month": 1, "quarter": 3, "year": 12}.get(unit)
        if k:
            return day_of(sx.CUR, floor_to(sx.CUR, mi, k), 1)
        raise sx.EngineError(f"calendar unit {unit}")

    def _end(self, unit):
        if unit == "day":
            return self.n
        if unit == "week":
            return floor_to(sx.CUR, self.n, 7, int(pendulum._WEEK_ENDS_AT) + 2) + 6
        mi = self._md()[0]
        k = {"month": 1, "quarter": 3, "year": 12}.get(unit)
        if k:
            last = floor_to(sx.CUR, mi, k) + k - 1
            return day_of(sx.CUR, last, month_days(sx.CUR, last))
        raise sx.EngineError(f"calendar unit {unit}")

    def start_of(self, unit):
        if unit == "quarter":
            raise ValueError(f'Invalid unit "{unit}" for start_of()')
        return self._new(self._start(unit))

    def end_of(self, unit):
        if unit == "quarter":
            raise ValueError(f'Invalid unit "{unit}" for end_of()')
        return self._new(self._end(unit))

    def _of(self, unit, n):
        if unit not in ("month", "quarter", "year"):
            raise ValueError(f'Invalid unit "{unit}" for first_of()')
        return self._new(n(unit))

    def first_of(self, unit):
        return self._of(unit, self._start)

    def last_of(self, unit):
        return self._of(unit, self._end)

    def previous(self, wd):
        wd = int(wd)
        return self._new(self.n - Ite(weekday(self.n) == wd, 7, (weekday(self.n) - wd) % 7))

    def next(self, wd):
        wd = int(wd)
        return self._new(self.n + Ite(weekday(self.n) == wd, 7, (wd - weekday(self.n)) % 7))

    def on(self, y, m, d):
        return self._new(S(sx.CUR, 12 * ze(y) + ze(m) - 1) + ze(d) - 1)

    def _text(self, fmt):
        if fmt in ("%Y-%m-%d", "YYYY-MM-DD"):
            return fake_date(sx.CUR, self.n)
        raise sx.EngineError(f"date format {fmt}")

    def strftime(self, fmt):
        return self._text(fmt)

    def format(self, fmt):
        return self._text(fmt)

    def to_date_string(self):
        return self._text("%Y-%m-%d")

    def isoformat(self):
        return self._text("%Y-%m-%d")

    __str__ = isoformat

    def __deepcopy__(self, memo):
        return self

    def _key(self):
        return self.n

    def _cmp(self, o, f):
        return sx.mkbool(f(self._key(), o._key())) if isinstance(o, SDate) else NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: lz(a < b))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: lz(a <= b))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lz(a > b))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: lz(a >= b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: lz(a == b)) if isinstance(o, SDate) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None


def lz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class SDT(SDate):
    """wall-clock date and time in a zone"""

    def __init__(self, clock, zone, n, sec, off=None):
        self.clock, self.zone, self.n, self.sec, self._off = clock, zone, n, sec, off

    def _wall(self):
        return self.n * 86400 + self.sec

    _key = lambda self: self._wall() - self.offset_

    @property
    def offset_(self):
        if self._off is None:
            self._off = self.zone.at_wall(self._wall())
        return self._off

    def _new(self, n, sec=None):
        return SDT(self.clock, self.zone, n, self.sec if sec is None else sec)

    def start_of(self, unit):
        return SDate.start_of(self, unit)._at(0)

    def end_of(self, unit):
        return SDate.end_of(self, unit)._at(86399)

    def first_of(self, unit):
        return SDate.first_of(self, unit)._at(0)

    def last_of(self, unit):
        return SDate.last_of(self, unit)._at(0)

    def previous(self, wd):
        return SDate.previous(self, wd)._at(0)

    def next(self, wd):
        return SDate.next(self, wd)._at(0)

    def _at(self, sec):
        return SDT(self.clock, self.zone, self.n, sec)

    def at(self, hour, minute=0, second=0, microsecond=0):
        return self._at(hour * 3600 + minute * 60 + second)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None):
        n, sec = self.n, self.sec
        if year is not None or month is not None or day is not None:
            mi, d = self._md()
            y = div(mi, 12) if year is None else ze(year)
            m = mi % 12 + 1 if month is None else ze(month)
            n = S(sx.CUR, 12 * y + m - 1) + (d if day is None else ze(day)) - 1
        h = div(sec, 3600) if hour is None else hour
        mi = div(sec, 60) % 60 if minute is None else minute
        s = sec % 60 if second is None else second
        return SDT(self.clock, self.zone, n, h * 3600 + mi * 60 + s)

    set = replace
    hour = property(lambda s: mkint(lit(div(s.sec, 3600))))
    minute = property(lambda s: mkint(lit(div(s.sec, 60) % 60)))
    second = property(lambda s: mkint(lit(s.sec % 60)))
    microsecond = 0

    def add(self, hours=0, minutes=0, seconds=0, microseconds=0, **k):
        if hours or minutes or seconds:
            raise sx.EngineError("sub-day arithmetic on a symbolic date")
        return SDate.add(self, **k)

    def subtract(self, hours=0, minutes=0, seconds=0, microseconds=0, **k):
        if hours or minutes or seconds:
            raise sx.EngineError("sub-day arithmetic on a symbolic date")
        return SDate.subtract(self, **k)

    def date(self):
        return SDate(self.n)

    def in_timezone(self, tz):
        if self._off is None:
            raise sx.EngineError("zone conversion of a derived date")
        return self.clock.now(tz)

    in_tz = astimezone = in_timezone

    def naive(self):
        return SDT(self.clock, UTC0, self.n, self.sec, 0)

    def __sub__(self, o):
        if isinstance(o, SDT):
            return Span((self._wall() - self.offset_) - (o._wall() - o.offset_))
        return NotImplemented

    def diff(self, o=None, abs=True):
        s = (o._wall() - o.offset_) - (self._wall() - self.offset_)
        return Span(Ite(s < 0, -s, s) if abs else s)

    def _text(self, fmt):
        if fmt in ("%Y-%m-%dT%H:%M:%S", "YYYY-MM-DDTHH:mm:ss", "YYYY-MM-DD[T]HH:mm:ss"):
            return fake_text(sx.CUR, self.n, self.sec)
        if fmt in ("%Y-%m-%d %H:%M:%S", "YYYY-MM-DD HH:mm:ss"):
            return fake_text(sx.CUR, self.n, self.sec, " ")
        return SDate._text(self, fmt)

    def to_datetime_string(self):
        return self._text("%Y-%m-%d %H:%M:%S")

    def isoformat(self, *a, **k):
        raise sx.EngineError("isoformat of a symbolic date")

    __str__ = object.__str__


def lit(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class _U:
    name = "UTC"

    def at_wall(self, s):
        return 0

    at_utc = at_wall


UTC0 = _U()


class Clock:
    """the current instant: symbolic for the engine, a real one (real pendulum) on replay"""

    def __init__(self, ctx, lo=dt.date(2019, 1, 1), hi=dt.date(2030, 12, 31)):
        self.ctx = ctx
        self.day = ctx.zint("now.day", lo.toordinal(), hi.toordinal())
        self.sec = ctx.zint("now.sec", 0, 86399)
        self.zones, self.cache = {}, {}

    def zone(self, tz):
        name = "UTC" if tz is None else tz if isinstance(tz, str) else getattr(tz, "name", None) or getattr(tz, "key", None) or "UTC"
        if name in ("local", ""):
            name = "UTC"
        if name not in self.zones:
            self.zones[name] = UTC0 if name in ("UTC", "Etc/UTC") else Zone(name)
        return name, self.zones[name]

    def wall(self, tz):
        """(day number, second of day, offset) on the wall in the zone"""
        name, z = self.zone(tz)
        if name not in self.cache:
            utc = self.day * 86400 + self.sec
            off = z.at_utc(utc)
            if isinstance(off, int) and off == 0:
                r = (self.day, self.sec, 0)
            else:
                s = self.sec + off
                r = (self.day + div(s, 86400), s % 86400, off)
            self.cache[name] = tuple(z3.simplify(x) if not isinstance(x, int) else x for x in r)
        return self.cache[name]

    def now(self, tz=None):
        if self.ctx.concrete:
            t = (z3.simplify(self.day).as_long() - dt.date(1970, 1, 1).toordinal()) * 86400 + z3.simplify(self.sec).as_long()
            return pendulum.from_timestamp(t, tz="UTC").in_timezone("UTC" if tz is None else tz)
        name, z = self.zone(tz)
        n, s, off = self.wall(tz)
        return SDT(self, z, n, s, off)

    def today(self, tz=None):
        return self.now(tz).start_of("day")

    def __enter__(self):
        self.saved = (pendulum.now, pendulum.today)
        pendulum.now, pendulum.today = self.now, self.today
        return self

    def __exit__(self, *a):
        pendulum.now, pendulum.today = self.saved
