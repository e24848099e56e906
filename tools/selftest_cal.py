"""compares the symbolic date stand-in of vf/cal.py, on concrete values, with the installed pendulum"""
import datetime as dt
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vf.boot  # noqa
import pendulum
from vf import cal, sx

rnd = random.Random(1)
ops = [("add", u, k) for u in ("days", "weeks", "months", "years") for k in (0, 1, 5, 17)] + [("subtract", u, k) for u in ("days", "weeks", "months", "years") for k in (1, 3, 14)]
ops += [(f, u) for f in ("start_of", "end_of") for u in ("day", "week", "month", "year")] + [(f, u) for f in ("first_of", "last_of") for u in ("month", "quarter", "year")]
n = 0
for zone in ("UTC", "America/New_York", "Asia/Kolkata", "Australia/Sydney"):
    for _ in range(60):
        ctx = sx.ConcreteCtx({"now.day": rnd.randint(dt.date(2019, 1, 1).toordinal(), dt.date(2030, 12, 31).toordinal()), "now.sec": rnd.randint(0, 86399)})
        sx.CUR = ctx
        ws = rnd.randint(0, 6)
        pendulum.week_starts_at(ws)
        pendulum.week_ends_at((ws + 6) % 7)
        c = cal.Clock(ctx)
        real = c.now(zone)
        ctx.concrete = False
        mine = c.now(zone)
        first = mine
        for _ in range(4):
            op = rnd.choice(ops)
            if op[0] in ("add", "subtract"):
                real, mine = getattr(real, op[0])(**{op[1]: op[2]}), getattr(mine, op[0])(**{op[1]: op[2]})
            else:
                real, mine = getattr(real, op[0])(op[1]), getattr(mine, op[0])(op[1])
            got = (cal.conc(mine.n), cal.conc(mine.sec))
            want = (real.toordinal(), real.hour * 3600 + real.minute * 60 + real.second)
            # a wall time skipped by a daylight saving change is moved by pendulum; the stand-in keeps the day
            assert got[0] == want[0] and (got[1] == want[1] or abs(got[1] - want[1]) == 3600 and zone not in ("UTC", "Asia/Kolkata")), (zone, op, got, want)
            d = c.now(zone) - mine
            ctx.concrete = True
            rd = (c.now(zone) - real).days
            ctx.concrete = False
            if got[1] == want[1] and 2018 < real.year < 2032 and not (real.fold and zone != "UTC"):
                assert int(d.days) == rd, (zone, d.days, rd, real)
            n += 1
pendulum.week_starts_at(0)
pendulum.week_ends_at(6)
print("calendar stand-in agrees with pendulum on", n, "steps")
