"""Strings with symbolic characters, and a loader that runs a module of the real code on them.

A CStr is a str whose characters are 8-bit terms inside a window [lo,hi) of a base array; windows keep operations such as split and
strip free of forks.  The loader compiles the module's current source with three changes that do not affect plain strings: membership
tests compare by ==, and the names re / pd / pendulum / datetime / int / float / len are bound to wrappers that understand CStr."""
import ast
import datetime as _datetime
import importlib.util
import re as _re
import sys
import types

try:
    import re._parser as sre_parse
    from re import _constants as sc
except ImportError:  # pragma: no cover
    import sre_constants as sc
    import sre_parse

import z3

from . import sx
from .sx import And, Eq, Iff, Implies, Ite, Not, Or

WS = " \t\n\r\f\v"


class Day:
    """stands for any moment; what date conditions denote is not decided here"""

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        return Day()

    def __call__(self, *a, **k):
        return Day()

    def strftime(self, *a):
        return MOMENT

    isoformat = to_datetime_string = to_date_string = to_iso8601_string = strftime

    def _same(self, *a):
        return Day()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __floordiv__ = __neg__ = _same

    def __gt__(self, o):
        return False

    __lt__ = __ge__ = __le__ = __gt__

    def __int__(self):
        return 0


MOMENT = "\ue002a moment\ue002"


def ce(ch, code):
    """character term equals code"""
    return ch == code if isinstance(ch, int) else ch == z3.BitVecVal(code, 8)


def crange(ch, a, b):
    if isinstance(ch, int):
        return a <= ch <= b
    return And(z3.UGE(ch, a), z3.ULE(ch, b)) if a != b else ce(ch, a)


def imin(a, b):
    return min(a, b) if isinstance(a, int) and isinstance(b, int) else Ite(sx.lit(a) <= b, a, b)


def imax(a, b):
    return max(a, b) if isinstance(a, int) and isinstance(b, int) else Ite(sx.lit(a) >= b, a, b)


def ilt(a, b):
    return a < b if isinstance(a, int) and isinstance(b, int) else sx.lit(a) < b


def ile(a, b):
    return a <= b if isinstance(a, int) and isinstance(b, int) else sx.lit(a) <= b


def add(a, k):
    return a + k if isinstance(a, int) and isinstance(k, int) else z3.simplify(sx.lit(a) + k)


class CStr(str):
    _n = 0

    def __new__(cls, c, lo=0, hi=None):
        CStr._n += 1
        o = str.__new__(cls, "\ue000%d\ue001" % CStr._n)
        o.c, o.lo, o.hi = list(c), lo, len(c) if hi is None else hi
        if isinstance(o.lo, int) and isinstance(o.hi, int):
            o.hi = max(o.lo, o.hi)
            o.c, o.lo, o.hi = o.c[o.lo:o.hi], 0, o.hi - o.lo
        TOKENS[str.__str__(o)] = o
        return o

    # -- structure
    @property
    def n(self):
        return self.hi - self.lo if isinstance(self.lo, int) and isinstance(self.hi, int) else z3.simplify(sx.lit(self.hi) - self.lo)

    def live(self, i):
        return And(ile(self.lo, i), ilt(i, self.hi))

    def at(self, k):
        """character k from the start of the window (meaningless beyond the window)"""
        if isinstance(self.lo, int):
            return self.c[self.lo + k] if self.lo + k < len(self.c) else 0
        v = 0
        for i in range(len(self.c) - 1, -1, -1):
            if i - k >= 0:
                c = sx.is_conc_bool(z3.simplify(sx.lit(self.lo) == i - k))
                if c is False:
                    continue
                v = self.c[i] if c else z3.If(sx.lit(self.lo) == i - k, _bv(self.c[i]), _bv(v))
        return v

    def eq(self, o):
        if not isinstance(o, CStr):
            o = CStr([ord(x) for x in o]) if all(ord(x) < 256 for x in o) else None
            if o is None:
                return False
        cap = min(len(self.c), len(o.c))
        cs = [Eq(self.n, o.n)]
        for k in range(cap):
            a, b = self.at(k), o.at(k)
            e = a == b if isinstance(a, int) and isinstance(b, int) else _bv(a) == _bv(b)
            cs.append(Or(ile(self.n, k), e))
        return And(*cs)

    def startswith_at(self, i, t):
        """text t occurs at base position i inside the window"""
        if i + len(t) > len(self.c):
            return False
        return And(ile(self.lo, i), ile(i + len(t), self.hi), *[ce(self.c[i + k], ord(x)) for k, x in enumerate(t)])

    # -- python protocol
    def __eq__(self, o):
        return sx.mkbool(self.eq(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return sx.mkbool(Not(self.eq(o))) if isinstance(o, str) else True

    def __hash__(self):
        return hash(self.plain())

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            raise sx.EngineError("format of symbolic text")
        return self

    def __bool__(self):
        return sx.CUR.decide(Not(Eq(self.n, 0)))

    def __len__(self):
        n = self.n
        return n if isinstance(n, int) else sx.CUR.realize_int(n)

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    def plain(self):
        """the concrete text (forks over every remaining possibility)"""
        out = []
        for k in range(len(self)):
            a = self.at(k)
            out.append(chr(a if isinstance(a, int) else sx.CUR.realize_int(z3.BV2Int(a))))
        return "".join(out)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return self.plain()[i]
            a, b = i.start, i.stop
            lo = self.lo if a is None else imin(add(self.lo, a), self.hi) if a >= 0 else imax(self.lo, add(self.hi, a))
            hi = self.hi if b is None else imin(add(self.lo, b), self.hi) if b >= 0 else imax(self.lo, add(self.hi, b))
            return CStr(self.c, lo, imax(lo, hi))
        if not sx.CUR.decide(ilt(i, self.n) if i >= 0 else ile(-i, self.n)):
            raise IndexError("string index out of range")
        if i >= 0:
            return CStr([self.at(i)])
        n = self.n
        if isinstance(n, int):
            return CStr([self.at(n + i)])
        v = 0
        for k in range(len(self.c)):
            v = z3.If(sx.lit(self.hi) + i == k, _bv(self.c[k]), _bv(v))
        return CStr([v])

    def __contains__(self, t):
        return sx.CUR.decide(self.has(t))

    def has(self, t):
        if isinstance(t, CStr):
            t = t.plain()
        if t == "":
            return True
        return Or(*[self.startswith_at(i, t) for i in range(len(self.c))])

    def startswith(self, t, *a):
        if a:
            return self.plain().startswith(t, *a)
        ts = t if isinstance(t, tuple) else (t,)
        return sx.CUR.decide(Or(*[And(ile(len(x), self.n), self[: len(x)].eq(x)) for x in ts]))

    def endswith(self, t, *a):
        if a:
            return self.plain().endswith(t, *a)
        ts = t if isinstance(t, tuple) else (t,)
        return sx.CUR.decide(Or(*[True if x == "" else And(ile(len(x), self.n), self[-len(x):].eq(x)) for x in ts]))

    def removeprefix(self, t):
        return self[len(t):] if self.startswith(t) else self

    def removesuffix(self, t):
        return self[: -len(t)] if t and self.endswith(t) else self

    def lstrip(self, chars=None):
        lo = self.hi
        for i in range(len(self.c) - 1, -1, -1):
            keep = And(self.live(i), Not(Or(*[ce(self.c[i], ord(w)) for w in (chars or WS)])))
            lo = Ite(keep, i, lo)
        return CStr(self.c, lo, self.hi)

    def rstrip(self, chars=None):
        hi = self.lo
        for i in range(len(self.c)):
            keep = And(self.live(i), Not(Or(*[ce(self.c[i], ord(w)) for w in (chars or WS)])))
            hi = Ite(keep, i + 1, hi)
        return CStr(self.c, self.lo, hi)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.plain().split(sep, maxsplit)
        return Parts(self, sep, maxsplit)

    def partition(self, sep):
        if not sx.CUR.decide(self.has(sep)):
            return (self, "", "")
        a = Parts(self, sep, 1)
        return (a[0], sep, a[1])

    def find(self, t, *a):
        if a:
            return self.plain().find(t, *a)
        r = -1
        for i in range(len(self.c) - 1, -1, -1):
            r = Ite(self.startswith_at(i, t), i - sx.lit(self.lo) if not isinstance(self.lo, int) else i - self.lo, r)
        return sx.mkint(r)

    def count(self, t, *a):
        return len(Parts(self, t)) - 1

    def _case(self, up):
        out = []
        for ch in self.c:
            a, b, d = ("a", "z", -32) if up else ("A", "Z", 32)
            if isinstance(ch, int):
                out.append(ch + d if ord(a) <= ch <= ord(b) else ch)
            else:
                out.append(z3.If(crange(ch, ord(a), ord(b)), ch + z3.BitVecVal(d & 255, 8), ch))
        return CStr(out, self.lo, self.hi)

    def lower(self):
        return self._case(False)

    casefold = lower

    def upper(self):
        return self._case(True)

    def _all(self, ok):
        return sx.CUR.decide(And(Not(Eq(self.n, 0)), *[Or(Not(self.live(i)), ok(c)) for i, c in enumerate(self.c)]))

    def isdigit(self):
        return self._all(lambda c: crange(c, 48, 57))

    isnumeric = isdecimal = isdigit

    def isspace(self):
        return self._all(lambda c: Or(*[ce(c, ord(w)) for w in WS]))

    def replace(self, a, b, *n):
        if len(a) == 1 and b == "" and not n:
            keep = []
            for k in range(len(self)):
                ch = self.at(k)
                if not (sx.CUR.decide(ce(ch, ord(a))) if not isinstance(ch, int) else ch == ord(a)):
                    keep.append(ch)
            return CStr(keep)
        return "".join(self.plain().replace(a, b, *n))

    def __add__(self, o):
        o = o if isinstance(o, CStr) else CStr([ord(x) for x in o])
        a = self if isinstance(self.hi, int) and isinstance(self.lo, int) else CStr([self.at(k) for k in range(len(self))])
        b = o if isinstance(o.hi, int) and isinstance(o.lo, int) else CStr([o.at(k) for k in range(len(o))])
        return CStr(a.c[a.lo:a.hi] + b.c[b.lo:b.hi])

    def __radd__(self, o):
        return CStr([ord(x) for x in o]) + self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "CStr#" + str.__str__(self)


for _m in ("title capitalize swapcase rpartition rsplit rfind rindex index splitlines isalpha isalnum islower isupper istitle center ljust rjust zfill expandtabs translate encode "
           "isascii isidentifier isprintable __lt__ __le__ __gt__ __ge__ __mod__ __mul__ __rmul__").split():
    setattr(CStr, _m, (lambda nm: lambda self, *a, **k: getattr(self.plain(), nm)(*a, **k))(_m))

TOKENS = {}


def _bv(v):
    return z3.BitVecVal(v, 8) if isinstance(v, int) else v


class Parts(list):
    """split result; elements are windows, the number of elements is a term until somebody needs it"""

    def __init__(self, s, sep, maxsplit=-1):
        self.s, self.sep, self.m = s, sep, maxsplit
        m = len(sep)
        self.occ, cover = [], {}
        for i in range(len(s.c)):
            o = And(s.startswith_at(i, sep), *[Not(x) for x in [self.occ[j] for j in range(max(0, i - m + 1), i)]])
            self.occ.append(o)
        cnt = 0
        self.before = []
        for o in self.occ:
            self.before.append(cnt)
            cnt = cnt + Ite(o, 1, 0) if not sx.is_conc_bool(o) is False else cnt
            if not isinstance(cnt, int):
                cnt = z3.simplify(cnt)
        self.cnt = cnt if maxsplit < 0 else imin(cnt, maxsplit)
        self._list = None

    def count_term(self):
        return add(self.cnt, 1)

    def pos(self, k):
        """base position of the k-th separator"""
        v = self.s.hi
        for i in range(len(self.occ) - 1, -1, -1):
            v = Ite(And(self.occ[i], Eq(self.before[i], k)), i, v)
        return v

    def part(self, k):
        n = len(self.sep)
        lo = self.s.lo if k == 0 else add(self.pos(k - 1), n)
        hi = self.pos(k) if self.m < 0 or k < self.m else self.s.hi
        return CStr(self.s.c, lo, imax(lo, hi))

    def items(self):
        if self._list is None:
            t = self.count_term()
            n = t if isinstance(t, int) else sx.CUR.realize_int(t)
            self._list = [self.part(k) for k in range(n)]
        return self._list

    def __len__(self):
        return len(self.items())

    def __iter__(self):
        return iter(self.items())

    def __getitem__(self, i):
        if i == 0:
            return self.part(0)
        if isinstance(i, int) and i > 0:
            if not sx.CUR.decide(ilt(i, self.count_term())):
                raise IndexError("list index out of range")
            return self.part(i)
        return self.items()[i]

    def __eq__(self, o):
        return self.items() == o

    def __contains__(self, x):
        return any(bool(y == x) for y in self.items())

    def __bool__(self):
        return True

    def __repr__(self):
        return "Parts"


# ----------------------------------------------------------------------------- regular expressions
class Rx:
    """pattern compiled by Python's own parser, simulated over symbolic characters"""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags if hasattr(self.tree, "state") else flags
        self.ic = bool(self.flags & _re.I)

    def cls(self, items, ch):
        out, neg = [], False
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                out.append(self.lit(av, ch))
            elif op is sc.RANGE:
                out.append(crange(ch, av[0], min(av[1], 255)))
                if self.ic:
                    for a, b, d in ((65, 90, 32), (97, 122, -32)):
                        lo, hi = max(av[0], a), min(av[1], b)
                        if lo <= hi:
                            out.append(crange(ch, lo + d, hi + d))
            elif op is sc.CATEGORY:
                out.append(self.cat(av, ch))
            else:
                raise sx.EngineError(f"character class {op}")
        e = Or(*out)
        return Not(e) if neg else e

    def lit(self, av, ch):
        if av > 255:
            return False
        e = ce(ch, av)
        if self.ic and chr(av).isalpha() and av < 128:
            e = Or(e, ce(ch, av ^ 32))
        return e

    def cat(self, av, ch):
        d = crange(ch, 48, 57)
        s = Or(*[ce(ch, ord(w)) for w in WS])
        w = Or(d, crange(ch, 65, 90), crange(ch, 97, 122), ce(ch, 95))
        n = str(av)
        e = d if n.endswith("DIGIT") else s if n.endswith("SPACE") else w
        return Not(e) if "_NOT_" in n else e

    def step(self, tree, S, st):
        """st: {position: condition} -> {position: condition} after matching tree"""
        for op, av in tree:
            if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
                nx = {}
                for i, c in st.items():
                    if i >= len(S.c):
                        continue
                    ch = S.c[i]
                    t = self.lit(av, ch) if op is sc.LITERAL else Not(self.lit(av, ch)) if op is sc.NOT_LITERAL else self.cls(av, ch) if op is sc.IN else (True if self.flags & _re.S else Not(ce(ch, 10)))
                    e = And(c, ilt(i, S.hi), t)
                    if sx.is_conc_bool(e) is not False:
                        nx[i + 1] = Or(nx[i + 1], e) if i + 1 in nx else e
                st = nx
            elif op is sc.BRANCH:
                nx = {}
                for alt in av[1]:
                    for i, c in self.step(alt, S, st).items():
                        nx[i] = Or(nx[i], c) if i in nx else c
                st = nx
            elif op is sc.SUBPATTERN:
                st = self.step(av[3], S, st)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, body = av
                cur = st
                for _ in range(lo):
                    cur = self.step(body, S, cur)
                acc = dict(cur)
                k = lo
                while cur and (hi is sc.MAXREPEAT or k < hi):
                    cur = {i: c for i, c in self.step(body, S, cur).items()}
                    k += 1
                    new = False
                    for i, c in cur.items():
                        if i in acc:
                            acc[i] = Or(acc[i], c)
                        else:
                            acc[i] = c
                            new = True
                    if k - lo > len(S.c) + 1:
                        break
                st = acc
            elif op is sc.AT:
                n = str(av)
                if n.endswith("BEGINNING") or n.endswith("BEGINNING_STRING"):
                    st = {i: And(c, Eq(S.lo, i)) for i, c in st.items()}
                elif n.endswith("END_STRING"):
                    st = {i: And(c, Eq(S.hi, i)) for i, c in st.items()}
                elif n.endswith("END"):
                    st = {i: And(c, Or(Eq(S.hi, i), And(Eq(S.hi, i + 1), ce(S.c[i], 10)) if i < len(S.c) else False)) for i, c in st.items()}
                elif n.endswith("BOUNDARY"):
                    w = lambda i: And(S.live(i), self.cat("WORD", S.c[i])) if 0 <= i < len(S.c) else False
                    b = lambda i: Not(Iff(w(i - 1), w(i)))
                    st = {i: And(c, Not(b(i)) if "NON" in n else b(i)) for i, c in st.items()}
                else:
                    raise sx.EngineError(f"anchor {n}")
            else:
                raise sx.EngineError(f"regular expression operator {op}")
        return st

    def cond(self, S, start=True, end=True):
        """condition under which S matches (fullmatch by default; start/end False: anywhere)"""
        st = {i: Eq(S.lo, i) if start else And(ile(S.lo, i), ile(i, S.hi)) for i in range(len(S.c) + 1)}
        st = {i: c for i, c in st.items() if sx.is_conc_bool(c) is not False}
        if not isinstance(S.lo, int):
            st = {i: c for i, c in st.items() if sx.is_conc_bool(z3.simplify(sx.lit(c))) is not False}
        out = self.step(self.tree, S, st)
        return Or(*[And(c, Eq(S.hi, i)) if end else c for i, c in out.items()])


class SMatch:
    """a successful match; spans are found by following the regular expression engine's own order of preference"""

    def __init__(self, rx, S, start, end, real):
        self.rx, self.S, self.startf, self.endf, self.real = rx, S, start, end, real
        self._spans = None

    def spans(self):
        if self._spans is None:
            S, lo, hi = self.S, self.S.lo, self.S.hi
            lo = lo if isinstance(lo, int) else sx.CUR.realize_int(lo)
            hi = hi if isinstance(hi, int) else sx.CUR.realize_int(hi)
            for i in [lo] if self.startf else range(lo, hi + 1):
                r = self.run(list(self.rx.tree), i, hi, {}, lambda j, g: (j, g) if not self.endf or j == hi else None)
                if r is not None:
                    self._spans = {0: (i, r[0]), **r[1]}
                    return self._spans
            raise sx.EngineError("a match without spans")
        return self._spans

    def run(self, items, i, hi, g, k):
        if not items:
            return k(i, g)
        (op, av), rest = items[0], items[1:]
        nxt = lambda j, gg: self.run(rest, j, hi, gg, k)
        S, rx = self.S, self.rx
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
            if i >= hi:
                return None
            one = Rx.__new__(Rx)
            one.flags, one.ic = rx.flags, rx.ic
            sub = CStr(S.c[i:i + 1])
            c = Or(*one.step([(op, av)], sub, {0: True}).values())
            return nxt(i + 1, g) if sx.CUR.decide(c) else None
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), i, hi, g, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.SUBPATTERN:
            gid = av[0]
            return self.run(list(av[3]), i, hi, g, lambda j, gg: nxt(j, gg if gid is None else {**gg, gid: (i, j)}))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, mx, body = av

            def rep(j, gg, n):
                more = lambda: self.run(list(body), j, hi, gg, lambda q, g2: rep(q, g2, n + 1) if q > j or n < lo else None)
                if n < lo:
                    return more()
                if mx is not sc.MAXREPEAT and n >= mx:
                    return nxt(j, gg)
                a, b = (more, lambda: nxt(j, gg)) if op is sc.MAX_REPEAT else (lambda: nxt(j, gg), more)
                r = a()
                return r if r is not None else b()

            return rep(i, g, 0)
        if op is sc.AT:
            c = Or(*rx.step([(op, av)], CStr(S.c, S.lo, S.hi), {i: True}).values())
            return nxt(i, g) if sx.CUR.decide(c) else None
        raise sx.EngineError(f"regular expression operator {op}")

    def group(self, *gs):
        def one(x):
            if isinstance(x, str):
                x = self.real.groupindex[x]
            s = self.spans().get(x)
            return None if s is None else CStr(self.S.c[s[0]:s[1]])
        gs = gs or (0,)
        return one(gs[0]) if len(gs) == 1 else tuple(map(one, gs))

    def __getitem__(self, x):
        return self.group(x)

    def groups(self, default=None):
        return tuple(self.group(i) if i in self.spans() else default for i in range(1, self.real.groups + 1))

    def groupdict(self, default=None):
        return {k: self.group(i) if i in self.spans() else default for k, i in self.real.groupindex.items()}

    def span(self, x=0):
        return self.spans()[x]

    def start(self, x=0):
        return self.spans()[x][0]

    def end(self, x=0):
        return self.spans()[x][1]


class Pattern:
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern, self.flags = pattern, flags

    def _do(self, s, start, end):
        rx = Rx(self.pattern, self.flags)
        return SMatch(rx, s, start, end, self.real) if sx.CUR.decide(rx.cond(s, start, end)) else None

    def fullmatch(self, s, *a):
        return self._do(s, True, True) if isinstance(s, CStr) else self.real.fullmatch(s, *a)

    def match(self, s, *a):
        return self._do(s, True, False) if isinstance(s, CStr) else self.real.match(s, *a)

    def search(self, s, *a):
        return self._do(s, False, False) if isinstance(s, CStr) else self.real.search(s, *a)

    def __getattr__(self, nm):
        f = getattr(self.real, nm)
        if not callable(f):
            return f
        return lambda *a, **k: f(*[x.plain() if isinstance(x, CStr) else x for x in a], **k)


class ReModule:
    def compile(self, p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, int(flags))

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def __getattr__(self, nm):
        f = getattr(_re, nm)
        if not callable(f) or isinstance(f, type):
            return f
        return lambda *a, **k: f(*[x.plain() if isinstance(x, CStr) else x.pattern if isinstance(x, Pattern) else x for x in a], **k)


# ----------------------------------------------------------------------------- wrappers of the module's other names
class Num:
    """the number a text stands for"""

    def __init__(self, text):
        self.text = text

    def __deepcopy__(self, memo):
        return self


def to_number(x, *a, **k):
    return vf_float(x)


class _Wrap:
    def __init__(self, real, **over):
        self.__dict__.update(over)
        self._real = real

    def __getattr__(self, nm):
        return getattr(self._real, nm)


def _calendar(*a, **k):
    return Day()


def vf_int(x=0, *a):
    if isinstance(x, CStr):
        if not sx.CUR.decide(Rx(r"\s*[+-]?\d+\s*").cond(x)):
            raise ValueError("invalid literal for int()")
        return sx.mkint(int_value(x))
    return int(x, *a)


def int_value(x):
    """the integer a text of digits (sign, surrounding blanks) stands for"""
    v, neg = z3.IntVal(0), z3.BoolVal(False)
    for i, ch in enumerate(x.c):
        d = And(x.live(i), crange(ch, 48, 57))
        v = z3.If(sx.lit(d), v * 10 + z3.BV2Int(_bv(ch)) - 48, v)
        neg = Or(neg, And(x.live(i), ce(ch, 45)))
    return z3.If(sx.lit(neg), -v, v)


def vf_float(x=0.0):
    if isinstance(x, CStr):
        if not sx.CUR.decide(Rx(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*").cond(x)):
            raise ValueError("could not convert string to float")
        return Num(x)
    return float(x)


def vf_len(x):
    if isinstance(x, CStr):
        return sx.mkint(x.n) if not isinstance(x.n, int) else x.n
    if isinstance(x, Parts):
        t = x.count_term()
        return t if isinstance(t, int) else sx.mkint(t)
    return len(x)


def vf_join(*xs):
    """the text of an f-string"""
    if any(isinstance(x, CStr) for x in xs):
        out = None
        for x in xs:
            x = x if isinstance(x, CStr) else str(x)
            out = x if out is None else CStr([ord(c) for c in out]) + x if not isinstance(out, CStr) else out + x
        return out
    return "".join(format(x) for x in xs)


class vf_set(set):
    """a set; with symbolic texts, a list without equal elements"""

    def __new__(cls, xs=()):
        xs = list(xs)
        if not any(isinstance(x, CStr) for x in xs):
            return set(xs)
        out = []
        for x in xs:
            if not vf_in(x, out):
                out.append(x)
        return out


def vf_in(x, box):
    if isinstance(x, CStr) and isinstance(box, (set, frozenset, list, tuple, dict)) or isinstance(box, (set, frozenset, list, tuple)) and any(isinstance(y, CStr) for y in box):
        for y in box:
            if y is x or (x == y):
                return True
        return False
    return x in box


class _In(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Name("vf_in_", ast.Load()), [n.left, n.comparators[0]], [])
            return call if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), call)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if all(isinstance(v, ast.Constant) or v.conversion == -1 and v.format_spec is None for v in n.values):
            return ast.Call(ast.Name("vf_join_", ast.Load()), [v if isinstance(v, ast.Constant) else v.value for v in n.values], [])
        return n

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("set", ast.Load()), [ast.ListComp(n.elt, n.generators)], [])


def load(modname):
    """the module's current source, compiled to run on symbolic text, as a separate module object"""
    spec = importlib.util.find_spec(modname)
    with open(spec.origin) as f:
        tree = ast.parse(f.read(), spec.origin)
    tree = ast.fix_missing_locations(_In().visit(tree))
    mod = types.ModuleType(modname + "__vf")
    mod.__package__ = modname.rpartition(".")[0]
    mod.__file__ = spec.origin
    sys.modules[mod.__name__] = mod
    shim = ReModule()
    saved = sys.modules["re"]
    mod.__dict__.update(vf_in_=vf_in, vf_join_=vf_join, set=vf_set)
    mod.__dict__.update(int=int, float=vf_float, len=vf_len)
    sys.modules["re"] = shim  # patterns the module compiles when it is loaded
    try:
        exec(compile(tree, spec.origin, "exec"), mod.__dict__)
    finally:
        sys.modules["re"] = saved
    d = mod.__dict__
    for k, v in list(d.items()):
        if v is _re:
            d[k] = shim
        elif getattr(v, "__name__", "") == "pandas":
            d[k] = _Wrap(v, to_numeric=to_number)
        elif getattr(v, "__name__", "") == "pendulum":
            d[k] = _Wrap(v, now=_calendar, today=_calendar, parse=_calendar, from_format=_calendar)
        elif v is _datetime.datetime:
            d[k] = _Wrap(v, strptime=_calendar, fromisoformat=_calendar, now=_calendar)
        elif v is _datetime:
            d[k] = _Wrap(v, datetime=_Wrap(_datetime.datetime, strptime=_calendar, fromisoformat=_calendar, now=_calendar))
    d["int"] = vf_int
    return mod
