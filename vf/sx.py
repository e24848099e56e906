"""Dynamic symbolic execution of the real (native) Python code with z3.

A harness is a Python function h(ctx, **params).  It asks ctx for symbolic inputs, passes them to the
real code imported from /repo and states its property with ctx.prove(...).  The engine runs the harness
once per feasible path: whenever the real code (or the harness) branches on a symbolic value, the solver
decides which outcomes are feasible under the path condition, one is taken and the others are queued.
ctx.prove asks the solver for values of all symbolic inputs on this path that falsify the assertion:
`unsat` means the assertion holds for every value on the path; `sat` yields a counterexample, which is
replayed by running the same harness with plain Python values (ConcreteCtx) before it is reported.
"""
import hashlib
import itertools
import time

import z3


class EngineError(Exception):
    """the check itself failed: never reported as a violation"""


class Inconclusive(EngineError):
    pass


class PathAbort(BaseException):
    """the current path is infeasible / out of the declared assumptions"""


class Found(BaseException):
    def __init__(self, msg, model, info):
        super().__init__(msg)
        self.msg, self.model, self.info = msg, model, info


CUR = None  # the active context


def simp(e):
    return z3.simplify(e)


from z3 import z3core as _z3core


def _raw(f):
    """the foreign function behind a z3core wrapper (no per-call error query; arguments are well-sorted by construction)"""
    return f.__defaults__[0].f


_get_bool = _raw(_z3core.Z3_get_bool_value)
_mk_and, _mk_or, _mk_not, _mk_ite = map(_raw, (_z3core.Z3_mk_and, _z3core.Z3_mk_or, _z3core.Z3_mk_not, _z3core.Z3_mk_ite))
_CTX = z3.main_ctx()
_CREF = _CTX.ref()
_Ast = z3.z3types.Ast


def is_conc_bool(e):
    if e is True or e is False:
        return e
    if not isinstance(e, z3.BoolRef):
        if isinstance(e, bool):
            return e
        return None
    r = _get_bool(_CREF, e.ast)
    return True if r == 1 else False if r == -1 else None


def _nary(mk, xs):
    a = (_Ast * len(xs))()
    for i, x in enumerate(xs):
        a[i] = x.ast
    return z3.BoolRef(mk(_CREF, len(xs), a), _CTX)


# ----------------------------------------------------------------------------- formula helpers
def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        c = is_conc_bool(x)
        if c is False:
            return False
        if c is None:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else _nary(_mk_and, out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        c = is_conc_bool(x)
        if c is True:
            return True
        if c is None:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else _nary(_mk_or, out)


def Not(x):
    c = is_conc_bool(x)
    if c is not None:
        return not c
    return z3.BoolRef(_mk_not(_CREF, x.ast), _CTX)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    ca, cb = is_conc_bool(a), is_conc_bool(b)
    if ca is not None and cb is not None:
        return ca == cb
    if ca is not None:
        return b if ca else Not(b)
    if cb is not None:
        return a if cb else Not(a)
    return a == b


def lit(x):
    """python constant -> z3 constant"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def Ite(c, a, b):
    cc = is_conc_bool(c)
    if cc is not None:
        return a if cc else b
    if a is b:
        return a
    ia, ib = is_conc_bool(a), is_conc_bool(b)
    if ia is not None or ib is not None:
        return Or(And(c, a), And(Not(c), b))
    a, b = lit(a), lit(b)
    if type(a) is z3.ArithRef and type(b) is z3.ArithRef and a.is_int() == b.is_int():
        return z3.ArithRef(_mk_ite(_CREF, c.ast, a.ast, b.ast), _CTX)
    return z3.If(c, a, b)


def Eq(a, b):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    r = lit(a) == lit(b)
    return r


# ----------------------------------------------------------------------------- proxies
class SymBool:
    """truth value whose inspection forks the path"""

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.decide(self.e)

    def __eq__(self, o):
        return SymBool(Iff(self.e, o.e if isinstance(o, SymBool) else bool(o)))

    def __ne__(self, o):
        return SymBool(Not((self == o).e))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return SymBool(And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(Not(self.e))

    def __repr__(self):
        return str(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def zb(x):
    return x.e if isinstance(x, SymBool) else bool(x)


def ze(x):
    """z3 expression / python int of an int-like"""
    return x.e if isinstance(x, SymInt) else x


def mkbool(e):
    c = is_conc_bool(e)
    if c is None:
        s = z3.simplify(e)
        c = is_conc_bool(s)
        if c is None:
            return SymBool(s)
    return c


def mkint(e):
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(s)


class SymInt(int):
    """int subclass carrying a z3 Int expression.  Its text is a unique magic number, which the SQL/string
    decoders map back to the expression (ctx.magic)."""

    def __new__(cls, e):
        n = CUR.register_magic(e)
        o = int.__new__(cls, n)
        o.e = e
        return o

    # arithmetic
    def __add__(self, o):
        return mkint(self.e + ze(o)) if isinstance(o, int) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return mkint(self.e - ze(o)) if isinstance(o, int) else NotImplemented

    def __rsub__(self, o):
        return mkint(ze(o) - self.e) if isinstance(o, int) else NotImplemented

    def __mul__(self, o):
        return mkint(self.e * ze(o)) if isinstance(o, int) else NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            o = o.realize()
        if o == 0:
            raise ZeroDivisionError
        return mkint(self.e / o if o > 0 else (-self.e) / (-o))

    def __rfloordiv__(self, o):
        return o // self.realize()

    def __mod__(self, o):
        if isinstance(o, SymInt):
            o = o.realize()
        if o == 0:
            raise ZeroDivisionError
        return mkint(self.e % o if o > 0 else -((-self.e) % (-o)))

    def __rmod__(self, o):
        return o % self.realize()

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return self.realize() / (o.realize() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.realize()

    def __pow__(self, o, m=None):
        return pow(self.realize(), o)

    # comparison
    def __eq__(self, o):
        return mkbool(self.e == ze(o)) if isinstance(o, int) else (self.realize() == o if isinstance(o, float) else False)

    def __ne__(self, o):
        return mkbool(self.e != ze(o)) if isinstance(o, int) else (self.realize() != o if isinstance(o, float) else True)

    def __lt__(self, o):
        return mkbool(self.e < ze(o)) if isinstance(o, int) else self.realize() < o

    def __le__(self, o):
        return mkbool(self.e <= ze(o)) if isinstance(o, int) else self.realize() <= o

    def __gt__(self, o):
        return mkbool(self.e > ze(o)) if isinstance(o, int) else self.realize() > o

    def __ge__(self, o):
        return mkbool(self.e >= ze(o)) if isinstance(o, int) else self.realize() >= o

    def __bool__(self):
        return CUR.decide(self.e != 0)

    def __hash__(self):
        # hash-based containers: decide against the constants that matter, otherwise keep the magic number
        for c in (0, 1):
            if CUR.decide(self.e == c):
                return hash(c)
        return int.__hash__(int(int.__repr__(self)))

    def __index__(self):
        return self.realize()

    def __int__(self):
        return self

    def __float__(self):
        return float(self.realize())

    def realize(self):
        return CUR.realize_int(self.e)

    def __repr__(self):
        return int.__repr__(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec in ("", "d", "s"):
            return int.__repr__(self)
        return format(self.realize(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (int, (self.realize(),))


class SymStr(str):
    """a string literal treated as an arbitrary value of a declared domain.  Its text is a unique token which
    the SQL decoder maps back (ctx.tokens); comparisons with other strings fork the path."""

    def __new__(cls, name, e, domain):
        tok = CUR.register_token(name, e)
        o = str.__new__(cls, tok)
        o.name, o.e, o.domain = name, e, domain
        return o

    def _cmp(self, o):
        if isinstance(o, SymStr):
            return self.e == o.e
        if isinstance(o, str):
            c = CUR.str_code(o)
            return self.e == c
        return False

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        k = (self.name, str.__str__(o))
        r = CUR._eqs.get(k)
        if r is None:
            r = mkbool(self._cmp(o))
            CUR._eqs[k] = r
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        for c in self.domain:
            if CUR.decide(self.e == CUR.str_code(c)):
                return hash(c)
        return str.__hash__(str.__str__(self))

    def __bool__(self):
        return CUR.decide(self.e != CUR.str_code(""))

    def __str__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymSet(list):
    """a list of names whose membership is symbolic: every inspection forks the path"""

    def __init__(self, name, members):
        super().__init__(members)
        self.name, self.members = name, list(members)
        self.bits = {m: CUR.zbool(f"{name}:{m}") for m in members}

    def __contains__(self, x):
        for m in self.members:
            if m == x:
                return CUR.decide(self.bits[m])
        return False

    def _list(self):
        return [m for m in self.members if CUR.decide(self.bits[m])]

    def __iter__(self):
        return iter(self._list())

    def __len__(self):
        return len(self._list())

    def __bool__(self):
        return CUR.decide(Or(*self.bits.values()))

    def __getitem__(self, i):
        return self._list()[i]

    def __eq__(self, o):
        return self._list() == o

    def __repr__(self):
        return repr(self._list())

    __hash__ = None

    def __add__(self, o):
        return self._list() + list(o)

    def __radd__(self, o):
        return list(o) + self._list()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def has_sym(o):
    if isinstance(o, (SymStr, SymSet, SymInt, SymBool)):
        return True
    if isinstance(o, dict):
        return any(has_sym(k) or has_sym(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return any(has_sym(v) for v in o)
    return False


_PATHS = [0]  # identifies the path: caches keyed by a hash of symbolic content must not carry over to another path


class _Carrier(str):
    """JSON text of a value holding symbolic parts: reading it back gives a copy of the value"""


def _patch_json():
    import copy as _copy
    import json as _json

    dumps, loads = _json.dumps, _json.loads

    def plain(o):
        if isinstance(o, SymSet):
            return "<subset %s>" % o.name
        if isinstance(o, dict):
            return {plain(k): plain(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [plain(v) for v in o]
        return o

    def vf_dumps(o, *a, **k):
        if CUR is not None and has_sym(o):
            try:
                text = dumps(plain(o), *a, **k)  # symbolic strings stand for themselves as unique tokens
            except Exception:
                text = ""
            c = _Carrier(f"<symbolic json {_PATHS[0]}>" + text)
            c.value = _copy.deepcopy(o)
            return c
        return dumps(o, *a, **k)

    def vf_loads(s, *a, **k):
        if isinstance(s, _Carrier):
            return _copy.deepcopy(s.value)
        return loads(s, *a, **k)

    _json.dumps, _json.loads = vf_dumps, vf_loads


_patch_json()


# ----------------------------------------------------------------------------- contexts
class Stats:
    def __init__(self):
        self.paths = self.queries = self.proves = self.discharged = self.aborted = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.reach = 0
        self.funcs = set()

    def add(self, o):
        for k in ("paths", "queries", "proves", "discharged", "aborted", "solver_s", "decisions", "reach"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.funcs |= o.funcs

    def dict(self):
        d = dict(self.__dict__)
        d["funcs"] = sorted(self.funcs)
        return d


class Ctx:
    concrete = False

    def __init__(self, prefix, stats, timeout_ms=60000):
        self.prefix = list(prefix)
        self.trace = []  # (choice, [remaining alternatives])
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.stats = stats
        self.vars = {}
        self.magic = {}
        self.tokens = {}
        self.strcodes = {}
        self._n = itertools.count()
        self.labels = {}
        self._decided, self._eqs = {}, {}
        self.notes = []
        self.defs = []  # definitions of auxiliary functions, used only where a verdict without them is not conclusive

    # -- solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*[lit(x) for x in extra])
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive(f"solver unknown: {self.solver.reason_unknown()}")
        return r == z3.sat

    def assume(self, e):
        e = zb(e) if isinstance(e, (SymBool, bool)) else e
        c = is_conc_bool(e)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.solver.add(e)
        self.pc.append(e)

    def require_feasible(self):
        if not self._check():
            raise PathAbort()

    def _branch(self, conds):
        """multi-way branch over mutually exclusive, exhaustive conditions; returns the taken index"""
        pos = len(self.trace)
        if pos < len(self.prefix):
            i = self.prefix[pos]
            self.trace.append((i, None))
        else:
            feas = []
            for j, c in enumerate(conds):
                cc = is_conc_bool(c)
                if cc is False:
                    continue
                if cc is True or self._check(c):
                    feas.append(j)
            if not feas:
                raise PathAbort()
            i = feas[0]
            self.trace.append((i, feas[1:]))
        self.stats.decisions += 1
        c = conds[i]
        if is_conc_bool(c) is None:
            self.solver.add(c)
            self.pc.append(c)
        return i

    def decide(self, e):
        e = zb(e) if isinstance(e, (SymBool, bool)) else e
        c = is_conc_bool(e)
        if c is None:
            m = self._decided.get(e.get_id())
            if m is not None:
                return m[1]
            e = z3.simplify(e)
            c = is_conc_bool(e)
        if c is not None:
            return c
        k = e.get_id()
        m = self._decided.get(k)
        if m is not None:
            return m[1]
        n = z3.Not(e)
        r = self._branch([e, n]) == 0
        self._decided[k] = (e, r)
        n2 = z3.simplify(n)
        self._decided[n2.get_id()] = (n2, not r)
        return r

    # -- inputs
    def _var(self, name, mk):
        if name in self.vars:
            return self.vars[name]
        v = mk()
        self.vars[name] = v
        return v

    def zint(self, name, lo=None, hi=None):
        """raw z3 Int"""
        fresh = name not in self.vars
        v = self._var(name, lambda: z3.Int(name))
        if fresh:
            if lo is not None:
                self.assume(v >= lo)
            if hi is not None:
                self.assume(v <= hi)
        return v

    def zbool(self, name):
        return self._var(name, lambda: z3.Bool(name))

    def zbv(self, name, bits=8):
        return self._var(name, lambda: z3.BitVec(name, bits))

    def zreal(self, name):
        return self._var(name, lambda: z3.Real(name))

    def bool(self, name):
        return SymBool(self.zbool(name))

    def int(self, name, lo=None, hi=None):
        return SymInt(self.zint(name, lo, hi))

    def flag(self, name):
        """a concrete python bool, both values explored"""
        return self.decide(self.zbool(name))

    def pick(self, name, options):
        """an element of options; every one is explored"""
        options = list(options)
        v = self.zint("pick:" + name, 0, len(options) - 1)
        if len(options) == 1:
            return options[0]
        return options[self._branch([v == i for i in range(len(options))])]

    def subset(self, name, members):
        """any sub-list of members"""
        return SymSet(name, members)

    def str(self, name, domain, other=True):
        """arbitrary string: one of `domain` or (other=True) any string not in it"""
        codes = [self.str_code(d) for d in domain]
        v = self.zint("str:" + name)
        if other:
            # codes >= 1000 stand for arbitrary other strings; equality among them is decided by the solver
            self.assume(z3.Or(*[v == c for c in codes], v >= 1000))
        else:
            self.assume(z3.Or(*[v == c for c in codes]))
        return SymStr(name, v, list(domain))

    def str_code(self, s):
        s = str.__str__(s) if not isinstance(s, SymStr) else s
        if s not in self.strcodes:
            self.strcodes[s] = len(self.strcodes) + 1
        return self.strcodes[s]

    # -- realisation
    def realize_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        # fork over all feasible values (bounded by the declared ranges)
        pos = len(self.trace)
        if pos < len(self.prefix):
            val = self.prefix[pos]
            self.trace.append((val, None))
        else:
            vals = []
            self.solver.push()
            while len(vals) < 400:
                if not self._check():
                    break
                m = self.solver.model()
                x = m.eval(e, model_completion=True).as_long()
                vals.append(x)
                self.solver.add(e != x)
            else:
                self.solver.pop()
                raise Inconclusive("realisation of an unbounded integer")
            self.solver.pop()
            if not vals:
                raise PathAbort()
            vals.sort()
            val = vals[0]
            self.trace.append((val, vals[1:]))
        self.stats.decisions += 1
        self.solver.add(e == val)
        self.pc.append(e == val)
        return val

    # -- magic literals
    def register_magic(self, e):
        n = 77000001700 + 13 * len(self.magic)
        key = str(e)
        for k, v in self.magic.items():
            if v.eq(e):
                return k
        self.magic[n] = e
        return n

    def register_token(self, name, e):
        tok = "zQ%d'%sK" % (len(self.tokens), "")
        self.tokens[tok] = (name, e)
        return tok

    # -- verdicts
    def prove(self, e, msg, info=None, assumptions=()):
        self.stats.proves += 1
        e = zb(e) if isinstance(e, (SymBool, bool)) else e
        c = is_conc_bool(e)
        if c is True:
            # decided by construction (the executed path itself); still counted as reached
            self.stats.discharged += 1
            return
        neg = Not(e)
        if self._check(*assumptions, neg) and (not self.defs or self._check(*self.defs, *assumptions, neg)):
            raise Found(msg, self.model_values(), info)
        self.stats.discharged += 1

    def fail(self, msg, info=None):
        """the path itself violates the property (e.g. the real code raised)"""
        self.stats.proves += 1
        if not self._check(*self.defs):
            raise PathAbort()
        raise Found(msg, self.model_values(), info)

    def reached(self, *extra):
        """reachability twin: the assertion point must be satisfiable"""
        if self._check(*self.defs, *extra):
            self.stats.reach += 1

    def model_values(self):
        m = self.solver.model()
        out = {}
        for n, v in self.vars.items():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(x):
                out[n] = z3.is_true(x)
            elif z3.is_int_value(x):
                out[n] = x.as_long()
            elif z3.is_bv_value(x):
                out[n] = ["bv", x.as_long(), x.size()]
            elif z3.is_rational_value(x):
                out[n] = ["real", x.numerator_as_long(), x.denominator_as_long()]
            else:
                out[n] = ["expr", str(x)]
        return out

    def note(self, k, v):
        self.labels[k] = v


class ConcreteCtx(Ctx):
    """replays one assignment with plain Python values: no proxies reach the real code"""

    concrete = True

    def __init__(self, values):
        super().__init__([], Stats())
        self.values = values

    def _get(self, name, default):
        v = self.values.get(name, default)
        if isinstance(v, list):
            if v[0] == "bv":
                return z3.BitVecVal(v[1], v[2])
            if v[0] == "real":
                return z3.Q(v[1], v[2])
        return v

    def decide(self, e):
        e = zb(e) if isinstance(e, (SymBool, bool)) else e
        c = is_conc_bool(e)
        if c is None:
            e = z3.simplify(e)
            c = is_conc_bool(e)
        if c is None:
            # uninterpreted functions may stay: ask the solver for one consistent value
            c = self._check(e)
            self.solver.add(e if c else z3.Not(e))
        return c

    def assume(self, e):
        if not self.decide(e):
            raise PathAbort()

    def zint(self, name, lo=None, hi=None):
        v = z3.IntVal(self._get(name, lo if lo is not None else 0))
        self.vars[name] = v
        return v

    def zbool(self, name):
        return z3.BoolVal(bool(self._get(name, False)))

    def zbv(self, name, bits=8):
        v = self._get(name, None)
        return v if v is not None else z3.BitVecVal(0, bits)

    def zreal(self, name):
        v = self._get(name, None)
        if v is None:
            return z3.RealVal(0)
        return z3.RealVal(v) if isinstance(v, int) else v

    def bool(self, name):
        return bool(self._get(name, False))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def flag(self, name):
        return bool(self._get(name, False))

    def pick(self, name, options):
        return list(options)[self._get("pick:" + name, 0)]

    def subset(self, name, members):
        return [m for m in members if is_conc_bool(self.zbool(f"{name}:{m}"))]

    def str(self, name, domain, other=True):
        for d in domain:
            self.str_code(d)
        c = self._get("str:" + name, self.str_code(domain[0]) if domain else 1000)
        for d in domain:
            if self.str_code(d) == c:
                return d
        s = "other_value_%d" % c
        self.strcodes[s] = c
        return s

    def prove(self, e, msg, info=None, assumptions=()):
        self.stats.proves += 1
        e = zb(e) if isinstance(e, (SymBool, bool)) else e
        c = is_conc_bool(e)
        if c is None:
            c = is_conc_bool(z3.simplify(e))
        if c is None:
            # only uninterpreted symbols remain: the violation must be possible
            c = not self._check(*assumptions, Not(e))
        if not c:
            raise Found(msg, self.values, info)

    def fail(self, msg, info=None):
        raise Found(msg, self.values, info)

    def reached(self, *extra):
        pass

    def realize_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        self._check()
        v = self.solver.model().eval(e, model_completion=True).as_long()
        self.solver.add(e == v)
        return v


def run_path(h, params, ctx):
    global CUR
    old = CUR
    CUR = ctx
    _PATHS[0] += 1
    try:
        h(ctx, **params)
    finally:
        CUR = old


def explore(h, params=None, max_paths=100000, deadline=None, timeout_ms=60000):
    """Run every feasible path of harness h.  Returns (stats, counterexample or None, complete)."""
    params = params or {}
    stats = Stats()
    work = [[]]
    complete = True
    while work:
        if deadline and time.time() > deadline or stats.paths >= max_paths:
            complete = False
            break
        prefix = work.pop()
        ctx = Ctx(prefix, stats, timeout_ms)
        found = None
        try:
            run_path(h, params, ctx)
            stats.paths += 1
        except PathAbort:
            stats.aborted += 1
        except Found as f:
            stats.paths += 1
            found = f
        if found is not None:
            return stats, found, complete
        base = [c for c, _ in ctx.trace]
        for pos in range(len(ctx.trace) - 1, len(prefix) - 1, -1):
            alts = ctx.trace[pos][1]
            for a in alts or []:
                work.append(base[:pos] + [a])
    return stats, None, complete


def replay(h, params, values):
    """True when the counterexample reproduces on the real code with plain values"""
    ctx = ConcreteCtx(values)
    try:
        run_path(h, params or {}, ctx)
    except Found as f:
        return True, f
    except PathAbort:
        return False, None
    return False, None
