"""Symbolic meaning of parsed SQL over bounded symbolic tables (three-valued logic, bag semantics).

A value is V(t, null, v): type tag, is-null condition, z3 (or python) term.
 int / real / code / ts -> Int or Real terms (code: opaque identifiers or strings compared only for equality;
 ts: seconds since 1970-01-01), bool -> Bool, str -> bounded character vectors BStr, hash -> Int (opaque digest).
"""
import datetime
import re

import z3

from . import sx
from .sqlp import Node, parse, strip
from .sx import And, Eq, Iff, Implies, Ite, Not, Or


class SqlError(Exception):
    """the generated SQL is not meaningful (unknown column, bad grouping, type error)"""


class Unsupported(sx.EngineError):
    """the encoder has no meaning for this construct"""


class V:
    __slots__ = ("t", "null", "v", "bound", "dt")

    def __init__(self, t, null, v, bound=None):
        self.t, self.null, self.v, self.bound = t, null, v, bound

    def __repr__(self):
        return f"V({self.t},{self.null},{self.v})"


NULL = V("null", True, 0)


def TRUE():
    return V("bool", False, True)


class BStr:
    """string of at most len(chars) characters; chars are BitVec(8) terms (or python ints)"""

    __slots__ = ("n", "c")

    def __init__(self, n, c):
        self.n, self.c = n, list(c)

    @staticmethod
    def const(s):
        return BStr(len(s), [z3.BitVecVal(ord(x) & 255, 8) for x in s])

    @staticmethod
    def sym(ctx, name, maxlen, alphabet=None):
        n = ctx.zint(name + ".len", 0, maxlen)
        cs = []
        for i in range(maxlen):
            c = ctx.zbv(f"{name}.c{i}", 8)
            cs.append(c)
            if alphabet:
                ctx.assume(z3.Or(*[c == ord(a) for a in alphabet]))
        return BStr(n, cs)

    def at(self, i):
        return self.c[i]

    def map(self, f):
        return BStr(self.n, [f(c) for c in self.c])

    def lower(self):
        return self.map(lambda c: z3.simplify(z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c)))

    def upper(self):
        return self.map(lambda c: z3.simplify(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c)))

    def eq(self, o):
        conds = [Eq(self.n, o.n)]
        m = max(len(self.c), len(o.c))
        for i in range(m):
            if i < len(self.c) and i < len(o.c):
                conds.append(Or(Not(lt(i, self.n)), self.c[i] == o.c[i]))
            else:
                conds.append(Or(Not(lt(i, self.n)), Not(lt(i, o.n))))
        return And(conds)

    def concat(self, o):
        n = self.n + o.n
        cs = []
        for p in range(len(self.c) + len(o.c)):
            # char p of the concatenation
            val = self.c[p] if p < len(self.c) else z3.BitVecVal(0, 8)
            # cases for the length of self
            for k in range(0, min(p, len(self.c)) + 1):
                if p - k < len(o.c):
                    val = Ite(Eq(self.n, k), o.c[p - k], val)
            cs.append(val)
        if not isinstance(n, int):
            n = z3.simplify(n)
            if z3.is_int_value(n):
                n = n.as_long()
        return BStr(n, cs)

    def like(self, pat):
        """SQL LIKE with % and _"""
        memo = {}
        T, P = len(self.c), len(pat.c)
        PC, US = z3.BitVecVal(ord("%"), 8), z3.BitVecVal(ord("_"), 8)

        def b(e):
            e = z3.simplify(e)
            c = sx.is_conc_bool(e)
            return e if c is None else c

        def m(i, j):
            if (i, j) in memo:
                return memo[(i, j)]
            endp = Eq(pat.n, j) if j <= P else True
            at_end = And(endp, Eq(self.n, i))
            if j >= P:
                r = at_end
            else:
                live = Not(endp)
                pc = pat.c[j]
                isp = b(pc == PC)
                rest = False
                has = lt(i, self.n) if i < T else False
                if isp is not False:
                    rest = Or(rest, And(isp, Or(m(i, j + 1), And(has, m(i + 1, j)) if has is not False else False)))
                if isp is not True and has is not False:
                    rest = Or(rest, And(Not(isp), has, Or(b(pc == US), b(pc == self.c[i])), m(i + 1, j + 1)))
                r = Or(at_end, And(live, rest))
            memo[(i, j)] = r
            return r

        return m(0, 0)


def lt(i, n):
    if isinstance(n, int):
        return i < n
    return z3.IntVal(i) < n


# ------------------------------------------------------------------------------------ calendars
class UFCalendar:
    """date functions as uninterpreted functions: equal calls give equal results, nothing else is known"""

    def __init__(self):
        self.f = {}

    def fn(self, name, *sorts):
        if name not in self.f:
            self.f[name] = z3.Function(name, *[z3.IntSort()] * (len(sorts) or 2))
        return self.f[name]

    def call(self, name, *args):
        f = z3.Function(name, *([z3.IntSort()] * (len(args) + 1)))
        return f(*[sx.lit(a) for a in args])

    def trunc(self, unit, v):
        k = {"day": 86400, "hour": 3600, "minute": 60, "second": 1}.get(unit)
        if k:
            return v - v % k
        if unit in ("week", "isoweek", "month", "quarter", "year") or unit.startswith("week"):
            # buckets of whole days: they depend on the day only and start at a midnight
            return 86400 * self.call(f"trunc_{unit}", sx.lit(v) / 86400)
        return self.call(f"trunc_{unit}", v)

    def add(self, unit, n, v):
        if unit in ("day", "hour", "minute", "second", "week"):
            return v + n * {"day": 86400, "hour": 3600, "minute": 60, "second": 1, "week": 604800}[unit]
        return self.call(f"add_{unit}", n, v)

    def diff(self, unit, a, b):
        return self.call(f"diff_{unit}", a, b)

    def part(self, unit, v):
        return self.call(f"part_{unit}", v)

    def date(self, v):
        return self.trunc("day", v)


def ts_const(text):
    t = text.strip().replace("T", " ").rstrip("Z")
    for fmt in ("%Y-%m-%d %H:%M:%S.%f", "%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M", "%Y-%m-%d"):
        try:
            d = datetime.datetime.strptime(t, fmt)
            return int((d - datetime.datetime(1970, 1, 1)).total_seconds())
        except ValueError:
            pass
    return None


# ------------------------------------------------------------------------------------ relations
class Row:
    __slots__ = ("p", "v")

    def __init__(self, p, v):
        self.p, self.v = p, v


class Rel:
    def __init__(self, cols, rows):
        self.cols = cols  # list of (qualifier or None, name)
        self.rows = rows

    def find(self, qual, name):
        name = name.lower()
        hits = [
            i
            for i, (q, n) in enumerate(self.cols)
            if n.lower() == name and (qual is None or (q or "").lower() == qual.lower())
        ]
        return hits


class Table:
    """bounded symbolic base table"""

    def __init__(self, name, cols, rows):
        self.name, self.cols, self.rows = name, cols, rows  # cols: list[(name,type)], rows: list[Row]


def sym_table(ctx, name, cols, n, pk=None, notnull=(), fixed_present=False, ranges=None, alphabet=None):
    """n symbolic rows; pk columns are not null and unique among present rows"""
    ranges = ranges or {}
    rows = []
    for r in range(n):
        p = True if fixed_present else ctx.zbool(f"{name}[{r}].present")
        vals = []
        for c, t in cols:
            nm = f"{name}[{r}].{c}"
            nn = c in notnull or (pk and c in (pk if isinstance(pk, (list, tuple)) else [pk]))
            null = False if nn else ctx.zbool(nm + ".null")
            if t in ("int", "code", "ts"):
                lo, hi = ranges.get(c, (None, None))
                v = ctx.zint(nm, lo, hi)
            elif t == "real":
                v = ctx.zreal(nm)
            elif t == "bool":
                v = ctx.zbool(nm)
            elif t == "str":
                v = BStr.sym(ctx, nm, 3, alphabet)
            else:
                raise Unsupported(t)
            vals.append(V(t, null, v))
        rows.append(Row(p, vals))
    if not fixed_present and not ctx.concrete:
        # symmetry breaking is avoided on purpose: row order must not matter
        pass
    if pk:
        pks = pk if isinstance(pk, (list, tuple)) else [pk]
        ix = [i for i, (c, _) in enumerate(cols) if c in pks]
        for a in range(n):
            for b in range(a + 1, n):
                same = And(*[Eq(rows[a].v[i].v, rows[b].v[i].v) for i in ix])
                ctx.assume(sx.lit(Not(And(rows[a].p, rows[b].p, same))))
    return Table(name, cols, rows)


class Group:
    def __init__(self, rel, members):
        self.rel, self.members = rel, members  # [(cond,row)]


class Env:
    def __init__(self, rel, row, group=None, aliases=None, parent=None, keys=None):
        self.rel, self.row, self.group, self.aliases, self.parent = rel, row, group, aliases, parent
        self.keys = keys


AGGS = {"sum", "count", "avg", "min", "max", "median", "listagg", "string_agg", "array_agg", "count_if", "any_value",
        "percentile_cont", "approx_quantiles", "group_concat", "max_by", "min_by", "stddev", "variance"}


def to_real(v):
    if isinstance(v, int):
        return z3.RealVal(v)
    return z3.ToReal(v) if z3.is_int(v) else v


class Eval:
    def __init__(self, db, dialect="SNOWFLAKE", cal=None, lits=None, numlits=None, strmode="code", ctx=None):
        self.db = {k.lower(): t for k, t in db.items()}
        self.dialect = dialect
        self.cal = cal or UFCalendar()
        self.lits = lits or {}  # token -> V
        self.numlits = numlits or {}  # magic int -> V / z3 term
        self.strmode = strmode
        self.ctx = ctx
        self.assumptions = []
        self.codes = {}
        self.hashed = []
        self._spine = None
        self.lax_order = False
        self.want_order = False
        self._sub = {}

    # -- small constructors
    def code(self, s):
        # distinct string constants are distinct codes, in a range no table cell is forbidden to use
        if s not in self.codes:
            self.codes[s] = len(self.codes) + 1
        return self.codes[s]

    def uf(self, name, args, sort=None):
        zs = []
        for a in args:
            if isinstance(a.v, BStr):
                raise Unsupported(f"uninterpreted {name} over character strings")
            zs += [sx.lit(a.v), sx.lit(a.null)]
        zs = [z3.If(z, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(z) else z for z in zs]
        f = z3.Function("uf_" + name, *[z.sort() for z in zs], sort or z3.IntSort())
        return f(*zs)

    # -- queries
    def query(self, q, ctes=None):
        if isinstance(q, str):
            q = parse(q)
        if q.k == "query":
            env = dict(ctes or {})
            for name, sub in q.ctes:
                env[name.lower()] = self.query(sub, env)
            return self.query(q.body, env)
        ctes = ctes or {}
        if q.k == "union":
            a, b = self.query(q.left, ctes), self.query(q.right, ctes)
            if len(a.cols) != len(b.cols):
                raise SqlError("UNION of different widths")
            r = Rel(a.cols, a.rows + b.rows)
            return r if q.all else self.distinct(r)
        return self.select(q, ctes)

    def distinct(self, rel):
        rows = []
        for i, r in enumerate(rel.rows):
            dup = Or(*[And(s.p, self.same_row(s.v, r.v)) for s in rel.rows[:i]])
            rows.append(Row(And(r.p, Not(dup)), r.v))
        return Rel(rel.cols, rows)

    def same_row(self, a, b):
        return And(*[self.same(x, y) for x, y in zip(a, b)])

    def same(self, a, b):
        """grouping equality: NULLs are equal"""
        if a.t == "null" or b.t == "null":
            return Iff(a.null, b.null)
        both = And(Not(a.null), Not(b.null), self.raw_eq(a, b))
        return Or(And(a.null, b.null), both)

    def raw_eq(self, a, b):
        a, b = self.unify(a, b)
        if isinstance(a.v, BStr):
            return a.v.eq(b.v)
        if a.t == "bool":
            return Iff(a.v, b.v)
        return Eq(a.v, b.v)

    def unify(self, a, b):
        if a.t == b.t or a.t == "null" or b.t == "null":
            return a, b
        ts = {a.t, b.t}
        if ts == {"int", "real"}:
            return V("real", a.null, to_real(a.v)), V("real", b.null, to_real(b.v))
        if ts <= {"int", "hash", "code"}:
            return a, b
        if ts == {"bool", "int"} or ts == {"bool", "code"}:
            raise SqlError(f"comparison of {a.t} with {b.t}")
        if "litstr" in ts:
            if a.t == "litstr":
                return self.conv_lit(a, b.t), b
            return a, self.conv_lit(b, a.t)
        if ts <= {"ts", "date"}:
            return a, b
        raise SqlError(f"comparison of {a.t} with {b.t}")

    def conv_lit(self, a, t):
        """string literal used where a value of type t is expected"""
        s = a.v
        if s in self.lits and self.lits[s].t == t:
            return self.lits[s]
        if t == "code":
            return V("code", a.null, self.code(s))
        if t == "str":
            return V("str", a.null, self.bstr(s))
        if t in ("ts", "date"):
            if s in self.lits:
                return self.lits[s]
            x = ts_const(s)
            if x is None:
                raise SqlError(f"not a timestamp literal: {s!r}")
            return V("ts", a.null, x)
        if t in ("int", "real", "hash"):
            if re.fullmatch(r"-?\d+", s):
                n = int(s)
                if n in self.numlits:
                    return V("int", False, self.numlits[n])
                return V("int", a.null, n)
            if re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", s):
                import fractions

                return V("real", a.null, z3.RealVal(str(fractions.Fraction(s))))
            raise SqlError(f"number expected, got {s!r}")
        if t == "bool":
            if s.lower() in ("true", "false"):
                return V("bool", a.null, s.lower() == "true")
            raise SqlError(f"boolean expected, got {s!r}")
        raise Unsupported(f"literal {s!r} as {t}")

    def bstr(self, s):
        """string literal with embedded symbolic tokens -> character vector"""
        out = None
        i = 0
        toks = sorted([t for t in self.lits if self.lits[t].t == "str"], key=len, reverse=True)
        buf = ""

        def flush(o, x):
            if x is None:
                return o
            return x if o is None else o.concat(x)

        while i < len(s):
            t = next((t for t in toks if s.startswith(t, i)), None)
            low = None
            if t is None:
                low = next((t for t in toks if s.startswith(t.lower(), i)), None)
                up = next((t for t in toks if s.startswith(t.upper(), i)), None)
            if t is not None or low is not None or (t is None and up is not None):
                if buf:
                    out = flush(out, BStr.const(buf))
                    buf = ""
                if t is not None:
                    x = self.lits[t].v
                    i += len(t)
                elif low is not None:
                    x = self.lits[low].v.lower()
                    i += len(low)
                else:
                    x = self.lits[up].v.upper()
                    i += len(up)
                out = flush(out, x)
            else:
                buf += s[i]
                i += 1
        if buf or out is None:
            out = flush(out, BStr.const(buf))
        return out

    def force(self, v, t=None):
        """a literal string without context becomes a code/str/..."""
        if v.t == "litstr":
            return self.conv_lit(v, t or ("str" if self.strmode == "str" else "code"))
        return v

    def source(self, f, ctes):
        if f is None:
            return Rel([], [Row(True, [])])
        if f.k == "table":
            name = f.name[-1].lower()
            full = ".".join(f.name).lower()
            alias = f.alias or f.name[-1]
            if len(f.name) == 1 and name in ctes:
                r = ctes[name]
                return Rel([(alias, n) for _, n in r.cols], r.rows)
            t = self.db.get(full)
            if t is None:
                raise SqlError(f"unknown table {full}")
            return Rel([(alias, c) for c, _ in t.cols], t.rows)
        if f.k == "sub":
            r = self.query(f.q, ctes)
            return Rel([(f.alias, n) for _, n in r.cols], r.rows)
        if f.k == "join":
            return self.join(f, ctes)
        if f.k == "tabfunc":
            return self.spine(f)
        raise Unsupported(f"from item {f.k}")

    SPINE_ROWS = 2

    def spine(self, f):
        """date spines: SPINE_ROWS consecutive rows at a symbolic position (each row of the real spine is treated alike)"""
        txt = self.flat(f.e).lower()
        if self._spine is None:
            self._spine = self.var("spine.base", 0, 14500)
        base = self._spine
        ks = [base + i for i in range(self.SPINE_ROWS)]
        if "generator" in txt and "rowcount" in txt:
            return Rel([(f.alias, "__seq")], [Row(True, [V("int", False, k)]) for k in ks])
        m = re.findall(r"\d\d\d\d-\d\d-\d\d", txt)
        if ("generate_date_array" in txt or "generate_series" in txt) and len(m) == 2 and f.alias:
            lo = ts_const(m[0])
            last = (ts_const(m[1]) - lo) // 86400
            return Rel([(f.alias, f.alias)], [Row(k <= last, [V("ts", False, lo + 86400 * k)]) for k in ks])
        raise Unsupported(f"table function {txt[:60]}")

    def flat(self, n):
        if isinstance(n, Node):
            return " ".join(self.flat(v) for v in n.a.values())
        if isinstance(n, (list, tuple)):
            return " ".join(self.flat(v) for v in n)
        return str(n)

    def var(self, name, lo=None, hi=None):
        if self.ctx is not None:
            return self.ctx.zint(name, lo, hi)
        return z3.Int(name)

    def today(self):
        return 86400 * self.var("current_date_days", 0, 40000)

    def fx_seq4(self, n, env, ctes):
        hits = env.rel.find(None, "__seq")
        if len(hits) != 1 or env.row is None:
            raise SqlError("seq4() outside of a generator")
        return env.row.v[hits[0]]

    def join(self, f, ctes):
        a, b = self.source(f.left, ctes), self.source(f.right, ctes)
        qa = {(q or "").lower() for q, _ in a.cols}
        qb = {(q or "").lower() for q, _ in b.cols}
        if qa & qb - {""}:
            raise SqlError(f"table alias used twice: {sorted(qa & qb)}")
        cols = a.cols + b.cols
        rows, match_b = [], [[] for _ in b.rows]
        ua, ub = [], []
        for ra in a.rows:
            hits = []
            for jb, rb in enumerate(b.rows):
                vals = ra.v + rb.v
                if f.on is not None:
                    env = Env(Rel(cols, []), Row(True, vals))
                    c = self.truth(self.ev(f.on, env, ctes))
                else:
                    c = True
                m = And(ra.p, rb.p, c)
                if m is not False:
                    rows.append(Row(m, vals))
                hits.append(m)
                match_b[jb].append(m)
            if f.jt in ("left", "full"):
                um = And(ra.p, Not(Or(hits)))
                if um is not False:
                    ua.append(Row(um, ra.v + [V(v.t if b.rows else "null", True, v.v) for v in (b.rows[0].v if b.rows else [])] if b.rows else ra.v + [NULL] * len(b.cols)))
        if f.jt in ("right", "full"):
            for jb, rb in enumerate(b.rows):
                um = And(rb.p, Not(Or(match_b[jb])))
                if um is not False:
                    nulls = [V(v.t, True, v.v) for v in a.rows[0].v] if a.rows else [NULL] * len(a.cols)
                    ub.append(Row(um, nulls + rb.v))
        return Rel(cols, rows + ua + ub)

    def has_agg(self, n):
        if isinstance(n, Node):
            if n.k in ("scalarsub", "query", "insub", "exists"):
                return n.k == "insub" and self.has_agg(n.e)
            if n.k == "over":
                return False
            if n.k == "within":
                return True
            if n.k == "func" and n.name.lower() in AGGS:
                return True
            return any(self.has_agg(v) for v in n.a.values())
        if isinstance(n, (list, tuple)):
            return any(self.has_agg(v) for v in n)
        return False

    def select(self, s, ctes):
        rel = self.source(s.frm, ctes)
        rows = rel.rows
        if s.where is not None:
            if self.has_agg(s.where):
                raise SqlError("aggregate in WHERE")
            out = []
            # select aliases are visible in WHERE on these warehouses only
            wal = {a.lower(): e for e, a in s.items if a} if self.dialect in ("SNOWFLAKE", "DUCK_DB") else None
            for r in rows:
                c = And(r.p, self.truth(self.ev(s.where, Env(rel, r, aliases=wal), ctes)))
                if c is not False:
                    out.append(Row(c, r.v))
            rows = out
        base = Rel(rel.cols, rows)
        names = []
        for e, alias in s.items:
            if e.k == "star":
                names += [n for q, n in rel.cols if e.q is None or (q or "").lower() == e.q.lower()]
            elif alias:
                names.append(alias)
            else:
                ee = strip(e)
                names.append(ee.name[-1] if ee.k == "col" else f"_col{len(names)}")
        aliases = {}
        for e, alias in s.items:
            if alias:
                aliases[alias.lower()] = e
        grouped = s.group is not None or any(self.has_agg(e) for e, _ in s.items) or self.has_agg(s.having)
        outrows = []
        envs = []
        if not grouped:
            for r in rows:
                env = Env(base, r, aliases=aliases)
                envs.append(env)
                p = r.p
                vals = []
                for e, _ in s.items:
                    if e.k == "star":
                        vals += [r.v[i] for i, (q, n) in enumerate(rel.cols) if e.q is None or (q or "").lower() == e.q.lower()]
                    else:
                        vals.append(self.force(self.ev(e, env, ctes)))
                if s.having is not None:
                    p = And(p, self.truth(self.ev(s.having, env, ctes)))
                outrows.append(Row(p, vals))
        else:
            keys = []
            for g in s.group or []:
                g = strip(g)
                if g.k == "num":
                    g = s.items[int(g.v) - 1][0]
                elif g.k == "col" and len(g.name) == 1 and g.name[0].lower() in aliases and (self.dialect == "BIGQUERY" or not rel.find(None, g.name[0])):
                    # BigQuery resolves GROUP BY names among the select aliases first
                    g = strip(aliases[g.name[0].lower()])
                keys.append(g)
            keyids = [self.norm(k).key() for k in keys]
            kv = [[self.force(self.ev(k, Env(base, r), ctes)) for k in keys] for r in rows]
            if s.group is None:
                groups = [(True, None, [(r.p, r) for r in rows])]
            else:
                groups = []
                for i, r in enumerate(rows):
                    eqs = [And(o.p, self.same_row(kv[i], kv[j])) for j, o in enumerate(rows)]
                    rep = And(r.p, Not(Or(eqs[:i])))
                    if rep is not False:
                        groups.append((rep, r, list(zip(eqs, rows))))
            for rep, r, members in groups:
                env = Env(base, r, group=Group(base, members), aliases=aliases, keys=keyids)
                envs.append(env)
                vals = [self.force(self.ev(e, env, ctes)) for e, _ in s.items]
                p = rep
                if s.having is not None:
                    p = And(p, self.truth(self.ev(s.having, env, ctes)))
                outrows.append(Row(p, vals))
        res = Rel([(None, n) for n in names], outrows)
        if s.distinct:
            res = self.distinct(res)
        if self.want_order:
            if s.distinct and s.order:
                raise Unsupported("order of a distinct result")
            res.order = [self.order_keys(s, res, r, env, ctes) for r, env in zip(res.rows, envs)]
            res.limit, res.top = s.limit, s.top
            return res
        # ORDER BY has no effect on the bag; still resolve its references
        for e, _, _ in s.order or []:
            e = strip(e)
            if e.k == "col" and len(e.name) == 1 and (e.name[0].lower() in aliases or res.find(None, e.name[0])):
                continue
            if e.k == "num" or self.lax_order:
                continue
            for r in rows[:1]:
                if grouped:
                    g = Group(base, [(x.p, x) for x in rows])
                    self.ev(e, Env(base, r, group=g, aliases=aliases, keys=keyids if s.group else []), ctes)
                else:
                    self.ev(e, Env(base, r, aliases=aliases), ctes)
        return res

    def order_keys(self, s, res, row, env, ctes):
        """[(value, direction, nulls)] the row is sorted by; names denote columns of the result before columns of its sources"""
        out = []
        for e, d, nulls in s.order or []:
            e = strip(e)
            if e.k == "num":
                v = row.v[int(e.v) - 1]
            else:
                hits = res.find(None, e.name[0]) if e.k == "col" and len(e.name) == 1 else []
                if len(hits) > 1:
                    raise SqlError(f"ORDER BY {e.name[0]} is ambiguous")
                v = row.v[hits[0]] if hits else self.force(self.ev(e, env, ctes))
            out.append((v, d, nulls))
        return out

    def norm(self, n):
        """drop parentheses everywhere (for structural comparison of group keys)"""
        n = strip(n)
        if not isinstance(n, Node):
            return n

        def f(x):
            if isinstance(x, Node):
                return self.norm(x)
            if isinstance(x, list):
                return [f(i) for i in x]
            if isinstance(x, tuple):
                return tuple(f(i) for i in x)
            return x

        return Node(n.k, **{k: f(v) for k, v in n.a.items()})

    # -- expressions
    def truth(self, v):
        if v.t == "null":
            return False
        if v.t != "bool":
            if v.t == "litstr" and v.v.lower() in ("true", "false"):
                return v.v.lower() == "true"
            raise SqlError(f"condition of type {v.t}")
        return And(Not(v.null), v.v)

    def ev(self, n, env, ctes):
        m = getattr(self, "ev_" + n.k, None)
        if m is None:
            raise Unsupported(f"expression {n.k}")
        if env.group is not None and env.keys and n.k not in ("num", "str", "bool", "null"):
            if self.norm(n).key() in env.keys:
                if env.row is None:
                    raise SqlError("group key without group")
                return self.ev(n, Env(env.rel, env.row, None, env.aliases), ctes)
        return m(n, env, ctes)

    def ev_paren(self, n, env, ctes):
        return self.ev(n.e, env, ctes)

    def ev_num(self, n, env, ctes):
        t = n.v
        if re.fullmatch(r"\d+", t):
            k = int(t)
            if k in self.numlits:
                return V("int", False, self.numlits[k])
            return V("int", False, k, bound=(k, k))
        if re.fullmatch(r"\d+\.0*", t):
            return V("int", False, int(float(t)), bound=(int(float(t)),) * 2)
        f = float(t)
        if f == int(f):
            return V("int", False, int(f))
        return V("real", False, z3.RealVal(t))

    def ev_str(self, n, env, ctes):
        if n.v in self.lits and self.lits[n.v].t not in ("str",):
            return self.lits[n.v]
        return V("litstr", False, n.v)

    def ev_bool(self, n, env, ctes):
        return V("bool", False, n.v)

    def ev_null(self, n, env, ctes):
        return NULL

    def ev_col(self, n, env, ctes):
        name = n.name[-1]
        qual = n.name[-2] if len(n.name) > 1 else None
        hits = env.rel.find(qual, name)
        if len(hits) > 1:
            raise SqlError(f"ambiguous column {'.'.join(n.name)}")
        if not hits:
            if qual is None and env.aliases and name.lower() in env.aliases:
                e = env.aliases[name.lower()]
                if not (e.k == "col" and e.name == n.name):
                    return self.ev(e, Env(env.rel, env.row, env.group, None, keys=env.keys), ctes)
            if qual is None and name.lower() in ("current_date", "current_timestamp"):
                return V("ts", False, self.today() if name.lower() == "current_date" else self.var("current_timestamp"))
            raise SqlError(f"unknown column {'.'.join(n.name)}")
        if env.group is not None:
            raise SqlError(f"column {'.'.join(n.name)} is neither grouped nor aggregated")
        if env.row is None:
            raise SqlError("column outside of a row")
        return env.row.v[hits[0]]

    def ev_and(self, n, env, ctes):
        a, b = self.boolv(self.ev(n.l, env, ctes)), self.boolv(self.ev(n.r, env, ctes))
        t = And(self.truth(a), self.truth(b))
        f = Or(And(Not(a.null), Not(a.v)), And(Not(b.null), Not(b.v)))
        return V("bool", And(Not(t), Not(f)), t)

    def ev_or(self, n, env, ctes):
        a, b = self.boolv(self.ev(n.l, env, ctes)), self.boolv(self.ev(n.r, env, ctes))
        t = Or(self.truth(a), self.truth(b))
        f = And(And(Not(a.null), Not(a.v)), And(Not(b.null), Not(b.v)))
        return V("bool", And(Not(t), Not(f)), t)

    def boolv(self, v):
        if v.t == "null":
            return V("bool", True, False)
        if v.t == "bool":
            return v
        raise SqlError(f"boolean operand of type {v.t}")

    def ev_not(self, n, env, ctes):
        a = self.boolv(self.ev(n.e, env, ctes))
        return V("bool", a.null, Not(a.v))

    def ev_cmp(self, n, env, ctes):
        a, b = self.ev(n.l, env, ctes), self.ev(n.r, env, ctes)
        return self.compare(n.op, a, b)

    def compare(self, op, a, b):
        if a.t == "litstr" and b.t == "litstr":
            a, b = self.force(a), self.force(b)
        null = Or(a.null, b.null)
        if a.t == "null" or b.t == "null":
            return V("bool", True, False)
        a, b = self.unify(a, b)
        if op in ("=", "<>"):
            e = self.raw_eq(a, b)
            return V("bool", null, e if op == "=" else Not(e))
        if a.t in ("code", "str", "bool", "hash"):
            if isinstance(a.v, BStr):
                raise Unsupported("string ordering")
            if a.t == "code":
                f = z3.Function("code_lt", z3.IntSort(), z3.IntSort(), z3.BoolSort())
                l, r = sx.lit(a.v), sx.lit(b.v)
                e = {"<": f(l, r), ">": f(r, l), "<=": z3.Or(l == r, f(l, r)), ">=": z3.Or(l == r, f(r, l))}[op]
                return V("bool", null, e)
            raise SqlError(f"ordering of {a.t}")
        x, y = sx.lit(a.v), sx.lit(b.v)
        e = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        e = z3.simplify(e)
        c = sx.is_conc_bool(e)
        return V("bool", null, e if c is None else c)

    def ev_between(self, n, env, ctes):
        e, lo, hi = (self.ev(x, env, ctes) for x in (n.e, n.lo, n.hi))
        a, b = self.compare(">=", e, lo), self.compare("<=", e, hi)
        t = And(self.truth(a), self.truth(b))
        f = Or(And(Not(a.null), Not(a.v)), And(Not(b.null), Not(b.v)))
        r = V("bool", And(Not(t), Not(f)), t)
        return V("bool", r.null, Not(r.v)) if n.neg else r

    def ev_isnull(self, n, env, ctes):
        v = self.ev(n.e, env, ctes)
        return V("bool", False, Not(v.null) if n.neg else v.null)

    def ev_isbool(self, n, env, ctes):
        v = self.boolv(self.ev(n.e, env, ctes))
        x = And(Not(v.null), v.v if n.v else Not(v.v))
        return V("bool", False, Not(x) if n.neg else x)

    def ev_isdistinct(self, n, env, ctes):
        s = self.same(self.ev(n.l, env, ctes), self.ev(n.r, env, ctes))
        return V("bool", False, s if n.neg else Not(s))

    def in_list(self, v, vals, conds, neg):
        eqs, nulls = [], []
        for x, c in zip(vals, conds):
            r = self.compare("=", v, x)
            eqs.append(And(c, self.truth(r)))
            nulls.append(And(c, r.null))
        t = Or(eqs)
        null = And(Not(t), Or(nulls))
        return V("bool", null, Not(t) if neg else t)

    def ev_in(self, n, env, ctes):
        v = self.ev(n.e, env, ctes)
        vals = [self.ev(x, env, ctes) for x in n.vals]
        if not vals:
            raise SqlError("empty IN list")
        return self.in_list(v, vals, [True] * len(vals), n.neg)

    def ev_insub(self, n, env, ctes):
        v = self.ev(n.e, env, ctes)
        key = (id(n.q), id(ctes))
        if key not in self._sub:
            self._sub[key] = (self.query(n.q, ctes), n.q, ctes)
        r = self._sub[key][0]
        if len(r.cols) != 1:
            raise SqlError("IN subquery with several columns")
        return self.in_list(v, [x.v[0] for x in r.rows], [x.p for x in r.rows], n.neg)

    def ev_like(self, n, env, ctes):
        a, b = self.ev(n.e, env, ctes), self.ev(n.p, env, ctes)
        a, b = self.as_str(a), self.as_str(b)
        if n.ci:
            a, b = V("str", a.null, a.v.lower()), V("str", b.null, b.v.lower())
        e = a.v.like(b.v)
        return V("bool", Or(a.null, b.null), Not(e) if n.neg else e)

    def as_str(self, v):
        if v.t == "str":
            return v
        if v.t == "litstr":
            return self.conv_lit(v, "str")
        if v.t == "null":
            return V("str", True, BStr(0, []))
        raise SqlError(f"string operation on {v.t}")

    def ev_case(self, n, env, ctes):
        branches = []
        none_before = True
        for c, r in n.whens:
            if n.subj is not None:
                cv = self.compare("=", self.ev(n.subj, env, ctes), self.ev(c, env, ctes))
            else:
                cv = self.ev(c, env, ctes)
            t = self.truth(cv)
            branches.append((t, self.ev(r, env, ctes)))
        els = self.ev(n.els, env, ctes) if n.els is not None else NULL
        return self.choose(branches, els)

    def choose(self, branches, els):
        vals = [v for _, v in branches] + [els]
        types = {v.t for v in vals} - {"null"}
        if types == {"litstr"}:
            vals = [self.force(v) if v.t != "null" else v for v in vals]
        elif "litstr" in types:
            other = next(iter(types - {"litstr"}))
            vals = [self.conv_lit(v, other) if v.t == "litstr" else v for v in vals]
        types = {v.t for v in vals} - {"null"}
        if types == {"int", "real"}:
            vals = [V("real", v.null, to_real(v.v)) if v.t == "int" else v for v in vals]
            types = {"real"}
        if types == {"int", "hash"}:
            types = {"hash"}
        if len(types) > 1:
            raise SqlError(f"CASE with mixed types {types}")
        if not types:
            return NULL
        t = types.pop()
        r = self.retype(vals[-1], t, vals)
        for (c, _), v in zip(reversed(branches), reversed(vals[:-1])):
            v = self.retype(v, t, vals)
            r = V(t, Ite(c, v.null, r.null), self.ite_val(c, v.v, r.v))
        return r

    def ite_val(self, c, a, b):
        if isinstance(a, BStr):
            m = max(len(a.c), len(b.c))
            z = z3.BitVecVal(0, 8)
            return BStr(Ite(c, a.n, b.n), [Ite(c, a.c[i] if i < len(a.c) else z, b.c[i] if i < len(b.c) else z) for i in range(m)])
        return Ite(c, a, b)

    def retype(self, v, t, vals):
        if v.t != "null":
            return V(t, v.null, v.v, v.bound)
        d = {"bool": False, "real": z3.RealVal(0), "str": BStr(0, [])}.get(t, 0)
        return V(t, True, d)

    def ev_neg(self, n, env, ctes):
        v = self.num(self.ev(n.e, env, ctes))
        return V(v.t, v.null, -v.v, None if v.bound is None else (-v.bound[1], -v.bound[0]))

    def num(self, v):
        if v.t == "litstr":
            return self.conv_lit(v, "int")
        if v.t == "null":
            return V("int", True, 0)
        if v.t == "bool":
            raise SqlError("arithmetic on boolean")
        return v

    def ev_bin(self, n, env, ctes):
        a, b = self.ev(n.l, env, ctes), self.ev(n.r, env, ctes)
        if n.op == "||":
            return self.fn_concat([a, b])
        if b.t == "interval" or a.t == "interval":
            if a.t == "interval":
                a, b = b, a
            a = self.tsv(a)
            amt, unit = b.v
            return V("ts", Or(a.null, b.null), self.cal.add(unit, amt if n.op == "+" else -amt, a.v))
        if a.t == "ts" and b.t == "int" and n.op in "+-":
            return V("ts", Or(a.null, b.null), self.cal.add("day", b.v if n.op == "+" else -b.v, a.v))
        if a.t == "ts" and b.t == "ts" and n.op == "-":
            return V("int", Or(a.null, b.null), self.cal.diff("sub", b.v, a.v))
        return self.arith(n.op, a, b)

    def arith(self, op, a, b):
        a, b = self.num(a), self.num(b)
        null = Or(a.null, b.null)
        if "hash" in (a.t, b.t):
            if op == "%":
                return V("hash", null, a.v)
            if op == "/":
                return self.div(a, b, null)
            x, y = (to_real(a.v), to_real(b.v)) if "real" in (a.t, b.t) else (a.v, b.v)
            return V("hash", null, {"+": x + y, "-": x - y, "*": x * y}[op])
        if a.t not in ("int", "real", "code") or b.t not in ("int", "real", "code"):
            raise SqlError(f"arithmetic on {a.t} and {b.t}")
        if op == "/":
            return self.div(a, b, null)
        if op == "%":
            if isinstance(b.v, int) and b.v > 0 and a.t == "int":
                # SQL remainder keeps the sign of the dividend
                x = sx.lit(a.v)
                return V("int", null, z3.If(x >= 0, x % b.v, -((-x) % b.v)))
            return V("int", null, self.uf("mod", [a, b]))
        if "real" in (a.t, b.t):
            x, y, t = to_real(a.v), to_real(b.v), "real"
        else:
            x, y, t = a.v, b.v, "int"
        if op == "*" and not isinstance(x, int) and not isinstance(y, int):
            # linear when one side has few possible values
            if a.bound and a.bound[1] - a.bound[0] <= 8:
                r = self.split(a, lambda k: k * y, t)
                return V(t, null, r)
            if b.bound and b.bound[1] - b.bound[0] <= 8:
                r = self.split(b, lambda k: x * k, t)
                return V(t, null, r)
        v = x + y if op == "+" else x - y if op == "-" else x * y
        if not isinstance(v, int):
            v = z3.simplify(v)
        return V(t, null, v)

    def split(self, v, f, t):
        r = f(v.bound[1])
        for k in range(v.bound[0], v.bound[1]):
            r = Ite(Eq(v.v, k), f(k), r)
        return r

    def div(self, a, b, null):
        x = to_real(a.v)
        if b.bound and b.bound[1] - b.bound[0] <= 40:
            r = z3.Real("division_by_zero")
            for k in range(b.bound[0], b.bound[1] + 1):
                if k != 0:
                    r = Ite(Eq(b.v, k), x / z3.RealVal(k), r)
            return V("real", null, r)
        if isinstance(b.v, int) and b.v != 0:
            return V("real", null, x / z3.RealVal(b.v))
        if not isinstance(b.v, int):
            k = z3.simplify(b.v)
            if (z3.is_int_value(k) or z3.is_rational_value(k)) and str(k) != "0":
                return V("real", null, x / (to_real(k) if z3.is_int_value(k) else k))
        f = z3.Function("quot", z3.RealSort(), z3.RealSort(), z3.RealSort())
        return V("real", null, f(x, to_real(b.v)))

    def _unsup(self, m):
        raise Unsupported(m)

    def tsv(self, v):
        if v.t == "litstr":
            return self.conv_lit(v, "ts")
        if v.t == "null":
            return V("ts", True, 0)
        if v.t == "int" and self.dialect in ("SQL_SERVER", "AZURE_SYNAPSE"):
            return V("ts", v.null, (v.v - 25567) * 86400)  # day numbers count from 1900-01-01
        if v.t not in ("ts", "date"):
            raise SqlError(f"timestamp expected, got {v.t}")
        return v

    def ev_cast(self, n, env, ctes):
        v = self.ev(n.e, env, ctes)
        t = n.type.split()[0].split("(")[0]
        if v.t == "null":
            return NULL
        if t in ("timestamp", "datetime", "timestamp_ntz", "timestamp_tz", "timestamp_ltz", "datetime2", "timestamptz", "datetimeoffset"):
            return V("ts", v.null, self.tsv(v).v)
        if t == "date":
            x = self.tsv(v)
            return V("ts", v.null, self.cal.date(x.v))
        if t in ("numeric", "decimal", "number", "bignumeric", "bigint", "int64", "hugeint"):
            if v.t == "hash":
                return v
            if v.t == "int" or (v.t == "real" and "(38,0)" in n.type):
                return v if v.t == "int" else V("int", v.null, z3.ToInt(v.v))
            return self.num(v) if v.t == "litstr" else v
        if t in ("int", "integer"):
            if v.t == "real":
                return V("int", v.null, z3.ToInt(v.v))
            return self.num(v)
        if t in ("double", "float64", "float", "real"):
            if v.t == "hash":
                return V("hash", v.null, v.v)
            v = self.num(v)
            return V("real", v.null, to_real(v.v))
        if t in ("varchar", "string", "text", "char", "nvarchar"):
            if v.t == "code" or v.t == "int" or v.t == "hash":
                return V("code", v.null, v.v)
            if v.t in ("str", "litstr"):
                return v
            return V("code", v.null, self.uf("to_text_" + v.t, [v]))
        if t in ("boolean", "bool"):
            return self.conv_lit(v, "bool") if v.t == "litstr" else v
        raise Unsupported(f"cast to {n.type}")

    def ev_interval(self, n, env, ctes):
        v = self.ev(n.n, env, ctes)
        if v.t == "litstr":
            v = self.conv_lit(v, "int")
        return V("interval", v.null, (v.v, n.unit))

    def ev_attz(self, n, env, ctes):
        v = self.tsv(self.ev(n.e, env, ctes))
        z = strip(n.z)
        name = z.v if z.k == "str" else "?"
        return V("ts", v.null, self.cal_tz("at_" + name, v.v))

    def cal_tz(self, name, v):
        f = z3.Function("tz_" + name, z3.IntSort(), z3.IntSort())
        return f(sx.lit(v))

    def ev_extract(self, n, env, ctes):
        v = self.tsv(self.ev(n.e, env, ctes))
        return V("int", v.null, self.cal.part(n.part.lower(), v.v))

    def ev_scalarsub(self, n, env, ctes):
        r = self.query(n.q, ctes)
        if len(r.cols) != 1:
            raise SqlError("scalar subquery with several columns")
        res = NULL
        for row in reversed(r.rows):
            res = self.choose([(row.p, row.v[0])], res)
        return res

    def ev_distinct(self, n, env, ctes):
        raise SqlError("DISTINCT outside of an aggregate")

    def ev_tuple(self, n, env, ctes):
        raise Unsupported("tuple")

    def ev_within(self, n, env, ctes):
        raise Unsupported("WITHIN GROUP")

    def ev_over(self, n, env, ctes):
        raise Unsupported("window function")

    # -- functions
    def ev_func(self, n, env, ctes):
        name = n.name.lower()
        if name in AGGS and not (name in ("max", "min") and len(n.args) > 1):
            return self.agg(name, n.args, env, ctes)
        m = getattr(self, "fx_" + name.replace(".", "_"), None)
        if m is not None:
            return m(n, env, ctes)
        args = [self.ev(a, env, ctes) for a in n.args]
        m = getattr(self, "fn_" + name.replace(".", "_"), None)
        if m is not None:
            return m(args)
        return self.unknown_fn(name, args)

    def unknown_fn(self, name, args):
        args = [self.force(a) for a in args]
        return V("code", Or(*[a.null for a in args]), self.uf(name, args))

    def agg(self, name, args, env, ctes):
        if env.group is None:
            raise SqlError(f"aggregate {name} without grouping context")
        if len(args) != 1 and name not in ("listagg", "string_agg"):
            raise SqlError(f"{name} with {len(args)} arguments")
        arg = args[0]
        distinct = arg.k == "distinct"
        if distinct:
            arg = arg.e
        arg = strip(arg)
        members = env.group.members
        n = len(members)
        if arg.k == "star":
            if name != "count":
                raise SqlError(f"{name}(*)")
            return self.count_v([c for c, _ in members])
        vals = [self.ev(arg, Env(env.group.rel, r), ctes) for _, r in members]
        lt_ = {v.t for v in vals}
        if "litstr" in lt_:
            vals = [self.force(v) for v in vals]
        live = [And(c, Not(v.null)) for (c, _), v in zip(members, vals)]
        if distinct:
            live2 = []
            hashed = any(v.t == "hash" for v in vals)
            for i in range(n):
                dup = Or(*[And(live[k], self.raw_eq(vals[k], vals[i])) for k in range(i)])
                live2.append(And(live[i], Not(dup)))
            live = live2
        if name == "count":
            return self.count_v(live)
        if name in ("min", "max", "any_value"):
            return self.minmax(name, live, vals)
        types = {v.t for v in vals} - {"null"}
        if name in ("sum", "avg"):
            if types - {"int", "real", "hash"}:
                raise SqlError(f"{name} over {types}")
            t = "real" if "real" in types else "hash" if "hash" in types else "int"
            zero = z3.RealVal(0) if t == "real" else z3.IntVal(0)
            terms = [Ite(l, to_real(v.v) if t == "real" else sx.lit(v.v), zero) for l, v in zip(live, vals) if l is not False]
            s = z3.Sum(terms) if terms else zero
            s = z3.simplify(s)
            null = Not(Or(live))
            if name == "sum":
                return V(t, null, s)
            c = self.count_v(live)
            d = self.div(V(t, False, s), c, null)
            return V("real", null, d.v)
        if name == "median":
            return self.median(live, vals)
        if name in ("listagg", "string_agg", "array_agg", "group_concat"):
            # an opaque function of the multiset: sum of an uninterpreted image identifies it up to collisions
            f = z3.Function("elem", z3.IntSort(), z3.IntSort())
            s = z3.Sum([Ite(l, f(sx.lit(v.v)), z3.IntVal(0)) for l, v in zip(live, vals) if l is not False] or [z3.IntVal(0)])
            return V("code", Not(Or(live)), s)
        raise Unsupported(f"aggregate {name}")

    def count_v(self, conds):
        terms = [Ite(c, z3.IntVal(1), z3.IntVal(0)) for c in conds if c is not False]
        base = 0
        if not terms:
            return V("int", False, 0, bound=(0, 0))
        return V("int", False, z3.simplify(z3.Sum(terms)), bound=(0, len(terms)))

    def minmax(self, name, live, vals):
        types = {v.t for v in vals} - {"null"}
        if not types:
            return NULL
        if len(types) > 1 and types != {"int", "real"}:
            raise SqlError(f"{name} over {types}")
        if types == {"int", "real"}:
            vals = [V("real", v.null, to_real(v.v)) for v in vals]
            types = {"real"}
        t = next(iter(types))
        if t == "bool" or t == "str":
            raise Unsupported(f"{name} over {t}")
        if name == "any_value":
            name = "min"
        r, has = (z3.RealVal(0) if t == "real" else z3.IntVal(0)), False
        for l, v in zip(live, vals):
            if l is False:
                continue
            x = sx.lit(v.v)
            if t == "code":
                f = z3.Function("code_lt", z3.IntSort(), z3.IntSort(), z3.BoolSort())
                better = f(x, r) if name == "min" else f(r, x)
            else:
                better = x < r if name == "min" else x > r
            r = Ite(And(l, Or(Not(has), better)), x, r)
            has = Or(has, l)
        return V(t, Not(has), r)

    def median(self, live, vals):
        """exact median: mean of the lower and upper middle order statistics"""
        t = "real"
        n = len(vals)
        cnt = z3.Sum([Ite(l, z3.IntVal(1), z3.IntVal(0)) for l in live] or [z3.IntVal(0)])
        lo = hi = z3.RealVal(0)
        for i in range(n):
            if live[i] is False:
                continue
            xi = to_real(vals[i].v)
            rank = z3.Sum([Ite(And(live[j], (to_real(vals[j].v) < xi) if j >= i else (to_real(vals[j].v) <= xi)), z3.IntVal(1), z3.IntVal(0)) for j in range(n) if j != i] or [z3.IntVal(0)])
            lo = Ite(And(live[i], rank == (cnt - 1) / 2), xi, lo)
            hi = Ite(And(live[i], rank == cnt / 2), xi, hi)
        return V("real", Not(Or(live)), (lo + hi) / 2)

    # scalar functions ---------------------------------------------------------
    def fn_coalesce(self, args):
        r = args[-1]
        for a in reversed(args[:-1]):
            r = self.choose([(Not(a.null), a)], r) if a.t != "null" else r
        b = [a.bound for a in args]
        if r.t == "int" and all(b):
            r.bound = (min(x[0] for x in b), max(x[1] for x in b))
        return r

    fn_ifnull = fn_nvl = fn_isnull = fn_coalesce

    def fn_nullif(self, args):
        a, b = args
        e = self.truth(self.compare("=", a, b))
        return V(a.t, Or(a.null, e), a.v, a.bound)

    def fn_lower(self, args):
        a = args[0]
        if a.t in ("str", "litstr") or a.t == "null":
            a = self.as_str(a)
            return V("str", a.null, a.v.lower())
        return self.unknown_fn("lower", args)

    def fn_upper(self, args):
        a = args[0]
        if a.t in ("str", "litstr"):
            a = self.as_str(a)
            return V("str", a.null, a.v.upper())
        return self.unknown_fn("upper", args)

    def fn_concat(self, args):
        if all(a.t in ("str", "litstr") for a in args) and self.strmode == "str":
            args = [self.as_str(a) for a in args]
            r = args[0]
            for a in args[1:]:
                r = V("str", Or(r.null, a.null), r.v.concat(a.v))
            return r
        args = [self.force(a) for a in args]
        return V("code", Or(*[a.null for a in args]), self.uf("concat%d" % len(args), args))

    def fn_floor(self, args):
        a = self.num(args[0])
        return a if a.t in ("int", "hash") else V("int", a.null, z3.ToInt(a.v))

    fn_trunc = fn_floor

    def fn_abs(self, args):
        a = self.num(args[0])
        x = sx.lit(a.v)
        return V(a.t, a.null, z3.If(x < 0, -x, x))

    def digest(self, name, args):
        a = self.force(args[0])
        x = sx.lit(a.v)
        if z3.is_bool(x):
            raise Unsupported("hash of boolean")
        f = z3.Function("digest", x.sort(), z3.IntSort())
        return V("hash", a.null, f(x))

    def fn_md5(self, args):
        return self.digest("md5", args)

    def fn_farm_fingerprint(self, args):
        return self.digest("farm", args)

    def fn_farmfingerprint64(self, args):
        return self.digest("farm64", args)

    def fn_hashtextextended(self, args):
        return self.digest("hashtext", args)

    def fn_to_number(self, args):
        return args[0]

    def fn_left(self, args):
        return args[0] if args[0].t in ("hash", "code") else self.unknown_fn("left", args)

    def fn_right(self, args):
        return args[0] if args[0].t == "hash" else self.unknown_fn("right", args)

    def fn_strtol(self, args):
        return args[0]

    def fn_conv(self, args):
        return args[0]

    def fn_hash(self, args):
        return self.digest("hash", args)

    def fn_equal_null(self, args):
        return V("bool", False, self.same(self.force(args[0]), self.force(args[1])))

    def fn_iff(self, args):
        return self.choose([(self.truth(args[0]), args[1])], args[2])

    def fn_current_date(self, args):
        return V("ts", False, self.today())

    # dates
    def unit_of(self, n, env, ctes):
        n = strip(n)
        if n.k == "str":
            return n.v.lower()
        if n.k == "col":
            return n.name[-1].lower()
        if n.k == "func":
            return n.name.lower() + "(" + ",".join(self.unit_of(a, env, ctes) for a in n.args) + ")"
        raise SqlError("date part expected")

    UNITS = {"second", "minute", "hour", "day", "week", "month", "quarter", "year", "isoweek"}

    def fx_date_trunc(self, n, env, ctes):
        a, b = n.args[0], n.args[1]
        sa = strip(a)
        if sa.k == "str" and sa.v.lower() in self.UNITS or (sa.k == "col" and sa.name[-1].lower() in self.UNITS and len(sa.name) == 1):
            u, x = self.unit_of(a, env, ctes), b
        else:
            u, x = self.unit_of(b, env, ctes), a
        v = self.tsv(self.ev(x, env, ctes))
        return V("ts", v.null, self.cal.trunc(u, v.v))

    fx_timestamp_trunc = fx_datetime_trunc = fx_datetrunc = fx_date_trunc

    def fx_dateadd(self, n, env, ctes):
        u = self.unit_of(n.args[0], env, ctes)
        inner = strip(n.args[1])
        if inner.k == "func" and inner.name.lower() == "datediff" and len(inner.args) == 3 and self.zero(inner.args[1]) and self.zero(n.args[2]) and self.unit_of(inner.args[0], env, ctes) == u and u in ("month", "quarter", "year", "week"):
            # whole units since day 0, added to day 0: the start of the unit
            v = self.tsv(self.ev(inner.args[2], env, ctes))
            return V("ts", v.null, self.cal.trunc(u, v.v))
        k = self.num(self.ev(n.args[1], env, ctes))
        v = self.tsv(self.ev(n.args[2], env, ctes))
        return V("ts", Or(k.null, v.null), self.cal.add(u, k.v, v.v))

    fx_timestampadd = fx_dateadd

    def fx_date_add(self, n, env, ctes):
        if len(n.args) == 3:
            return self.fx_dateadd(n, env, ctes)
        v = self.tsv(self.ev(n.args[0], env, ctes))
        i = self.ev(n.args[1], env, ctes)
        if i.t != "interval":
            raise SqlError("DATE_ADD without interval")
        amt, unit = i.v
        return V("ts", Or(v.null, i.null), self.cal.add(unit, amt, v.v))

    def fx_date_sub(self, n, env, ctes):
        v = self.tsv(self.ev(n.args[0], env, ctes))
        i = self.ev(n.args[1], env, ctes)
        amt, unit = i.v
        return V("ts", Or(v.null, i.null), self.cal.add(unit, -amt, v.v))

    fx_datetime_add = fx_timestamp_add = fx_date_add

    @staticmethod
    def zero(n):
        n = strip(n)
        return n.k == "num" and str(n.v) in ("0", "0.0")

    def fx_datediff(self, n, env, ctes):
        u = self.unit_of(n.args[0], env, ctes)
        a = self.tsv(self.ev(n.args[1], env, ctes))
        b = self.tsv(self.ev(n.args[2], env, ctes))
        return V("int", Or(a.null, b.null), self.cal.diff(u, a.v, b.v))

    fx_timestampdiff = fx_datediff

    def fx_date_diff(self, n, env, ctes):
        sa = strip(n.args[0])
        if sa.k == "str":
            return self.fx_datediff(n, env, ctes)
        # DATE_DIFF(end, start, unit)
        u = self.unit_of(n.args[2], env, ctes)
        a = self.tsv(self.ev(n.args[0], env, ctes))
        b = self.tsv(self.ev(n.args[1], env, ctes))
        return V("int", Or(a.null, b.null), self.cal.diff(u, b.v, a.v))

    fx_timestamp_diff = fx_date_diff

    def fx_date_part(self, n, env, ctes):
        u = self.unit_of(n.args[0], env, ctes)
        a = self.ev(n.args[1], env, ctes)
        if a.t in ("ts", "litstr"):
            a = self.tsv(a)
            return V("int", a.null, self.cal.part(u, a.v))
        return V("int", a.null, self.uf("part_" + u, [a]))

    fx_datepart = fx_date_part

    def fx_convert_timezone(self, n, env, ctes):
        zs = [strip(a).v for a in n.args[:-1]]
        v = self.tsv(self.ev(n.args[-1], env, ctes))
        return V("ts", v.null, self.cal_tz("_".join(zs), v.v))
