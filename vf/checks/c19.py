"""C19: ordering and limits.  The real resolver writes the ORDER BY and LIMIT clauses of every kind of query; for any two rows of the result of
a symbolic table the clause puts one before the other exactly when the requested fields, directions and sequence do, and the row limit of the
statement is the requested number, for every number."""
import copy
import importlib
import inspect

import z3

from .. import sstr, sx
from ..sstr import CStr, Rx, ce
from ..proj import *
from ..sqls import Env, Eval, Rel, Row, V, sym_table
from ..sx import And, Eq, Iff, Implies, Ite, Not, Or
from . import c09, c10, c11, c18

EXPLANATION = __doc__
BOUNDS = "result rows from 2 symbolic rows per table; 1-3 order keys of any sequence and direction (given, omitted, any letter case) as list or text; names that contain direction words, joined views; single, merged, cumulative, funnel and independently merged queries; any limit; 10 warehouses; every order text of up to 7 (thorough 11) free characters and longer ones from templates"
OUTSIDE = "ordering between rows equal in all keys; string collation (any order of values); where a warehouse puts missing values if it has no NULLS LAST (Druid, SQL Server, Synapse)"
ASSUMPTIONS = ["ORDER BY names denote result columns before source columns"]
NO_NULLS = ("DRUID", "SQL_SERVER", "AZURE_SYNAPSE")
DEFAULT = ("SNOWFLAKE", "REDSHIFT", "DUCK_DB")
COLS = [("id", "int"), ("d1", "code"), ("d2", "int"), ("d3", "int"), ("oid", "int"), ("ts", "ts")]


def build(dialect):
    u = [
        pk("id", type="number"), dim("description", "${TABLE}.d1"), dim("cascade", "${TABLE}.d2", type="number"), dim("asc", "${TABLE}.d3", type="number"), dim("desc", "${TABLE}.d2 + 1", type="number"),
        dim("asc_rank", "${TABLE}.d3", type="number"), dim("last", "${TABLE}.d1"), dim("oid", type="number"), timedim("ts"),
        meas("order_desc", "sum", "${TABLE}.d2"), meas("asc_total", "max", "${TABLE}.d3"), meas("nulls_last_count", "count"), meas("total", "min", "${TABLE}.d2"), meas("desc_ratio", "number", "${asc_total} - ${total}"),
    ]
    d = [pk("id", type="number"), dim("description", "${TABLE}.d1"), dim("first", "${TABLE}.d2", type="number"), meas("top_desc", "max", "${TABLE}.d2")]
    return project([view("u", u, [{"name": "o", "type": "foreign", "sql": "${oid}"}], default_date="ts"), view("desc_view", d, [{"name": "o", "type": "primary", "sql": "${id}"}])], dialect=dialect)


def before(ctx, ev, a, b):
    """the row with keys a comes before the row with keys b; keys [(value, direction, nulls)]"""
    out, tied = [], []
    for (x, d, n), (y, _, _) in zip(a, b):
        desc = (d or "asc").lower() == "desc"
        if n:
            last = n.lower() == "last"
        elif ev.dialect in ("TRINO", "DUCK_DB"):
            last = True
        elif ev.dialect in ("BIGQUERY", "DATABRICKS", "SQL_SERVER", "AZURE_SYNAPSE", "DRUID"):
            last = desc
        else:
            last = not desc
        c = ev.compare(">" if desc else "<", x, y)
        lt = Or(And(Not(c.null), c.v), And(Not(x.null), y.null) if last else And(x.null, Not(y.null)))
        out.append(And(lt, *tied))
        tied.append(ev.same(x, y))
    return Or(*out)


def judge(ctx, ev, sql, R, want, limit, info):
    """want: [(result column, direction)]"""
    q = core_select(parsed(ctx, sql))
    ix = sem(ctx, lambda: [find_col(R, c) for c, _ in want], sql, info)
    ctx.reached()
    all_ = []
    if ev.dialect in NO_NULLS:
        if any(n for ks in R.order for _, _, n in ks):
            ctx.fail("NULLS FIRST/LAST on a warehouse that does not know it", info)
    for i, (r, k) in enumerate(zip(R.rows, R.order)):
        for s, l in list(zip(R.rows, R.order))[i + 1:]:
            if r.p is False or s.p is False:
                continue
            a, b = [[(o.v[x], d, "last") for x, (_, d) in zip(ix, want)] for o in (r, s)]
            pre = And(r.p, s.p)
            if ev.dialect in NO_NULLS:
                pre = And(pre, *[And(Not(x.null), Not(y.null)) for (x, _, _), (y, _, _) in zip(a, b)])
            all_.append(Implies(pre, And(Iff(before(ctx, ev, a, b), before(ctx, ev, k, l)), Iff(before(ctx, ev, b, a), before(ctx, ev, l, k)))))
    ctx.prove(And(*all_), "rows are not sorted by the requested fields, sequence and directions", info)
    top = ev.dialect in ("SQL_SERVER", "AZURE_SYNAPSE")
    if (q.limit if top else q.top) is not None:
        ctx.fail("the row limit is not in the warehouse's syntax", info)
    got = q.top if top else q.limit
    if limit is None:
        if got is not None:
            ctx.fail("a row limit nobody asked for", info)
    elif got is None:
        ctx.fail("the row limit is missing", info)
    else:
        v = ev.force(ev.ev(got, Env(Rel([], []), Row(True, [])), {}))
        ctx.prove(And(Not(v.null), Eq(v.v, sx.ze(limit))), "the row limit is not the requested number", info)
    if inner_limit(parsed(ctx, sql), q):
        ctx.fail("a part of the query is limited to fewer rows", info)


def inner_limit(n, outer):
    from ..sqlp import Node

    if isinstance(n, Node):
        if n.k == "select" and n is not outer and (n.a.get("limit") is not None or n.a.get("top") is not None) and core_key(n) != core_key(outer):
            return True
        return any(inner_limit(v, outer) for v in n.a.values())
    if isinstance(n, (list, tuple)):
        return any(inner_limit(v, outer) for v in n)
    return False


def core_key(n):
    return n.key()


def order_of(ctx, fields, text, nkeys, sep=", "):
    """an order request over the fields -> (order_by argument, [(field, direction)])"""
    want, args = [], []
    left = list(fields)
    for i in range(nkeys):
        f = ctx.pick(f"key{i}", left)
        left.remove(f)
        if text:
            suffix = ctx.pick(f"dir{i}", ["", " asc", " DESC", " Desc nulls last" if i % 2 else " desc  NULLS LAST"])
            args.append(f + suffix)
            want.append((f, "desc" if "desc" in suffix.lower() else "asc"))
        else:
            s = ctx.pick(f"dir{i}", ["asc", "desc", None, "DESC"])
            args.append({"field": f, "sort": s} if s else {"field": f})
            want.append((f, (s or "asc").lower()))
    return (sep.join(args) if text else args), want


def al(f):
    return f.replace(".", "_")


SETS = {
    "plain": dict(metrics=["u.order_desc"], dimensions=["u.description", "u.cascade"]),
    "words": dict(metrics=["u.asc_total"], dimensions=["u.asc", "u.desc", "u.last"]),
    "measures": dict(metrics=["u.nulls_last_count", "u.total", "u.desc_ratio"], dimensions=[]),
    "join": dict(metrics=["u.order_desc"], dimensions=["desc_view.description", "u.asc_rank", "desc_view.first"]),
    "same": dict(metrics=["u.order_desc"], dimensions=["desc_view.description", "u.description"]),
    "dims": dict(metrics=[], dimensions=["u.asc_rank", "u.description"]),
    "time": dict(metrics=["u.nulls_last_count"], dimensions=["u.ts_month", "u.ts_date"]),
    "other": dict(metrics=["desc_view.top_desc"], dimensions=["desc_view.description"]),
}


def result(ctx, dialect, sql, db, info):
    ev = Eval(db, dialect, ctx=ctx)
    ev.numlits = getattr(ctx, "magic", {})
    ev.want_order = True
    return ev, sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)


def tables(ctx):
    return {"db.u": sym_table(ctx, "u", COLS, 2, pk="id"), "db.desc_view": sym_table(ctx, "d", COLS, 1, pk="id")}


def single(ctx, sel, dialect, text, nkeys, limited, short=False):
    base = SETS[sel]
    names = base["dimensions"] + base["metrics"]
    arg, want = order_of(ctx, [n.split(".")[1] for n in names] if short else names, text, nkeys)
    limit = ctx.int("limit", 0, 100000) if limited else None
    req = {**copy.deepcopy(base), "order_by": arg, **({"limit": limit} if limited else {})}
    info = {"request": str(req), "dialect": dialect}
    sql = query(ctx, build(dialect), dialect, what="ordered query", **req)
    info["sql"] = sql
    ev, R = result(ctx, dialect, sql, tables(ctx), info)
    full = {n.split(".")[1]: n for n in names}
    judge(ctx, ev, sql, R, [(al(full.get(f, f)), d) for f, d in want], limit, info)


def default(ctx, sel, dialect, limited, form):
    base = SETS[sel]
    limit = ctx.int("limit", 0, 100000) if limited else None
    req = {**copy.deepcopy(base), **({} if form == "none" else {"order_by": []}), **({"limit": limit} if limited else {})}
    info = {"request": str(req), "dialect": dialect}
    sql = query(ctx, build(dialect), dialect, what="query", **req)
    info["sql"] = sql
    ev, R = result(ctx, dialect, sql, tables(ctx), info)
    want = []
    if dialect in DEFAULT:
        want = [(al(base["metrics"][0]), "desc")] if base["metrics"] else [(al(base["dimensions"][0]), "asc")]
    judge(ctx, ev, sql, R, want, limit, info)


COMPOUND = {
    "merged": ("09", "two", dict(metrics=["u.t", "w.t"], dimensions=["u.r"]), ["u.r", "u.t", "w.t", "w.r"], ["u_r", "u_t", "w_t", "w_r"]),
    "mergeddate": ("09", "two", dict(metrics=["w.t", "u.k"], dimensions=["date", "reg"]), ["date", "u.k", "w.t", "reg"], ["u_ts_date", "u_k", "w_t", "u_r"]),
    "mergedmetric": ("09", "two", dict(metrics=["u.plus"], dimensions=["u.r"]), ["u.plus", "u.r"], ["u_plus", "u_r"]),
    "three": ("09", "three", dict(metrics=["u.t", "w.t", "x.t"], dimensions=["w.r"]), ["x.t", "u.t", "w.r"], ["x_t", "u_t", "w_r"]),
    "cumulative": ("10", None, dict(metrics=["u.c_t"], dimensions=["u.ts_date", "u.r"]), ["u.ts_date", "u.c_t", "u.r"], ["u_ts_date", "u_c_t", "u_r"]),
    "cumulative2": ("10", None, dict(metrics=["u.c_mx", "u.k"], dimensions=["u.ts_date", "u.r"]), ["u.k", "u.c_mx", "u.ts_date"], ["u_k", "u_c_mx", "u_ts_date"]),
    "funnel": ("11", None, dict(metrics=["e.kd"], dimensions=["e.q"], funnel={"steps": [[c11.eq("e.typ", "A")], [c11.eq("e.typ", "B")]], "within": {"value": 3, "unit": "days"}}), ["e.q", "e.kd"], ["e_q", "e_kd"]),
    "independent": ("09", "two", dict(merged_queries=[{"metrics": ["u.t"], "dimensions": ["u.r", "u.q"]}, {"metrics": ["w.k"], "dimensions": ["w.r"], "join_fields": [{"field": "w.r", "source_field": "u.r"}]}]), ["u.r", "w.k", "u.t", "u.q"], ["u_r", "w_k", "u_t", "u_q"]),
}


def world(ctx, which):
    if which == "09":
        db = {f"db.{v}": sym_table(ctx, v, c09.UC, n, pk="id") for v, n in (("u", 2), ("w", 1))}
        db["db.x"] = sym_table(ctx, "x", c09.UC, 1, pk="id")
        return db
    if which == "10":
        return {"db.u": sym_table(ctx, "u", c10.UC, 1, pk="id"), "db.c": sym_table(ctx, "c", c10.CC, 1, pk="id")}
    return {"db.e": sym_table(ctx, "e", c11.EC, 2, pk="id"), "db.c": sym_table(ctx, "c", c11.CC, 1, pk="id")}


def compound(ctx, name, dialect, text, nkeys, limited):
    which, shape, base, fields, cols = COMPOUND[name]
    p = {"09": lambda: c09.build(shape, dialect), "10": lambda: c10.build(dialect), "11": lambda: c11.build(dialect)}[which]()
    limit = ctx.int("limit", 0, 100000) if limited else None
    req = {**copy.deepcopy(base), **({"limit": limit} if limited else {})}
    want = []
    if nkeys:
        arg, want = order_of(ctx, fields, text, nkeys, "," if text == "tight" else ", ")
        req["order_by"] = arg
    info = {"request": str(req), "dialect": dialect, "sig": f"{name}"}
    sql = query(ctx, p, dialect, what="ordered query", **req)
    info["sql"] = sql
    ev, R = result(ctx, dialect, sql, world(ctx, which), info)
    at = dict(zip(fields, cols))
    judge(ctx, ev, sql, R, [(at[f], d) for f, d in want], limit, info)


def unselected(ctx, dialect):
    """a field that is not shown"""
    req = dict(metrics=["u.total"], dimensions=["u.description"], order_by=[{"field": "u.asc_total", "sort": ctx.pick("dir", ["asc", "desc"])}])
    info = {"request": str(req), "sig": "order-by-field-not-shown"}
    try:
        sql = query(ctx, build(dialect), dialect, may_refuse=True, **req)
    except Refused:
        return ctx.reached()
    ctx.reached()
    result(ctx, dialect, sql, {"db.u": sym_table(ctx, "u", COLS, 1, pk="id", fixed_present=True)}, {**info, "sql": sql})


_PARSE = []


def parser(ctx):
    """the product's reader of an order text, on symbolic characters; None when it is not where it used to be"""
    if _PARSE:
        return _PARSE[0]
    fn = None
    for mod, cls in (("metrics_layer.core.sql.query_generator", "MetricsLayerQuery"), ("metrics_layer.core.sql.query_base", "MetricsLayerQueryBase")):
        real = getattr(getattr(importlib.import_module(mod), cls, None), "_parse_order_by_object", None)
        if real is None:
            continue
        if ctx.concrete:
            fn = real
        else:
            home = inspect.getmodule(real).__name__
            m = sstr.load(home)
            owner = next((c for c in vars(m).values() if isinstance(c, type) and "_parse_order_by_object" in vars(c)), None)
            if owner is None:
                continue
            raw = vars(owner)["_parse_order_by_object"]
            fn = raw.__func__ if isinstance(raw, staticmethod) else None if "self" not in inspect.signature(raw).parameters else (lambda t: raw(None, t))
        break
    _PARSE.append(fn)
    return fn


def words(s):
    """[(condition, start, end)] of the first word of a clause"""
    L = len(s.c)
    sp = [ce(ch, 32) for ch in s.c]
    return [(And(*sp[:i], *[Not(x) for x in sp[i:j]], sp[j] if j < L else True), i, j) for i in range(L) for j in range(i + 1, L + 1)]


def text(ctx, template):
    """template: characters, where ? is a free one (letter, digit, _ . or blank); the commas are the template's"""
    parse_text = parser(ctx)
    if parse_text is None:
        return ctx.reached()
    chars = []
    for i, ch in enumerate(template):
        if ch != "?":
            chars.append(ord(ch))
            continue
        b = ctx.zbv(f"c{i}", 8)
        chars.append(z3.simplify(b).as_long() if ctx.concrete else b)
        b = chars[-1] if not ctx.concrete else z3.BitVecVal(chars[-1], 8)
        ctx.assume(z3.Or(b == 32, b == 95, b == 46, z3.And(z3.UGE(b, 97), z3.ULE(b, 122)), z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), z3.And(z3.UGE(b, 48), z3.ULE(b, 57))))
    clauses, cur = [], []
    for ch in chars:
        if isinstance(ch, int) and ch == 44:
            clauses.append(cur)
            cur = []
        else:
            cur.append(ch)
    clauses = [CStr(c).lower() for c in clauses + [cur]]
    for c in clauses:
        ctx.assume(sx.lit(Rx(r"\s*[a-z0-9_.]+(\s+(asc|desc))?(\s+nulls\s+(first|last))?\s*").cond(c)))
    s = CStr(chars)
    value = "".join(map(chr, chars)) if all(isinstance(c, int) for c in chars) else s
    ctx.reached()
    try:
        got = parse_text(value)
    except (sx.EngineError, sx.PathAbort, sx.Found):
        raise
    except Exception as e:
        ctx.fail(f"reading an order text raised {type(e).__name__}: {e}", {"text": repr(value)})
    info = {"text": repr(value), "read as": repr(got)}
    if len(got) != len(clauses):
        ctx.fail(f"{len(clauses)} order keys are read as {len(got)}", info)
    for g, c in zip(got, clauses):
        desc = Rx(r"\s*[a-z0-9_.]+\s+desc(\s+nulls\s+(first|last))?\s*").cond(c)
        f = c18.txt(g["field"])
        ctx.prove(Or(*[And(w, f.eq(c[i:j])) for w, i, j in words(c)]), "an order text is read as another field", info)
        srt = c18.txt(g.get("sort", "asc")).lower()
        ctx.prove(Iff(srt.eq("desc"), desc), "an order text is read as another direction", info)


TEXTS = ["? desc", "?? desc", "??? asc", "????", "??????", "???? desc", "???????", "a ????", "a?????", "ab ?????????", "a desc?", "a? asc", "?desc desc", "desc???", "asc??", "?asc", "a.?? desc, b?? asc", "?? desc,?? asc", "a?? nulls last", "?? asc nulls first, ???", "a ???? nulls last", "desc, asc", "???,???",
         "a_desc??,asc_??  desc", "DESC ????", "A?? DESC", "nulls_last? desc", "last ????, first ????", "a ???? ????? last", "a  desc nulls ????"]


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for i, sel in enumerate(SETS):
        n = len(SETS[sel]["metrics"] + SETS[sel]["dimensions"])
        for j, d in enumerate(ALL):
            if deep or d == "SNOWFLAKE" or (i + j) % 3 == 0:
                out.append(("single", dict(sel=sel, dialect=d, text=bool((i + j) % 2), nkeys=1 + (i + j) % min(n, 2), limited=bool(j % 2))))
                out.append(("default", dict(sel=sel, dialect=d, limited=bool((i + j) % 2), form="none" if j % 2 else "empty")))
        for t in (False, True):
            out.append(("single", dict(sel=sel, dialect="SNOWFLAKE", text=t, nkeys=min(n, 3) if deep else 2, limited=True)))
    for sel in ("words", "measures"):
        for t in (False, True):
            out.append(("single", dict(sel=sel, dialect="REDSHIFT", text=t, nkeys=1, limited=False, short=True)))
    for i, name in enumerate(COMPOUND):
        dl = {"cumulative": c10.DIALECTS, "cumulative2": c10.DIALECTS}.get(name, ALL)
        for j, d in enumerate(dl):
            if deep or d == "SNOWFLAKE" or (i + j) % 4 == 0:
                for t in (False, True):
                    out.append(("compound", dict(name=name, dialect=d, text=t and ("tight" if j % 2 else True), nkeys=2 if d == "SNOWFLAKE" or deep else 1, limited=(i + j) % 2 == 0)))
                out.append(("compound", dict(name=name, dialect=d, text=False, nkeys=0, limited=(i + j) % 2 == 1)))
    for t in TEXTS + (["?" * 9, "?" * 11, "a ???????????", "?? desc nulls ????, ???"] if deep else []):
        out.append(("text", dict(template=t)))
    for d in ALL if deep else ("SNOWFLAKE", "POSTGRES"):
        out.append(("unselected", dict(dialect=d)))
    return out
