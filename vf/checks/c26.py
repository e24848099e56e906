"""C26: mandatory (always) filters of a view.  The real resolver answers every form of request over a view that declares them; the SQL,
evaluated over all contents of bounded symbolic tables, must return what the same request without mandatory filters returns on the rows of
the view that satisfy all of them (for joined requests: what the request with those filters written out as its own filters returns)."""
import copy

from .. import ref, sx
from ..proj import *
from ..sqls import Eval, Row, Table, sym_table
from ..sx import And, Eq, Implies, Not, Or
from . import c07
from .c07 import ACOLS, FORMS, JOINED, UCOLS, WCOLS, nn, visible

EXPLANATION = __doc__
BOUNDS = "tables of 2 rows per view (funnels 3), 2 spine dates; 30 request forms; 9 kinds of mandatory filters (equality, negation, range, list, null, date, yes/no, two filters, another view's field); free-text, single and grouped request filters"
OUTSIDE = "views whose fields occur only inside filters or inside another view's definitions; sub-selects of group-by filters (they answer for all rows of the view)"

AF = {
    "eq": ([{"field": "r", "value": "EU"}], lambda r, db, ev: And(nn(r["r"]), r["r"].v == ev.code("EU"))),
    "eqdot": ([{"field": "u.r", "value": "EU"}], lambda r, db, ev: And(nn(r["r"]), r["r"].v == ev.code("EU"))),
    "neg": ([{"field": "r", "value": "-EU"}], lambda r, db, ev: And(nn(r["r"]), r["r"].v != ev.code("EU"))),
    "gt": ([{"field": "n", "value": ">5"}], lambda r, db, ev: And(nn(r["n"]), r["n"].v > 5)),
    "in": ([{"field": "r", "value": "EU, US"}], lambda r, db, ev: And(nn(r["r"]), Or(r["r"].v == ev.code("EU"), r["r"].v == ev.code("US")))),
    "null": ([{"field": "r", "value": "NULL"}], lambda r, db, ev: r["r"].null),
    "yes": ([{"field": "yor", "value": "TRUE"}], lambda r, db, ev: Or(And(nn(r["yn"]), r["yn"].v), And(nn(r["yo"]), r["yo"].v))),
    "no": ([{"field": "yor", "value": "FALSE"}], lambda r, db, ev: And(nn(r["yn"]), nn(r["yo"]), Not(r["yn"].v), Not(r["yo"].v))),
    "two": ([{"field": "r", "value": "EU"}, {"field": "n", "value": ">5"}], c07.two),
    "same": ([{"field": "n", "value": ">5"}, {"field": "n", "value": "<9"}], lambda r, db, ev: And(nn(r["n"]), r["n"].v > 5, r["n"].v < 9)),
    "twoneg": ([{"field": "r", "value": "-EU"}, {"field": "r", "value": "-US"}], lambda r, db, ev: And(nn(r["r"]), r["r"].v != ev.code("EU"), r["r"].v != ev.code("US"))),
    "three": ([{"field": "n", "value": ">5"}, {"field": "n", "value": ">2"}, {"field": "n", "value": "-7"}], lambda r, db, ev: And(nn(r["n"]), r["n"].v > 5, r["n"].v != 7)),
    "bounds": ([{"field": "n", "value": ">=5"}, {"field": "n", "value": "<=5"}], lambda r, db, ev: And(nn(r["n"]), r["n"].v == 5)),
    "date": ([{"field": "ts_date", "value": "after 2024-01-01"}], lambda r, db, ev: And(nn(r["ts"]), r["ts"].v - r["ts"].v % 86400 >= 1704067200)),
    "acct": ([{"field": "a.r", "value": "EU"}], c07.via_acct),
    "none": ([], lambda r, db, ev: True),
}

REQ = {k: v for k, v in FORMS.items() if k not in ("group_by", "merged", "merged_rev", "merged_metric", "merged_having", "merged_where", "arbitrary", "arbitrary2", "order")}
REQ["where_dict"] = dict(metrics=["u.t"], dimensions=["u.q"], where={"field": "u.n", "expression": "less_than", "value": 9})
REQ["text_and"] = dict(metrics=["u.t"], dimensions=["u.q"], where="${u.n} > 1 and ${u.n} < 7")
REQ["mapped_text"] = dict(metrics=["u.t"], dimensions=["u.q"], where="${reg} = 'A' or ${u.n} < 7")
REQ["mapped_where"] = dict(metrics=["u.t"], dimensions=["u.q"], where=[{"field": "reg", "expression": "equal_to", "value": "A"}])
REQ["dim_twice"] = dict(metrics=["u.t", "u.k", "u.mx"], dimensions=["u.q", "u.n"])
MERGED = {k: FORMS[k] for k in ("merged", "merged_rev", "merged_having", "merged_where")}
JREQ = {k: v for k, v in JOINED.items() if any(f.startswith("u.") for f in v["metrics"] + v["dimensions"])}
JREQ["j_both"] = dict(metrics=["u.t", "w.t"], dimensions=["w.r"])
JREQ["j_text_u"] = dict(metrics=["w.t"], dimensions=["u.q"], where="${u.n} > 3 or ${w.n} > 3")


def aviews(always, joined):
    vs = c07.views([], joined)
    if always:
        vs[0]["always_filter"] = copy.deepcopy(always)
    return vs


def ask(ctx, vs, m, dialect, req, what):
    p = project(vs, [m], dialect=dialect)
    return query(ctx, p, dialect, what=what, **copy.deepcopy(req)), p


def tables(ctx, name, rows):
    n = max(rows, 3 if "funnel" in name or name in ("converted", "dropped") else rows)
    return {"db.u": sym_table(ctx, "u", UCOLS, n, pk="id"), "db.w": sym_table(ctx, "w", WCOLS, rows, pk="id"), "db.a": sym_table(ctx, "a", ACOLS, 2, pk="id")}


def form(ctx, name, af, dialect, rows):
    req = {**REQ, **MERGED}[name]
    always, vis = AF[af]
    m = model(mappings={"reg": {"fields": ["u.r", "w.r"]}})
    sql, p = ask(ctx, aviews(always, False), m, dialect, req, "request on a view with mandatory filters")
    bare, _ = ask(ctx, aviews([], False), m, dialect, req, "request")
    info = {"sql": sql, "always_filter": always, "form": name, "sig": f"{name}|{af}"}
    db = tables(ctx, name, rows)
    ev = Eval(db, dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    hid = dict(db)
    hid["db.u"] = visible(db["db.u"], db, ev, vis)
    if name in MERGED:
        # the filter is on the mapped field: it constrains both sides through their own field
        hid["db.w"] = visible(db["db.w"], db, ev, vis)
    ev.db, ev._sub = hid, {}
    B = sem(ctx, lambda: ev.query(parsed(ctx, bare)), bare, info)
    ref.bags_equal(ctx, ev, R, B, info, "the result is not that of the same request over the rows satisfying the mandatory filters")


WRITTEN = {
    "eq": [{"field": "u.r", "expression": "equal_to", "value": "EU"}],
    "neg": [{"field": "u.r", "expression": "not_equal_to", "value": "EU"}],
    "in": [{"field": "u.r", "expression": "isin", "value": ["EU", "US"]}],
    "null": [{"field": "u.r", "expression": "is_null"}],
    "twoneg": [{"field": "u.r", "expression": "not_equal_to", "value": "EU"}, {"field": "u.r", "expression": "not_equal_to", "value": "US"}],
    "two": [{"field": "u.r", "expression": "equal_to", "value": "EU"}, {"field": "u.n", "expression": "greater_than", "value": 5}],
    "acct": [{"field": "a.r", "expression": "equal_to", "value": "EU"}],
}


def joined(ctx, name, af, dialect, rows, wtoo=False):
    """wtoo: the other view declares a mandatory filter as well"""
    req = copy.deepcopy(JREQ[name])
    always, _ = AF[af]
    av = aviews(always, True)
    if wtoo:
        av[1]["always_filter"] = [{"field": "c", "value": ">2"}]
    sql, _ = ask(ctx, av, model(), dialect, req, "request on a view with mandatory filters")
    w = req.get("where") or []
    vs = aviews([], True)
    if isinstance(w, str):
        texts = {"eq": "${u.r} = 'EU'", "neg": "${u.r} <> 'EU'", "in": "${u.r} in ('EU','US')", "null": "${u.r} is null", "twoneg": "${u.r} <> 'EU' and ${u.r} <> 'US'", "two": "${u.r} = 'EU' and ${u.n} > 5", "acct": "${a.r} = 'EU'"}
        req["where"] = f"({w}) and {texts[af]}" + (" and ${w.c} > 2" if wtoo else "")
    else:
        req["where"] = w + copy.deepcopy(WRITTEN[af]) + ([{"field": "w.c", "expression": "greater_than", "value": 2}] if wtoo else [])
    full, _ = ask(ctx, vs, model(), dialect, req, "request with the filters written out")
    info = {"sql": sql, "always_filter": always, "form": name, "sig": f"{name}|{af}"}
    ev = Eval(tables(ctx, name, rows), dialect, ctx=ctx)
    ev.lax_order = True
    R = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    B = sem(ctx, lambda: ev.query(parsed(ctx, full)), full, info)
    ref.bags_equal(ctx, ev, R, B, info, "the result is not that of the request with the mandatory filters written out")


def untouched(ctx, af, dialect):
    """requests and declared filters are not modified by answering a request, and asking again gives the same answer"""
    always, vis = AF[af]
    vs = aviews(always, False)
    p = project(vs, [model()], dialect=dialect)
    conn = connection(p)
    shape = ctx.pick("where", ["list", "dict", "empty"])
    where = {"list": [{"field": "u.n", "expression": "less_than", "value": 9}], "dict": {"field": "u.n", "expression": "less_than", "value": 9}, "empty": []}[shape]
    keep = copy.deepcopy(where)
    out = []
    try:
        for _ in range(2):
            out.append(conn.get_sql_query(query_type=dialect, metrics=["u.t"], dimensions=["u.q"], where=where))
            plain = lambda x: {k: v for k, v in x.items() if k in ("field", "expression", "value")} if isinstance(x, dict) else [plain(i) for i in x]
            if plain(where) != keep:
                ctx.fail("the request's filters were changed by answering it", {"before": keep, "after": str(where)})
    except sx.EngineError:
        raise
    except REFUSALS + (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
        ctx.fail(f"request raised {type(e).__name__}: {e}", {"where": keep})
    info = {"sql": out[1], "first": out[0], "sig": f"untouched|{af}|{shape}"}
    db = tables(ctx, "u", 2)
    ev = Eval(db, dialect, ctx=ctx)
    A = sem(ctx, lambda: ev.query(parsed(ctx, out[0])), out[0], info)
    ctx.reached()
    B = sem(ctx, lambda: ev.query(parsed(ctx, out[1])), out[1], info)
    ref.bags_equal(ctx, ev, A, B, info, "asking again gives another result")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    kinds = list(AF)
    for i, f in enumerate(REQ):
        ks = kinds if deep else ["eq", "two", "twoneg", kinds[i % len(kinds)], kinds[(i * 5 + 3) % len(kinds)]]
        for k in dict.fromkeys(ks):
            out.append(("form", dict(name=f, af=k, dialect="SNOWFLAKE", rows=2)))
    for k in kinds:
        out.append(("form", dict(name="metric_dim", af=k, dialect="SNOWFLAKE", rows=3)))
        out.append(("form", dict(name="text", af=k, dialect="SNOWFLAKE", rows=2)))
        out.append(("untouched", dict(af=k, dialect="SNOWFLAKE")))
    for f in MERGED:
        for k in ("eq", "neg", "in", "eqdot"):
            out.append(("form", dict(name=f, af=k, dialect="SNOWFLAKE", rows=2)))
    for i, f in enumerate(JREQ):
        ks = list(WRITTEN) if deep else ["two", "acct", list(WRITTEN)[i % len(WRITTEN)]]
        for k in dict.fromkeys(ks):
            out.append(("joined", dict(name=f, af=k, dialect="SNOWFLAKE", rows=2)))
        if any(x.startswith("w.") for x in JREQ[f]["metrics"] + JREQ[f]["dimensions"]):
            out.append(("joined", dict(name=f, af="two", dialect="SNOWFLAKE", rows=2, wtoo=True)))
    for d in ALL[1:]:
        for f in ("metric_dim", "text", "where_dict"):
            for k in ("two", "date", "yes"):
                out.append(("form", dict(name=f, af=k, dialect=d, rows=2)))
    seen, res = set(), []
    # a date filter on a cumulative metric limits the dates shown, not what is accumulated
    out = [j for j in out if not (j[1].get("af") == "date" and j[1].get("name", "").startswith("cumulative"))]
    for j in out:
        k = json.dumps(j, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(j)
    return res
