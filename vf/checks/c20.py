"""C20: names.  The real lookup functions run on a reference whose characters are symbolic; for every text they return the one field and bucket
the text denotes under the naming rules stated here, or refuse it when it denotes none or several."""
import contextlib
import inspect
import itertools

import z3

from .. import sx
from ..proj import *
from ..sstr import CStr, Rx, ce
from ..sx import And, Eq, Iff, Implies, Not, Or
from metrics_layer.core.model.field import Field

EXPLANATION = __doc__
BOUNDS = "every reference of up to 7 characters (thorough 13: letters of both cases, digits, _ and .) and longer ones from templates, over projects of 3 views with overlapping field, group, bucket and view names; every subset of time buckets and duration units; references in metrics, dimensions, filters, orders and ${} texts in any letter case"
OUTSIDE = "characters that cannot occur in names; model mappings (C27); the same names in several models"
ASSUMPTIONS = ["an extra prefix before view.field is ignored"]


def duration(name, intervals):
    return {"field_type": "dimension_group", "name": name, "type": "duration", "sql_start": "${TABLE}.a", "sql_end": "${TABLE}.b", "intervals": intervals}


def views(kind):
    if kind == "plain":
        u = [pk("id", type="number"), dim("r"), dim("Ab"), timedim("ts", timeframes=["raw", "date", "month"]), duration("a", ["day", "hour"]), meas("k", "count"), meas("r_k", "max", "${TABLE}.n")]
        w = [pk("id", type="number"), dim("r"), dim("ab_c"), meas("k", "count"), meas("count", "count"), timedim("w", timeframes=["week", "day_of_week"])]
        x = [pk("idx", type="number"), dim("u"), dim("ts_week"), dim("hours"), dim("w"), meas("m", "sum", "${TABLE}.n")]
        return [view("u", u, [], default_date="ts"), view("w", w, [], default_date="w"), view("Ux", x, [])]
    # names that contain each other and the bucket names
    u = [pk("id", type="number"), dim("ts_date"), dim("date"), timedim("ts", timeframes=["raw", "date", "day_of_week"]), timedim("day", timeframes=["date", "day_of_week", "day_of_month"]), timedim("ts_day", timeframes=["date", "of_x" if False else "week"]),
         duration("a", ["day"]), duration("s_a", ["day"]), duration("days", ["day", "week"]), meas("days_b", "count")]
    w = [pk("id", type="number"), timedim("day_day", timeframes=["date", "month"]), timedim("date", timeframes=["date", "raw"]), duration("b", ["day"]), meas("u", "count"), meas("u_ts", "count"), dim("w")]
    return [view("u", u, [], default_date="ts"), view("w", w, [], default_date="date")]


def catalogue(kind, declared=False):
    """[(view, name, id, kind of field)] every reference name of the project, from the definitions"""
    out = []
    for v in views(kind):
        vn = v["name"].lower()
        for f in v["fields"]:
            n = f["name"].lower()
            if declared:
                names = [n]
            elif f["field_type"] == "dimension_group" and f["type"] == "time":
                names = [f"{n}_{t}" for t in f["timeframes"]]
            elif f["field_type"] == "dimension_group":
                names = [f"{i}s_{n}" for i in f["intervals"]]
            else:
                names = [n]
            out += [(vn, a, f["field_type"]) for a in names]
    return out


@contextlib.contextmanager
def uncached(*classes):
    """memoised lookups run every time (a memo cannot be keyed by symbolic text)"""
    saved = []
    for c in classes:
        for n, f in list(vars(c).items()):
            if hasattr(f, "cache_clear") and hasattr(f, "__wrapped__"):
                saved.append((c, n, f))
                setattr(c, n, f.__wrapped__)
    try:
        yield
    finally:
        for c, n, f in saved:
            setattr(c, n, f)


def sym_text(ctx, template):
    chars = []
    for i, ch in enumerate(template):
        if ch != "?":
            chars.append(ord(ch))
            continue
        b = ctx.zbv(f"c{i}", 8)
        chars.append(z3.simplify(b).as_long() if ctx.concrete else b)
        b = chars[-1] if not ctx.concrete else z3.BitVecVal(chars[-1], 8)
        ctx.assume(z3.Or(b == 95, b == 46, z3.And(z3.UGE(b, 97), z3.ULE(b, 122)), z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), z3.And(z3.UGE(b, 48), z3.ULE(b, 57))))
    s = CStr(chars)
    return s, "".join(map(chr, chars)) if ctx.concrete else s


def denotes(cat, s, view_name=None):
    """[(id, field kind, condition)] with the implicit row count of every view"""
    low = s.lower()
    vs = list(dict.fromkeys(v for v, _, _ in cat))
    out = []
    dotted = Rx(r".*\..*").cond(low)
    for v, a, t in cat:
        with_view = Rx(rf"([^.]*\.)?{v}\.{a}").cond(low)
        if view_name is None:
            out.append((f"{v}.{a}", t, Or(low.eq(a), with_view)))
        elif view_name == v:
            out.append((f"{v}.{a}", t, Or(low.eq(a), with_view)))
    for v in vs:
        if (v, "count") in [(x, y) for x, y, _ in cat]:
            continue
        c = Rx(rf"([^.]*\.)?{v}\.count").cond(low)
        if view_name is None:
            out.append((f"{v}.count", "measure", c))
        elif view_name == v:
            out.append((f"{v}.count", "measure", Or(c, low.eq("count"))))
    return out


def resolve(ctx, kind, template, via, view_name=None):
    p = project(views(kind))
    conn = connection(p)
    cat = catalogue(kind, via == "by_name")
    s, value = sym_text(ctx, template)
    kw = {"view_name": view_name} if view_name else {}
    cands = denotes(cat, s, view_name.lower() if view_name else None)
    want = {"metric": ("measure",), "dimension": ("dimension", "dimension_group")}.get(via)
    ctx.reached()
    info = {"reference": repr(value), "via": via, "kind": kind}
    cls = (type(p),)
    try:
        with uncached(*cls), contextlib.redirect_stdout(io.StringIO()):
            if via == "exists":
                got = p.does_field_exist(value, **kw)
            elif via == "by_name":
                f = p.get_field_by_name(value, **kw)
                got = f"{f.view.name}.{f.name}"
            else:
                f = {"field": conn.get_field, "project": p.get_field, "metric": conn.get_metric, "dimension": conn.get_dimension}[via](value, **kw)
                got = f.id()
                bucket = f.dimension_group
    except (sx.EngineError, sx.PathAbort, sx.Found):
        raise
    except REFUSALS:
        got = None
    except Exception as e:
        ctx.fail(f"looking up a name raised {type(e).__name__}: {e}", info)
    info["resolved to"] = got
    if via == "exists" and got is not None:
        return ctx.prove(Iff(got, Or(*[c for _, _, c in cands])), "a name is reported to exist although it does not, or not although it does", info)
    if via == "exists":
        return ctx.prove(several(cands), "asking whether a name exists is refused", info)
    if got is None:
        ok = [And(c, *[Not(o) for j, (_, _, o) in enumerate(cands) if j != i]) for i, (_, t, c) in enumerate(cands) if want is None or t in want]
        return ctx.prove(Not(Or(*ok)), "a reference that denotes one field is refused", info)
    here = [i for i, (n, t, c) in enumerate(cands) if n == got and (want is None or t in want)]
    ctx.prove(Or(*[And(cands[i][2], *[Not(c) for j, (_, _, c) in enumerate(cands) if j != i]) for i in here]), "a reference resolves to a field it does not denote, or to one of several", info)
    if f.field_type == "dimension_group" and via != "by_name":
        name = f.name
        exp = got.split(".")[1]
        exp = exp[len(name) + 1:] if f.type == "time" else exp[: -len(name) - 1]
        if bucket != exp:
            ctx.fail(f"the bucket of {got} is {bucket}", info)


def several(cands):
    return Or(*[And(a, b) for (_, _, a), (_, _, b) in itertools.combinations(cands, 2)])


def named(ctx, kind, template, what):
    """views, dashboards, models by name"""
    p = project(views(kind))
    conn = connection(p)
    s, value = sym_text(ctx, template)
    names = {"view": [v["name"].lower() for v in views(kind)], "model": ["m"]}[what]
    ctx.reached()
    try:
        with uncached(type(p)):
            got = {"view": conn.get_view, "model": conn.get_model}[what](value).name
    except (sx.EngineError, sx.PathAbort, sx.Found):
        raise
    except REFUSALS:
        got = None
    except Exception as e:
        ctx.fail(f"looking up a {what} raised {type(e).__name__}: {e}", {"name": repr(value)})
    info = {"name": repr(value), "got": got}
    if got is None:
        ctx.prove(Not(Or(*[s.eq(n) for n in names])), f"an existing {what} is not found", info)
    else:
        ctx.prove(s.lower().eq(got), f"another {what} is returned", info)


FRAMES = ["raw", "time", "date", "week", "month", "month_of_year", "day_of_week", "day_of_month"]
UNITS = ["second", "hour", "day", "week", "month", "quarter", "year"]


def listed(ctx, name, kind):
    """every id the project lists resolves to that field; undeclared buckets are refused"""
    options = FRAMES if kind == "time" else UNITS
    chosen = [o for o in options if ctx.flag(o)]
    if not chosen:
        return ctx.reached()
    g = timedim(name, timeframes=list(chosen)) if kind == "time" else duration(name, list(chosen))
    p = project([view("u", [pk("id", type="number"), dim("day"), g, meas("k", "count")], [], default_date=name if kind == "time" else None),
                 view("w", [pk("id", type="number"), dim("day"), {**g, "sql": "${TABLE}.z"} if kind == "time" else dict(g)], [])])
    ctx.reached()
    ids = [f.id() for f in p.fields(expand_dimension_groups=True)]
    want = [f"{v}.{a}" for v in ("u", "w") for a in ["id", "day"] + [f"{name}_{c}" if kind == "time" else f"{c}s_{name}" for c in chosen] + (["k"] if v == "u" else [])]
    if sorted(ids) != sorted(want):
        ctx.fail("the listed field ids are not those of the definitions", {"listed": ids, "defined": want})
    for i in ids + [i.upper() for i in ids]:
        try:
            f = p.get_field(i)
        except REFUSALS as e:
            ctx.fail(f"listed field {i} does not resolve: {e}", {})
        if f.id() != i.lower():
            ctx.fail(f"{i} resolves to {f.id()}", {})
    for o in options:
        i = f"u.{name}_{o}" if kind == "time" else f"u.{o}s_{name}"
        if i not in want and p.does_field_exist(i):
            ctx.fail(f"bucket {i} exists although it is not declared", {})


def spelled(ctx, where, dialect):
    """a request whose references are written in any letter case, with or without view, is the same request"""
    def ref(i, view_name, name):
        n = name if ctx.flag(f"bare{i}") else f"{view_name}.{name}"
        return {"lower": n, "upper": n.upper(), "title": n.title()}[ctx.pick(f"case{i}", ["lower", "upper", "title"])]

    def req(r):
        m, d = r(0, "u", "r_k"), r(1, "u", "ts_month")
        q = dict(metrics=[m], dimensions=[d])
        if where == "list":
            q["where"] = [{"field": r(2, "u", "ab"), "expression": "equal_to", "value": "Act.Ab"}]
        elif where == "group":
            q["where"] = [{"logical_operator": "OR", "conditions": [{"field": r(2, "u", "hours_a"), "expression": "greater_than", "value": 2}, {"field": "u.ab", "expression": "is_null"}]}]
        elif where == "text":
            q["where"] = "${" + r(2, "u", "ab") + "} = 'Act.Ab' and ${u.hours_a} > 3"
        elif where == "having":
            q["having"] = [{"field": r(2, "u", "r_k"), "expression": "less_than", "value": 4}]
        elif where == "order":
            q["order_by"] = [{"field": r(2, "u", "ts_month"), "sort": "desc"}]
        elif where == "ordertext":
            q["order_by"] = f"{r(2, 'u', 'r_k')} desc"
        return q

    a = query(ctx, project(views("plain"), dialect=dialect), dialect, what="request in another letter case", **req(ref))
    b = query(ctx, project(views("plain"), dialect=dialect), dialect, **req(lambda i, v, n: f"{v}.{n}"))
    ctx.reached()
    if a != b:
        ctx.fail("a request written in another letter case gives another query", {"sql": a, "canonical": b})


T = {
    "plain": ["U.?????", "?.ts_date", "ts_m????", "?.HOURS_A", "days_?", "????_a", "w.w_????????", "u?.????", "?.?.R", "x.??.m", "a.u.????", "ux.ts_????", "TS_????", "?.count", "u.ts??date", "?????_of_week", "w.k?", "ab??", "?.ab??", "u.id?", "id?", "?u.r", "u.ts_raw?", "hours?", "?hours"],
    "nasty": ["u.ts_d???", "day_??????", "?.day_day_????", "days_?????", "?.days_days", "date_????", "date", "u_ts?", "?.days_s_?", "????_days", "ts_day_????", "u.day_day_of_?????", "ts_date?", "?.u_ts", "u.u_ts", "days_b", "w.days_?", "w.day_???_date"],
}


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("plain", "nasty"):
        for n in range(0, 14 if deep else 8):
            for via in ("field", "metric", "dimension", "project", "exists") if deep or n in (1, 3, 6) else ("field",):
                out.append(("resolve", dict(kind=kind, template="?" * n, via=via)))
        for i, t in enumerate(T[kind]):
            for via in ("field", "metric", "dimension", "project", "exists") if deep else ("field", ("metric", "dimension", "project", "exists")[i % 4]):
                out.append(("resolve", dict(kind=kind, template=t, via=via)))
        for t in ["?" * n for n in range(1, 6 if deep else 4)] + ["?.?", "u.?s", "?.ts?da??", "?.cou??", "w.??y_?ay", "u.?"]:
            for vn in (None, "U", "w") if "." not in t or deep else (None,):
                out.append(("resolve", dict(kind=kind, template=t, via="by_name", **({"view_name": vn} if vn else {}))))
        for n in (1, 4, 6):
            for vn in ("u", "W", "zz"):
                out.append(("resolve", dict(kind=kind, template="?" * n, via="field", view_name=vn)))
        for n in range(0, 5):
            out.append(("named", dict(kind=kind, template="?" * n, what="view")))
    for n in (1, 2, 3):
        out.append(("named", dict(kind="plain", template="?" * n, what="model")))
    for name in ("ts", "day", "raw", "date_of", "s"):
        for kind in ("time", "duration"):
            if deep or name in ("day", "date_of"):
                out.append(("listed", dict(name=name, kind=kind)))
    for w in ("none", "list", "group", "text", "having", "order", "ordertext"):
        out.append(("spelled", dict(where=w, dialect="SNOWFLAKE" if w != "having" else "BIGQUERY")))
    return out
