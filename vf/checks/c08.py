"""C08: access grants.  User attributes and the allowed values of the grants are symbolic; the real project, resolver and connection run for every
combination (the engine forks where the code inspects them); the solver decides, per path, whether being usable coincides with the stated rule."""
import copy

import z3

from .. import sx
from ..proj import *
from ..sx import And, Iff, Implies, Not, Or

EXPLANATION = __doc__
BOUNDS = "3 views, 3 grants (two on one attribute) with any allowed values out of 2 each, 2 user attributes that are unset, null or any text; every view, field, metric and dashboard can require no, one or both grants; 27 request forms (direct, through definitions, filters, orders, joins, merges, funnels, mappings, text), 12 listing and lookup functions, pairs of successive users"
OUTSIDE = "more grants or attributes; grants on fields that only serve as keys of joins"
ASSUMPTIONS = []

M = "m"
GRANTS = {"g1": ("dep", ["A", "B"]), "g2": ("reg", ["A", "X"]), "g3": ("dep", ["B", "X"])}
OBJ = ["u", "w", "z", "u.d", "u.s", "u.ts", "w.t", "dash"]


def gr(need, obj):
    return {"required_access_grants": list(need[obj])} if need.get(obj) else {}


def build(need, allowed, removed=()):
    g = lambda o: gr(need, o)
    uf = [pk("id", type="number"), dim("r"), dim("d", **g("u.d")), dim("dd", sql="lower(${d})"), dim("cid", type="number", tags=["customer"]), timedim("ts", **g("u.ts")),
          meas("t", "sum", "${TABLE}.n"), meas("s", "sum", "${TABLE}.m", **g("u.s")), meas("x", "number", "${t} / ${s}"), meas("y", "number", "${x} * 2"),
          meas("f", "sum", "${TABLE}.n", filters=[{"field": "d", "value": "A"}]), meas("sd", "sum", "${d}"), meas("cum", "cumulative", measure="s"), meas("mr", "number", "${u.t} / ${z.t}", is_merged_result=True)]
    wf = [pk("id", type="number"), dim("r"), dim("q"), dim("ud", sql="${u.d}"), timedim("ts"), meas("t", "sum", "${TABLE}.n", **g("w.t")), meas("v", "number", "${u.s} + ${w.t}")]
    zf = [pk("id", type="number"), dim("r"), timedim("ts"), meas("t", "sum", "${TABLE}.n")]
    vs = {
        "u": view("u", uf, [{"name": "c", "type": "foreign", "sql": "${cid}"}], default_date="ts", sets=[{"name": "all", "fields": ["r", "d"]}], **g("u")),
        "w": view("w", wf, [{"name": "c", "type": "primary", "sql": "${id}"}], default_date="ts", **g("w")),
        "z": view("z", zf, default_date="ts", **g("z")),
    }
    out = []
    for n, v in vs.items():
        if n in removed:
            continue
        v["fields"] = [f for f in v["fields"] if f"{n}.{f['name']}" not in removed]
        out.append(v)
    db = [{"type": "dashboard", "name": n, "label": n, "layout": "grid", "elements": [], **(g(n) if n == "dash" else {})} for n in ("dash", "open") if n not in removed]
    m = model(mappings={"reg": {"fields": ["u.r", "z.r"]}}, access_grants=[{"name": g, "user_attribute": a, "allowed_values": allowed[g]} for g, (a, _) in GRANTS.items()])
    return Project(models=[m], views=out, dashboards=db, connection_lookup={"c": "SNOWFLAKE"})


EQ = {"field": "u.d", "expression": "equal_to", "value": "A"}
GT = {"field": "u.s", "expression": "greater_than", "value": 1}
FUN = {"steps": [[EQ], [{"field": "u.r", "expression": "equal_to", "value": "A"}]], "within": {"value": 3, "unit": "days"}}
# name -> (request, objects it uses)
FORMS = {
    "dim": (dict(metrics=[], dimensions=["u.d"]), ["u.d"]),
    "dim_bare": (dict(metrics=[], dimensions=["d"]), ["u.d"]),
    "metric": (dict(metrics=["u.s"], dimensions=[]), ["u.s"]),
    "two": (dict(metrics=["u.t", "u.s"], dimensions=["u.d", "u.r"]), ["u.s", "u.d"]),
    "free": (dict(metrics=["u.t"], dimensions=["u.r"]), ["u"]),
    "date": (dict(metrics=["u.t"], dimensions=["u.ts_month"]), ["u.ts"]),
    "number": (dict(metrics=["u.x"], dimensions=["u.r"]), ["u.s"]),
    "nested": (dict(metrics=["u.y"], dimensions=[]), ["u.s"]),
    "derived": (dict(metrics=["u.t"], dimensions=["u.dd"]), ["u.d"]),
    "over_dim": (dict(metrics=["u.sd"], dimensions=[]), ["u.d"]),
    "own_filter": (dict(metrics=["u.f"], dimensions=["u.r"]), ["u.d"]),
    "where": (dict(metrics=["u.t"], dimensions=["u.r"], where=[EQ]), ["u.d"]),
    "where_group": (dict(metrics=["u.t"], dimensions=["u.r"], where=[{"logical_operator": "OR", "conditions": [EQ, {"field": "u.r", "expression": "is_null"}]}]), ["u.d"]),
    "where_text": (dict(metrics=["u.t"], dimensions=["u.r"], where="${u.d} = 'A'"), ["u.d"]),
    "having": (dict(metrics=["u.t"], dimensions=["u.r"], having=[GT]), ["u.s"]),
    "having_text": (dict(metrics=["u.t"], dimensions=["u.r"], having="${u.s} > 1"), ["u.s"]),
    "having_group": (dict(metrics=["u.t"], dimensions=["u.r"], having=[dict(GT, group_by="u.cid")]), ["u.s"]),
    "order": (dict(metrics=["u.s"], dimensions=["u.r"], order_by=[{"field": "u.s", "sort": "desc"}]), ["u.s"]),
    "joined": (dict(metrics=["u.t"], dimensions=["w.q"]), ["u", "w"]),
    "joined_filter": (dict(metrics=["w.t"], dimensions=["w.q"], where=[EQ]), ["w.t", "u.d"]),
    "joined_metric": (dict(metrics=["w.v"], dimensions=["w.q"]), ["w.t", "u.s", "u.ts"]),
    "joined_dim": (dict(metrics=["w.t"], dimensions=["w.ud"]), ["w.t", "u.d"]),
    "merged": (dict(metrics=["u.t", "z.t"], dimensions=["date"]), ["u.ts", "z"]),
    "merged_metric": (dict(metrics=["u.mr"], dimensions=["date"]), ["u.ts", "z"]),
    "cumulative": (dict(metrics=["u.cum"], dimensions=["u.ts_date"]), ["u.s", "u.ts"]),
    "funnel": (dict(metrics=["u.t"], dimensions=[], funnel=FUN), ["u.d", "u.ts"]),
    "converted": (dict(metrics=["u.t"], dimensions=["u.r"], where=[{"field": "u.cid", "expression": "converted", "from": 1, "to": 2, "funnel": FUN}]), ["u.d", "u.ts"]),
    "arbitrary": (dict(merged_queries=[dict(metrics=["u.s"], dimensions=["u.r"]), dict(metrics=["z.t"], dimensions=["z.r"], join_fields=[{"field": "z.r", "source_field": "u.r"}], join_type="left_outer")]), ["u.s", "z"]),
    "text": (dict(sql="SELECT * FROM MQL(u.s BY u.d WHERE ${u.r} = 'A') as q"), ["u.s", "u.d"]),
}
REFUSED = REFUSALS + (StopIteration,)


def setup(ctx):
    """symbolic allowed values; the access rule as a formula"""
    allowed = {g: ctx.subset(f"allowed.{g}", vals) for g, (_, vals) in GRANTS.items()}
    return allowed


def a_user(ctx, tag, some=None):
    u, rule = {}, {}
    for a in dict.fromkeys(a for a, _ in GRANTS.values()):
        st = ctx.pick(f"{tag}.{a}.state", ["value", "unset", "null"] if some is None else some)
        if st == "value":
            u[a] = ctx.str(f"{tag}.{a}", ["A", "B", "X", ""])
        elif st == "null":
            u[a] = None
        rule[a] = None if st != "value" else u[a]
    return u, rule


def grant_ok(ctx, g, rule, allowed):
    a, vals = GRANTS[g]
    v = rule[a]
    if v is None:
        return True
    if isinstance(allowed[g], sx.SymSet):
        return Or(*[And(v.e == ctx.str_code(x), allowed[g].bits[x]) for x in vals])
    return v in allowed[g]


def ok(ctx, objs, need, rule, allowed):
    gs = set()
    for o in objs:
        gs.update(need.get(o) or [])
        if "." in o:
            gs.update(need.get(o.split(".")[0]) or [])
    return And(*[grant_ok(ctx, g, rule, allowed) for g in sorted(gs)])


def attempt(ctx, conn, req, info):
    try:
        return conn.get_sql_query(query_type="SNOWFLAKE", **copy.deepcopy(req)), None
    except REFUSED as e:
        return None, e
    except sx.EngineError:
        raise
    except Exception as e:
        ctx.fail(f"request raised {type(e).__name__}: {e}", info)


def form(ctx, name, need):
    req, objs = FORMS[name]
    info = {"request": str(req), "requires": str(need), "sig": name}
    allowed = setup(ctx)
    user, rule = a_user(ctx, "u1")
    p = build(need, allowed)
    conn = MetricsLayerConnection(project=p, connections=[], user=user)
    sql, err = attempt(ctx, conn, req, info)
    ctx.reached()
    info["outcome"] = sql or f"{type(err).__name__}: {err}"
    expected = ok(ctx, objs, need, rule, allowed)
    ctx.prove(Iff(sql is not None, expected), "a request is served although the user may not use one of its objects" if sql is not None else "a request is refused although the user may use everything in it", info)
    if sql is not None:
        full, err = attempt(ctx, MetricsLayerConnection(project=build({}, allowed), connections=[], user=None), req, info)
        ctx.prove(full is not None and full == sql, "the served query is not the query of an unrestricted project", {**info, "unrestricted": full or str(err)})
    elif name in ("dim", "metric", "free", "date"):
        # the same refusal as in a project without the object
        o = objs[0]
        v = o.split(".")[0]
        for gone in [o, v]:
            hidden = Not(ok(ctx, [gone], {gone: need.get(gone)}, rule, allowed))
            if ctx.decide(sx.lit(hidden)):
                _, e2 = attempt(ctx, MetricsLayerConnection(project=build(need, allowed, [gone]), connections=[], user=user), req, info)
                ctx.prove(type(e2) is type(err) and str(e2) == str(err), "the refusal differs from that of an object that does not exist", {**info, "absent": f"{type(e2).__name__}: {e2}"})
                break


LIST = {
    "views": lambda c: {v.name for v in c.list_views()},
    "fields": lambda c: {f.id() for f in c.list_fields(show_hidden=True)},
    "metrics": lambda c: {f.id() for f in c.list_metrics()},
    "dimensions": lambda c: {f.id() for f in c.list_dimensions()},
    "dashboards": lambda c: {d.name for d in c.list_dashboards()},
    "expanded": lambda c: {f.id() for f in c.project.fields(expand_dimension_groups=True)},
    "sets": lambda c: {f"{s.view_name}.{s.name}" for s in c.project.sets()},
    "joinable": lambda c: {f"{v}>{w}" for v in [x.name for x in c.list_views()] for w in c.project.get_joinable_views(v)},
}


def listing(ctx, need, which):
    """every listing holds exactly the objects of the unrestricted listing that the user may use"""
    allowed = setup(ctx)
    user, rule = a_user(ctx, "u1")
    full = LIST[which](MetricsLayerConnection(project=build({}, allowed), connections=[], user=None))
    info = {"requires": str(need), "sig": which}
    try:
        got = LIST[which](MetricsLayerConnection(project=build(need, allowed), connections=[], user=user))
    except sx.EngineError:
        raise
    except Exception as e:
        ctx.fail(f"listing {which} raised {type(e).__name__}: {e}", info)
    ctx.reached()
    info["got"] = sorted(got)
    ctx.prove(got <= full, f"listing {which} shows an unknown object", info)
    for o in sorted(full):
        base = o
        if which == "joinable":
            objs = o.split(">")
        elif which == "sets":
            objs = [o.split(".")[0]]
        else:
            base = "u.ts" if o.startswith("u.ts") else o
            objs = [base]
        exp = ok(ctx, objs, need, rule, allowed)
        ctx.prove(Iff(o in got, exp), f"listing {which}: {o} is " + ("shown although the user may not use it" if o in got else "missing although the user may use it"), info)


GET = {
    "view": [("get_view", "u", ["u"]), ("get_view", "w", ["w"])],
    "field": [("get_field", "u.d", ["u.d"]), ("get_field", "s", ["u.s"]), ("get_field", "u.ts_month", ["u.ts"]), ("get_field", "u.r", ["u"])],
    "metric": [("get_metric", "s", ["u.s"]), ("get_metric", "u.s", ["u.s"])],
    "dimension": [("get_dimension", "d", ["u.d"]), ("get_dimension", "u.ts_month", ["u.ts"])],
    "dashboard": [("get_dashboard", "dash", ["dash"]), ("get_dashboard", "open", [])],
    "by_name": [("by_name", "u.ts", ["u.ts"]), ("by_tag", "customer", ["u"]), ("exists", "u.d", ["u.d"])],
}


def lookup(ctx, need, which):
    allowed = setup(ctx)
    user, rule = a_user(ctx, "u1")
    for fn, name, objs in GET[which]:
        info = {"lookup": f"{fn}({name})", "requires": str(need), "sig": fn}

        def call(c):
            if fn == "by_name":
                return c.project.get_field_by_name(name)
            if fn == "by_tag":
                return c.project.get_field_by_tag(name)
            if fn == "exists":
                if not c.project.does_field_exist(name):
                    raise AccessDeniedOrDoesNotExistException("", object_name=name, object_type="field")
                return True
            return getattr(c, fn)(name)

        def outcome(p):
            try:
                return call(MetricsLayerConnection(project=p, connections=[], user=user)), None
            except REFUSED as e:
                return None, e
            except sx.EngineError:
                raise
            except Exception as e:
                ctx.fail(f"{fn} raised {type(e).__name__}: {e}", info)

        got, err = outcome(build(need, allowed))
        ctx.reached()
        expected = ok(ctx, objs, need, rule, allowed)
        ctx.prove(Iff(got is not None, expected), f"{fn}({name}) " + ("returns an object the user may not use" if got is not None else "refuses an object the user may use"), info)
        if err is not None and fn not in ("by_tag",):
            for gone in list(dict.fromkeys([objs[0], objs[0].split(".")[0]])):
                hidden = Not(ok(ctx, [gone], {gone: need.get(gone)}, rule, allowed))
                if ctx.decide(sx.lit(hidden)):
                    _, e2 = outcome(build(need, allowed, [gone]))
                    same = type(e2) is type(err) and str(e2) == str(err) and getattr(e2, "object_name", None) == getattr(err, "object_name", None)
                    ctx.prove(same, "the refusal differs from that of an object that does not exist", {**info, "error": str(err), "absent": f"{type(e2).__name__}: {e2}"})
                    break


def history(ctx, first, name, need, via):
    """one project used by one user and then by another: the second user's rights decide"""
    allowed = {g: list(v[:1]) for g, (_, v) in GRANTS.items()}
    u1, _ = a_user(ctx, "u1", ["value", "unset"])
    nobody = ctx.flag("first without user")
    p = build(need, allowed)
    conn = MetricsLayerConnection(project=p, connections=[], user=None if nobody else u1)
    info = {"first": str(FORMS[first][0]), "then": str(FORMS[name][0]), "requires": str(need), "sig": f"{first} {name}"}
    attempt(ctx, conn, FORMS[first][0], info)
    for fn in LIST.values():
        try:
            fn(conn)
        except REFUSED:
            pass
    u2, rule = a_user(ctx, "u2", ["value", "unset"])
    if via == "connection":
        conn.set_user(u2)
    elif via == "project":
        p.set_user(u2)
    else:
        conn = MetricsLayerConnection(project=p, connections=[], user=u2)
    req, objs = FORMS[name]
    sql, err = attempt(ctx, conn, req, info)
    ctx.reached()
    info["outcome"] = sql or f"{type(err).__name__}: {err}"
    ctx.prove(Iff(sql is not None, ok(ctx, objs, need, rule, allowed)), "after another user, " + ("a request is served although the current user may not use one of its objects" if sql is not None else "a request is refused although the current user may use everything in it"), info)
    got = LIST["fields"](conn)
    for o in ("u.d", "u.s", "u.t", "w.t", "w.q", "z.t"):
        ctx.prove(Iff(o in got, ok(ctx, [o], need, rule, allowed)), f"after another user, the listing is wrong about {o}", info)


ASSIGN = [
    {"u.d": ["g1"], "u.s": ["g2"]},
    {"u.d": ["g1", "g3"], "u.ts": ["g2"], "u.s": ["g3", "g1"], "dash": ["g1", "g3"]},
    {"u": ["g1"], "w.t": ["g2"], "dash": ["g1", "g2"]},
    {"w": ["g1"], "u.s": ["g1"], "z": ["g2"]},
    {"z": ["g1", "g2"], "u.ts": ["g1"], "w.t": ["g1", "g2"]},
    {"u": ["g2"], "u.d": ["g1"], "u.s": ["g1", "g2"], "w": ["g2"], "dash": ["g2"]},
    {},
]


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for i, n in enumerate(FORMS):
        objs = FORMS[n][1]
        used = [a for a in ASSIGN if any(a.get(o) or a.get(o.split(".")[0]) for o in objs)]
        for a in ASSIGN if deep else [used[i % len(used)], used[(i + 1) % len(used)]]:
            if ("form", dict(name=n, need=a)) not in out:
                out.append(("form", dict(name=n, need=a)))
    for a in ASSIGN:
        for w in LIST:
            out.append(("listing", dict(need=a, which=w)))
        for w in GET:
            out.append(("lookup", dict(need=a, which=w)))
    names = ["dim", "number", "own_filter", "joined", "joined_metric", "merged", "cumulative", "funnel", "mapped"]
    names = [n for n in names if n in FORMS]
    for i, n in enumerate(names):
        for j, f in enumerate(names if deep else [n, names[(i + 3) % len(names)]]):
            for k, a in enumerate(ASSIGN[:6]):
                if any(a.get(o) or a.get(o.split(".")[0]) for o in FORMS[n][1]) and (deep or (i + j + k) % 2 == 0 or n == "joined"):
                    out.append(("history", dict(first=f, name=n, need=a, via=["connection", "project", "new"][(i + j + k) % 3])))
    return out
