"""C29: the answer does not depend on the order in which sets are iterated.  The working tree is loaded with every set it builds replaced by a
set whose iteration order is chosen by the solver (vf/orders.py); the answer under every such order is the answer under the alphabetical one."""
from .. import orders, sx  # orders re-imports the real code: before anything that uses it
from ..proj import *
from ..sx import And, Or
import contextlib
import copy
import io
import json


EXPLANATION = __doc__
BOUNDS = "31 requests over three projects (joined with several paths, unjoinable, access filters) and 9 listings; sets of up to 3 elements (thorough 4) in every order, larger ones in 4 (thorough 6) orders"
OUTSIDE = "sets built inside libraries other than networkx's subgraph and component sets; other orders of large sets; dictionaries (ordered by the language)"
ASSUMPTIONS = ["one order of elements holds for all sets of a run"]


def answer(ctx, free, fn):
    orders.Order.ctx = ctx if free else None
    try:
        return fn()
    except Refused as e:
        return "refused"
    finally:
        orders.Order.ctx = None


def U(**k):
    return [pk("id", type="number"), dim("r"), dim("n", type="number"), dim("wid", type="number"), dim("xid", type="number"), timedim("ts"), timedim("ts2"),
            meas("t", "sum", "${TABLE}.n"), meas("k", "count"), meas("t2", "sum", "${TABLE}.n", canon_date="ts2")]


def star():
    """u -> w, u -> x, x -> y; u, w and y with access filters"""
    f = [{"field": "{v}.r", "user_attribute": "reg"}]

    def af(v):
        return [{"field": v + ".r", "user_attribute": "reg"}]

    def F(tail):
        return {"name": tail, "type": "foreign", "sql": "${" + tail + "}"}

    def P(n):
        return {"name": n, "type": "primary", "sql": "${id}"}

    vs = [view("u", U(), [P("uid"), F("wid"), F("xid")], default_date="ts", access_filters=af("u")),
          view("w", U(), [P("wid")], default_date="ts", access_filters=af("w")),
          view("x", U() + [dim("yid", type="number")], [P("xid"), F("yid")], default_date="ts", access_filters=af("x")),
          view("y", U(), [P("yid")], default_date="ts", access_filters=af("y"))]
    return vs, model(mappings={"reg": {"fields": ["u.r", "w.r", "y.r"]}})


def apart():
    vs = [view(v, U() + [meas("plus", "number", "${t} + ${%s.t}" % o, is_merged_result=True)], [], default_date="ts") for v, o in (("u", "w"), ("w", "x"), ("x", "u"))]
    return vs, model(mappings={"reg": {"fields": ["u.r", "w.r", "x.r"]}, "num": {"fields": ["x.n", "u.n", "w.n"]}})


def web():
    """views with several ways to join them (a-b-d, a-c-d, one to one pairs), fields over several views, a funnel"""
    def I(n, t="foreign", sql="${id}", **k):
        return {"name": n, "type": t, "sql": sql, **k}

    def fields(v):
        out = U() + [dim(k, type="number") for k in ("bid", "cid", "did")]
        if v == "a":
            out += [dim("mix", "concat(${d.r}, ${c.r}, ${b.r})"), meas("mm", "sum", "${b.n} + ${c.n} - ${d.n}"), meas("num", "number", "${d.t} / ${c.t} + ${b.k}"),
                    dim("who", tags=["customer"]), meas("cum", "cumulative", measure="t"), meas("nonadd", "sum", "${TABLE}.n", non_additive_dimension={"name": "ts_raw", "window_choice": "max", "window_groupings": ["r", "n"]})]
        return out

    vs = [view("a", fields("a"), [I("ka", "primary"), I("kb", sql="${bid}"), I("kc", sql="${cid}")], default_date="ts"),
          view("b", fields("b"), [I("kb", "primary"), I("kd", sql="${did}")], default_date="ts"),
          view("c", fields("c"), [I("kc", "primary"), I("kd", sql="${did}"), I("oo", "primary", sql="${n}")], default_date="ts"),
          view("d", fields("d"), [I("kd", "primary")], default_date="ts"),
          view("e", fields("e"), [I("oo", "primary", sql="${n}")], default_date="ts"),
          view("f", fields("f"), [I("ka", allowed_fanouts=["a"]), I("oo", "primary", sql="${xid}")], default_date="ts")]
    vs += [view(v, fields(v), [I("gh", "primary"), I("kd", sql="${did}")], default_date="ts") for v in ("g", "j")]
    vs += [view(v, fields(v), [I("ij", "primary")], default_date="ts") for v in ("h", "i")]
    return vs, model(mappings={"reg": {"fields": ["e.r", "a.r", "d.r"]}, "other": {"fields": ["g.r", "i.r", "b.r"]}})


SHAPES = {"star": star, "apart": apart, "web": web}
STEPS = [[{"field": "a.r", "expression": "equal_to", "value": "A"}, {"field": "c.r", "expression": "equal_to", "value": "A"}], [{"field": "d.n", "expression": "greater_than", "value": 1}, {"field": "b.r", "expression": "equal_to", "value": "A"}]]
REQ = [
    ("web", dict(metrics=["a.t"], dimensions=["d.r"])),
    ("web", dict(metrics=["d.t"], dimensions=["b.r", "a.n"])),
    ("web", dict(metrics=["a.mm", "a.num"], dimensions=[])),
    ("web", dict(metrics=["a.num"], dimensions=[], where=[{"field": "a.mix", "expression": "is_not_null"}])),
    ("web", dict(metrics=["a.cum", "a.t"], dimensions=["a.mix"], where=[{"field": "a.ts_raw", "expression": "greater_than", "value": "2024-01-01T00:00:00"}])),
    ("web", dict(metrics=["e.t", "f.t"], dimensions=["a.r", "c.r"])),
    ("web", dict(metrics=["f.k"], dimensions=["d.r", "e.r"])),
    ("web", dict(metrics=[], dimensions=["reg", "date"], where=[{"field": "b.n", "expression": "equal_to", "value": 1}])),
    ("web", dict(metrics=["a.nonadd", "a.t"], dimensions=["a.r", "a.ts_month"])),
    ("web", dict(metrics=["a.nonadd"], dimensions=["c.r"])),
    ("web", dict(metrics=["a.k"], dimensions=[], funnel={"steps": STEPS, "within": {"value": 3, "unit": "days"}})),
    ("web", dict(metrics=["a.k", "a.t"], dimensions=["b.r", "d.r"], funnel={"steps": STEPS, "within": {"value": 3, "unit": "days"}, "view_name": "a"})),
    ("apart", dict(metrics=["u.t", "u.k", "w.t2", "w.k"], dimensions=["reg", "num", "date"], where=[{"field": "num", "expression": "equal_to", "value": 1}, {"field": "u.r", "expression": "equal_to", "value": "A"}, {"field": "date", "expression": "greater_than", "value": "2024-01-01T00:00:00"}])),
    ("web", dict(metrics=["g.k", "i.t", "b.t"], dimensions=["other", "date"])),
    ("web", dict(metrics=["h.k", "j.k"], dimensions=["date"])),
    ("web", dict(metrics=["e.k", "i.k"], dimensions=["date"], where=[{"field": "week", "expression": "greater_than", "value": "2024-01-01T00:00:00"}])),
    ("web", dict(metrics=[], dimensions=["other", "date"])),
    ("apart", dict(metrics=["u.k", "u.t2", "u.t"], dimensions=["u.r", "u.n"], where=[{"field": "w.n", "expression": "equal_to", "value": 1}])),
    ("star", dict(metrics=["u.t"], dimensions=["w.r"], having=[{"field": "x.k", "expression": "greater_than", "value": 1}], where=[{"field": "u.k", "group_by": "y.r", "expression": "greater_than", "value": 1}, {"field": "x.k", "group_by": "w.r", "expression": "less_than", "value": 5}])),
    ("star", dict(metrics=["u.t"], dimensions=["w.r", "y.r"])),
    ("star", dict(metrics=["u.t", "x.t"], dimensions=["w.r"], where=[{"field": "y.n", "expression": "greater_than", "value": 1}])),
    ("star", dict(metrics=["y.t", "w.t"], dimensions=[])),
    ("star", dict(metrics=[], dimensions=["w.r", "x.r"])),
    ("star", dict(metrics=[], dimensions=["w.r", "x.r", "date"])),
    ("star", dict(metrics=[], dimensions=["date", "reg"])),
    ("star", dict(metrics=["x.k"], dimensions=["reg", "date"])),
    ("apart", dict(metrics=[], dimensions=["date", "reg"])),
    ("apart", dict(metrics=["u.t", "x.t", "w.t2"], dimensions=["date", "reg"])),
    ("apart", dict(metrics=["u.plus", "x.plus"], dimensions=["num"])),
    ("apart", dict(metrics=["w.plus"], dimensions=["date"])),
    ("apart", dict(metrics=[], dimensions=["reg", "num"])),
]


def sql(ctx, request, dialect, deep=False):
    orders.Order.full, orders.Order.rotations = (4, 3) if deep else (3, 2)
    shape, req = REQ[request]

    def ask():
        vs, m = SHAPES[shape]()
        p = project(vs, [m], dialect=dialect, user={"reg": "A"})
        return query(ctx, p, dialect, may_refuse=True, user={"reg": "A"}, **copy.deepcopy(req))

    one, two = answer(ctx, False, ask), answer(ctx, True, ask)
    ctx.reached()
    ctx.prove(one == two, "the SQL depends on the iteration order of a set", {"sig": f"{shape} {req}", "one order": one, "another": two})


LISTS = {
    "metrics of all": lambda c, p: [f.id() for f in c.list_metrics()],
    "dimensions of a view": lambda c, p: [f.id() for f in c.list_dimensions(view_name="a")],
    "views joinable to e": lambda c, p: p.join_graph.get_joinable_view_names("e"),
    "graphs of every view": lambda c, p: [(v.name, p.join_graph.join_graph_hash(v.name), p.join_graph.weak_join_graph_hashes(v.name)) for v in p.views()],
    "graphs of fields": lambda c, p: [(f.id(), f.join_graphs()) for f in p.fields(expand_dimension_groups=True) if f.view.name in "abegi" and "_raw" not in f.id() and f.name not in ("ts", "ts2")],
    "fields that go with": lambda c, p: [f.id() for f in p.joinable_fields([p.get_field("a.mix"), p.get_field("e.t")])],
    "problems": lambda c, p: [e["message"] if isinstance(e, dict) else str(e) for e in p.validate()],
    "mappings": lambda c, p: sorted(p.get_model("m").get_mappings().items(), key=str),
    "definition": lambda c, p: [f.to_dict() for f in p.get_view("a").fields()],
}


def listing(ctx, name, deep=False):
    """what the project tells about its fields, and the problems it reports, come in one order"""
    orders.Order.full, orders.Order.rotations = (4, 3) if deep else (3, 2)

    def ask():
        vs, m = web()
        if name == "problems":
            vs[0]["fields"] += [dim("bad", "concat(${d.rr}, ${c.q}, ${zz.r})"), meas("badm", "number", "${d.zz} / ${q.t} + ${b.yy}"), dim("q"), meas("q", "count"), dim("p"), dim("p")]
            vs[1]["identifiers"][0]["sql"] = "${nope} || ${neither}"
            vs[2]["sets"] = [{"name": "s", "fields": ["a.nope", "qq", "d.q", "e.ts_nope"]}]
        p = project(vs, [m])
        with contextlib.redirect_stdout(io.StringIO()):
            return json.dumps(LISTS[name](connection(p), p), default=str)

    one, two = answer(ctx, False, ask), answer(ctx, True, ask)
    ctx.reached()
    ctx.prove(one == two, "what the project tells depends on the iteration order of a set", {"sig": name, "one order": one[-3000:], "another": two[-3000:]})


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for i in range(len(REQ)):
        for d in (ALL if deep else [["SNOWFLAKE", "BIGQUERY", "POSTGRES"][i % 3]]):
            if not (REQ[i][1].get("metrics") and "a.cum" in REQ[i][1]["metrics"] and d not in ("SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES")):
                out.append(("sql", dict(request=i, dialect=d, deep=deep and d == "SNOWFLAKE")))
    return out + [("listing", dict(name=n, deep=deep)) for n in LISTS]
