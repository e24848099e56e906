"""C22: no memory.  Sequences of operations on one project object, chosen by solver variables with filter values and user attributes symbolic
strings, run through the real code; after each, every request and listing is answered exactly as by a freshly built project in the same state,
and neither the caller's arguments nor the project's definitions have changed."""
import contextlib
import copy
import io
import itertools
import json

from metrics_layer.core.model import field

from .. import state, sx
from ..proj import *

EXPLANATION = __doc__
BOUNDS = ("20 changes (user, time zone, adding and removing fields, trial validations) and 60 requests (queries of every kind, refused queries, listings, validation), in two orders: all requests, a change, all requests, another change "
          "(quick 2, thorough 20 for each first), all requests; any request or change followed by a change; two projects with the same definitions; filter values and user attributes any text; 4 warehouses")
OUTSIDE = "concurrent use of one project object; several models with different time zones"
ASSUMPTIONS = ["lower-casing names and recording the label prefix of a view's fields in the definitions is normalisation, not a change"]


TF = ["raw", "date", "week", "month"]


def definitions():
    def facts(v):
        return [pk("id", type="number"), dim("r", drill_fields=["q"]), dim("q"), dim("flag", type="yesno", sql="${TABLE}.n > 2"), dim("n", type="number"), dim("aid", type="number"), dim("cust", tags=["customer"]) if v == "u" else dim("cust"),
                dim("ev"), dim("tr", type="tier", tiers=[0, 10], sql="${n}"), dim("cs", "", case={"whens": [{"sql": "${n} > 3", "label": "hi"}], "else": "lo"}),
                timedim("ts", timeframes=TF), timedim("ts2", timeframes=TF), {"field_type": "dimension_group", "name": "gap", "type": "duration", "sql_start": "${ts_raw}", "sql_end": "${ts2_raw}", "intervals": ["day", "hour"]},
                meas("t", "sum", "${n}"), meas("k", "count"), meas("mx", "max", "${n}"), meas("t2", "sum", "${n}", canon_date="ts2"), meas("tf", "sum", "${n}", filters=[{"field": "r", "value": "A"}, {"field": "ts", "value": "last 3 days"}]),
                meas("plus", "number", "${t} + ${k}"), meas("more", "number", "${plus} * 2"), meas("last", "sum", "${n}", non_additive_dimension={"name": "ts_raw", "window_choice": "max"}),
                meas("lastg", "sum", "${n}", non_additive_dimension={"name": "ts_raw", "window_choice": "min", "window_groupings": ["r"]}),
                meas("run", "cumulative", measure="t")]

    uf = facts("u") + [meas("mr", "number", "${u.t} + ${w.t}", is_merged_result=True), dim("secret", required_access_grants=["g"]), meas("secret_t", "sum", "${n}", required_access_grants=["g"])]
    af = [pk("id", type="number"), dim("Name"), dim("reg"), timedim("born", timeframes=TF), meas("na", "count")]
    hf = [pk("id", type="number"), dim("x"), meas("s", "sum", "${x}")]
    return dict(
        models=[model(mappings={"place": {"fields": ["u.r", "w.r"]}, "num": {"fields": ["w.n", "u.n"]}}, access_grants=[{"name": "g", "user_attribute": "role", "allowed_values": ["A"]}], week_start_day="sunday")],
        views=[
            view("u", uf, [{"name": "aid", "type": "foreign", "sql": "${aid}"}, {"name": "bid", "type": "foreign", "sql": "${id}"}], default_date="ts", sets=[{"name": "s", "fields": ["r", "t", "ts*"]}, {"name": "s2", "fields": ["s*", "-t"]}], access_filters=[{"field": "u.r", "user_attribute": "region"}]),
            view("W", facts("w"), [], default_date="ts", always_filter={"filters": [{"field": "flag", "value": "True"}, {"field": "w.ev", "value": "-x"}]}) | {"always_filter": [{"field": "flag", "value": True}, {"field": "w.ev", "value": "-x"}]},
            view("a", af, [{"name": "aid", "type": "primary", "sql": "${id}"}, {"name": "bid", "type": "primary", "sql": "${id}", "join_as": "other", "join_as_label": "The other"}], sets=[{"name": "s", "fields": ["Name"]}]),
            view("h", hf, [{"name": "aid", "type": "foreign", "sql": "${x}"}], required_access_grants=["g"]),
        ],
        dashboards=[{"type": "dashboard", "name": "d", "label": "D", "elements": [{"model": "m", "metric": "u.t", "slice_by": ["u.r"], "type": "plot", "filters": [{"field": "u.r", "value": "A"}]}], "filters": [{"field": "u.ts", "value": "last month"}], "required_access_grants": ["g"]}],
    )


ADD = {"x1": {"name": "added", "field_type": "measure", "type": "max", "sql": "${n} + 1"}, "x2": {"name": "t", "field_type": "measure", "type": "sum", "sql": "${n} * 7", "canon_date": "ts2"}, "x3": {"name": "Extra", "field_type": "dimension", "type": "string", "sql": "${r} || 'x'", "tags": ["customer"]},
       "x4": {"name": "max_ts_raw", "field_type": "measure", "type": "min", "sql": "${n}"}, "x5": {"name": "born", "field_type": "dimension_group", "type": "time", "timeframes": ["raw", "date", "week"], "sql": "${TABLE}.born_at"}}


class World:
    def __init__(self, ctx, dialect, state=None):
        self.ctx, self.dialect, self.keep_caches = ctx, dialect, False
        self.state = state or {"user": None, "tz": None, "fields": (), "schema": None}
        d = definitions()
        self.p = Project(**d, connection_lookup={"c": dialect})
        for act in self.state["fields"]:
            v = next(v for v in self.p._views if v["name"].lower() == act[1])
            if act[0] == "add":
                if not any(f["name"].lower() == ADD[act[2]]["name"].lower() for f in v["fields"]):
                    v["fields"].append(copy.deepcopy(ADD[act[2]]))
            else:
                v["fields"] = [f for f in v["fields"] if f["name"].lower() != act[2]]
        self.conn = connection(self.p, self.users()[self.state["user"]])
        if self.state["tz"]:
            self.p.set_timezone(self.state["tz"])

    def users(self):
        c = self.ctx
        return {None: None, "a": {"region": c.v1, "role": "A"}, "b": {"region": c.v2, "role": "B"}, "c": {"region": c.v1}}

    def key(self):
        return json.dumps(self.state, default=str, sort_keys=True)


V = "@value"  # replaced by the symbolic text
OR = lambda *c: {"logical_operator": "OR", "conditions": list(c)}
F = lambda f, e="equal_to", v=V: {"field": f, "expression": e, "value": v}

QUERIES = {
    "simple": dict(metrics=["u.t"], dimensions=["u.r"]),
    "composed": dict(metrics=["u.more", "u.plus"], dimensions=["u.q"], where=[F("u.r")], having=[F("u.plus", "greater_than", 3)], order_by=[{"field": "u.more", "sort": "desc"}], limit=5),
    "join": dict(metrics=["u.t"], dimensions=["a.name", "u.ts_month"], where=[OR(F("a.reg"), F("u.q", "isin", [V, "B"]))]),
    "fan": dict(metrics=["a.na", "u.k"], dimensions=["a.reg"]),
    "other": dict(metrics=["u.t"], dimensions=["other.name"]),
    "names": dict(metrics=["t2"], dimensions=["cust"], where=[F("U.R")]) | dict(metrics=["u.t2"], dimensions=["U.Cust"]),
    "mapped": dict(metrics=["u.t"], dimensions=["place"], where=[F("place"), F("num", "greater_than", 2)], order_by="place desc"),
    "date": dict(metrics=["u.t"], dimensions=["date"], where=[F("date", "greater_than", "2024-01-05")]),
    "matches": dict(metrics=["u.t2"], dimensions=["u.ts_week"], where=[F("u.ts2", "matches", "last 2 weeks")]) | dict(where=[F("u.ts2_raw", "matches", "last 2 weeks")]),
    "merged": dict(metrics=["u.t", "w.t"], dimensions=["place", "date"], where=[F("place")], having=[F("u.t", "greater_than", 1)]),
    "mergedm": dict(metrics=["u.mr"], dimensions=["u.ts_date"], where=[F("u.r")]),
    "always": dict(metrics=["w.t"], dimensions=["w.r"], where=[F("w.q")]),
    "always2": dict(metrics=["w.mx"], dimensions=["w.flag"], where="${w.r} = 'A'"),
    "yesno": dict(metrics=["u.t"], dimensions=["u.r"], where=[F("u.flag", "equal_to", True), F("u.flag", "not_equal_to", False)]),
    "empty": dict(metrics=["u.t"], dimensions=["u.r"], where=[F("u.q", "is_null", None), F("u.q", "contains", [V, V])]) | dict(where=[{"field": "u.q", "expression": "is_null"}, F("u.q", "contains")]),
    "nonadd": dict(metrics=["u.last"], dimensions=["u.q"], where=[F("u.r")]),
    "nonadd2": dict(metrics=["u.lastg", "u.t", "u.last"], dimensions=["a.name"]),
    "cumul": dict(metrics=["u.run", "u.k"], dimensions=["u.ts_month"], where=[F("u.q")]),
    "groupby": dict(metrics=["u.t"], dimensions=["u.r"], having=[{**F("u.k", "greater_than", 2), "group_by": "u.q"}], where=[F("u.q")]),
    "funnel": dict(metrics=["u.k"], dimensions=["u.r"], funnel={"steps": [[F("u.ev")], [F("u.ev", "equal_to", "B")]], "within": {"value": 3, "unit": "days"}}),
    "converted": dict(metrics=["u.k"], dimensions=["u.q"], where=[{"field": "u.cust", "expression": "converted", "from": 1, "to": 2, "funnel": {"steps": [[F("u.ev")], [F("u.ev", "equal_to", "B")]], "within": {"value": 3, "unit": "days"}}}, F("u.r")]),
    "queries": dict(merged_queries=[dict(metrics=["u.t"], dimensions=["u.r"], where=[F("u.q")]), dict(metrics=["w.k"], dimensions=["w.r"], join_fields=[{"field": "w.r", "source_field": "u.r"}], join_type="inner")], where=[F("u.r")], having=[F("w.k", "greater_than", 2)], order_by=[{"field": "u.t"}]),
    "kinds": dict(metrics=["u.tf"], dimensions=["u.tr", "u.cs", "u.days_gap"]),
    "nometric": dict(metrics=[], dimensions=["u.id", "u.r", "a.name"], where=[F("u.q", "not_equal_to")]),
    "secret": dict(metrics=["u.secret_t"], dimensions=["u.secret"]),
    "hidden_view": dict(metrics=["h.s"], dimensions=["a.name"]),
    "added": dict(metrics=["u.added"], dimensions=["u.r"]),
    "extra": dict(metrics=["u.t"], dimensions=["u.extra", "u.cust"]),
    "born": dict(metrics=["a.na"], dimensions=["a.born_week"]),
    "max_ts_raw": dict(metrics=["u.max_ts_raw"], dimensions=["u.r"]),
    "group": dict(metrics=["u.t"], dimensions=["u.r"], where={"logical_operator": "OR", "conditions": [F("u.r"), OR(F("u.q"), F("u.n", "greater_than", 2))]}) | dict(where=[OR(F("u.r"), OR(F("u.q"), F("u.n", "greater_than", 2)))]),
    "text": dict(metrics=["u.t"], dimensions=["u.r"], where="${u.n} > 2 or ${a.reg} = 'A'", having="${u.k} > 3", order_by="u.t desc, u.r"),
    "legacy": dict(metrics=["u.t"], dimensions=["u.r"], where=[{"field": "u.r", "value": "-A"}]) | dict(where=[{"field": "u.n", "expression": "greater_than", "value": "3"}]),
    "field_value": dict(metrics=["u.t"], dimensions=["u.r"], where=[F("u.q", "equal_to", "u.cust")]),
}
REFUSED = {
    "bad_field": dict(metrics=["u.zzz"], dimensions=["u.r"]),
    "bad_join": dict(metrics=["u.t"], dimensions=["w.q"]),
    "bad_expr": dict(metrics=["u.t"], dimensions=["u.r"], where=[F("u.q", "nonsense")]),
    "bad_nonadd": dict(metrics=["u.last"], dimensions=["u.q"], where=[F("u.n", "nonsense")]),
    "bad_cumul": dict(metrics=["u.run", "u.plus"], dimensions=["u.q"], having=[F("u.run", "nonsense", 3)]),
    "bad_merged": dict(metrics=["u.t", "w.t"], dimensions=["u.cust", "date"]),
    "bad_funnel": dict(metrics=["u.k"], dimensions=["u.r"], funnel={"steps": [[F("u.ev")]], "within": {"value": 3, "unit": "nonsense"}}),
    "bad_queries": dict(merged_queries=[dict(metrics=["u.t"], dimensions=["u.r"]), dict(metrics=["w.k"], dimensions=["w.r"], join_fields=[{"field": "w.zz", "source_field": "u.r"}])]),
}


def real(x, v):
    if isinstance(x, str):
        return v if x == V else x
    if isinstance(x, (list, tuple)):
        return [real(y, v) for y in x]
    if isinstance(x, dict):
        return {k: real(y, v) for k, y in x.items()}
    return x


def same_args(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_args(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_args(x, y) for x, y in zip(a, b))
    return a is b or a == b


def attempt(ctx, fn):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return fn()
        except REFUSALS as e:
            return ("refused", type(e).__name__, str(e))
        except sx.EngineError:
            raise
        except Exception as e:
            return ("raised", type(e).__name__, str(e))


def ask(name):
    req = {**QUERIES, **REFUSED}[name]

    def op(w):
        args = real(req, w.ctx.v0)
        kept = copy.deepcopy(args)
        out = attempt(w.ctx, lambda: w.conn.get_sql_query(query_type=w.dialect, **args))
        if not same_args(args, kept):
            w.ctx.fail(f"the caller's request was modified by the query '{name}'", {"sig": "args " + name, "request": repr(kept), "now": repr(args)})
        return out

    return op


def shown(f):
    return [f.id(), f.field_type, f.type, f.sql if not callable(f.sql) else "", f.label, f.hidden, f.dimension_group]


def listing(fn):
    return lambda w: attempt(w.ctx, lambda: json.dumps(fn(w), default=repr))


LISTINGS = {
    "fields": listing(lambda w: [shown(f) for f in w.p.fields()]),
    "expanded": listing(lambda w: [shown(f) for f in w.p.fields(expand_dimension_groups=True)]),
    "visible": listing(lambda w: [shown(f) for f in w.p.fields(show_hidden=False, expand_dimension_groups=True)]),
    "view_fields": listing(lambda w: [[shown(f) for f in v.fields()] + [shown(f) for f in v.fields(expand_dimension_groups=True)] for v in w.p.views()]),
    "view_fields2": listing(lambda w: [[shown(f) for f in v.fields(expand_dimension_groups=True)] + [shown(f) for f in v.fields(expand_dimension_groups=False)] for v in w.p.views()]),
    "by_name": listing(lambda w: [shown(w.p.get_field_by_name(n, v)) for n, v in (("ts", "u"), ("r", "w"), ("born", "a"))]),
    "get_field": listing(lambda w: [shown(w.p.get_field(n)) for n in ("u.ts_week", "w.ts_raw", "a.Name", "u.days_gap", "other.reg")]),
    "graphs": listing(lambda w: [[f.id(), f.join_graphs()] for f in w.p.fields(expand_dimension_groups=True)]),
    "tag": listing(lambda w: shown(w.p.get_field_by_tag("customer"))),
    "metrics": listing(lambda w: [w.conn.list_metrics(names_only=True), w.conn.list_dimensions(names_only=True), w.conn.list_views(names_only=True), w.conn.list_models(names_only=True), w.conn.list_dashboards(names_only=True)]),
    "sets": listing(lambda w: [[s.view_name, s.name, s.field_names()] for s in w.p.sets()]),
    "joinable": listing(lambda w: [f.id() for f in w.p.joinable_fields([w.p.get_field("u.t")])]),
    "dicts": listing(lambda w: [f.to_dict() for f in w.p.fields()] + [m.to_dict() for m in w.p.models()] + [d.to_dict() for d in w.p.dashboards()]),
    "mappings": listing(lambda w: w.p.models()[0].mappings),
    "validate": listing(lambda w: w.p.validate()),
    "wrong_name": listing(lambda w: w.conn.get_dimension("u.nothing")),
}


def to(**k):
    def op(w):
        w.state = {**w.state, **k}
        if "user" in k:
            w.conn.set_user(w.users()[k["user"]])
        if "tz" in k:
            w.p.set_timezone(k["tz"])
        return None

    return op


def edit(kind, v, n):
    def op(w):
        with_error = None
        if kind == "add":
            given = copy.deepcopy(ADD[n])
            w.p.add_field(given, v)
        else:
            w.p.remove_field(n, v)
        w.state = {**w.state, "fields": w.state["fields"] + ((kind, v, n),)}
        return with_error

    return op


def trial(kind):
    def op(w):
        views = definitions()["views"]
        u = copy.deepcopy(views[0])
        if kind == "ok":
            u["fields"] = [f for f in u["fields"] if f["name"] != "t"] + [copy.deepcopy(ADD["x2"])]
            u["identifiers"] = []
            objs = [u]
        elif kind == "broken":
            u["fields"] = [{"name": "zz", "field_type": "nothing"}]
            objs = [u, {"type": "model", "name": "m"}, {"type": "dashboard"}]
            objs = objs[:1]
        else:
            d = copy.deepcopy(definitions()["models"][0])
            d["mappings"] = {}
            d["access_grants"] = []
            objs = [d]
        attempt(w.ctx, lambda: w.p.validate_with_replaced_objects(objs))
        if not w.keep_caches:
            # Known finding (after_trial below): what was derived from the replaced objects stays in these two caches
            for f in (field.Field.join_graphs, field.Field.referenced_fields):
                getattr(f, "cache_clear", lambda: None)()
        return None

    return op


CHANGES = {
    "user a": to(user="a"), "user b": to(user="b"), "user c": to(user="c"), "nobody": to(user=None), "tz": to(tz="America/New_York"), "tz2": to(tz="Asia/Tokyo"), "no tz": to(tz=None),
    "add x1": edit("add", "u", "x1"), "add x3": edit("add", "u", "x3"), "add x4": edit("add", "u", "x4"), "add x5": edit("add", "a", "x5"), "add x2": edit("add", "u", "x2"), "add w": edit("add", "w", "x1"), "remove t": edit("remove", "u", "t"), "remove born": edit("remove", "a", "born"), "remove r": edit("remove", "w", "r"),
    "remove name": edit("remove", "a", "name"), "trial ok": trial("ok"), "trial broken": trial("broken"), "trial model": trial("model"),
}
OPS = {**{n: ask(n) for n in {**QUERIES, **REFUSED}}, **LISTINGS, **CHANGES}
PROBES = [n for n in {**QUERIES, **REFUSED, **LISTINGS}]
FRESH = {}


def fresh(w, name):
    k = (w.key(), name, w.dialect, w.ctx.v0, w.ctx.v1, w.ctx.v2)
    k = tuple(str.__str__(x) if isinstance(x, str) else x for x in k)
    if k not in FRESH:
        FRESH[k] = state.fresh(lambda: OPS[name](World(w.ctx, w.dialect, copy.deepcopy(w.state))))
    return FRESH[k]


def norm(p):
    out = json.loads(json.dumps([p._models, p._views, p._dashboards]))
    for d in out[2]:
        d.setdefault("layout", "grid")
        d["name"] = d["name"].lower()
    for v in out[1]:
        v["name"] = v["name"].lower()
        v.setdefault("sets", [])
        for f in v["fields"]:
            f["name"] = f["name"].lower()
            f.pop("label_prefix", None)
    return out


def diff(a, b):
    if isinstance(a, str) and isinstance(b, str):
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return {"got": a[max(0, i - 60):i + 120], "expected": b[max(0, i - 60):i + 120]}
    return {"got": repr(a)[:600], "expected": repr(b)[:600]}


def judged(ctx, w, names, info, part):
    for n in names:
        got, want = OPS[n](w), fresh(w, n)
        if got != want:
            ctx.fail(f"'{n}' is answered differently than by a fresh project", {**info, "when": part, "state": w.key(), "sig": f"answer {n}", **diff(got, want)})
    start = World(ctx, w.dialect, copy.deepcopy(w.state))
    ctx.prove(norm(w.p) == norm(start.p), "the project's definitions have changed", {**info, "when": part, "sig": "definitions", **diff(json.dumps(norm(w.p)), json.dumps(norm(start.p)))})


def change(w, n):
    try:
        OPS[n](w)
    except REFUSALS:
        pass  # what is refused leaves the state as it was


def run(ctx, first, dialect, seconds, warm="forward"):
    """Every request and listing, then a change, then all of them again, then another change, and all of them again; forwards or backwards"""
    ctx.v0 = ctx.str("value", ["A"])
    ctx.v1 = ctx.str("region1", ["A"])
    ctx.v2 = ctx.str("region2", ["B"])
    second = ctx.pick("second", seconds)
    order = PROBES if ctx.flag("forward") else PROBES[::-1]
    state.begin()
    w = World(ctx, dialect)
    ctx.reached()
    info = {"first": first, "second": second, "forward": order is PROBES, "dialect": dialect}
    judged(ctx, w, order, info, "at first")
    change(w, first)
    judged(ctx, w, order, info, "after the first change")
    change(w, second)
    judged(ctx, w, order[1:] + order[:1], info, "after the second change")


def alone(ctx, first, dialect, seconds):
    """Two changes on a project that has not answered anything yet, or one request in between, and then everything"""
    ctx.v0 = ctx.str("value", ["A"])
    ctx.v1 = ctx.str("region1", ["A"])
    ctx.v2 = ctx.str("region2", ["B"])
    second = ctx.pick("second", seconds)
    order = PROBES if ctx.flag("forward") else PROBES[::-1]
    state.begin()
    w = World(ctx, dialect)
    ctx.reached()
    change(w, first)
    change(w, second)
    judged(ctx, w, order, {"first": first, "second": second, "forward": order is PROBES, "dialect": dialect}, "after both")


def after_trial(ctx, name, dialect, other):
    """After a validation with replaced objects: this project, and another one with the same definitions"""
    ctx.v0 = ctx.str("value", ["A"])
    ctx.v1 = ctx.v2 = None
    n = ctx.pick("then", PROBES)
    state.begin()
    w = World(ctx, dialect)
    ctx.reached()
    w.keep_caches = True
    change(w, name)
    if other:
        w = World(ctx, dialect)
    got, want = OPS[n](w), fresh(w, n)
    ctx.prove(got == want, f"'{n}' is answered differently after the validation with replaced objects", {"sig": f"after {name}: {n}", **diff(got, want)})


def twins(ctx, first, dialect):
    """What happens to one project does not change another one with the same definitions"""
    ctx.v0 = ctx.str("value", ["A"])
    ctx.v1 = ctx.str("region1", ["A"])
    ctx.v2 = ctx.str("region2", ["B"])
    order = PROBES if ctx.flag("forward") else PROBES[::-1]
    state.begin()
    a, b = World(ctx, dialect), World(ctx, dialect)
    ctx.reached()
    info = {"first": first, "forward": order is PROBES, "dialect": dialect}
    if ctx.flag("warm"):
        for n in order:
            OPS[n](a)
    change(a, first)
    for n in order:
        OPS[n](a)
    judged(ctx, b, order, info, "on the other project")


def same_listing(ctx, view, expand):
    """What a view lists does not depend on what it was asked before"""
    ctx.v0 = ctx.v1 = ctx.v2 = None
    state.begin()
    w = World(ctx, "SNOWFLAKE")
    v = next(x for x in w.p.views() if x.name == view)
    ctx.reached()
    for _ in range(2):
        for e in ([True, False] if ctx.flag("expanded first") else [False, True]):
            got = [shown(f) for f in v.fields(expand_dimension_groups=e)]
            want = state.fresh(lambda: [shown(f) for f in World(ctx, "SNOWFLAKE").p.fields(view_name=view, expand_dimension_groups=e)])
            ctx.prove(got == want, f"the view {view} lists other fields", {"sig": "view listing", "got": repr(got), "expected": repr(want)})


PAIR = {"remove t": "add x2", "add x5": "remove born", "remove born": "add x5", "add x1": "trial ok", "user a": "user b", "user c": "user a", "tz": "tz2", "remove name": "trial model"}


def jobs(tier):
    out = [("same_listing", dict(view=v, expand=e)) for v in ("u", "w", "a", "other") for e in (True, False)]
    ds = ["SNOWFLAKE", "BIGQUERY", "POSTGRES", "SQL_SERVER"]
    changes = list(CHANGES)
    for i, n in enumerate(changes):
        for j in range(4 if tier == "thorough" else 1):
            some = changes[j::4] if tier == "thorough" else [PAIR.get(n, "nobody"), changes[(i * 7 + 3) % len(changes)]]
            out.append(("run", dict(first=n, dialect=ds[(i + j) % 4], seconds=some)))
        out.append(("twins", dict(first=n, dialect=ds[(i + 2) % 4])))
    for n in ("trial ok", "trial broken", "trial model"):
        out.append(("after_trial", dict(name=n, dialect="SNOWFLAKE", other=n == "trial model")))
        if tier == "thorough":
            out.append(("after_trial", dict(name=n, dialect="SNOWFLAKE", other=n != "trial model")))
    for i, n in enumerate(OPS):
        if tier != "thorough" and n in LISTINGS:
            continue
        out.append(("alone", dict(first=n, dialect=ds[(i + 1) % 4], seconds=changes if tier == "thorough" else [changes[(i * 3) % len(changes)]])))
    return out


MAX_FOUND = 80
