"""C24: trial edits leave no trace.  A validation with replaced objects, a query inside a replacement, or a query of any kind is cut short by a failure at a
call number and of a kind chosen by solver variables; afterwards the project's definitions are what they were and every request is answered as by a freshly built
project.  Uninterrupted, the validation reports what a project built from the edited definitions reports."""
import contextlib
import copy
import io
import json

from metrics_layer.core.model import dashboard as _dashboard, field as _field, join_graph, model as _model, project as _project, view as _view
from metrics_layer.core.sql import query_design, query_filter, query_generator, resolve, single_query_resolve

from .. import state, sx
from ..proj import *
from . import c22

EXPLANATION = __doc__
BOUNDS = ("19 edits of views, models and dashboards (replaced, added, broken), one or two at a time; failures of 3 kinds at any of the first 40 (thorough 400) calls of 12 functions of the model and the query generator; "
          "replacements nested two deep; afterwards 18 requests and listings in two orders")
OUTSIDE = "failures inside the standard library or third-party packages; edits that change the views made by join_as (see the known findings)"
ASSUMPTIONS = ["failures show themselves as exceptions"]


class Cut(BaseException):
    pass


KINDS = {"refusal": lambda: _project.QueryError("cut"), "error": lambda: RuntimeError("cut"), "stop": lambda: Cut("cut")}
SITES = [(_view.View, "__init__"), (_field.Field, "__init__"), (_model.Model, "__init__"), (_dashboard.Dashboard, "__init__"), (join_graph.JoinGraph, "build"), (_project.Project, "get_field"), (_view.View, "collect_errors"), (_field.Field, "collect_errors"),
         (query_design.MetricsLayerDesign, "__init__"), (query_filter.MetricsLayerFilter, "__init__"), (query_generator.MetricsLayerQuery, "get_query"), (_field.Field, "sql_query")]
VALIDATING, QUERYING = [0, 2, 3, 4, 5, 6, 7], [0, 2, 4, 5, 8, 9, 10, 11]


@contextlib.contextmanager
def failing(site, at, kind):
    """The `at`-th call of the function fails; -1: none does"""
    cls, name = SITES[site]
    original = cls.__dict__[name]
    count = [0, False]

    def stand_in(self, *a, **k):
        count[0] += 1
        if count[0] - 1 == at:
            count[1] = True
            raise KINDS[kind]()
        return original(self, *a, **k) if not hasattr(original, "cache_clear") else original(self, *a, **k)

    for a in ("cache_clear", "cache_info", "cache_parameters"):
        if hasattr(original, a):
            setattr(stand_in, a, getattr(original, a))
    setattr(cls, name, stand_in)
    try:
        yield count
    finally:
        setattr(cls, name, original)


def edits():
    d = c22.definitions()
    v = {x["name"].lower(): x for x in d["views"]}
    m, b = d["models"][0], d["dashboards"][0]

    def changed(x, **k):
        return {**copy.deepcopy(x), **k}

    def fields(x, drop=(), add=()):
        return changed(x, fields=[copy.deepcopy(f) for f in x["fields"] if f["name"] not in drop] + [copy.deepcopy(f) for f in add])

    return {
        "u without t": [fields(v["u"], ["t"])],
        "u other t": [fields(v["u"], ["t"], [c22.ADD["x2"]])],
        "u not joined": [changed(v["u"], identifiers=[])],
        "u second customer": [changed(v["u"], fields=[{**copy.deepcopy(f), **({"tags": ["customer"]} if f["name"] == "q" else {})} for f in v["u"]["fields"]])],
        "w customer": [changed(v["w"], fields=[{**copy.deepcopy(f), **({"tags": ["customer"]} if f["name"] == "r" else {})} for f in v["w"]["fields"]])],
        "w broken field": [fields(v["w"], ["r"], [{"name": "r", "field_type": "dimension", "type": "nothing", "sql": "${zz}"}])],
        "w broken type": [fields(v["w"], [], [{"name": "more2", "field_type": "sth", "type": "sum", "sql": "${n}"}])],
        "w no fields": [{k: x for k, x in copy.deepcopy(v["w"]).items() if k != "fields"}],
        "w lower case": [changed(v["w"], name="w", default_date="ts2")],
        "h unknown grant": [changed(v["h"], required_access_grants=["unknown"])],
        "a unchanged": [copy.deepcopy(v["a"])],
        "a without name": [fields(v["a"], ["Name"])],
        "a another join_as": [changed(v["a"], identifiers=[{"name": "bid", "type": "primary", "sql": "${id}", "join_as": "third"}])],
        "new view": [like("z", v["h"])],
        "m without mappings": [changed(m, mappings={}, access_grants=[])],
        "m bad mapping": [changed(m, mappings={"place": {"fields": ["u.r", "w.zz"]}}, week_start_day="someday")],
        "d bad field": [changed(b, elements=[{"model": "m", "metric": "u.nothing", "slice_by": ["w.r"], "type": "plot"}])],
        "new dashboard": [changed(b, name="d2", label="D2", filters=[{"field": "u.zz", "value": "A"}])],
        "not objects": [{"type": "topic", "name": "u"}, "u", None],
    }


def like(name, other):
    return {**copy.deepcopy(other), "name": name, "identifiers": []}


EDITS = list(edits())


def given(names):
    out, seen = [], set()
    e = edits()
    for n in names:
        for o in e[n]:
            k = (o.get("type"), o["name"].lower()) if isinstance(o, dict) else n
            if k not in seen:
                seen.add(k)
                out.append(o)
    return out


def edited(objs):
    """The definitions as they would be with the edits made"""
    d = c22.definitions()
    for kind in ("view", "model", "dashboard"):
        new = [copy.deepcopy(o) for o in objs if isinstance(o, dict) and o.get("type") == kind]
        names = {o["name"].lower() for o in new}
        d[kind + "s"] = [o for o in d[kind + "s"] if o["name"].lower() not in names] + new
    return d


SAMPLE = ["simple", "composed", "join", "other", "mapped", "merged", "mergedm", "always", "nonadd", "cumul", "funnel", "queries", "expanded", "graphs", "dicts", "mappings", "validate", "metrics"]


def quietly(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def world(ctx, dialect="SNOWFLAKE"):
    ctx.v0 = ctx.str("value", ["A"])
    ctx.v1 = ctx.v2 = None
    state.begin()
    return c22.World(ctx, dialect)


def forget():
    # Known finding (see C22 after_trial and `used` below): these two caches survive a replacement
    for f in (_field.Field.join_graphs, _field.Field.referenced_fields):
        getattr(f, "cache_clear", lambda: None)()


def unchanged(ctx, w, info, back):
    start = c22.World(ctx, w.dialect)
    ctx.prove(c22.norm(w.p) == c22.norm(start.p), "the project's definitions have changed", {**info, "sig": "definitions", **c22.diff(json.dumps(c22.norm(w.p)), json.dumps(c22.norm(start.p)))})
    for n in SAMPLE[::-1] if back else SAMPLE:
        got, want = c22.OPS[n](w), c22.fresh(w, n)
        ctx.prove(got == want, f"afterwards '{n}' is answered differently than by a fresh project", {**info, "sig": f"answer {n}", **c22.diff(got, want)})


def guarded(fn):
    try:
        return quietly(fn)
    except sx.EngineError:
        raise
    except (Exception, Cut) as e:
        return ("failed", type(e).__name__)


def cut_validation(ctx, names, site, top, warm):
    objs = given(names)
    kept = copy.deepcopy(objs)
    kind = ctx.pick("kind", list(KINDS))
    at = ctx.pick("at", top)
    w = world(ctx)
    ctx.reached()
    if warm:
        for n in SAMPLE:
            c22.OPS[n](w)
    with failing(site, at, kind) as hit:
        guarded(lambda: w.p.validate_with_replaced_objects(objs))
    forget()
    ctx.prove(lowered(objs) == lowered(kept), "the objects passed in were modified", {"sig": "args", "edit": repr(names)})
    unchanged(ctx, w, {"edit": repr(names), "site": SITES[site][0].__name__ + "." + SITES[site][1], "call": at, "kind": kind, "failed": hit[1]}, at % 2 == 0)


def lowered(objs):
    out = json.loads(json.dumps(objs))
    for o in out:
        if isinstance(o, dict):
            o["name"] = o["name"].lower()
            o.setdefault("sets", [])
            o.setdefault("layout", "grid")
            for f in o.get("fields", []):
                f["name"] = f["name"].lower()
                f.pop("label_prefix", None)
    return out


def cut_query(ctx, name, site, top):
    kind = ctx.pick("kind", list(KINDS))
    at = ctx.pick("at", top)
    w = world(ctx)
    ctx.reached()
    with failing(site, at, kind) as hit:
        guarded(lambda: c22.OPS[name](w))
    unchanged(ctx, w, {"query": name, "site": SITES[site][0].__name__ + "." + SITES[site][1], "call": at, "kind": kind, "failed": hit[1]}, at % 2 == 0)


def inside(ctx, first, second):
    """Queries between the beginning and the end of a replacement, which may have another one in it, and a failure at any step"""
    w = world(ctx)
    stop = ctx.pick("stop", [None, 0, 1, 2, 3])
    name = ctx.pick("query", ["composed", "nonadd", "validate", "bad_field"])
    ctx.reached()

    def step(i):
        if stop == i:
            raise RuntimeError("cut")
        c22.OPS[name](w)

    def nested():
        with w.p.replace_objects(given([first])):
            step(0)
            if second:
                with w.p.replace_objects(given([second])):
                    step(1)
                step(2)
            step(3)

    guarded(nested)
    forget()
    unchanged(ctx, w, {"first": first, "second": second, "stop": stop, "query": name}, ctx.flag("backward"))


def reported(ctx, names, warm):
    """What is reported is what is wrong with the edited project"""
    objs = given(names)
    w = world(ctx)
    ctx.reached()
    if warm:
        for n in SAMPLE[: 1 + 17 * ctx.flag("all")]:
            c22.OPS[n](w)
        forget()
    got = guarded(lambda: sorted(e["message"] for e in w.p.validate_with_replaced_objects(objs)))

    def expected():
        return guarded(lambda: sorted(e["message"] for e in Project(**edited(objs), connection_lookup={"c": "SNOWFLAKE"}).validate()))

    want = state.fresh(expected)
    ctx.prove(got == want, "the reported problems are not those of the edited project", {"sig": "reported " + "+".join(names), "missing": repr([x for x in want if x not in got])[:600], "extra": repr([x for x in got if x not in want])[:600]})


def jobs(tier):
    thorough = tier == "thorough"
    top = list(range(-1, 400)) if thorough else None
    out = []
    plain = [n for n in EDITS if n not in ("a without name", "a another join_as")]
    pairs = [(n,) for n in EDITS] + [(n, plain[(i * 5 + 3) % len(plain)]) for i, n in enumerate(plain)]
    if thorough:
        pairs += [(a, b) for i, a in enumerate(plain) for b in plain[i + 1:]]
    for i, names in enumerate(pairs):
        for j, site in enumerate(VALIDATING):
            if thorough:
                for part in range(8):
                    out.append(("cut_validation", dict(names=list(names), site=site, top=top[part::8], warm=bool(part % 2))))
            elif (i + j) % 7 == 0:
                out.append(("cut_validation", dict(names=list(names), site=site, top=[-1, 0, 1 + (i * 3) % 7, 12 + (i * 11) % 29], warm=bool(i % 2))))
        out.append(("reported", dict(names=list(names), warm=False)))
        out.append(("reported", dict(names=list(names), warm=True)))
    for i, name in enumerate(c22.QUERIES):
        for j, site in enumerate(QUERYING):
            if thorough or (i + j) % 8 == 0:
                out.append(("cut_query", dict(name=name, site=site, top=top[:60] if thorough else [0, 1 + (i % 3), 5 + i % 11])))
    for i, n in enumerate(EDITS):
        for second in [None] + (EDITS if thorough else [EDITS[(i * 3 + 1) % len(EDITS)]]):
            out.append(("inside", dict(first=n, second=second)))
    return out


MAX_FOUND = 40
