"""C21: field sets.  The real expansion of sets runs on definitions whose names are symbolic texts; for every choice of the characters the result
is the list of included fields without the excluded ones, in listed order and without duplicates."""
import contextlib
import itertools

import z3

from .. import sstr, sx
from ..proj import *
from ..sstr import CStr
from ..sx import And, Eq, Implies, Not, Or
from .c20 import uncached

EXPLANATION = __doc__
BOUNDS = ("three views; sets of up to 4 entries (thorough 5), each an included or excluded field, set or all-fields marker, with or without its view; every name and view name is a symbolic "
          "letter; sets nested up to 3 deep; read through the project, a view and drill fields")
OUTSIDE = "names of more than one character next to symbolic ones; time groups named without a bucket; letter case inside sets; sets that include themselves"
ASSUMPTIONS = ["a set named without a view is the own view's set of that name, otherwise the first view's that has one", "an unknown set adds nothing"]

MODULES = ("metrics_layer.core.model.view", "metrics_layer.core.model.field", "metrics_layer.core.model.join")


@contextlib.contextmanager
def symbolic_sets():
    import importlib

    new = sstr.load("metrics_layer.core.model.set").Set
    saved = []
    for m in MODULES:
        mod = importlib.import_module(m)
        if hasattr(mod, "Set"):
            saved.append((mod, mod.Set))
            mod.Set = new
    try:
        yield new
    finally:
        for mod, old in saved:
            mod.Set = old


def put_back(x):
    """the symbolic texts, where building the project copied definitions as plain text"""
    items = x.items() if isinstance(x, dict) else enumerate(x)
    for k, y in items:
        if isinstance(y, (dict, list)):
            put_back(y)
        elif isinstance(y, str) and not isinstance(y, CStr) and y in sstr.TOKENS:
            x[k] = sstr.TOKENS[y]


class Names:
    """symbolic letters of one run"""

    def __init__(self, ctx, letters):
        self.ctx, self.n, self.letters = ctx, 0, letters

    def entry(self, template):
        """(text for the definition, parsed entry); ? is a field or set letter, # a view letter"""
        chars = []
        for ch in template:
            if ch not in "?#":
                chars.append(ord(ch))
                continue
            b = self.ctx.zbv(f"c{self.n}", 8)
            self.n += 1
            if self.ctx.concrete:
                b = z3.simplify(b).as_long()
            pool = self.letters if ch == "?" else "uwz"
            self.ctx.assume(Or(*[sstr.ce(b, ord(x)) for x in pool]))
            chars.append(b)
        text = "".join(map(chr, chars)) if self.ctx.concrete else CStr(chars)
        neg, star = template.startswith("-"), template.endswith("*")
        body = chars[1 if neg else 0: len(chars) - (1 if star else 0)]
        if ord(".") in body:
            i = body.index(ord("."))
            v, name = CStr(body[:i]), CStr(body[i + 1:])
        else:
            v, name = None, CStr(body)
        return text, (neg, star, v, name, "ALL_FIELDS" in template)


FIELDS = {"u": ["a", "b", "c"], "w": ["b", "a"]}


def build(texts):
    def flds(v):
        out = [pk("a", type="number")] + [dim(x) for x in FIELDS[v][1:]] if FIELDS[v][0] == "a" else [dim("b"), pk("a", type="number")]
        return out + ([meas("d", "count")] if v == "u" else [])

    return [
        view("u", flds("u") + [timedim("t", timeframes=["raw", "date"])], [], default_date="t", sets=[{"name": n, "fields": list(f)} for (v, n), f in texts.items() if v == "u"]),
        view("w", flds("w"), [], sets=[{"name": n, "fields": list(f)} for (v, n), f in texts.items() if v == "w"]),
    ]


ALLF = {"u": ["u.a", "u.b", "u.c", "u.d", "u.t_raw", "u.t_date", "u.count"], "w": ["w.b", "w.a", "w.count"]}


def text_of(v, n):
    if not isinstance(v, CStr):
        v = CStr([ord(x) for x in v])
    return v + CStr([ord(".")]) + n


def same(a, b):
    a = a if isinstance(a, CStr) else CStr([ord(x) for x in a])
    return a.eq(b)


def expand(ctx, own, entries, sets):
    """the fields the entries denote"""
    inc, exc = [], []
    for neg, star, v, name, everything in entries:
        if everything:
            got = list(ctx.data["all"][own])
        elif star:
            got = []
            for sv, sn in sorted(sets, key=lambda k: k[0] != own) if v is None else sets:
                if (v is None or ctx.decide(v.eq(sv))) and ctx.decide(name.eq(sn)):
                    got = expand(ctx, sv, sets[(sv, sn)], sets)
                    break
        else:
            got = [text_of(own if v is None else v, name)]
        (exc if neg else inc).extend(got)
    out = []
    for x in inc:
        if not any(ctx.decide(same(x, y)) for y in exc) and not any(ctx.decide(same(x, y)) for y in out):
            out.append(x)
    return out


def run(ctx, top, nested, via="project", own="u", letters="abst"):
    """nested: {view.set: templates}"""
    nested = {tuple(k.split(".")): ts for k, ts in nested.items()}
    names = Names(ctx, letters)
    tt = [names.entry(t) for t in top]
    sets, texts = {}, {}
    for k, ts in nested.items():
        es = [names.entry(t) for t in ts]
        sets[k], texts[k] = [e[1] for e in es], [e[0] for e in es]
    if via in ("project", "view"):
        texts[(own, "top")] = [t[0] for t in tt]
    views = build(texts)
    if via == "drill":
        next(v for v in views if v["name"] == own)["fields"][1]["drill_fields"] = [t[0] for t in tt]
    with symbolic_sets(), contextlib.redirect_stdout(io.StringIO()):
        p = project(views)
        put_back(p._views)
        ctx.data = {"all": {v: [f"{v}.{f.alias()}" for f in p.get_view(v).fields(True, True)] for v in ("u", "w")}}
        ctx.reached()
        for v in ("u", "w"):
            if sorted(ctx.data["all"][v]) != sorted(ALLF[v]) and sorted(ctx.data["all"][v]) != sorted(x for x in ALLF[v] if not x.endswith(".count")):
                ctx.fail("the fields of a view are not those defined", {"got": ctx.data["all"][v]})
        try:
            with uncached(type(p)):
                if via == "project":
                    got = p.get_set("top", view_name=own).field_names()
                elif via == "view":
                    got = p.get_view(own).get_set("top").field_names()
                else:
                    got = p.get_field(f"{own}.{views[0 if own == 'u' else 1]['fields'][1]['name']}").drill_fields
        except (sx.EngineError, sx.PathAbort, sx.Found):
            raise
        except Exception as e:
            ctx.fail(f"expanding a set raised {type(e).__name__}: {e}", {"sets": repr(texts)})
    want = expand(ctx, own, [t[1] for t in tt], sets)
    info = {"sets": repr(texts), "got": [x if not isinstance(x, CStr) else repr(x) for x in got], "wanted": [x if not isinstance(x, CStr) else (str.__str__(x) if not ctx.concrete else x.plain()) for x in want], "via": via}
    if len(got) != len(want):
        ctx.fail("a set does not contain the fields its expression denotes", info)
    ctx.prove(And(*[same(a, b) for a, b in zip(got, want)]), "a set does not contain the fields its expression denotes, in listed order", info)


PLAIN = ["?", "-?", "#.?", "-#.?", "?*", "-?*", "#.?*", "-#.?*", "ALL_FIELDS*", "-ALL_FIELDS*"]
NEST = [
    {"u.s": ["?", "#.?"], "w.s": ["?", "-?"], "u.t": ["?"]},
    {"u.s": ["?", "-?", "?"], "w.t": ["ALL_FIELDS*", "-?"]},
    {"w.s": ["?", "w.t*", "-a"], "w.t": ["b", "?"], "u.s": ["-t*", "a", "?"], "u.t": ["?"]},
]


def jobs(tier):
    deep = tier == "thorough"
    out = []
    k = 0
    for a, b in itertools.product(PLAIN, repeat=2):
        for own in ("u", "w"):
            k += 1
            if not deep and own == "w" and k % 6:
                continue
            out.append(("run", dict(top=[a, b], nested=NEST[k % 3], via=("project", "view", "drill")[k % 3 if own == "u" else 0], own=own)))
    for i, c in enumerate(itertools.product(PLAIN, repeat=3)):
        pos = [x for x in c if not x.startswith("-")]
        if not deep and sum("#.?*" in x for x in c) > 1:
            continue
        if len(pos) == 0 or (i % (4 if deep else 41)):
            continue
        out.append(("run", dict(top=list(c), nested=NEST[i % 3], via=("project", "drill", "view")[i % 3], own="uw"[i % 2])))
    for c in (["?", "?", "#.?", "-?"], ["?*", "-?", "?", "-?*"], ["ALL_FIELDS*", "-?*", "-#.?", "?"], ["#.?*", "?*", "-?", "?"], ["-?", "?", "-?", "?"], ["?", "?", "?", "?"]) + ((["?", "-?", "?", "#.?", "-#.?"], ["?", "?*", "-?*", "?", "?"]) if deep else ()):
        for v in ("project", "drill") if deep else ("project",):
            out.append(("run", dict(top=c, nested=NEST[len(c) % 3], via=v)))
    return out
