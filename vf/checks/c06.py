"""C06: join paths use only permitted joins and the declared key columns.  The kinds of the identifiers, the restrictions on join partners,
the allowed fan-outs and the declared relationships of explicit joins are symbolic objects handed to the real join graph; for every request
the FROM clause of the SQL it leads to is checked: each join is one the configuration permits (a formula over the symbolic configuration
decides), its ON condition is true for exactly the row pairs whose declared keys are equal (decided over all row contents), its relationship
is the one the identifier kinds imply, every needed view is joined once and after its partner, and a request is refused exactly when no view
reaches all needed views through permitted joins."""
import itertools

from .. import sx
from ..proj import *
from ..sqlp import Node
from ..sqls import Env, Eval, Rel, Row, V
from ..sx import And, Implies, Not, Or

EXPLANATION = __doc__
BOUNDS = "3 views sharing 1-2 identifiers with every kind/restriction/fan-out allowance; every 3-view and 4-view tree or cycle of pairwise identifiers with every kind and allowance; every pair, triple (and quadruple) of needed views; explicit joins with every relationship; key expressions: plain field, reference, raw column, computed from two fields, composite"
OUTSIDE = "more than 4 views, two explicit joins between the same pair of views, an identifier name used twice in one view"
ASSUMPTIONS = ["between joins of the same pair of views that are equally preferable (same relationship) either may be used"]
BUDGET = {"quick": 600, "thorough": 850}
MAX_FOUND = 3

O2O, M2O, O2M, M2M = "one_to_one", "many_to_one", "one_to_many", "many_to_many"
PREF = [O2O, M2O, O2M, M2M]
COLS = ["id", "d", "k_raw", "l_raw", "p1", "p2", "dt"]


def is_(s, lit):
    return sx.zb(s == lit)


def key_def(variant, name, view=None):
    """identifier `sql` and the value it denotes for a row"""
    if variant == "plain":
        return None, lambda r: r[f"{name[0]}_raw"]
    if variant == "qual":
        return "${%s.p1} + ${p2f} - ${TABLE}.p2 + ${%s.p2f}" % (view, view), lambda r: V("int", Or(r["p1"].null, r["p2"].null), r["p1"].v + r["p2"].v)
    if variant == "ref":
        return "${%sf}" % name[0], lambda r: r[f"{name[0]}_raw"]
    if variant == "table":
        return "${TABLE}.%s_raw" % name[0], lambda r: r[f"{name[0]}_raw"]
    if variant == "calc":
        return "${p1} * 10 + ${p2f}", lambda r: V("int", Or(r["p1"].null, r["p2"].null), r["p1"].v * 10 + r["p2"].v)
    raise ValueError(variant)


def the_view(name, identifiers, extra=()):
    return view(name, [
        pk(f"{name}_id", type="number", sql="${TABLE}.id"), dim("d"), dim("df", sql="${d}"),
        dim("k", sql="${TABLE}.k_raw", type="number"), dim("kf", sql="${TABLE}.k_raw", type="number"),
        dim("l", sql="${TABLE}.l_raw", type="number"), dim("lf", sql="${TABLE}.l_raw", type="number"),
        dim("p1", type="number"), dim("p2f", sql="${TABLE}.p2", type="number"),
        meas("t", "sum", "${TABLE}.d"), *extra,
    ], identifiers)


class Config:
    """what the model declares: candidate joins (u, w) -> [(condition, relationship formula table, key equality)]"""

    def __init__(self, ctx, names):
        self.ctx, self.names = ctx, names
        self.cand = {}  # (u, w) -> list of (permitted, {rel: formula}, eqfun)

    def shared(self, u, iu, ku, w, iw, kw):
        """identifier iu of view u and iw of view w have the same name"""
        fp = lambda a, b: And(a == "f", b == "p")
        kinds = {}
        for a, b, rel in (("foreign", "primary", M2O), ("primary", "primary", O2O), ("primary", "foreign", O2M), ("foreign", "foreign", M2M)):
            kinds[rel] = And(is_(iu["type"], a), is_(iw["type"], b))
        ok = And(self.allows(iu, w), self.allows(iw, u), Or(kinds[M2O], kinds[O2O], self.member(iu.get("allowed_fanouts"), w)))
        self.cand.setdefault((u, w), []).append((ok, kinds, lambda R: equal(ku(R[u]), kw(R[w]))))

    def explicit(self, u, w, rel, eq):
        inv = {M2O: O2M, O2M: M2O, O2O: O2O, M2M: M2M}
        self.cand.setdefault((u, w), []).append((True, {r: is_(rel, r) for r in PREF}, eq))
        self.cand.setdefault((w, u), []).append((Or(is_(rel, O2M), is_(rel, O2O)), {inv[r]: is_(rel, r) for r in PREF}, eq))

    def member(self, s, w):
        if s is None:
            return False
        if isinstance(s, sx.SymSet):
            return s.bits.get(w, False)
        return w in s

    def allows(self, ident, w):
        s = ident.get("only_join")
        if s is None:
            return True
        if isinstance(s, sx.SymSet):
            return Or(Not(Or(*s.bits.values())), self.member(s, w))
        return not s or w in s

    def permitted(self, u, w):
        return Or(*[c[0] for c in self.cand.get((u, w), [])])

    def usable(self, u, w):
        """permitted candidates with none strictly more preferable: (formula, relationships, equality)"""
        cs = self.cand.get((u, w), [])
        out = []
        for i, (ok, rels, eq) in enumerate(cs):
            better = []
            for j, (ok2, rels2, _) in enumerate(cs):
                if i != j:
                    for a, b in itertools.product(range(4), range(4)):
                        if b < a:
                            better.append(And(ok2, rels.get(PREF[a], False), rels2.get(PREF[b], False)))
            out.append((And(ok, Not(Or(*better))), rels, eq))
        return out

    def answerable(self, need):
        """some view (of the whole model) reaches every needed view through permitted joins"""
        reach = {(a, b): (True if a == b else self.permitted(a, b)) for a in self.names for b in self.names}
        for k in self.names:
            reach = {(a, b): Or(reach[a, b], And(reach[a, k], reach[k, b])) for a in self.names for b in self.names}
        return Or(*[And(*[reach[r, n] for n in need]) for r in self.names])


def equal(a, b):
    return And(Not(a.null), Not(b.null), a.v == b.v)


def sym_row(ctx, tag):
    return {c: V("int", ctx.zbool(f"{tag}.{c}.null"), ctx.zint(f"{tag}.{c}")) for c in COLS}


def columns(n, out):
    if isinstance(n, Node):
        if n.k == "col":
            out.append(n.name)
        for v in n.a.values():
            columns(v, out)
    elif isinstance(n, (list, tuple)):
        for v in n:
            columns(v, out)
    return out


def flatten(f):
    if f.k == "join":
        return flatten(f.left) + [(f.right, f.on, f.jt)]
    return [(f, None, None)]


def check_sql(ctx, cfg, p, dialect, sql, need, info, join_types=None):
    q = parsed(ctx, sql)
    s = core_select(q)
    if s.frm is None:
        ctx.fail("no FROM clause", info)
    parts = flatten(s.frm)
    seen = []
    ev = Eval({}, dialect)
    for f, on, jt in parts:
        if f.k != "table":
            ctx.fail("a single joined SELECT over the views was expected", info)
        alias = f.alias or f.name[-1]
        if alias not in cfg.names or ".".join(f.name) != cfg.tables.get(alias, f"db.{alias}"):
            ctx.fail(f"table {'.'.join(f.name)} as {alias} is not a view of the model", info)
        if alias in seen:
            ctx.fail(f"view {alias} is joined more than once", info)
        if seen:
            cols = columns(on, [])
            quals = {c[0] for c in cols if len(c) == 2}
            if any(len(c) != 2 for c in cols):
                ctx.fail(f"the join condition of {alias} has an unqualified column", info)
            others = quals - {alias}
            if alias not in quals or len(others) != 1:
                ctx.fail(f"the join condition of {alias} relates it to {sorted(others)}", info)
            u = others.pop()
            if u not in seen:
                ctx.fail(f"{alias} is joined to {u}, which is not joined yet", info)
            if jt != "left" and (join_types or {}).get((u, alias)) != jt:
                ctx.fail(f"{alias} is joined with a {jt} join", info)
            real_rel = p.join_graph.get_join(u, alias).relationship
            alts = []
            for i, (ok, rels, eq) in enumerate(cfg.usable(u, alias)):
                R = {u: sym_row(ctx, f"{u}#{i}"), alias: sym_row(ctx, f"{alias}#{i}")}
                rel = Rel([(v, c) for v in (u, alias) for c in COLS], [])
                row = Row(True, [R[v][c] for v in (u, alias) for c in COLS])
                got = sem(ctx, lambda: ev.truth(ev.ev(on, Env(rel, row), {})), sql, info)
                relok = Or(*[And(f_, is_(real_rel, r)) for r, f_ in rels.items()])
                alts.append(And(ok, relok, sx.Iff(got, eq(R))))
            if not alts:
                ctx.fail(f"the model does not relate {u} and {alias}", info)
            ctx.prove(Or(*alts), f"the join from {u} to {alias} is not a permitted join on the declared keys with the implied relationship", {**info, "relationship": str(real_rel)})
        seen.append(alias)
    for n in need:
        if n not in seen:
            ctx.fail(f"view {n} is needed but not joined", info)


def ask_all(ctx, cfg, vs, requests, dialect="SNOWFLAKE", join_types=None, models=None):
    p = project(vs, models, dialect=dialect)
    for need, req in requests:
        info = {"needed": need, "request": req, "configuration": describe(vs), "sig": f"{need}"}
        try:
            sql = query(ctx, p, dialect, may_refuse=True, **copy.deepcopy(req))
        except Refused as e:
            ctx.reached()
            ctx.prove(Not(cfg.answerable(need)), "refused although permitted joins connect the needed views", {**info, "refusal": str(e)})
            continue
        ctx.reached()
        check_sql(ctx, cfg, p, dialect, sql, need, {**info, "sql": sql}, join_types)


def describe(vs):
    out = {}
    for v in vs:
        out[v["name"]] = [{k: (repr(x) if not isinstance(x, str) else str.__str__(x)) for k, x in i.items()} for i in v.get("identifiers", [])]
    return out


def subsets(names, lo=2, hi=9):
    out = []
    for n in range(lo, min(hi, len(names)) + 1):
        for c in itertools.combinations(names, n):
            out.append((list(c), dict(metrics=[f"{c[0]}.t"], dimensions=[f"{x}.d" for x in c[1:]])))
    return out


def identifiers(ctx, layout, variants, restrict, fan):
    """layout: view -> identifier names.  All kinds are symbolic; `restrict`/`fan`: which views' only_join/allowed_fanouts are symbolic"""
    names = list(layout)
    cfg = Config(ctx, names)
    cfg.tables = {}
    ids, keys = {}, {}
    for v in names:
        ids[v] = []
        for i, n in enumerate(layout[v]):
            sql, kf = key_def(variants[(names.index(v) + i) % len(variants)], n, v)
            d = {"name": n, "type": ctx.str(f"{v}.{n}.type", ["primary", "foreign"], other=False)}
            if sql:
                d["sql"] = sql
            others = [x for x in names if x != v]
            if v in restrict:
                d["only_join"] = ctx.subset(f"{v}.{n}.only_join", others)
            if fan == "sym" or v in fan:
                d["allowed_fanouts"] = ctx.subset(f"{v}.{n}.allowed_fanouts", others)
            elif fan == "all":
                d["allowed_fanouts"] = others
            ids[v].append(d)
            keys[v, n] = kf
    for u, w in itertools.permutations(names, 2):
        for iu in ids[u]:
            for iw in ids[w]:
                if iu["name"] == iw["name"]:
                    cfg.shared(u, iu, keys[u, iu["name"]], w, iw, keys[w, iw["name"]])
    return cfg, ids


def shared(ctx, layout, variants, restrict, fan, pick=True):
    cfg, ids = identifiers(ctx, layout, variants, restrict, fan)
    vs = [the_view(n, ids[n]) for n in cfg.names]
    ask_all(ctx, cfg, vs, subsets(cfg.names))


def pairwise(ctx, names, edges, first, only=None, fan=None, rest=True):
    """each edge has an identifier of its own; kinds and allowances symbolic"""
    cfg = Config(ctx, names)
    cfg.tables = {}
    ids = {n: [] for n in names}
    for i, (u, w) in enumerate(edges):
        kinds = first if i == 0 and first else None
        d = {}
        for v, o in ((u, w), (w, u)):
            t = kinds[v == w] if kinds else ctx.str(f"e{i}.{v}.type", ["primary", "foreign"], other=False)
            sql, kf = key_def(["table", "ref", "calc"][(i + (v == u)) % 3], "kl"[i % 2])
            d[v] = {"name": f"e{i}", "type": t, "sql": sql, "allowed_fanouts": ctx.subset(f"e{i}.{v}.fan", [o]) if fan is None or i in fan else [o] if rest else []}
            ids[v].append(d[v])
            d[v, "k"] = kf
        cfg.shared(u, d[u], d[u, "k"], w, d[w], d[w, "k"])
        cfg.shared(w, d[w], d[w, "k"], u, d[u], d[u, "k"])
    vs = [the_view(n, ids[n]) for n in names]
    reqs = subsets(names)
    ask_all(ctx, cfg, vs, [r for r in reqs if only is None or len(r[0]) in only])


def explicit(ctx, names, edges, also, jt=None):
    """edges (u, w): an explicit join declared on u towards w; also: pairs that share an identifier"""
    cfg = Config(ctx, names)
    cfg.tables = {}
    ids = {n: [] for n in names}
    jts = {}
    for i, (u, w) in enumerate(edges):
        rel = ctx.str(f"rel{i}", PREF, other=False)
        two = ctx.flag(f"two{i}")
        on = "${%s.k} = ${%s.lf}" % (u, w) + (" and ${%s.p2f} = ${%s.p1}" % (w, u) if two else "")
        d = {"name": f"x{i}", "type": "join", "relationship": rel, "reference": w, "sql_on": on}
        if jt:
            d["join_type"] = jt
            jts[u, w] = jts[w, u] = {"left_outer": "left", "full_outer": "full", "inner": "inner"}[jt]
        ids[u].append(d)

        def eq(R, u=u, w=w, two=two):
            e = equal(R[u]["k_raw"], R[w]["l_raw"])
            return And(e, equal(R[w]["p2"], R[u]["p1"])) if two else e

        cfg.explicit(u, w, rel, eq)
    for i, (u, w) in enumerate(also):
        d = {}
        for v, o in ((u, w), (w, u)):
            d[v] = {"name": f"s{i}", "type": ctx.str(f"s{i}.{v}.type", ["primary", "foreign"], other=False), "sql": "${TABLE}.p2", "allowed_fanouts": ctx.subset(f"s{i}.{v}.fan", [o])}
            ids[v].append(d[v])
        kf = lambda r: r["p2"]
        cfg.shared(u, d[u], kf, w, d[w], kf)
        cfg.shared(w, d[w], kf, u, d[u], kf)
    vs = [the_view(n, ids[n]) for n in names]
    ask_all(ctx, cfg, vs, subsets(names), join_types=jts)


def needs(ctx, form):
    """views needed through filters, orderings and other fields' definitions"""
    names = ["a", "m", "z"]
    cfg, ids = identifiers(ctx, {"a": ["k"], "m": ["k", "l"], "z": ["l"]}, ["table", "ref"], [], "all")
    extra = [dim("viam", sql="case when ${m.d} > 3 then ${d} end"), dim("viaz", sql="${m.viaz1}"), meas("tm", "sum", "${TABLE}.d * ${m.d}"), meas("ratio", "number", "${t} / ${m.t}")]
    vs = [the_view("a", ids["a"], extra), the_view("m", ids["m"], [dim("viaz1", sql="coalesce(${z.df}, ${d})")]), the_view("z", ids["z"])]
    eq = lambda f: [{"field": f, "expression": "equal_to", "value": 3}]
    reqs = {
        "where": (["a", "m"], dict(metrics=["a.t"], where=eq("m.d"))),
        "where2": (["a", "m", "z"], dict(metrics=["a.t"], where=eq("m.d") + eq("z.d"))),
        "whereg": (["a", "m", "z"], dict(metrics=["a.t"], where=[{"conditions": eq("m.d") + [{"conditions": eq("z.d"), "logical_operator": "OR"}], "logical_operator": "OR"}])),
        "text": (["a", "m", "z"], dict(metrics=["a.t"], where="${m.d} = 3 or ${z.d} = 4")),
        "having": (["a", "m"], dict(metrics=["a.t"], dimensions=["a.d"], having=eq("m.t"))),
        "havingg": (["a", "m", "z"], dict(metrics=["a.t"], dimensions=["a.d"], having=[{"conditions": eq("m.t") + eq("z.t"), "logical_operator": "OR"}])),
        "order": (["a", "m"], dict(metrics=["a.t", "m.t"], dimensions=["a.d"], order_by=[{"field": "m.t"}])),
        "viam": (["a", "m"], dict(metrics=["a.t"], dimensions=["a.viam"])),
        "viaz": (["a", "m", "z"], dict(metrics=["a.t"], dimensions=["a.viaz"])),
        "viawhere": (["a", "m", "z"], dict(metrics=["a.t"], where=eq("a.viaz"))),
        "tm": (["a", "m"], dict(metrics=["a.tm"], dimensions=["a.d"])),
        "ratio": (["a", "m"], dict(metrics=["a.ratio"], dimensions=["a.d"])),
        "dims": (["m", "z"], dict(metrics=[], dimensions=["z.d", "m.df"])),
        "cmp": (["a", "m", "z"], dict(metrics=["a.t"], where=[{"field": "m.d", "expression": "equal_to", "value": "z.d"}])),
    }
    ask_all(ctx, cfg, vs, [reqs[form]])


def alias(ctx, which):
    """join_as: the same table joined under another name on another key"""
    names = ["a", "w", "w2"]
    cfg = Config(ctx, names)
    cfg.tables = {"w2": "db.w"}
    ta = [ctx.str(f"a.{n}.type", ["primary", "foreign"], other=False) for n in "kl"]
    fan = [ctx.subset(f"{v}.fan", [o]) for v, o in (("a", "w"), ("a", "w2"), ("w", "a"), ("w2", "a"))]
    ia = [{"name": "k", "type": ta[0], "sql": "${kf}", "allowed_fanouts": fan[0]}, {"name": "l", "type": ta[1], "sql": "${TABLE}.l_raw", "allowed_fanouts": fan[1]}]
    iw = [{"name": "k", "type": "primary", "sql": "${p1}", "allowed_fanouts": fan[2]},
          {"name": "l", "type": "primary", "sql": "${p2f}", "join_as": "w2", "allowed_fanouts": fan[3], "include_metrics": True}]
    kf = [lambda r: r["k_raw"], lambda r: r["l_raw"], lambda r: r["p1"], lambda r: r["p2"]]
    cfg.shared("a", ia[0], kf[0], "w", iw[0], kf[2])
    cfg.shared("w", iw[0], kf[2], "a", ia[0], kf[0])
    cfg.shared("a", ia[1], kf[1], "w2", iw[1], kf[3])
    cfg.shared("w2", iw[1], kf[3], "a", ia[1], kf[1])
    vs = [the_view("a", ia), the_view("w", iw)]
    ask_all(ctx, cfg, vs, subsets(names))


def composite(ctx, need):
    """a bridge view whose key is made of the keys of two others"""
    names = ["a", "b", "z"]
    cfg = Config(ctx, names)
    cfg.tables = {}
    fans = {n: ctx.subset(f"fan.{n}", [o for o in names if o != n]) for n in names}
    iz = {"name": "kl", "type": "primary", "identifiers": [{"name": "k"}, {"name": "l"}], "sql": "${k} * 10 + ${l}"}
    zk = {"name": "k", "type": "foreign", "sql": "${kf}", "allowed_fanouts": fans["z"]}
    zl = {"name": "l", "type": "foreign", "sql": "${TABLE}.l_raw", "allowed_fanouts": fans["z"]}
    ak = {"name": "k", "type": "primary", "sql": "${k}", "allowed_fanouts": fans["a"]}
    bl = {"name": "l", "type": "primary", "sql": "${lf}", "allowed_fanouts": fans["b"]}
    K, L = (lambda r: r["k_raw"]), (lambda r: r["l_raw"])
    cfg.shared("a", ak, K, "z", zk, K)
    cfg.shared("z", zk, K, "a", ak, K)
    cfg.shared("b", bl, L, "z", zl, L)
    cfg.shared("z", zl, L, "b", bl, L)
    vs = [the_view("a", [ak]), the_view("b", [bl]), the_view("z", [zk, zl, iz])]
    ask_all(ctx, cfg, vs, subsets(names))


TREES3 = [["am", "mz"], ["am", "az"], ["az", "mz"], ["am", "mz", "az"]]
# shapes over 4 views: star at first/second/last name, chains in various name orders, cycle, diamond with a tail
SHAPES4 = [["ab", "ac", "ad"], ["ab", "bc", "bd"], ["ad", "bd", "cd"], ["ab", "bc", "cd"], ["bd", "da", "ac"], ["ca", "ab", "bd"], ["ab", "bc", "cd", "da"], ["ab", "ac", "bc", "cd"]]


def rename(x):
    """view names that are prefixes and substrings of one another"""
    m = {"m": "ab", "z": "zab"}
    if isinstance(x, dict):
        return {m.get(k, k): rename(v) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v) for v in x]
    return m.get(x, x) if isinstance(x, str) else x


def jobs(tier):
    return [(f, rename(p) if f in ("shared", "pairwise", "explicit") else p) for f, p in base_jobs(tier)]


def base_jobs(tier):
    deep = tier == "thorough"
    out = []
    one = {"a": ["k"], "m": ["k"], "z": ["k"]}
    for v in (["plain"], ["table", "ref", "calc"], ["calc", "plain"], ["qual", "table"]):
        out.append(("shared", dict(layout=one, variants=v, restrict=[], fan="all")))
    for f in ("a", "m", "z"):
        out.append(("shared", dict(layout=one, variants=["ref", "table"], restrict=[f], fan="all")))
        out.append(("shared", dict(layout=one, variants=["ref", "table"], restrict=[f], fan=[f])))
    for f in (["a", "m"], ["m", "z"], ["a", "z"]):
        out.append(("shared", dict(layout=one, variants=["ref", "table"], restrict=[], fan=f)))
        if deep:
            out.append(("shared", dict(layout=one, variants=["ref", "table"], restrict=f, fan=f)))
            out.append(("shared", dict(layout=one, variants=["ref", "table"], restrict=["a", "m", "z"], fan=f)))
        out.append(("shared", dict(layout=one, variants=["ref", "table"], restrict=f, fan="all")))
    out.append(("shared", dict(layout=one, variants=["table", "calc"], restrict=[], fan="sym")))
    for lay in ({"a": ["k", "l"], "m": ["k", "l"]}, {"m": ["l", "k"], "a": ["k", "l"]}):
        out.append(("shared", dict(layout=lay, variants=["table", "ref"], restrict=["a"], fan="sym")))
        out.append(("shared", dict(layout=lay, variants=["table", "ref"], restrict=["m"], fan="all")))
    for lay in ({"a": ["k", "l"], "m": ["k"], "z": ["l"]}, {"a": ["k"], "m": ["l"], "z": ["l", "k"]}, {"a": ["k", "l"], "m": ["k", "l"], "z": ["l"]}):
        out.append(("shared", dict(layout=lay, variants=["table", "ref"], restrict=[], fan="all")))
        out.append(("shared", dict(layout=lay, variants=["ref", "table"], restrict=["a"] if deep else [], fan="sym" if deep else ["a"])))
    for n, sh in enumerate(TREES3):
        out.append(("pairwise", dict(names=["a", "m", "z"], edges=[list(e) for e in sh], first=None, fan=None if deep or len(sh) < 3 else [0])))
    for n, sh in enumerate(SHAPES4):
        if deep:
            for first in itertools.product(["primary", "foreign"], repeat=2):
                out.append(("pairwise", dict(names=["a", "b", "c", "d"], edges=[list(e) for e in sh], first=list(first), only=None if len(sh) < 4 else [3, 4], fan=None if len(sh) < 4 else [0, 1])))
        elif len(sh) < 4:
            out.append(("pairwise", dict(names=["a", "b", "c", "d"], edges=[list(e) for e in sh], first=None, only=[3, 4], fan=[n % 3], rest=bool(n % 2))))
            out.append(("pairwise", dict(names=["a", "b", "c", "d"], edges=[list(e) for e in sh], first=None, only=[2, 3, 4], fan=[], rest=False)))
            out.append(("pairwise", dict(names=["a", "b", "c", "d"], edges=[list(e) for e in sh], first=None, only=[4], fan=[], rest=True)))
        else:
            out.append(("pairwise", dict(names=["a", "b", "c", "d"], edges=[list(e) for e in sh], first=["foreign", "primary"], only=[3, 4], fan=[], rest=False)))
    for names, edges, also in ((["a", "m"], ["am"], []), (["a", "m"], ["ma"], ["am"]), (["a", "m"], ["am"], ["am"]), (["a", "m", "z"], ["am", "zm"], []), (["a", "m", "z"], ["am", "mz"], []),
                               (["a", "m", "z"], ["am"], ["mz"]), (["a", "m", "z"], ["za"], ["am"]), (["a", "m", "z"], ["za", "ma"], ["mz"])):
        if not deep and len(edges) + len(also) > 2:
            continue
        out.append(("explicit", dict(names=names, edges=[list(e) for e in edges], also=[list(e) for e in also])))
    for jt in ("left_outer", "full_outer", "inner"):
        out.append(("explicit", dict(names=["a", "m"], edges=[["a", "m"]], also=[], jt=jt)))
    for f in ("where", "where2", "whereg", "text", "having", "havingg", "order", "viam", "viaz", "viawhere", "tm", "ratio", "dims", "cmp"):
        out.append(("needs", dict(form=f)))
    out.append(("alias", dict(which="x")))
    out.append(("composite", dict(need="x")))
    return out
