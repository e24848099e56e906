"""C05: metrics and dimensions defined through others keep the arithmetic they state.  The real resolver substitutes the definitions; the
text of each column is parsed with SQL precedence and evaluated over symbolic operand values, and must equal (for all values, NULLs
included) the expression tree of the definitions, each referenced definition being one operand."""
import itertools

from .. import ref, spec, sx
from ..proj import *
from ..sqls import Eval, Row, Table, V, sym_table
from ..sx import And, Iff, Implies, Ite, Not, Or

EXPLANATION = __doc__
BOUNDS = "definitions up to 4 levels deep, every combination of + - * / per level and operand side, constants, case/coalesce/nullif, yes/no algebra (and/or/not), references across joined views and across merged results; one row (operand values symbolic integers and NULL), joined requests 2 rows"
OUTSIDE = "more than one row per aggregate where no join is involved (aggregates themselves are C04), SQL functions beyond case/coalesce/nullif/abs"
ASSUMPTIONS = ["division is an arbitrary function of its two operands"]

OPS = ["+", "-", "*", "/"]


def tree(ev, t, leaf):
    """value of an expression tree: leaf name, number, or (op, a, b)"""
    if isinstance(t, str):
        return leaf(t)
    if isinstance(t, int):
        return V("int", False, t)
    op, *a = t
    a = [tree(ev, x, leaf) for x in a]
    if op in OPS:
        return ev.arith(op, a[0], a[1])
    if op in (">", "<", "=", ">="):
        x, y = sx.lit(a[0].v), sx.lit(a[1].v)
        return V("bool", Or(a[0].null, a[1].null), {">": x > y, "<": x < y, "=": x == y, ">=": x >= y}[op])
    if op == "or":
        t_ = Or(*[And(Not(x.null), x.v) for x in a])
        return V("bool", And(Not(t_), Or(*[x.null for x in a])), t_)
    if op == "and":
        f = Or(*[And(Not(x.null), Not(x.v)) for x in a])
        return V("bool", And(Not(f), Or(*[x.null for x in a])), Not(f))
    if op == "not":
        return V("bool", a[0].null, Not(a[0].v))
    if op == "if":
        c = And(Not(a[0].null), a[0].v)
        x, y = a[1], a[2]
        if "real" in (x.t, y.t):
            x, y = [V("real", v.null, spec.to_real(sx.lit(v.v))) for v in (x, y)]
        return V(x.t, Ite(c, x.null, y.null), Ite(c, sx.lit(x.v), sx.lit(y.v)))
    if op == "ifnull":
        return V(a[0].t, And(a[0].null, a[1].null), Ite(a[0].null, sx.lit(a[1].v), sx.lit(a[0].v)))
    if op == "nullif":
        return V(a[0].t, Or(a[0].null, And(Not(a[1].null), sx.lit(a[0].v) == a[1].v)), a[0].v)
    raise ValueError(op)


SYM = {"s1": "x", "s2": "y", "s3": "z"}


def one_row(ctx, name, cols, n=1):
    t = sym_table(ctx, name, cols, n, pk=cols[0][0])
    for r in t.rows:
        ctx.assume(sx.lit(r.p))
    return t


def nested(ctx, op1):
    """n1 = s1 op1 s2; n2 = n1 op2 s3 or s3 op2 n1; n3 = n2 op3 n1 / s1 op3 n2 / n2 op3 2 ...; in select and having"""
    op2 = ctx.pick("op2", OPS)
    side2 = ctx.pick("side2", ["l", "r"])
    op3 = ctx.pick("op3", OPS)
    shape3 = ctx.pick("shape3", ["n2,n1", "n1,n2", "s1,n2", "n2,2", "case", "neg", "mixed"])
    bare = ctx.pick("qualified", ["plain", "view", "upper"])
    nm = {"plain": lambda n: n, "view": lambda n: "u." + n, "upper": lambda n: n.upper()}[bare]
    R = lambda n: "${%s}" % nm(n)
    T = {"n1": (op1, "s1", "s2")}
    text = {"n1": f"{R('s1')} {op1} {R('s2')}"}
    T["n2"] = (op2, T["n1"], "s3") if side2 == "l" else (op2, "s3", T["n1"])
    text["n2"] = f"{R('n1')} {op2} {R('s3')}" if side2 == "l" else f"{R('s3')} {op2} {R('n1')}"
    if shape3 == "case":
        T["n3"] = ("if", (">", T["n2"], 3), T["n1"], (op3, "s1", T["n2"]))
        text["n3"] = f"case when {R('n2')} > 3 then {R('n1')} else {R('s1')} {op3} {R('n2')} end"
    elif shape3 == "neg":
        T["n3"] = (op3, ("*", -1, T["n2"]), T["n1"])
        text["n3"] = f"-1 * {R('n2')} {op3} {R('n1')}"
    elif shape3 == "mixed":
        T["n3"] = (op3, ("ifnull", T["n2"], 0), ("nullif", T["n1"], 0)) if "/" not in (op1, op2) else (op3, T["n2"], T["n1"])
        text["n3"] = f"coalesce({R('n2')}, 0) {op3} nullif({R('n1')}, 0)" if "/" not in (op1, op2) else f"{R('n2')}{op3}{R('n1')}"
        if op3 == "/" and op1 != "/" and op2 != "/":
            pass
    else:
        a, b = shape3.split(",")
        g = lambda n: T.get(n, 2 if n == "2" else n)
        T["n3"] = (op3, g(a), g(b))
        text["n3"] = f"{R(a)} {op3} {R(b) if b != '2' else '2'}"
    T["n4"] = ("-", 10, T["n3"])
    text["n4"] = f"10 - {R('n3')}"
    fields = [pk("id", type="number"), dim("d")] + [meas(s, k, "${TABLE}." + c) for (s, c), k in zip(SYM.items(), ["sum", "max", "average"])]
    fields += [meas(n, "number", text[n]) for n in T]
    p = project([view("u", fields)])
    sql = query(ctx, p, "SNOWFLAKE", metrics=[f"u.{n}" for n in T], dimensions=["u.d"], having=[{"field": "u.n2", "expression": "greater_than", "value": 7}] if shape3 == "n2,n1" else [])
    info = {"sql": sql, "definitions": text, "sig": str(text)}
    t = one_row(ctx, "u", [("id", "int"), ("d", "code"), ("x", "int"), ("y", "int"), ("z", "int")])
    ev = Eval({"db.u": t}, "SNOWFLAKE", ctx=ctx)
    ev.lax_order = True
    Rl = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    row = ref.rows_of(t)[0][1]
    leaf = lambda n: row[SYM[n]] if n != "s3" else V("real", row["z"].null, spec.to_real(row["z"].v))
    want = {n: tree(ev, T[n], leaf) for n in T}
    if shape3 == "n2,n1":
        h = tree(ev, (">", T["n2"], 7), leaf)
        ctx.prove(Iff(Or(*[r.p for r in Rl.rows]), And(Not(h.null), h.v)), "the group filter on a computed metric does not compare the metric's value", info)
    for r in Rl.rows:
        for n in T:
            ctx.prove(Implies(r.p, spec.same_value(r.v[find_col(Rl, f"u_{n}")], want[n])), f"metric {n} is not the value of its expression", info)


def dims(ctx, op1, dialect):
    """dimensions through dimensions, in select, group, filters (structured and free text), measure expressions and measure filters"""
    op2 = ctx.pick("op2", OPS)
    shape = ctx.pick("shape", ["d1,c", "c,d1", "d1,d1", "2,d1", "tight"])
    use = ctx.pick("use", ["select", "where", "text", "measure", "mfilter", "group_where"])
    R = lambda n: "${%s}" % n
    a, b = {"d1,c": ("d1", "c"), "c,d1": ("c", "d1"), "d1,d1": ("d1", "d1"), "2,d1": ("2", "d1"), "tight": ("d1", "c")}[shape]
    g = lambda n: R(n) if n != "2" else "2"
    sp = "" if shape == "tight" else " "
    d1 = (op1, "a", "b")
    t = lambda n: {"d1": d1, "2": 2}.get(n, n)
    d2 = (op2, t(a), t(b))
    d3 = ("-", ("*", 2, d2), d1)
    fields = [pk("id", type="number"), dim("a", type="number"), dim("b", type="number", sql="${TABLE}.b"), dim("c", type="number"),
              dim("d1", type="number", sql="${TABLE}.a" + f" {op1} " + "${b}"), dim("d2", type="number", sql=g(a) + sp + op2 + sp + g(b)),
              dim("d3", type="number", sql="2 * ${d2} - ${u.d1}"), dim("q"),
              meas("m1", "sum", "3 * ${d2}"), meas("m2", "max", "${d1}"), meas("nm", "number", "${m1} - ${m2}"), meas("fm", "sum", "${c}", filters=[{"field": "d2", "value": ">4"}])]
    p = project([view("u", fields)], dialect=dialect)
    kw = dict(metrics=[], dimensions=["u.d2", "u.d3"])
    if use == "where":
        kw["where"] = [{"field": "u.d2", "expression": "greater_than", "value": 4}]
    elif use == "group_where":
        kw["where"] = [{"conditions": [{"field": "u.d3", "expression": "less_than", "value": 4}, {"field": "u.d2", "expression": "greater_than", "value": 4}], "logical_operator": "OR"}]
    elif use == "text":
        kw["where"] = "${u.d2} * 2 > 4 or 5 - ${u.d1} = 1"
    elif use == "measure":
        kw = dict(metrics=["u.m1", "u.nm"], dimensions=["u.d1"])
    elif use == "mfilter":
        kw = dict(metrics=["u.fm"], dimensions=["u.q"])
    sql = query(ctx, p, dialect, **kw)
    info = {"sql": sql, "definitions": [f["sql"] for f in fields if "sql" in f], "sig": f"{op1}{op2}{shape}{use}"}
    tb = one_row(ctx, "u", [("id", "int"), ("a", "int"), ("b", "int"), ("c", "int"), ("q", "code")])
    ev = Eval({"db.u": tb}, dialect, ctx=ctx)
    ev.lax_order = True
    Rl = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    row = ref.rows_of(tb)[0][1]
    val = lambda tr: tree(ev, tr, lambda n: row[n])
    keep = True
    T = lambda tr: (lambda v: And(Not(v.null), v.v))(val(tr))
    want = {"u_d2": val(d2), "u_d3": val(d3)}
    if use == "where":
        keep = T((">", d2, 4))
    elif use == "group_where":
        keep = Or(T(("<", d3, 4)), T((">", d2, 4)))
    elif use == "text":
        keep = Or(T((">", ("*", d2, 2), 4)), T(("=", ("-", 5, d1), 1)))
    elif use == "measure":
        want = {"u_d1": val(d1), "u_m1": val(("*", 3, d2)), "u_nm": val(("-", ("*", 3, d2), d1))}
    elif use == "mfilter":
        c = T((">", d2, 4))
        want = {"u_fm": V("int", Or(row["c"].null, Not(c)), row["c"].v)}
    ctx.prove(Iff(Or(*[r.p for r in Rl.rows]), keep), "the filter does not compare the dimension's value", info)
    for r in Rl.rows:
        for n, w in want.items():
            ctx.prove(Implies(r.p, spec.same_value(r.v[find_col(Rl, n)], w)), f"{n} is not the value of its expression", info)


def yesno(ctx, form):
    """yes/no definitions through others"""
    op = ctx.pick("op", ["or", "and"])
    op2 = ctx.pick("op2", ["or", "and"])
    a, b = (">", "a", 1), ("=", "b", 2)
    y1 = (op, a, b)
    T = {"y1": y1, "y2": ("not", y1), "y3": (op2, (">", "c", 3), y1), "y4": (op2, y1, ("not", (op2, (">", "c", 3), y1)))}
    text = {"y1": "${a} > 1 %s ${TABLE}.b = 2" % op, "y2": "not ${y1}", "y3": "${c} > 3 %s ${y1}" % op2, "y4": "${y1} %s not ${y3}" % op2}
    fields = [pk("id", type="number")] + [dim(c, type="number") for c in "abc"] + [dim(n, type=("yesno" if form != "number" else "string"), sql=s) for n, s in text.items()]
    fields += [meas("m", "sum", "case when ${y2} and ${y3} then ${c} else 0 end"), meas("fm", "count", filters=[{"field": "y3", "value": "TRUE"}] if form != "number" else [])]
    p = project([view("u", fields)])
    kw = dict(metrics=["u.m"], dimensions=["u." + n for n in T])
    if form == "text":
        kw["where"] = "${u.y3} and not ${u.y1}"
    elif form == "filters":
        kw["where"] = [{"field": "u.y3", "expression": "equal_to", "value": True}, {"field": "u.y1", "expression": "equal_to", "value": False}]
        kw["metrics"] = ["u.m", "u.fm"]
    sql = query(ctx, p, "SNOWFLAKE", **kw)
    info = {"sql": sql, "definitions": text, "sig": f"{op}{op2}{form}"}
    tb = one_row(ctx, "u", [("id", "int"), ("a", "int"), ("b", "int"), ("c", "int")])
    ev = Eval({"db.u": tb}, "SNOWFLAKE", ctx=ctx)
    ev.lax_order = True
    Rl = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    row = ref.rows_of(tb)[0][1]
    val = lambda tr: tree(ev, tr, lambda n: row[n])
    keep = True
    if form in ("text", "filters"):
        k = [val(T["y3"]), val(("not", T["y1"]))]
        keep = And(*[And(Not(v.null), v.v) for v in k])
    ctx.prove(Iff(Or(*[r.p for r in Rl.rows]), keep), "the filter on a yes/no definition keeps the wrong rows", info)
    for r in Rl.rows:
        for n in T:
            ctx.prove(Implies(r.p, spec.same_value(r.v[find_col(Rl, "u_" + n)], val(T[n]))), f"{n} is not the value of its expression", info)
        m = val(("if", ("and", T["y2"], T["y3"]), "c", 0))
        ctx.prove(Implies(r.p, spec.same_value(r.v[find_col(Rl, "u_m")], m)), "m is not the value of its expression", info)


def joined(ctx, rel, form):
    """operands from two joined views"""
    op1 = ctx.pick("op1", OPS)
    op2 = ctx.pick("op2", OPS)
    ids = {"m2o": ("foreign", "primary"), "o2m": ("primary", "foreign")}[rel]
    uf = [pk("id", type="number"), dim("k", type="number"), dim("d"), dim("a", type="number"), dim("ex", type="number", sql="${a} %s ${w.ew}" % op1), dim("ey", type="number", sql="2 %s ${ex}" % op2),
          meas("t", "sum", "${TABLE}.a"), meas("r", "number", "${t} %s ${w.t}" % op1), meas("rr", "number", "${w.n} %s ${r}" % op2)]
    wf = [pk("id", type="number"), dim("k", type="number"), dim("b", type="number"), dim("ew", type="number", sql="${b} %s ${TABLE}.c" % op2), meas("t", "sum", "${TABLE}.b"), meas("t2", "sum", "${TABLE}.c"), meas("n", "number", "${t} %s ${t2}" % op1)]
    key = lambda s: "${id}" if s == "primary" else "${k}"
    vs = [view("u", uf, [{"name": "j", "type": ids[0], "sql": key(ids[0]), "allowed_fanouts": ["w"]}]), view("w", wf, [{"name": "j", "type": ids[1], "sql": key(ids[1]), "allowed_fanouts": []}])]
    p = project(vs)
    kw = dict(metrics=["u.rr", "u.r"], dimensions=["u.d"]) if form == "metric" else dict(metrics=[], dimensions=["u.ex", "u.ey"]) if form == "dim" else dict(metrics=["u.t"], where="${u.ey} * 3 > 5")
    sql = query(ctx, p, "SNOWFLAKE", **kw)
    info = {"sql": sql, "sig": f"{rel}{form}"}
    db = {"db.u": one_row(ctx, "u", [("id", "int"), ("k", "int"), ("d", "code"), ("a", "int")]), "db.w": one_row(ctx, "w", [("id", "int"), ("k", "int"), ("b", "int"), ("c", "int")])}
    ru, rw = ref.rows_of(db["db.u"])[0][1], ref.rows_of(db["db.w"])[0][1]
    ku, kw_ = ru["id" if ids[0] == "primary" else "k"], rw["id" if ids[1] == "primary" else "k"]
    ctx.assume(sx.lit(And(Not(ku.null), Not(kw_.null), ku.v == kw_.v)))
    ev = Eval(db, "SNOWFLAKE", ctx=ctx)
    ev.lax_order = True
    Rl = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    leaf = lambda n: {"ut": ru["a"], "wt": rw["b"], "wt2": rw["c"], "a": ru["a"], "b": rw["b"], "c": rw["c"]}[n]
    r = (op1, "ut", "wt")
    rr = (op2, (op1, "wt", "wt2"), r)
    ex = (op1, "a", (op2, "b", "c"))
    ey = (op2, 2, ex)
    want = {"u_rr": rr, "u_r": r} if form == "metric" else {"u_ex": ex, "u_ey": ey} if form == "dim" else {}
    if form == "metric":
        # de-duplicated sums show a missing operand as 0
        for v in (ru["a"], rw["b"], rw["c"]):
            ctx.assume(sx.lit(Not(v.null)))
    if form == "text":
        k = tree(ev, (">", ("*", ey, 3), 5), leaf)
        for r_ in Rl.rows:
            ctx.prove(spec.same_value(r_.v[find_col(Rl, "u_t")], V("int", Or(ru["a"].null, k.null, Not(k.v)), ru["a"].v), True), "the free-text filter does not compare the dimension's value", info)
        return
    hyp = []
    for r_ in Rl.rows:
        for n, tr in want.items():
            ctx.prove(Implies(r_.p, spec.same_value(r_.v[find_col(Rl, n)], tree(ev, tr, leaf))), f"{n} is not the value of its expression", info, hyp)


def merged(ctx, form):
    """operands that cannot be joined: arithmetic over the combined sub-queries"""
    op1 = ctx.pick("op1", OPS)
    op2 = ctx.pick("op2", OPS)
    side = ctx.pick("side", ["l", "r"])
    td = [timedim("ts", timeframes=["raw", "date", "month"])]
    un = "${t} %s ${t2}" % op2
    mr = "${t} %s ${w.t}" % op1
    mr2 = ("${mr} %s ${w.n}" if side == "l" else "${w.n} %s ${mr}") % op2
    mr3 = "case when ${mr2} > 4 then ${mr} else 3 - ${un} end"
    uf = [pk("id", type="number"), dim("r"), meas("t", "sum", "${TABLE}.a"), meas("t2", "max", "${TABLE}.b"), meas("un", "number", un),
          meas("mr", "number", mr), meas("mr2", "number", mr2), meas("mr3", "number", mr3)] + td
    wf = [pk("id", type="number"), dim("r"), meas("t", "sum", "${TABLE}.a"), meas("t2", "max", "${TABLE}.b"), meas("n", "number", "${t2} %s ${t}" % op1)] + td
    vs = [view("u", uf, default_date="ts"), view("w", wf, default_date="ts")]
    p = project(vs, [model(mappings={"reg": {"fields": ["u.r", "w.r"]}})])
    ms = ["u.mr", "u.mr2"] + (["u.mr3", "u.un"] if form != "two" else [])
    kw = dict(metrics=ms, dimensions=["reg"] if form == "mapped" else ["date"] if form == "date" else [])
    sql = query(ctx, p, "SNOWFLAKE", **kw)
    info = {"sql": sql, "sig": f"merged|{form}"}
    cols = [("id", "int"), ("r", "code"), ("a", "int"), ("b", "int"), ("ts", "ts")]
    db = {"db.u": one_row(ctx, "u", cols), "db.w": one_row(ctx, "w", cols)}
    ru, rw = ref.rows_of(db["db.u"])[0][1], ref.rows_of(db["db.w"])[0][1]
    if form == "mapped":
        ctx.assume(sx.lit(And(Not(ru["r"].null), Not(rw["r"].null), ru["r"].v == rw["r"].v)))
    else:
        ctx.assume(sx.lit(And(Not(ru["ts"].null), Not(rw["ts"].null), ru["ts"].v == rw["ts"].v)))
    ev = Eval(db, "SNOWFLAKE", ctx=ctx)
    ev.lax_order = True
    Rl = sem(ctx, lambda: ev.query(parsed(ctx, sql)), sql, info)
    ctx.reached()
    leaf = lambda n: {"ut": ru["a"], "ut2": ru["b"], "wt": rw["a"], "wt2": rw["b"]}[n]
    T = {"mr": (op1, "ut", "wt"), "un": (op2, "ut", "ut2")}
    n = (op1, "wt2", "wt")
    T["mr2"] = (op2, T["mr"], n) if side == "l" else (op2, n, T["mr"])
    T["mr3"] = ("if", (">", T["mr2"], 4), T["mr"], ("-", 3, T["un"]))
    ctx.prove(spec.count([r.p for r in Rl.rows]) == 1, "one combined row was expected", info)
    for r in Rl.rows:
        for m in ms:
            ctx.prove(Implies(r.p, spec.same_value(r.v[find_col(Rl, m.replace(".", "_"))], tree(ev, T[m[2:]], leaf))), f"{m} is not the value of its expression", info)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for op in OPS:
        out.append(("nested", dict(op1=op)))
        for d in ALL if deep else ["SNOWFLAKE"]:
            out.append(("dims", dict(op1=op, dialect=d)))
    for f in ("select", "text", "filters"):
        out.append(("yesno", dict(form=f)))
    for rel in ("m2o", "o2m"):
        for f in ("metric", "dim", "text"):
            out.append(("joined", dict(rel=rel, form=f)))
    for f in ("none", "mapped", "date", "two"):
        out.append(("merged", dict(form=f)))
    return out
