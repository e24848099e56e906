"""C18: filter shorthand.  The current source of the filter module runs on texts whose characters are symbolic; for every text the
comparison and operand it reads are those of the documented grammar, stated here independently."""
import importlib
import re

import z3

from .. import boot, sx  # noqa
from ..sstr import MOMENT, CStr, Num, Rx, TOKENS, ce, int_value, load
from ..sx import And, Eq, Iff, Implies, Not, Or

EXPLANATION = __doc__
BOUNDS = "every text of up to 6 characters (thorough 8) over printable ASCII, tab and newline; longer texts from 70 templates with up to 5 free characters (lists, date phrases, comparisons, wildcards)"
OUTSIDE = "non-ASCII characters; list entries that begin with a blank after the comma and blank; what a date phrase denotes (C13); comparisons of text that is no number (may be refused or compared as text)"
ASSUMPTIONS = ["pandas.to_numeric reads the number a text stands for"]
MAX_PATHS = 200000
_MOD = []


def module(ctx):
    if ctx.concrete:
        return importlib.import_module("metrics_layer.core.model.filter")
    if not _MOD:
        importlib.import_module("metrics_layer.core.model.filter")
        _MOD.append(load("metrics_layer.core.model.filter"))
    return _MOD[0]


U = "(days?|weeks?|months?|quarters?|years?)"
P = rf"(today|yesterday|(\d+|this|last)\s+{U}|((\d+|this|last)\s+)?{U}\s+(ago|ago\s+to\s+date|to\s+date)|\d+\s+{U}\s+ago\s+for\s+\d+\s+{U})"
D = r"(\d\d\d\d-\d\d?-\d\d?)"
DATE = rf"({P}|({P}|{D}) until ({P}|{D})|(after|before|on|not on)\s+{D})"
NUMBER = r"[+-]?\d+(\.\d+)?"


def rx(pattern, s):
    return Rx(pattern).cond(s)


def lists(s, L):
    """[(condition, negated?, entries)] for every way commas and blanks can separate the text"""
    occ = [s.startswith_at(i, ", ") for i in range(L - 1)]
    known = [sx.is_conc_bool(o) for o in occ]

    def places(i):
        if i > L - 2:
            yield []
            return
        if known[i] is not True:
            yield from places(i + 1)
        if known[i] is not False:
            for r in places(i + 2):
                yield [i] + r

    for at in places(0):
        if not at:
            continue
        pos, conds = 0, []
        for i in range(L - 1):
            o = occ[i]
            conds.append(o if i in at else Not(o))
        es = []
        for i in at + [L]:
            es.append(s[pos:i])
            pos = i + 2
        yield And(*conds), es


def check(ctx, s, L, run):
    """s: CStr of exactly L characters; run() -> ('value', expression, value) | ('date',) | ('none',) | ('refused', text)"""
    info = {}
    eq = lambda t: s.eq(t)
    sep = s.has(", ")
    date, maybe_date = rx(DATE, s), rx(rf"\s*{DATE}\s*", s)
    special = Or(eq("NULL"), eq("-NULL"), eq("TRUE"), eq("FALSE"))
    alts = []  # (condition, expression, operand)
    if L == 0:
        alts.append((True, None, None))
    alts += [(eq("NULL"), "is_null", None), (eq("-NULL"), "is_not_null", None), (eq("TRUE"), "equal_to", True), (eq("FALSE"), "equal_to", False)]
    must_refuse, may_refuse = [], []
    rest = And(Not(special), Not(date))
    for c, es in lists(s, L) if L else ():
        lead = Or(*[Or(*[ce(e.c[0], ord(w)) for w in " \t\n"]) for e in es[1:] if len(e.c)])
        ctx.assume(sx.lit(Not(And(c, lead))))
        ng = [ce(e.c[0], 45) if len(e.c) else False for e in es]
        alts.append((And(rest, c, *ng), "isnotin", [e[1:].strip() for e in es]))
        alts.append((And(rest, c, *[Not(x) for x in ng]), "isin", [e.strip() for e in es]))
        must_refuse.append(And(rest, c, Or(*ng), Or(*[Not(x) for x in ng])))
    rest = And(rest, Not(sep))
    for sym, e in (("<=", "less_or_equal_than"), (">=", "greater_or_equal_than"), ("<>", "not_equal_to"), ("!=", "not_equal_to"), ("=", "equal_to"), (">", "greater_than"), ("<", "less_than")):
        if L < len(sym):
            continue
        c = And(rest, s.startswith_at(0, sym))
        o = s[len(sym):]
        alts.append((And(c, rx(NUMBER, o)), e, ("num", o)))
        alts.append((And(c, Not(rx(NUMBER, o))), e, ("any", o)))
        may_refuse.append(And(c, Not(rx(NUMBER, o))))
        rest = And(rest, Not(s.startswith_at(0, sym)))
    for k, (neg, a) in enumerate(((True, s[1:]), (False, s))):
        if L < 1:
            break
        m = len(a.c)
        base = And(rest, ce(s.c[0], 45) if neg else Not(ce(s.c[0], 45)))
        pre = ce(a.c[0], 37) if m else False
        post = ce(a.c[-1], 37) if m else False
        n = lambda x: {"contains": "does_not_contain", "ends_with": "does_not_end_with", "starts_with": "does_not_start_with"}[x] + "_case_insensitive" if neg else x + "_case_insensitive"
        if m == 1:
            alts += [(And(base, pre), n(x), CStr([])) for x in ("contains", "ends_with", "starts_with")]
        else:
            alts.append((And(base, pre, post), n("contains"), a[1:-1]))
            alts.append((And(base, pre, Not(post)), n("ends_with"), a[1:]))
            alts.append((And(base, post, Not(pre)), n("starts_with"), a[:-1]))
        alts.append((And(base, Not(pre), Not(post)), "not_equal_to" if neg else "equal_to", a))
    ctx.reached()
    r = run()
    info["read as"] = [repr(x) for x in r]
    if r[0] == "date":
        return ctx.prove(And(maybe_date, Not(special)), "a text that is no date condition is read as one", info)
    if r[0] == "refused":
        return ctx.prove(Or(*must_refuse, *may_refuse), "a filter text is refused", info)
    ctx.prove(Not(date), "a date condition is read as something else", info)
    if r[0] == "none":
        return ctx.prove(L == 0, "a filter text is dropped", info)
    _, expr, val = r
    ok = [And(c, same(val, o)) for c, e, o in alts if e == expr]
    ctx.prove(Or(*ok), "a filter text is read as another comparison or operand than documented", info)


def txt(v):
    """CStr of a text the code returned"""
    if isinstance(v, CStr):
        return v
    if isinstance(v, str):
        if any(t in v for t in TOKENS):
            raise sx.EngineError("symbolic text inside other text")
        return CStr([ord(c) for c in v]) if all(ord(c) < 256 for c in v) else None
    return None


def same(v, o):
    if o is None or o is True or o is False:
        return v is o
    if isinstance(o, list):
        if not isinstance(v, (list, tuple)) or len(v) != len(o):
            return False
        return And(*[same(a, b) for a, b in zip(v, o)])
    if isinstance(o, tuple):
        kind, text = o
        if isinstance(v, Num):
            return txt(v.text).eq(text)
        if isinstance(v, str):
            return kind == "any" and txt(v).eq(text)
        if isinstance(v, sx.SymInt):
            return And(rx(r"\s*[+-]?\d+\s*", text), v.e == int_value(text))
        if isinstance(v, bool):
            return False
        if kind == "any":
            return True
        import pandas as pd

        return bool(v == pd.to_numeric("".join(chr(_code(c)) for c in text.c)))
    t = txt(v)
    return False if t is None else t.eq(o)


def moment(v, value):
    return v is MOMENT or isinstance(v, str) and not isinstance(v, CStr) and v not in str(value) and re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d", v) is not None


def _code(c):
    return c if isinstance(c, int) else z3.simplify(c).as_long()


def read(ctx, template, via="filter"):
    """template: characters, where \\0 is a free one"""
    m = module(ctx)
    chars = []
    for i, ch in enumerate(template):
        if ch != "\0":
            chars.append(ord(ch))
            continue
        b = ctx.zbv(f"c{i}", 8)
        chars.append(_code(b) if ctx.concrete else b)
        ctx.assume(sx.lit(Or(z3.And(z3.UGE(b, 32), z3.ULE(b, 126)), b == 9, b == 10)))
    L = len(chars)
    s = CStr(chars)
    value = "".join(map(chr, chars)) if all(isinstance(c, int) for c in chars) else s

    def run():
        try:
            if via == "dict":
                r = m.Filter._filter_dict("f", value)
                r = r if isinstance(r, list) else [r]
            else:
                r = m.Filter({"field": "f", "value": value, "extra": 1}).filter_dict(json_safe=via == "json")
        except (sx.EngineError, sx.PathAbort, sx.Found):
            raise
        except Exception as e:
            if ctx.concrete and type(e) is ValueError and "time data" in str(e):
                return ("date",)
            if type(e).__name__ in ("QueryError", "ValueError"):
                return ("refused", f"{type(e).__name__}: {e}")
            ctx.fail(f"reading a filter text raised {type(e).__name__}: {e}", {"value": repr(value)})
        for x in r:
            if x and (x.get("field") != "f" or via != "dict" and x.get("extra") != 1):
                ctx.fail("reading a filter changes its field or other properties", {"read": repr(r)})
        if any(moment(x.get("value"), value) for x in r):
            return ("date",)
        if len(r) != 1:
            ctx.fail(f"a filter text gives {len(r)} conditions", {"read": repr(r)})
        x = r[0]
        if "expression" not in x:
            return ("none",)
        e = x["expression"]
        if via == "json" and type(e) is not str:
            ctx.fail("the expression is not text although asked for", {"read": repr(x)})
        return ("value", getattr(e, "value", e), x["value"])

    check(ctx, s, L, run)


T = [
    "last ????", "last mont?", "las? month", "?last month", "last month?", "????? days", "? days", "?? week", "5 ?????", "5 day??", "this yea?", "this ?????", "toda?", "today?", "?today", "yesterda?", "?month to date", "last month to dat?",
    "week?to date", "2 days ag?", "2 days ago ??", "2 ????? ago", "?2 months ago", "year ago to dat?", "2 months ago?to date", "1 year ago for ? months", "?1 year ago for 3 month?", "1 year ago for 3 ??????", "1 ????? ago for 3 days",
    "on ??????", "on 202?-01-0?", "not on ????-01-01", "not on?", "not o? 2020-01-01", "before 2020-??-??", "after ?????", "afte? 2020-01-01", "?on 2020-01-01", "after 2020-01-01?", "on sal?", "befor?", "on",
    "2020-01-01 until 202?-01-??", "?until ?", "?? until ??", "today unti? today", "last week until ?????", "a until b until ?", " until ?", "a?, ?b", "a, ?, b", "-a, ?b", "-?, -b", "-a?, -?b", "a??b", "??, ??", "-a, b?", "a, b, c??", "<=????", ">=?.??", "<>-?.?", "!=????", "=????",
    ">?????", "<-????", "-%????%", "-?abc?", "?abc?", "%???%", "-????%", "NUL?", "?NULL", "-NUL?", "NULL?", "TRU?", "FALS?", "?TRUE", "TRUE?", "-TRUE?", "NULL, ??", "last month, ??", "-last month", ", ??", "??, ",
]


def jobs(tier):
    deep = tier == "thorough"
    out = [("read", dict(template="\0" * n, via=v)) for n in range(0, 5) for v in ("filter", "json", "dict")]
    out += [("read", dict(template="\0" * n)) for n in range(5, 9 if deep else 7)]
    out += [("read", dict(template=t.replace("?", "\0"), via=("filter", "json", "dict")[i % 3])) for i, t in enumerate(T)]
    if deep:
        out += [("read", dict(template=t.replace("?", "\0\0"))) for t in T if t.count("?") <= 2]
    return out
