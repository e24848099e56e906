"""C23: text and structure agree.  Requests are assembled from clauses chosen by solver variables (fields, filters, order, funnel), written as an MQL text in every letter case and spacing and put into every place
of a larger statement; the real converter's SQL is compared with the SQL of the structured request, and the rest of the statement with what was written."""
import contextlib
import io
import re

import sqlparse.keywords

from .. import sx
from ..proj import *

EXPLANATION = __doc__
BOUNDS = ("requests with up to 3 metrics, 3 dimensions, 14 where texts, 4 having texts, 4 orders, 4 funnels of 2 and 3 steps; 4 letter cases, 7 spacings; 22 surrounding statements with up to 3 MQL parts; each of the 700 words that the SQL lexer knows as the name of a metric or a dimension "
          "in the first, middle and last place (quick: a fifth of them in each place); filter values from a list of 6 (with words and signs of the language in them); 31 texts that cannot be answered; 2 warehouses")
OUTSIDE = "comments inside MQL(); clauses in another order; names that are reserved words or operators of SQL (as, where, by, like, ...) ; FUNNEL without FOR; the lexer itself (sqlparse) runs concretely"
ASSUMPTIONS = ["the words MQL texts are made of are tokens chosen by the solver, the letters in them are not symbolic"]

RESERVED = {"as", "where", "by", "like", "ilike", "rlike", "regexp", "div", "for", "having", "and", "or", "order", "group", "then", "from", "in", "case", "using", "values", "select", "union", "on", "set", "end", "when", "else", "if", "limit", "with", "begin", "declare", "not", "null", "is",
            "join", "between", "within", "funnel", "mql", "create", "alter", "drop", "insert", "update", "delete", "merge", "replace", "truncate", "commit", "rollback", "start", "grant", "revoke", "except", "intersect", "minus", "exists", "distinct", "all", "any", "interval", "asc", "desc", "loop", "while", "foreach", "into", "returning", "go", "explain", "return", "t", "k", "r", "q", "n", "id", "u", "count"}
WORDS = sorted({w.lower() for n, v in vars(sqlparse.keywords).items() if n.startswith("KEYWORDS") and isinstance(v, dict) for w in v if w.isidentifier()} - RESERVED)


def project(metric="mm", dimension="dd", dialect="SNOWFLAKE"):
    def fields(v):
        return [pk("id", type="number"), dim("n", type="number"), dim("r"), dim("q"), dim(dimension), dim("ev"), dim("cust", tags=["customer"] if v == "u" else []), timedim("ts", timeframes=["raw", "date", "week"]), meas("t", "sum", "${n}"), meas("k", "count"), meas(metric, "max", "${n}"), meas("ratio", "number", "${t} / ${k}")]

    return Project(models=[model(mappings={"place": {"fields": ["u.r", "w.r"]}})], views=[view("u", fields("u"), [], default_date="ts"), view("w", fields("w"), [], default_date="ts")], connection_lookup={"c": dialect})


def ask(c, dialect, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return c.get_sql_query(query_type=dialect, **k)
        except REFUSALS as e:
            return "refused"


def plain(sql):
    """Without the spaces that do not matter, and without the closing semicolon and one pair of parentheses around everything"""
    parts = re.split(r"('(?:[^']|'')*')", sql)
    s = "".join(p if i % 2 else re.sub(r"\s+", " ", p) for i, p in enumerate(parts)).strip()
    s = s.rstrip(";").strip()
    if s.startswith("(") and s.endswith(")") and not s[1:-1].count(")") > s[1:-1].count("("):
        s = s[1:-1].strip()
    return s


METRICS = [["u.t"], ["u.t", "u.k"], ["u.ratio", "u.t", "u.k"], ["u.t", "w.t"], [], ["U.T"], ["u.mm", "u.k"]]
DIMS = [[], ["u.r"], ["place"], ["u.ts_date", "u.q"], ["u.q", "u.r", "u.ts_week"], ["date"], ["u.dd"]]
WHERE = [None, "${u.r} = 'VALUE'", "${u.r} = 'VALUE' and ${u.q} <> 'b'", "${u.n} > 3 OR ${u.q} IS NULL", "${u.q} in ('VALUE', 'x  y')", "${u.q} = 'a HAVING b ORDER BY c'", "${u.q} = 'it''s' AND not (${u.n} between 2 and 5)", "${u.q} like '%by%'", "${u.ts_date} > '2024-01-05'", "${u.q}='MQL(u.t BY u.r)'",
         "case when ${u.n} > 1 then true else ${u.q} = 'where' end", "(${u.r} = 'VALUE')", "u.r = 'VALUE'", "${u.q} = ';' and ${u.n} = -1.5"]
HAVING = [None, "${u.t} > 3", "${u.t} > 3 and ${u.k} < 10", "(${u.t} > 3 or ${u.k} is not null)"]
ORDER = [None, "u.t", "u.t desc", "u.t asc, u.k desc"]
VALUES = ["a", "x  y", "Where By", "then", "(", "it''s; -- MQL(u.t)"]
CASES = [str.upper, str.lower, str.title, lambda w: "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(w))]
SPACES = [(" ", ", "), ("\n", ",\n"), ("  ", " , "), ("\n    ", ","), ("\t", ",\t"), ("\r\n", ", "), (" \n \n", ",  ")]
PLACES = [
    ("{0}", 1), ("{0};", 1), ("  {0}", 1), ("{0}\n", 1),
    ("SELECT * FROM {0} as a", 1), ("select a.* from {0} a", 1), ("SELECT * FROM {0}", 1), ("SELECT a.u_r, 'x  y' as z FROM {0} as a WHERE a.u_r <> 'MQL' ORDER BY 1", 1),
    ("SELECT * FROM c LEFT JOIN {0} as a ON a.u_r=c.r", 1), ("SELECT * FROM {0} as a JOIN {1} as b ON a.u_r=b.u_r", 2), ("SELECT * FROM {0} a, {1} b WHERE a.u_r=b.u_r", 2), ("WITH z AS (SELECT * FROM {0} as a) SELECT * FROM z", 1),
    ("WITH z AS (SELECT * FROM {0} as a), y as (select 1 as one from {1} as b) SELECT * FROM z JOIN y ON true", 2), ("SELECT * FROM (SELECT * FROM {0} as a) as b WHERE 1=1", 1), ("SELECT * FROM t WHERE x IN (SELECT u_r FROM {0} as a) AND y = 3", 1),
    ("SELECT 'MQL(u.t BY u.r)' as x, a.* FROM {0} as a", 1), ("SELECT 1 as x -- MQL(u.t BY u.r)\nFROM {0} as a", 1), ("SELECT /* MQL(u.t) */ * FROM {0} as a", 1), ("SELECT * FROM {0} as a UNION ALL SELECT * FROM {0} as b", 1), ("SELECT * FROM {0} as a UNION ALL SELECT * FROM {1} as b UNION ALL SELECT * FROM {2} as c", 3),
    ("SELECT mql_total, my_mql(3) FROM {0} as mql_1", 1), ("SELECT a.x, COUNT(*) FROM {0} as a GROUP BY a.x HAVING COUNT(*) > 1", 1),
]
SMALL = [dict(metrics=["u.t"], dimensions=["u.r"]), dict(metrics=["u.k", "u.t"], dimensions=["u.r"], where="${u.q} = 'VALUE'"), dict(metrics=["u.t"], dimensions=["u.r"], where="${u.q} = 'x  y'", having="${u.k} > 2", order_by="u.t desc")]
FUNNELS = [None, {"steps": ["${u.ev} = 'a'", "${u.ev} = 'VALUE'"], "within": {"value": 3, "unit": "days"}, "view_name": "u"}, {"steps": ["${u.ev} = 'a' and ${u.n} > 3", "${u.ev} = 'b'", "${u.q} = 'c'"], "within": {"value": 12, "unit": "hours"}, "view_name": "u"},
           {"steps": ["${u.ev} in ('a', 'within b') and not (${u.n} = 2)", "${u.n} is null or ${u.q} like '%x'", "case when ${u.n} > 3 then 1 else 2 end = 1 and ${u.n} between 1 and 5"], "within": {"value": 3, "unit": "days"}, "view_name": "u"},
           {"steps": ["${u.ev} = 'then' or ${u.q} = 'by'", "${u.ev} = 'where'"], "within": {"value": 1, "unit": "weeks"}, "view_name": "u"}]


def text(req, case, space):
    sp, comma = SPACES[space]
    word = lambda w: CASES[case](w)
    out = []
    if req.get("metrics"):
        out.append(comma.join(req["metrics"]))
    f = req.get("funnel")
    if f:
        out.append(word("for") + sp + f["view_name"])
        out.append(word("funnel") + sp + (sp + word("then") + sp).join(f["steps"]))
        out.append(word("within") + sp + str(f["within"]["value"]) + sp + f["within"]["unit"])
    if req.get("dimensions"):
        out.append(word("by") + sp + comma.join(req["dimensions"]))
    for k in ("where", "having", "order_by"):
        if req.get(k):
            out.append(word(k.replace("_", " ")) + sp + req[k])
    lead = "" if space % 2 else sp
    return CASES[case]("mql") + "(" + lead + sp.join(out) + (sp if space % 3 == 0 else "") + ")"


def filled(req, value):
    def put(x):
        return x.replace("VALUE", value) if isinstance(x, str) else [put(y) for y in x] if isinstance(x, list) else {k: put(v) for k, v in x.items()} if isinstance(x, dict) else x

    return {k: put(v) for k, v in req.items() if v}


def compare(ctx, c, dialect, reqs, place, case, space, info, values=VALUES):
    v = ctx.pick("value", values) if any("VALUE" in str(r) for r in reqs) else "a"
    reqs = [filled(r, v) for r in reqs]
    frame, n = PLACES[place]
    texts = [text(r, case, space) for r in reqs[:n]]
    sql = frame.format(*texts)
    want = [ask(c, dialect, **r) for r in reqs[:n]]
    ctx.reached()
    try:
        got = ask(c, dialect, sql=sql)
    except Exception as e:
        got = f"{type(e).__name__}: {e}"
    info = {**info, "text": sql, "got": got, "structured": repr(want), "dialect": dialect}
    if "refused" in want:
        ctx.prove(not got.strip().endswith(";"), "the text is answered, the structured request is refused", info)
        return
    whole = frame.format(*["(" + w.rstrip().rstrip(";") + ")" for w in want])
    if place < 4:
        whole = frame.format(*[w.rstrip().rstrip(";") for w in want])
    ctx.prove(plain(got) == plain(whole), "the text means something else than the structured request", {**info, "expected": whole})
    ctx.prove(got.rstrip().endswith(";"), "the statement is not closed", info)


def clauses(ctx, metrics, dims, dialect, case, space, wheres, havings, orders, values):
    w, h, o = ctx.pick("where", wheres), ctx.pick("having", havings), ctx.pick("order", orders)
    req = dict(metrics=METRICS[metrics], dimensions=DIMS[dims], where=WHERE[w], having=HAVING[h], order_by=ORDER[o])
    compare(ctx, connection(project(dialect=dialect), None), dialect, [req], 0, case, space, {"sig": "clauses"}, values)


def places(ctx, place, dialect, cases, spaces, values):
    case, space = ctx.pick("case", cases), ctx.pick("space", spaces)
    i = ctx.pick("request", [0, 1, 2])
    compare(ctx, connection(project(dialect=dialect), None), dialect, SMALL[i:] + SMALL[:i], place, case, space, {"sig": "places"}, values)


def funnels(ctx, funnel, dialect, case, spaces, places, values):
    space = ctx.pick("space", spaces)
    m, d, w = ctx.pick("metrics", [["u.k"], ["u.t", "u.k"]]), ctx.pick("dims", [[], ["u.r"], ["u.r", "u.q"]]), ctx.pick("where", [None, "${u.q} = 'VALUE'"])
    compare(ctx, connection(project(dialect=dialect), None), dialect, [dict(metrics=m, dimensions=d, where=w, funnel=FUNNELS[funnel])], ctx.pick("place", places), case, space, {"sig": "funnel"}, values)


def words(ctx, words, form, both):
    word = ctx.pick("word", words)
    up = ctx.pick("upper", [False, True] if both else [len(word) % 2 == 0])
    shown = word.upper() if up else word
    q = {"one": [shown], "first": [shown, "u.r" if form[0] == "d" else "u.t"], "last": ["u.r" if form[0] == "d" else "u.t", shown], "middle": ["u.r", shown, "u.q"] if form[0] == "d" else ["u.t", shown, "u.k"], "qualified": ["u." + shown]}[form.split()[1]]
    if form[0] == "d":
        p, req = project(dimension=word), dict(metrics=["u.t"], dimensions=q)
    else:
        p, req = project(metric=word), dict(metrics=q, dimensions=["u.r"])
    p._views = p._views[:1]  # the unqualified name is in one view only
    p._models[0]["mappings"] = {}
    compare(ctx, connection(p, None), "SNOWFLAKE", [req], ctx.pick("place", [0, 4] if both else [0]), 0, 0, {"sig": "words " + word})


UNKNOWN = ["u.t + u.k BY u.r", "sum(u.t) BY u.r", "u.t BY u.r, 1", "u.t BY 1", "(u.t) BY u.r", "u.t u.k BY u.r", "'a' BY u.r", "u.t BY upper(u.r)", "u.t, 'a' BY u.r", "u.t = 3 BY u.r", "u.t > 3", "u.t BY u.r LIMIT 3", "u.t BY u.r WHERE ${u.n} = 3 LIMIT 3", "* BY u.r", "u.t, BY u.r", "u.t BY u.r || 'a'", "-u.t BY u.r", "u.t BY u.r, (u.q)", "u.zz BY u.r", "u.t BY u.zz",
           "u.t as a BY u.r", "u.t BY u.r as b", "distinct(u.t) BY u.r", "u.t / u.k BY u.r", "3", "u.t FOR u FUNNEL ${u.ev} = 'a' THEN ${u.ev} = 'b' BY u.r", "u.t FOR u WITHIN 3 days", "u.k FOR zz FUNNEL ${u.ev} = 'a' THEN ${u.ev} = 'b' WITHIN 3 days", "u.k FOR u FUNNEL ${u.ev} = 'a' THEN ${u.ev} = 'b' WITHIN 3 days, u.t", "u.k FOR u FUNNEL ${u.ev} = 'a' THEN ${u.ev} = 'b' WITHIN 3", "u.k FOR u FUNNEL ${u.ev} = 'a' THEN ${u.ev} = 'b' WITHIN some days"]


def unknown(ctx, dialect):
    """What the text asks for and cannot be had is refused, nothing in it is passed over"""
    t, place = ctx.pick("text", UNKNOWN), ctx.pick("place", [0, 4, 11, 15])
    case, sp = ctx.pick("case", [0, 1]), ctx.pick("space", [0, 1])
    sql = PLACES[place][0].format(CASES[case]("mql") + "(" + t.replace(" BY ", SPACES[sp][0] + CASES[case]("by") + SPACES[sp][0]) + ")")
    ctx.reached()
    try:
        got = ask(connection(project(dialect=dialect), None), dialect, sql=sql)
    except Exception as e:
        got = type(e).__name__
    ctx.prove(not got.strip().endswith(";"), "something in the text is passed over", {"sig": "unknown " + t, "text": sql, "got": got})


def connected(ctx, text):
    """With the SQL comes the connection it is to be run on, like for the structured request"""
    c = connection(project(), None)
    ctx.reached()
    a = c.get_sql_query(query_type="SNOWFLAKE", sql=text, return_connection=True)
    b = c.get_sql_query(query_type="SNOWFLAKE", metrics=["u.t"], dimensions=["u.r"], return_connection=True)
    ctx.prove(a[1] is b[1], "the text comes with another connection", {"sig": "connection"})


def jobs(tier):
    thorough = tier == "thorough"
    out = [("connected", dict(text=t)) for t in ("MQL(u.t BY u.r)", "SELECT * FROM MQL(u.t BY u.r) as a")]
    every = lambda x: list(range(len(x)))
    for m in range(len(METRICS)):
        for d in range(len(DIMS)):
            if METRICS[m] or DIMS[d]:
                i = m + 2 * d
                common = dict(metrics=m, dims=d, dialect=["SNOWFLAKE", "BIGQUERY"][i % 2])
                if thorough:
                    for w in every(WHERE):
                        out.append(("clauses", dict(common, case=(i + w) % 4, space=(m * 3 + d + 2 * w) % 7, wheres=[w], havings=every(HAVING), orders=every(ORDER), values=VALUES)))
                else:
                    out.append(("clauses", dict(common, case=i % 4, space=(m * 3 + d) % 7, wheres=every(WHERE)[i % 3::3], havings=every(HAVING)[i % 2::2], orders=every(ORDER)[d % 2::2], values=[VALUES[i % 6]])))
    out += [("unknown", dict(dialect=d)) for d in ["SNOWFLAKE", "BIGQUERY"]]
    for i in range(len(PLACES)):
        for ds in ["SNOWFLAKE", "BIGQUERY"] if thorough else [["SNOWFLAKE", "BIGQUERY"][i % 2]]:
            out.append(("places", dict(place=i, dialect=ds, cases=every(CASES) if thorough else [0, 1 + i % 3], spaces=every(SPACES) if thorough else [0, 1 + i % 6], values=VALUES if thorough else VALUES[i % 3::3])))
    for i in range(1, len(FUNNELS)):
        for case in range(4):
            out.append(("funnels", dict(funnel=i, dialect=["SNOWFLAKE", "BIGQUERY"][(i + case) % 2], case=case, spaces=every(SPACES) if thorough else [case, 3 + case], places=[0, 4, 11] if thorough else [[0, 4, 11][(i + case) % 3]], values=VALUES if thorough else [VALUES[(i + case) % 6]])))
    forms = [a + " " + b for a in ("dimension", "metric") for b in ("one", "first", "last", "middle", "qualified")]
    for j, form in enumerate(forms):
        some = WORDS if thorough else WORDS[j % 5::5]
        for i in range(0, len(some), 60):
            out.append(("words", dict(words=some[i:i + 60], form=form, both=thorough)))
    return out


MAX_FOUND = 60
