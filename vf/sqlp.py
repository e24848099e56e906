"""A parser for the SQL text that the code under check generates (all its dialects).

It produces a small tuple-free AST (class Node) that sqls.py gives a meaning to.
Anything outside the accepted grammar raises SqlSyntax: generated text that no SQL
parser would accept is reported by the checks as such (after a concrete replay).
"""
import re


class SqlSyntax(Exception):
    pass


class Node:
    __slots__ = ("k", "a")

    def __init__(self, k, **a):
        self.k = k
        self.a = a

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"{self.k}({', '.join(f'{x}={y!r}' for x, y in self.a.items())})"

    def key(self):
        def f(x):
            if isinstance(x, Node):
                return x.key()
            if isinstance(x, (list, tuple)):
                return tuple(f(i) for i in x)
            if isinstance(x, str) and self.k in ("col", "func"):
                return x.lower()
            return x

        return (self.k,) + tuple((n, f(v)) for n, v in sorted(self.a.items()))


TOK = re.compile(
    r"""
    (?P<ws>\s+|--[^\n]*|/\*.*?\*/)
  | (?P<num>(\d+\.\d*|\.\d+|\d+)([eE][+-]?\d+)?)
  | (?P<str>'(?:[^']|'')*')
  | (?P<qid>"(?:[^"]|"")*"|`[^`]*`)
  | (?P<id>[A-Za-z_][A-Za-z_0-9$]*)
  | (?P<op>::|<>|!=|<=|>=|=>|\|\||[-+*/%=<>(),.;\[\]{}:])
""",
    re.X | re.S,
)


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SqlSyntax(f"cannot tokenize at {s[i:i+40]!r}")
        i = m.end()
        kind = m.lastgroup
        # lastgroup may be an inner unnamed group: recompute
        for kn in ("ws", "num", "str", "qid", "id", "op"):
            if m.group(kn) is not None:
                kind = kn
                break
        if kind == "ws":
            continue
        t = m.group(kind)
        if kind == "qid":
            out.append(("qid", t[1:-1].replace('""', '"')))
        elif kind == "str":
            out.append(("str", t[1:-1].replace("''", "'")))
        else:
            out.append((kind, t))
    out.append(("end", ""))
    return out


RESERVED = {
    "select", "from", "where", "group", "having", "order", "limit", "union", "join", "left", "right",
    "full", "inner", "outer", "cross", "on", "as", "and", "or", "not", "then", "else", "end", "when",
    "case", "in", "is", "like", "ilike", "between", "desc", "asc", "nulls", "with", "distinct", "by",
    "offset", "fetch", "qualify", "within", "over", "using", "top",
}


class Parser:
    def __init__(self, text):
        self.text = text
        self.t = tokenize(text)
        self.i = 0

    # -- helpers
    def peek(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def isk(self, *ks, n=0):
        k, v = self.peek(n)
        return k == "id" and v.lower() in ks

    def isop(self, *ops, n=0):
        k, v = self.peek(n)
        return k == "op" and v in ops

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acck(self, *ks):
        if self.isk(*ks):
            return self.next()[1].lower()
        return None

    def accop(self, *ops):
        if self.isop(*ops):
            return self.next()[1]
        return None

    def expk(self, *ks):
        r = self.acck(*ks)
        if r is None:
            self.fail(f"expected {ks}")
        return r

    def expop(self, *ops):
        r = self.accop(*ops)
        if r is None:
            self.fail(f"expected {ops}")
        return r

    def fail(self, msg):
        ctx = " ".join(v for _, v in self.t[max(0, self.i - 8): self.i + 8])
        raise SqlSyntax(f"{msg} near: {ctx}")

    # -- statements
    def statement(self):
        q = self.query()
        self.accop(";")
        if self.peek()[0] != "end":
            self.fail("trailing text")
        return q

    def query(self):
        ctes = []
        if self.acck("with"):
            while True:
                name = self.ident()
                self.expk("as")
                self.expop("(")
                q = self.query()
                self.expop(")")
                ctes.append((name, q))
                if not self.accop(","):
                    break
        body = self.set_expr()
        return Node("query", ctes=ctes, body=body)

    def set_expr(self):
        left = self.select_core()
        while self.isk("union"):
            self.next()
            all_ = bool(self.acck("all"))
            right = self.select_core()
            left = Node("union", all=all_, left=left, right=right)
        return left

    def select_core(self):
        if self.isop("("):
            self.next()
            q = self.query()
            self.expop(")")
            return q
        self.expk("select")
        distinct = bool(self.acck("distinct"))
        top = None
        if self.isk("top"):
            self.next()
            top = self.expr_primary()
        if self.acck("distinct"):
            distinct = True
        items = [self.select_item()]
        while self.accop(","):
            items.append(self.select_item())
        frm = where = having = limit = None
        group, order = None, []
        if self.acck("from"):
            frm = self.from_clause()
        if self.acck("where"):
            where = self.expr()
        if self.isk("group"):
            self.next()
            self.expk("by")
            group = [self.expr()]
            while self.accop(","):
                group.append(self.expr())
        if self.acck("having"):
            having = self.expr()
        if self.isk("order"):
            self.next()
            self.expk("by")
            order = self.order_list()
        if self.acck("limit"):
            limit = self.expr()
        return Node("select", distinct=distinct, top=top, items=items, frm=frm, where=where,
                    group=group, having=having, order=order, limit=limit)

    def order_list(self):
        out = []
        while True:
            e = self.expr()
            d = self.acck("asc", "desc")
            nulls = None
            if self.acck("nulls"):
                nulls = self.expk("first", "last")
            out.append((e, d, nulls))
            if not self.accop(","):
                return out

    def select_item(self):
        if self.isop("*"):
            self.next()
            return (Node("star", q=None), None)
        if self.peek()[0] in ("id", "qid") and self.isop(".", n=1) and self.isop("*", n=2):
            q = self.ident()
            self.next()
            self.next()
            return (Node("star", q=q), None)
        e = self.expr()
        alias = None
        if self.acck("as"):
            alias = self.ident()
        elif self.peek()[0] == "qid" or (self.peek()[0] == "id" and self.peek()[1].lower() not in RESERVED):
            alias = self.ident()
        return (e, alias)

    def ident(self):
        k, v = self.peek()
        if k in ("id", "qid"):
            self.next()
            return v
        if k == "str":  # alias given as a string literal
            self.next()
            return v
        self.fail("identifier expected")

    def from_clause(self):
        left = self.from_item()
        while True:
            if self.accop(","):
                left = Node("join", jt="cross", left=left, right=self.from_item(), on=None)
                continue
            jt = None
            start = self.i
            if self.acck("left"):
                self.acck("outer")
                jt = "left"
            elif self.acck("right"):
                self.acck("outer")
                jt = "right"
            elif self.acck("full"):
                self.acck("outer")
                jt = "full"
            elif self.acck("cross"):
                jt = "cross"
            elif self.acck("inner"):
                jt = "inner"
            elif self.acck("outer"):
                jt = "full"
            if self.acck("join"):
                jt = jt or "inner"
            else:
                if jt is not None:
                    self.i = start
                return left
            right = self.from_item()
            on = None
            if jt != "cross":
                self.expk("on")
                on = self.expr()
            left = Node("join", jt=jt, left=left, right=right, on=on)

    def from_item(self):
        if self.isop("("):
            self.next()
            if self.isk("select", "with") or self.isop("("):
                q = self.query()
                self.expop(")")
                alias = self.table_alias()
                return Node("sub", q=q, alias=alias)
            f = self.from_clause()
            self.expop(")")
            return f
        if self.isk("table") and self.isop("(", n=1):
            self.next()
            e = self.expr_primary_paren_raw()
            alias = self.table_alias()
            return Node("tabfunc", e=e, alias=alias)
        name = [self.ident()]
        while self.accop("."):
            name.append(self.ident())
        if self.isop("("):
            args = self.paren_args()
            alias = self.table_alias()
            return Node("tabfunc", e=Node("func", name=".".join(name), args=args), alias=alias)
        alias = self.table_alias()
        return Node("table", name=name, alias=alias)

    def expr_primary_paren_raw(self):
        self.expop("(")
        depth, toks = 1, []
        while depth:
            k, v = self.next()
            if k == "end":
                self.fail("unbalanced")
            if k == "op" and v == "(":
                depth += 1
            elif k == "op" and v == ")":
                depth -= 1
                if depth == 0:
                    break
            toks.append(v)
        return Node("raw", toks=toks)

    def table_alias(self):
        if self.acck("as"):
            return self.alias_cols(self.ident())
        k, v = self.peek()
        if k == "qid" or (k == "id" and v.lower() not in RESERVED):
            return self.alias_cols(self.ident())
        return None

    def alias_cols(self, name):
        if self.isop("("):
            self.next()
            self.ident()
            while self.accop(","):
                self.ident()
            self.expop(")")
        return name

    # -- expressions
    def expr(self):
        l = self.expr_and()
        while self.acck("or"):
            l = Node("or", l=l, r=self.expr_and())
        return l

    def expr_and(self):
        l = self.expr_not()
        while self.acck("and"):
            l = Node("and", l=l, r=self.expr_not())
        return l

    def expr_not(self):
        if self.acck("not"):
            return Node("not", e=self.expr_not())
        return self.expr_cmp()

    def expr_cmp(self):
        l = self.expr_add()
        while True:
            if self.isop("=", "<>", "!=", "<", ">", "<=", ">="):
                op = self.next()[1]
                r = self.expr_add()
                l = Node("cmp", op="<>" if op == "!=" else op, l=l, r=r)
                continue
            if self.isk("is"):
                self.next()
                neg = bool(self.acck("not"))
                if self.acck("null"):
                    l = Node("isnull", e=l, neg=neg)
                elif self.acck("distinct"):
                    self.expk("from")
                    r = self.expr_add()
                    l = Node("isdistinct", l=l, r=r, neg=neg)
                else:
                    v = self.expk("true", "false")
                    l = Node("isbool", e=l, v=(v == "true"), neg=neg)
                continue
            neg = False
            if self.isk("not") and self.isk("in", "like", "ilike", "between", n=1):
                self.next()
                neg = True
            if self.acck("in"):
                self.expop("(")
                if self.isk("select", "with"):
                    q = self.query()
                    self.expop(")")
                    l = Node("insub", e=l, q=q, neg=neg)
                else:
                    vals = []
                    if not self.isop(")"):
                        vals.append(self.expr())
                        while self.accop(","):
                            vals.append(self.expr())
                    self.expop(")")
                    l = Node("in", e=l, vals=vals, neg=neg)
                continue
            if self.isk("like", "ilike"):
                ci = self.next()[1].lower() == "ilike"
                r = self.expr_add()
                if self.acck("escape"):
                    self.next()
                l = Node("like", e=l, p=r, neg=neg, ci=ci)
                continue
            if self.acck("between"):
                lo = self.expr_add()
                self.expk("and")
                hi = self.expr_add()
                l = Node("between", e=l, lo=lo, hi=hi, neg=neg)
                continue
            return l

    def expr_add(self):
        l = self.expr_mul()
        while self.isop("+", "-", "||"):
            op = self.next()[1]
            l = Node("bin", op=op, l=l, r=self.expr_mul())
        return l

    def expr_mul(self):
        l = self.expr_unary()
        while self.isop("*", "/", "%"):
            op = self.next()[1]
            l = Node("bin", op=op, l=l, r=self.expr_unary())
        return l

    def expr_unary(self):
        if self.isop("-"):
            self.next()
            return Node("neg", e=self.expr_unary())
        if self.isop("+"):
            self.next()
            return self.expr_unary()
        return self.expr_post()

    def expr_post(self):
        e = self.expr_primary()
        while True:
            if self.accop("::"):
                e = Node("cast", e=e, type=self.type_name(), safe=False)
                continue
            if self.isk("at") and self.isk("time", n=1):
                self.next()
                self.next()
                self.expk("zone")
                z = self.expr_primary()
                e = Node("attz", e=e, z=z)
                continue
            if self.isop("["):
                self.next()
                ix = self.expr()
                self.expop("]")
                e = Node("index", e=e, ix=ix)
                continue
            return e

    def type_name(self):
        parts = [self.ident().lower()]
        while self.isk("precision", "varying"):
            parts.append(self.next()[1].lower())
        if self.isop("("):
            self.next()
            ps = []
            while not self.isop(")"):
                ps.append(self.next()[1])
            self.expop(")")
            parts.append("(" + "".join(ps) + ")")
        if self.isk("with", "without") and self.isk("time", n=1):
            parts += [self.next()[1].lower() for _ in range(3)]
        return " ".join(parts)

    def paren_args(self):
        self.expop("(")
        args = []
        if self.accop(")"):
            return args
        while True:
            args.append(self.arg())
            if not self.accop(","):
                break
        self.expop(")")
        return args

    def arg(self):
        if self.isop("*"):
            self.next()
            return Node("star", q=None)
        if self.isk("select", "with"):
            return Node("scalarsub", q=self.query())
        if self.isk("distinct"):
            self.next()
            return Node("distinct", e=self.expr())
        e = self.expr()
        if self.accop("=>"):
            return Node("named", n=e, v=self.expr())
        return e

    def expr_primary(self):
        k, v = self.peek()
        if k == "num":
            self.next()
            return Node("num", v=v)
        if k == "str":
            self.next()
            return Node("str", v=v)
        if k == "op" and v == "(":
            self.next()
            if self.isk("select", "with"):
                q = self.query()
                self.expop(")")
                return Node("scalarsub", q=q)
            e = self.expr()
            if self.isop(","):
                vals = [e]
                while self.accop(","):
                    vals.append(self.expr())
                self.expop(")")
                return Node("tuple", vals=vals)
            self.expop(")")
            return Node("paren", e=e)
        if k == "op" and v == "[":
            self.next()
            vals = []
            if not self.isop("]"):
                vals.append(self.expr())
                while self.accop(","):
                    vals.append(self.expr())
            self.expop("]")
            return Node("array", vals=vals)
        if k == "qid":
            return self.colref()
        if k != "id":
            self.fail("expression expected")
        lv = v.lower()
        if lv == "case":
            return self.case()
        if lv == "null":
            self.next()
            return Node("null")
        if lv in ("true", "false"):
            self.next()
            return Node("bool", v=(lv == "true"))
        if lv in ("cast", "try_cast", "safe_cast") and self.isop("(", n=1):
            self.next()
            self.next()
            e = self.expr()
            self.expk("as")
            t = self.type_name()
            fmt = None
            if self.peek()[0] == "id" and self.peek()[1].lower() == "format" and self.peek(1)[0] == "str":
                self.next()
                fmt = self.next()[1]
            self.expop(")")
            return Node("cast", e=e, type=t, safe=(lv != "cast"), fmt=fmt)
        if lv == "extract" and self.isop("(", n=1):
            self.next()
            self.next()
            part = self.next()[1] if self.peek()[0] == "str" else self.ident()
            if self.isop("("):
                a = self.paren_args()
                part = part + "(" + ",".join(x.a["name"][-1] if x.k == "col" else "?" for x in a) + ")"
            self.expk("from")
            e = self.expr()
            self.expop(")")
            return Node("extract", part=part.lower(), e=e)
        if lv == "interval" and not self.isop("(", n=1) and not self.isop(".", n=1):
            save = self.i
            self.next()
            if self.peek()[0] in ("str", "num") or self.isop("-"):
                neg = bool(self.accop("-"))
                kk, vv = self.next()
                unit = None
                if self.peek()[0] == "id" and self.peek()[1].lower().rstrip("s") in (
                    "second", "minute", "hour", "day", "week", "month", "quarter", "year", "millisecond"
                ):
                    unit = self.next()[1].lower()
                if unit is None:
                    m = re.fullmatch(r"\s*(-?\S+)\s+(\w+)\s*", vv)
                    if not m:
                        self.fail("interval")
                    vv, unit = m.group(1), m.group(2).lower()
                amount = Node("num", v=vv)
                if neg:
                    amount = Node("neg", e=amount)
                return Node("interval", n=amount, unit=unit.rstrip("s"))
            self.i = save
        if lv in ("date", "timestamp", "datetime") and self.peek(1)[0] == "str":
            self.next()
            return Node("cast", e=Node("str", v=self.next()[1]), type=lv, safe=False)
        if lv == "exists" and self.isop("(", n=1):
            self.next()
            self.next()
            q = self.query()
            self.expop(")")
            return Node("exists", q=q)
        if lv in RESERVED and not self.isop("(", n=1):
            self.fail("unexpected keyword")
        return self.colref()

    def colref(self):
        name = [self.ident()]
        while self.isop(".") and self.peek(1)[0] in ("id", "qid"):
            self.next()
            name.append(self.ident())
        if self.isop("(") and True:
            args = self.paren_args()
            f = Node("func", name=".".join(name), args=args)
            if self.isk("within"):
                self.next()
                self.expk("group")
                self.expop("(")
                self.expk("order")
                self.expk("by")
                o = self.order_list()
                self.expop(")")
                f = Node("within", f=f, order=o)
            if self.isk("over"):
                self.next()
                self.expop("(")
                part, order = [], []
                if self.acck("partition"):
                    self.expk("by")
                    part.append(self.expr())
                    while self.accop(","):
                        part.append(self.expr())
                if self.isk("order"):
                    self.next()
                    self.expk("by")
                    order = self.order_list()
                while not self.isop(")"):
                    self.next()
                self.expop(")")
                f = Node("over", f=f, part=part, order=order)
            return f
        return Node("col", name=name)

    def case(self):
        self.expk("case")
        subj = None
        if not self.isk("when"):
            subj = self.expr()
        whens = []
        while self.acck("when"):
            c = self.expr()
            self.expk("then")
            whens.append((c, self.expr()))
        els = None
        if self.acck("else"):
            els = self.expr()
        self.expk("end")
        if not whens:
            self.fail("case without when")
        return Node("case", subj=subj, whens=whens, els=els)


def parse(text):
    return Parser(text).statement()


def parse_expr(text):
    p = Parser(text)
    e = p.expr()
    if p.peek()[0] != "end":
        p.fail("trailing text")
    return e


def strip(n):
    """remove redundant parentheses nodes"""
    while isinstance(n, Node) and n.k == "paren":
        n = n.a["e"]
    return n
