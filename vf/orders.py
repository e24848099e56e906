"""Loads the real modules so that the order in which a set is iterated is chosen by the solver.

Python leaves the iteration order of a set open (for strings it differs from process to process).  Importing this module re-imports
metrics_layer from the working tree with every set of its source (set(), frozenset(), {..}, comprehensions) built as AnySet, which is a set
whose iteration order is a solver variable: each element has a rank, and comparing two ranks is a branch of the symbolic execution."""
import ast
import builtins
import importlib.machinery
import sys

from . import boot, sx  # noqa


class Order:
    ctx = None  # None: the canonical order
    asked = 0
    full = 3  # sets up to this size: every order
    rotations = 2


def _key(x):
    return (type(x).__name__, str(x))


def _sorted_by_rank(xs):
    xs = sorted(xs, key=_key)
    if Order.ctx is None or len(xs) < 2:
        return xs
    Order.asked += 1
    if len(xs) > Order.full:
        # large sets: one of their rotations, forwards or backwards, the same for all
        i = Order.ctx.pick("large sets start at", list(range(Order.rotations))) * len(xs) // Order.rotations
        xs = xs[i:] + xs[:i]
        return xs[::-1] if Order.ctx.flag("large sets backwards") else xs
    out = []
    for x in xs:  # binary insertion: every comparison is decided by the solver
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if _before(x, out[mid]):
                hi = mid
            else:
                lo = mid + 1
        out.insert(lo, x)
    return out


def _before(x, y):
    c = Order.ctx
    a, b = (c.zint("order of " + "/".join(_key(k)), 0, 1000) for k in (x, y))
    return c.decide(sx.Or(a < b, a == b) if _key(x) < _key(y) else a < b)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.__mro__[1])


def _mk(base):
    class AnySet(base, metaclass=_Meta):
        def __iter__(self):
            return iter(_sorted_by_rank(list(base.__iter__(self))))

        def raw(self):
            return sorted(base.__iter__(self), key=_key)

        def __repr__(self):
            return "{" + ", ".join(map(repr, self)) + "}" if self else base.__name__ + "()"

        __str__ = __repr__

        def __reduce__(self):
            return type(self), (self.raw(),)

        def __copy__(self):
            return type(self)(self.raw())

        if base is set:
            def pop(self):
                if not self:
                    raise KeyError("pop from an empty set")
                x = next(iter(self))
                self.discard(x)
                return x

            def update(self, *others):
                base.update(self, *map(plain, others))

            def __ior__(self, o):
                base.update(self, plain(o))
                return self

    for op in ("intersection", "union", "difference", "symmetric_difference", "copy", "__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__"):
        def f(self, *o, op=op):
            me = base(base.__iter__(self)) if isinstance(self, base) else base(self)
            r = getattr(me, op)(*map(plain, o))
            return r if r is NotImplemented else AnySet(r)

        setattr(AnySet, op, f)
    for op in ("issubset", "issuperset", "isdisjoint", "__le__", "__lt__", "__ge__", "__gt__", "__eq__", "__ne__"):
        def g(self, *o, op=op):
            return getattr(base(base.__iter__(self)), op)(*map(plain, o))

        setattr(AnySet, op, g)
    AnySet.__hash__ = base.__hash__
    AnySet.__name__ = base.__name__
    init = base.__init__

    def __init__(self, *a):
        init(self, *map(plain, a))

    if base is set:
        AnySet.__init__ = __init__
    else:
        AnySet.__new__ = lambda cls, *a: base.__new__(cls, *map(plain, a))
    return AnySet


def plain(x):
    """the elements without asking for an order, when the receiver has no order either"""
    if type(x) in (AnySet, AnyFrozen):
        return x.raw()
    return x


AnySet = AnyFrozen = None
AnySet, AnyFrozen = _mk(set), _mk(frozenset)


def vf_sorted(xs, key=None, reverse=False):
    if type(xs) in (AnySet, AnyFrozen):
        raw = xs.raw()
        keys = [key(x) if key else x for x in raw]
        tie = any(a == b for i, a in enumerate(keys) for b in keys[:i])
        xs = list(xs) if tie else raw
    return sorted(xs, key=key, reverse=reverse)


class _T(ast.NodeTransformer):
    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("vf__set", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("vf__set", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in ("set", "frozenset", "sorted"):
            return ast.copy_location(ast.Name("vf__" + n.id, ast.Load()), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "vf__sorted" and n.args:
            a = n.args[0]
            while isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("list", "tuple") and len(a.args) == 1 and not a.keywords:
                a = a.args[0]
            n.args[0] = a
        elif isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            # whether there is one does not depend on the order
            g = n.args[0].generators[0]
            g.iter = ast.copy_location(ast.Call(ast.Name("vf__plain", ast.Load()), [g.iter], []), g.iter)
        return n


def transform(source, path):
    return ast.fix_missing_locations(_T().visit(ast.parse(source, path)))


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(transform(self.get_data(path), path), path, "exec", dont_inherit=True)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] != "metrics_layer":
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    builtins.vf__set, builtins.vf__frozenset, builtins.vf__sorted, builtins.vf__plain = AnySet, AnyFrozen, vf_sorted, plain
    for m in [m for m in sys.modules if m.split(".")[0] == "metrics_layer" or m in ("vf.proj", "vf.ref", "vf.spec", "vf.state")]:
        del sys.modules[m]
    sys.meta_path.insert(0, _Finder)
    # the sets networkx hands out or keeps
    import networkx
    from networkx.classes import filters

    scc = networkx.strongly_connected_components

    def strongly_connected_components(g):
        return (AnySet(c) for c in scc(g))

    networkx.strongly_connected_components = strongly_connected_components
    was = filters.show_nodes.__init__

    def init(self, nodes):
        was(self, plain(nodes))
        self.nodes = AnySet(self.nodes)

    filters.show_nodes.__init__ = init


install()
