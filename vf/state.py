"""The state the code under test keeps outside of its objects: module and class attributes, mutable defaults, and function caches.  `fresh(fn)`
runs fn with all of it as it was right after the import, and puts the present state back afterwards."""
import functools
import sys
import types

SIMPLE = (dict, list, set)


def namespaces():
    for name, m in sorted(sys.modules.items()):
        if name == "metrics_layer" or name.startswith("metrics_layer."):
            yield m
            for v in list(vars(m).values()):
                if isinstance(v, type) and getattr(v, "__module__", None) == name:
                    yield v


def functions(ns):
    for v in list(vars(ns).values()):
        v = getattr(v, "__func__", v)
        v = getattr(v, "fget", v) if isinstance(v, property) else v
        v = getattr(v, "__wrapped__", v)
        if isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("metrics_layer"):
            yield v


def containers(x, seen, out):
    if type(x) in SIMPLE and id(x) not in seen:
        seen.add(id(x))
        out.append((x, x.copy()))
        for y in (x.values() if isinstance(x, dict) else x):
            containers(y, seen, out)


def snapshot():
    spaces, held, seen = [], [], set()
    for ns in namespaces():
        names = {k: v for k, v in vars(ns).items() if not (k.startswith("__") and k.endswith("__")) and not isinstance(v, types.ModuleType)}
        spaces.append((ns, names))
        for v in names.values():
            containers(v, seen, held)
        for f in functions(ns):
            for v in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()) + [f.__dict__]:
                containers(v, seen, held)
            for cell in f.__closure__ or ():
                try:
                    containers(cell.cell_contents, seen, held)
                except ValueError:
                    pass
    return spaces, held


def restore(state):
    spaces, held = state
    for ns, names in spaces:
        for k in [k for k, v in vars(ns).items() if k not in names and not (k.startswith("__") and k.endswith("__")) and not isinstance(v, types.ModuleType) and not k.startswith("_abc")]:
            delattr(ns, k)
        now = vars(ns)
        for k, v in names.items():
            if now.get(k, restore) is not v:
                setattr(ns, k, v)
    for x, kept in held:
        if x != kept or len(x) != len(kept):
            x.clear()
            x.extend(kept) if isinstance(x, list) else x.update(kept)


def new_caches():
    """Every function cache replaced by an empty one"""
    for ns in namespaces():
        for k, v in list(vars(ns).items()):
            inner = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
            if isinstance(inner, functools._lru_cache_wrapper):
                made = functools.lru_cache(**inner.cache_parameters())(inner.__wrapped__)
                setattr(ns, k, type(v)(made) if v is not inner else made)


PRISTINE = None


def begin():
    """Called once after the imports, and at the beginning of each history"""
    global PRISTINE
    if PRISTINE is None:
        PRISTINE = snapshot()
    restore(PRISTINE)
    new_caches()


def fresh(fn):
    now = snapshot()
    restore(PRISTINE)
    new_caches()
    try:
        return fn()
    finally:
        restore(now)
