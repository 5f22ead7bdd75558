"""Purity monitor: deep, value-based snapshots of arguments around a call."""
import copy
from .env import np, we


def snap(x, depth=0, seen=None):
    """A comparable deep copy of the *public* state reachable from x."""
    seen = seen or ()
    if id(x) in seen or depth > 7:
        return ("...",)
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, type)):
        return x
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oarr", [snap(v, depth + 1, seen + (id(x),)) for v in x.ravel()])
        return ("arr", x.dtype.kind, x.copy())
    if isinstance(x, dict):
        return ("dict", {str(k): snap(v, depth + 1, seen + (id(x),)) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ("seq", [snap(v, depth + 1, seen + (id(x),)) for v in x])
    if callable(x) and not hasattr(x, "__dict__"):
        return ("callable",)
    mod = type(x).__module__ or ""
    if mod.startswith("welleng") and hasattr(x, "__dict__"):
        return ("obj", type(x).__name__,
                {k: snap(v, depth + 1, seen + (id(x),))
                 for k, v in vars(x).items() if not k.startswith("_")})
    return ("opaque", type(x).__name__)


def diff(a, b, path="", tol=0.0):
    """First difference between two snapshots; attributes that did not exist
    before (lazily filled caches) are not differences."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] == "arr" and b[0] == "arr":
            if a[2].shape != b[2].shape:
                return f"{path}: shape {a[2].shape} -> {b[2].shape}"
            if a[1] in "fc":
                same = np.array_equal(a[2], b[2], equal_nan=True)
            else:
                same = np.array_equal(a[2], b[2])
            if not same:
                w = np.argwhere(~((a[2] == b[2])))
                i = tuple(w[0]) if len(w) else ()
                return f"{path}[{','.join(map(str, i))}]: {a[2][i]} -> {b[2][i]}"
            return None
        if a[0] != b[0]:
            return f"{path}: {a[0]} -> {b[0]}"
        if a[0] == "dict" or a[0] == "obj":
            da, db = a[-1], b[-1]
            for k, v in da.items():
                if k not in db:
                    return f"{path}.{k}: removed"
                r = diff(v, db[k], f"{path}.{k}")
                if r:
                    return r
            if a[0] == "dict" and set(db) - set(da):
                return f"{path}: keys added {sorted(set(db) - set(da))[:4]}"
            return None
        if a[0] in ("seq", "oarr"):
            if len(a[1]) != len(b[1]):
                return f"{path}: length {len(a[1])} -> {len(b[1])}"
            for i, (u, v) in enumerate(zip(a[1], b[1])):
                r = diff(u, v, f"{path}[{i}]")
                if r:
                    return r
            return None
        return None
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: {type(a).__name__} -> {type(b).__name__}"
    if a != b and not (isinstance(a, float) and isinstance(b, float) and a != a and b != b):
        return f"{path}: {a!r} -> {b!r}"
    return None


class Watch:
    """with Watch(ctx, 'op', survey=s, header=h): op(...)  -> violation on change."""

    def __init__(self, ctx, op, **objs):
        self.ctx, self.op, self.objs = ctx, op, objs

    def __enter__(self):
        self.before = {k: snap(v) for k, v in self.objs.items()}
        return self

    def __exit__(self, et, ev, tb):
        if et is not None:
            return False
        for k, v in self.objs.items():
            self.ctx.events["purity-watches"] += 1
            d = diff(self.before[k], snap(v), k)
            self.ctx.check(d is None, f"mutates:{self.op}", changed=d)
        return False


def clone(x):
    return copy.deepcopy(x)
