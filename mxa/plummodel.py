"""Model of multiple dispatch: types, signatures, resolution, conversion, promotion."""
from .core import Undecided

# A type is a frozenset of tokens. A token is a string, a class value of the
# interpreter, or a parametric type `('tuple', types)`/`('list', type)`.
ANY = frozenset(["any"])
OBJECT = frozenset(["object"])


def tok_le(a, b):
    if a == b:
        return True
    if isinstance(a, tuple):
        if isinstance(b, str):
            return a[0] == b
        if isinstance(b, tuple) and a[0] == b[0]:
            if a[0] == "list":
                return subset(a[1], b[1])
            return len(a[1]) == len(b[1]) and all(
                subset(x, y) for x, y in zip(a[1], b[1])
            )
        return False
    mro = getattr(a, "mro", None)
    if mro is not None:
        return b in mro
    return False


def subset(x, y):
    if "any" in y:
        return True
    if "any" in x:
        return False
    if "object" in y:
        return True
    if "object" in x:
        return False
    return all(any(tok_le(a, b) for b in y) for a in x)


def hint_eq(x, y):
    if "any" in x or "any" in y:
        return "any" in x and "any" in y
    return subset(x, y) and subset(y, x)


def type_str(t):
    def one(k):
        if isinstance(k, str):
            return k
        if isinstance(k, tuple):
            if k[0] == "list":
                return f"list[{type_str(k[1])}]"
            return f"tuple[{', '.join(type_str(x) for x in k[1])}]"
        return k.name

    for name, u in NAMED.items():
        if u == t:
            return name
    return "|".join(sorted(one(k) for k in t))


NAMED = {}


class Sig:
    __slots__ = ("types", "varargs", "prec")

    def __init__(self, types, varargs=None, prec=0):
        self.types, self.varargs, self.prec = tuple(types), varargs, prec

    def expand(self, n):
        if self.varargs is not None:
            return self.types + (self.varargs,) * max(n - len(self.types), 0)
        return self.types

    def eq(self, o):
        return (
            len(self.types) == len(o.types)
            and all(hint_eq(x, y) for x, y in zip(self.types, o.types))
            and (
                (self.varargs is None and o.varargs is None)
                or (
                    self.varargs is not None
                    and o.varargs is not None
                    and hint_eq(self.varargs, o.varargs)
                )
            )
            and self.prec == o.prec
        )

    def le(self, o):
        n, m = len(self.types), len(o.types)
        if not (
            n == m
            or (n > m and o.varargs is not None)
            or (n < m and self.varargs is not None)
        ):
            return False
        xs, ys = self.expand(m), o.expand(n)
        if all(hint_eq(x, y) for x, y in zip(xs, ys)):
            if self.varargs is not None and o.varargs is not None:
                return subset(self.varargs, o.varargs)
            elif self.varargs is not None:
                return False
            return True
        if all(subset(x, y) for x, y in zip(xs, ys)):
            if self.varargs is not None and o.varargs is not None:
                return subset(self.varargs, o.varargs)
            return True
        return False

    def lt(self, o):
        return self.le(o) and not self.eq(o)

    def matches(self, values, match):
        if not (
            len(self.types) == len(values)
            or (len(self.types) < len(values) and self.varargs is not None)
        ):
            return False
        return all(match(v, t) for v, t in zip(values, self.expand(len(values))))

    def covers(self, target):
        return target.le(self)

    def __str__(self):
        out = [type_str(t) for t in self.types]
        if self.varargs is not None:
            out.append("*" + type_str(self.varargs))
        return "(" + ", ".join(out) + ")"


class Method:
    __slots__ = ("sig", "impl", "where", "lib")

    def __init__(self, sig, impl, where, lib=False):
        self.sig, self.impl, self.where, self.lib = sig, impl, where, lib


class NotFound(Exception):
    pass


class Ambiguous(Exception):
    def __init__(self, msg, methods):
        super().__init__(msg)
        self.methods = methods


def resolve(methods, check, name):
    cands = []
    for m in methods:
        if not check(m):
            continue
        if not any(c.sig.le(m.sig) or m.sig.le(c.sig) for c in cands):
            cands.append(m)
            continue
        new = [c for c in cands if not m.sig.lt(c.sig)]
        if any(m.sig.le(c.sig) for c in cands):
            cands = new + [m]
        else:
            cands = new
    if not cands:
        raise NotFound(name)
    if len(cands) == 1:
        return cands[0]
    best = max(c.sig.prec for c in cands)
    top = [c for c in cands if c.sig.prec == best]
    if len(top) == 1:
        return top[0]
    raise Ambiguous(name, cands)


class PFunction:
    """A function with multiple dispatch."""

    def __init__(self, name, world=None):
        self.name = name
        self.methods = []
        self.cache = {}
        self.redefined = []

    def register(self, method):
        self.cache.clear()
        for i, m in enumerate(self.methods):
            if m.sig.eq(method.sig):
                self.redefined.append((m, method))
                self.methods[i] = method
                return
        self.methods.append(method)

    def __repr__(self):
        return f"<function {self.name}>"
