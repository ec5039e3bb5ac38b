"""Abstract values: hash-consed tensor terms with symbolic shapes and data types.

A term denotes a tensor.  Terms are built by the model of the numerical library
(`labmodel`) while the repository's source is interpreted abstractly; nothing of the
repository is executed.  Two terms are compared by normal form (`nf`) and otherwise by
random interpretation (polynomial identity testing).
"""
import sys

import numpy as np

from .sizes import Order, Poly

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """The analysis cannot decide this obligation."""


def si(x):
    """Normalise a symbolic integer."""
    if isinstance(x, Poly):
        if x.is_const():
            v = x.value()
            if v.denominator == 1:
                return int(v)
        return x
    return int(x)


def prod(xs):
    out = 1
    for x in xs:
        out = si(out * x)
    return out


WEAK = ("pybool", "pyint", "pyfloat")


class DT:
    """Data type: a join of strong data types, or a Python scalar type."""

    __slots__ = ("names",)

    def __init__(self, *names):
        self.names = frozenset(names)

    def __eq__(self, o):
        if isinstance(o, type) and o in (bool, int, float):
            o = dt_of_pytype(o)
        return isinstance(o, DT) and self.names == o.names

    def __hash__(self):
        return hash(self.names)

    @property
    def weak(self):
        return self.names <= set(WEAK)

    def strong(self):
        """The array data type which corresponds to this data type."""
        if self.weak:
            return DT(
                {"pybool": "bool", "pyint": "int64", "pyfloat": "float64"}[
                    next(iter(self.names))
                ]
            )
        return self

    def __repr__(self):
        return "|".join(sorted(self.names))


def dt_of_pytype(t):
    return {bool: DT("pybool"), int: DT("pyint"), float: DT("pyfloat")}[t]


def promote_dt(*ds):
    names = set()
    for d in ds:
        names |= d.names
    strong = names - set(WEAK)
    weak = names & set(WEAK)
    if not strong:
        for w in ("pyfloat", "pyint", "pybool"):
            if w in weak:
                return DT(w)
    if strong <= {"int64", "bool"} and "pyfloat" in weak:
        return DT("float64")
    if strong == {"bool"} and "pyint" in weak:
        return DT("int64")
    if len(strong) > 1:
        strong.discard("bool")
    if "float64" in strong:
        return DT("float64")
    if len(strong) > 1:
        strong.discard("int64")
    return DT(*strong)


def float_dt(d):
    """Data type of functions which return floats."""
    if d.names <= {"int64", "bool", "pyint", "pybool", "pyfloat"}:
        return DT("float64")
    return d


class Node:
    __slots__ = ("op", "par", "args", "shape", "dtype", "id", "hash")

    def __repr__(self):
        return show(self)


_table = {}
_nodes = []


def mk(op, par, args, shape, dtype):
    shape = tuple(si(x) for x in shape)
    key = (op, par, tuple(a.id for a in args), shape, dtype)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.par, n.args, n.shape, n.dtype = op, par, tuple(args), shape, dtype
        n.id = len(_nodes)
        n.hash = hash(key)
        _table[key] = n
        _nodes.append(n)
    return n


def reset_terms():
    _table.clear()
    _nodes.clear()


def const(v):
    dt = (
        DT("pybool")
        if isinstance(v, bool)
        else DT("pyint")
        if isinstance(v, int)
        else DT("pyfloat")
    )
    return mk("const", v, (), (), dt)


def leaf(name, shape, dtype, kind="gen"):
    return mk("leaf", (name, kind), (), shape, dtype)


def show(n, depth=6):
    if depth == 0:
        return "…"
    if n.op == "leaf":
        return n.par[0]
    if n.op == "const":
        return repr(n.par)
    if n.op == "size":
        return f"[{n.par!r}]"
    a = ", ".join(show(x, depth - 1) for x in n.args)
    p = "" if n.par is None else f"[{fmt_par(n.par)}]"
    return f"{n.op}{p}({a})"


def fmt_par(p):
    if isinstance(p, tuple):
        return ",".join(fmt_par(x) for x in p)
    return repr(p)


# Random interpretation


class NoSizes(Exception):
    """The sizes of a model do not respect the comparisons of a path."""


def common(x, y):
    """Values for `x` and `y` which agree under broadcasting."""
    r = max(x.ndim, y.ndim)
    x = x.reshape((1,) * (r - x.ndim) + x.shape)
    y = y.reshape((1,) * (r - y.ndim) + y.shape)
    for i in range(r):
        if x.shape[i] != y.shape[i]:
            x, y = x.take([0], axis=i), y.take([0], axis=i)
    return y


class Model:
    """An interpretation of size atoms and leaves by numbers."""

    def __init__(self, order, seed, facts=(), zeros=(), signs=(), spread=3):
        self.order = order
        self.seed = seed
        self.sizes = {}
        self.spread = spread
        self.vals = {}
        self.memo = {}
        self.zeros = set(zeros)
        self.rng = np.random.RandomState(seed)
        for p, v in signs:
            x = self.ev(p)
            if x == 0 or (x > 0) != v:
                raise NoSizes()
        if facts:
            self._impose(facts)

    def size(self, a):
        if a not in self.sizes:
            # Sizes must respect the order facts and differ.
            taken = set(self.sizes.values())
            lo, hi = 2, 10**6
            for x, y in self.order.less:
                if y == a and x in self.sizes:
                    lo = max(lo, self.sizes[x] + 1)
                if x == a and y in self.sizes:
                    hi = min(hi, self.sizes[y] - 1)
            names = [x for x, y in self.order.less if y == a and x not in self.sizes]
            for x in names:
                self.size(x)
                lo = max(lo, self.sizes[x] + 1)
                taken.add(self.sizes[x])
            # Leave room below for smaller atoms.
            room = len([1 for x, y in self.order.less if y == a])
            lo = max(lo, 2 + room)
            cands = [s for s in range(lo, min(hi, lo + max(12, self.spread)) + 1) if s not in taken]
            if not cands:
                raise Undecided("no sizes respect the order facts")
            k = min(len(cands), self.spread)
            self.sizes[a] = cands[(hash_str(a) + self.seed) % k]
        return self.sizes[a]

    def ev(self, p):
        if isinstance(p, Poly):
            for a in sorted(p.atoms()):
                self.size(a)
            v = p.subs(self.sizes)
            if v.denominator != 1:
                raise Undecided("fractional size")
            return int(v)
        return int(p)

    def shape(self, n):
        return tuple(self.ev(s) for s in n.shape)

    def _impose(self, facts):
        for _ in range(3):
            ok = True
            for x, y in facts:
                self.memo.clear()
                vx, vy = self.value(x), self.value(y)
                if np.allclose(vx, vy, rtol=1e-9, atol=1e-12):
                    continue
                ok = False
                if vx.shape != vy.shape:
                    # Make both sides constant along axes which are broadcasted.
                    v = common(vx, vy)
                    for t, sh in ((x, vx.shape), (y, vy.shape)):
                        self._assign(
                            t,
                            np.arange(vx.size if t is x else vy.size),
                            np.broadcast_to(v.reshape(v.shape[v.ndim - len(sh) :]), sh).reshape(-1),
                        )
                        self.memo.clear()
                    continue
                for s, t in ((x, y), (y, x)):
                    v = self.value(s).reshape(-1)
                    if self._assign(t, np.arange(v.size), v):
                        break
                else:
                    return self._newton(facts)
            self.memo.clear()
            if ok:
                return
        self._newton(facts)

    def _newton(self, facts):
        """Move the values of generic leaves to a nearby solution of all facts."""
        leaves, seen, todo = [], set(), [n for f in facts for n in f]
        while todo:
            n = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "leaf" and n.par[1] in ("gen", "pos", "spd", "wellinv", "lower", "upper"):
                leaves.append(n)
            todo.extend(n.args)
        leaves.sort(key=lambda n: n.id)
        entries = []
        for n in leaves:
            self.memo.clear()
            v = self.value(n)
            self.vals[n.id] = np.array(v, dtype=float)
            r, c = v.shape[-2:] if v.ndim >= 2 else (0, 0)
            if n.par[1] == "spd":
                continue
            for i in np.ndindex(*v.shape):
                if n.par[1] == "lower" and i[-1] > i[-2] or n.par[1] == "upper" and i[-1] < i[-2]:
                    continue
                entries.append((n.id, i))
        if not entries or len(entries) > 160:
            raise Undecided("cannot impose the facts on the model")

        def residual():
            self.memo.clear()
            out = []
            for x, y in facts:
                d = self.value(x) - self.value(y)
                out.append(np.asarray(d, dtype=float).reshape(-1))
            return np.concatenate(out)

        for _ in range(12):
            r = residual()
            if not np.all(np.isfinite(r)):
                break
            if np.abs(r).max(initial=0) < 1e-11:
                for n in leaves:
                    if n.par[1] == "pos" and self.vals[n.id].min() < 1e-2:
                        raise Undecided("cannot impose the facts on the model")
                self.memo.clear()
                return
            J = np.empty((len(r), len(entries)))
            for k, (i, e) in enumerate(entries):
                v = self.vals[i][e]
                self.vals[i][e] = v + 1e-6
                J[:, k] = residual()
                self.vals[i][e] = v - 1e-6
                J[:, k] = (J[:, k] - residual()) / 2e-6
                self.vals[i][e] = v
            if not np.all(np.isfinite(J)):
                break
            step = np.linalg.lstsq(J, -r, rcond=1e-9)[0]
            if np.abs(step).max() > 5:
                step *= 5 / np.abs(step).max()
            for k, (i, e) in enumerate(entries):
                self.vals[i][e] += step[k]
        raise Undecided("cannot impose the facts on the model")

    def _assign(self, n, idx, v):
        """Attempt to change values of generic leaves such that the flat entries `idx` of
        `n` become `v`."""
        if n.op == "leaf":
            if n.par[1] not in ("gen", "pos"):
                return False
            if n.par[1] == "pos" and not np.all(v > 1e-2):
                return False
            self.value(n)
            arr = np.array(self.vals[n.id], dtype=float)
            arr.reshape(-1)[idx] = v
            self.vals[n.id] = arr
            return True
        if not np.all(np.isfinite(v)):
            return False
        if n.op in ("getitem", "transpose", "reshape"):
            shape = self.shape(n.args[0])
            arr = np.arange(int(np.prod(shape))).reshape(shape)
            arr = EVAL[n.op](self, n, [arr])
            return self._assign(n.args[0], arr.reshape(-1)[idx], v)
        if n.op == "neg":
            return self._assign(n.args[0], idx, -v)
        if n.op in ("mul", "add", "sub", "div"):
            shape = self.shape(n)
            for k in (1, 0):
                t, o = n.args[k], n.args[1 - k]
                if self.shape(t) != shape:
                    continue
                w = np.broadcast_to(self.value(o), shape).reshape(-1)[idx]
                with np.errstate(all="ignore"):
                    if n.op == "mul":
                        u = v / w
                    elif n.op == "add":
                        u = v - w
                    elif n.op == "sub":
                        u = v + w if k == 0 else w - v
                    else:
                        u = v * w if k == 0 else w / v
                if self._assign(t, idx, u):
                    return True
        return False

    def value(self, n):
        v = self.memo.get(n.id)
        if v is not None:
            return v
        stack = [n]
        while stack:
            m = stack[-1]
            if m.id in self.memo:
                stack.pop()
                continue
            todo = [a for a in m.args if a.id not in self.memo]
            if todo and m.id not in self.zeros:
                stack.extend(todo)
                continue
            stack.pop()
            if m.id in self.zeros:
                v = np.zeros(self.shape(m))
            elif m.op == "leaf":
                if m.id not in self.vals:
                    self.vals[m.id] = self._leaf(m)
                v = self.vals[m.id]
            else:
                v = EVAL[m.op](self, m, [self.memo[a.id] for a in m.args])
            v = np.asarray(v)
            if v.shape != self.shape(m):
                raise Undecided(
                    f"internal: term {m.op} has shape {v.shape} instead of "
                    f"{self.shape(m)}"
                )
            self.memo[m.id] = v
        return self.memo[n.id]

    def _leaf(self, m):
        name, kind = m.par
        shape = self.shape(m)
        rng = np.random.RandomState((hash_str(name) * 7919 + self.seed) % (2**31))
        if kind.startswith("mask"):
            # A Boolean mask with a given number of entries.
            k = self.ev(Poly.atom(kind[4:]))
            v = np.zeros(shape, dtype=bool)
            v[np.sort(rng.permutation(shape[0])[:k])] = True
            return v
        if kind.startswith("idx"):
            # Indices: `idx<mode>:<bound>` with mode `inc` or `any`.
            mode, bound = kind[3:].split(":")
            n = self.ev(Poly.atom(bound))
            if mode == "inc":
                return np.sort(rng.permutation(n)[: shape[0]])
            return rng.randint(0, n, size=shape)
        if kind == "bool":
            return rng.rand(*shape) < 0.5
        mag = rng.uniform(0.5, 1.5, size=shape)
        if kind == "pos":
            return mag
        if kind == "posbig":
            return mag + 1.0
        sign = np.where(rng.rand(*shape) < 0.5, -1.0, 1.0)
        v = mag * sign
        if kind == "nan":
            w = np.array(v)
            w[rng.rand(*shape) < 0.3] = np.nan
            return w
        if kind in ("lower", "upper"):
            v = v / max(shape[-1], 1)
            d = np.arange(min(shape[-2:]))
            v[..., d, d] = 1 + rng.rand(*shape[:-2], len(d))
            return np.tril(v) if kind == "lower" else np.triu(v)
        if kind in ("lowerpos", "upperpos"):
            v = mag
            return np.tril(v) if kind == "lowerpos" else np.triu(v)
        if kind == "spd":
            w = np.matmul(v, np.swapaxes(v, -1, -2)) / shape[-1]
            return w + np.eye(shape[-1])
        if kind == "wellinv":
            return v / shape[-1] / 2 + 1.5 * np.eye(shape[-1])
        return v


def hash_str(s):
    h = 2166136261
    for c in s:
        h = ((h ^ ord(c)) * 16777619) & 0xFFFFFFFF
    return h


def _np_index(model, par):
    out = []
    for p in par:
        if p[0] == "slice":
            out.append(slice(*[None if x is None else model.ev(x) for x in p[1:]]))
        elif p[0] == "int":
            out.append(model.ev(p[1]))
        elif p[0] == "none":
            out.append(None)
        elif p[0] == "list":
            out.append([model.ev(x) for x in p[1]])
        else:
            raise Undecided("index")
    return tuple(out)


def _ev_sum(model, n, a):
    ax = n.par[0]
    return np.sum(a[0], axis=ax)


def _ev_diag_construct(model, n, a):
    x = a[0]
    out = np.zeros(x.shape + x.shape[-1:], dtype=x.dtype)
    i = np.arange(x.shape[-1])
    out[..., i, i] = x
    return out


def _ev_take(model, n, a):
    axis = n.par[0]
    idx = a[1]
    return a[0][tuple(idx if i == axis else slice(None) for i in range(a[0].ndim))]


def _ev_setitem(model, n, a):
    out = np.array(a[0])
    out[_np_index(model, n.par)] = a[1]
    return out


def _ev_svd(model, n, a):
    u, s, vh = np.linalg.svd(a[0], full_matrices=False)
    return {"u": u, "s": s, "v": np.swapaxes(vh, -1, -2)}[n.par]


def _chol(model, n, a):
    try:
        return np.linalg.cholesky(a[0])
    except np.linalg.LinAlgError:
        # The decomposition fails: there is no result.
        return np.full(a[0].shape, np.nan)


def _inv(model, n, a):
    try:
        return np.linalg.inv(a[0])
    except np.linalg.LinAlgError:
        raise Undecided("inverse of a singular matrix")


def _solve(model, n, a):
    try:
        return np.linalg.solve(a[0], a[1])
    except np.linalg.LinAlgError:
        raise Undecided("solve against a singular matrix")


def _trisolve(model, n, a):
    x = np.tril(a[0]) if n.par else np.triu(a[0])
    return _solve(model, n, [x, a[1]])


def _matmul(model, n, a):
    return np.matmul(a[0], a[1])


def _div(model, n, a):
    with np.errstate(all="ignore"):
        return np.true_divide(a[0], a[1])


def _pow(model, n, a):
    with np.errstate(all="ignore"):
        return np.power(np.asarray(a[0], dtype=float), a[1])


def _quiet(f):
    def g(model, n, a):
        with np.errstate(all="ignore"):
            return f(*a)

    return g


def _cmp(name):
    f = {
        "eq": np.equal,
        "ne": np.not_equal,
        "lt": np.less,
        "le": np.less_equal,
        "gt": np.greater,
        "ge": np.greater_equal,
    }[name]
    return lambda model, n, a: f(a[0], a[1])


def _logdet(model, n, a):
    s, ld = np.linalg.slogdet(a[0])
    return ld


EVAL = {
    "const": lambda m, n, a: np.asarray(n.par),
    "size": lambda m, n, a: np.asarray(float(n.par.subs(_sized(m, n.par)))),
    "full": lambda m, n, a: np.full(m.shape(n), float(n.par)),
    "eye": lambda m, n, a: np.eye(*m.shape(n)),
    "add": lambda m, n, a: a[0] + a[1] * 1,
    "sub": lambda m, n, a: a[0] * 1 - a[1] * 1,
    "mul": lambda m, n, a: a[0] * a[1],
    "div": _div,
    "pow": _pow,
    "min": lambda m, n, a: np.minimum(a[0], a[1]),
    "max": lambda m, n, a: np.maximum(a[0], a[1]),
    "neg": lambda m, n, a: -(a[0] * 1),
    "abs": lambda m, n, a: np.abs(a[0]),
    "sqrt": _quiet(np.sqrt),
    "log": _quiet(np.log),
    "exp": _quiet(np.exp),
    "sign": _quiet(np.sign),
    "isnan": lambda m, n, a: np.isnan(a[0]),
    "not": lambda m, n, a: np.logical_not(a[0]),
    "and": lambda m, n, a: np.logical_and(a[0], a[1]),
    "or": lambda m, n, a: np.logical_or(a[0], a[1]),
    "matmul": _matmul,
    "transpose": lambda m, n, a: np.transpose(a[0], n.par),
    "reshape": lambda m, n, a: np.reshape(a[0], m.shape(n)),
    "bcast": lambda m, n, a: np.broadcast_to(a[0], m.shape(n)),
    "sum": _ev_sum,
    "maxred": lambda m, n, a: np.max(a[0], axis=n.par[0]),
    "minred": lambda m, n, a: np.min(a[0], axis=n.par[0]),
    "concat": lambda m, n, a: np.concatenate(a, axis=n.par),
    "stack": lambda m, n, a: np.stack(a, axis=n.par),
    "getitem": lambda m, n, a: a[0][_np_index(m, n.par)],
    "setitem": _ev_setitem,
    "take": _ev_take,
    "tile": lambda m, n, a: np.tile(a[0], [m.ev(r) for r in n.par]),
    "diag_construct": _ev_diag_construct,
    "diag_extract": lambda m, n, a: np.diagonal(a[0], axis1=-2, axis2=-1),
    "cholesky": _chol,
    "inv": _inv,
    "svd": _ev_svd,
    "solve": _solve,
    "trisolve": _trisolve,
    "logdet": _logdet,
    "det": lambda m, n, a: np.linalg.det(a[0]),
    "tril": lambda m, n, a: np.tril(a[0]),
    "triu": lambda m, n, a: np.triu(a[0]),
    "cast": lambda m, n, a: a[0],
    "eq": _cmp("eq"),
    "ne": _cmp("ne"),
    "lt": _cmp("lt"),
    "le": _cmp("le"),
    "gt": _cmp("gt"),
    "ge": _cmp("ge"),
    "where": lambda m, n, a: np.where(a[0], a[1], a[2]),
    "constarr": lambda m, n, a: np.array(n.par, dtype=bool if n.dtype == DT("bool") else int),
}


def _sized(m, p):
    for a in sorted(p.atoms()):
        m.size(a)
    return m.sizes


def close(x, y, tol=1e-7):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    fx, fy = np.isfinite(x), np.isfinite(y)
    if not np.array_equal(fx, fy):
        return False
    if not np.array_equal(np.isnan(x), np.isnan(y)):
        return False
    inf = ~fx & ~np.isnan(x)
    if not np.array_equal(x[inf], y[inf]):
        return False
    x, y = np.where(fx, x, 0), np.where(fy, y, 0)
    scale = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-30)
    return bool(np.max(np.abs(x - y)) <= tol * max(scale, 1e-3))
