"""The work of an operation: the multiplications of the matrix products, triangular
solves, and factorisations of arrays which it computes on a path.

Amounts of work are sets of monomials in the sizes of the operands; ranks of low-rank
matrices are constants and batches do not count.
"""
from .interp import Obj, T, undim
from .rules import BATCH, fmt
from .sizes import Poly, topoly


def dims(s):
    return [topoly(undim(d)) for d in s]


def matrix_dims(x):
    s = dims(x.shape)
    return s[-2:] if len(s) > 1 else (s + [Poly.const(1)] * 2)[:2]


def computed(name, args, kw):
    """The multiplications of a function of the numerical library."""
    a = [x for x in args if isinstance(x, T)]
    if any(isinstance(undim(x), Obj) for x in args):
        return None  # The function promotes its arguments and calls itself again.
    if name == "matmul":
        flags = list(args[2:]) + [False] * 2
        t = [kw.get("tr_a", flags[0]), kw.get("tr_b", flags[1])]
        (r, i), (j, c) = (
            matrix_dims(x)[::-1] if f else matrix_dims(x) for x, f in zip(a[:2], t)
        )
        return r * i * c
    if name in ("inv", "logdet", "det", "cholesky", "svd"):
        r, c = matrix_dims(a[0])
        return r * c * c
    if name in ("triangular_solve", "cholesky_solve", "solve"):
        n, _ = matrix_dims(a[0])
        _, c = matrix_dims(a[1])
        return n * n * c + (n * n * n if name == "solve" else 0)
    return None


def terms(p):
    return {tuple(a for a in k if a not in BATCH) for k in topoly(p).t}


# The structure of a matrix: its class, its numbers of rows and columns, and the
# structures of its parts.


class S:
    def __init__(self, kind, r, c, parts=()):
        self.kind, self.r, self.c, self.parts = kind, r, c, parts

    @property
    def t(self):
        return S(self.kind, self.c, self.r, [p.t for p in self.parts])


KINDS = {
    "Zero": "none",
    "Diagonal": "none",
    "Constant": "row",
    "LowRank": "row",
    "Dense": "dense",
    "LowerTriangular": "tri",
    "UpperTriangular": "tri",
    "TiledBlocks": "dense",
}


def structure(E, x):
    x = undim(x)
    if isinstance(x, T):
        r, c = matrix_dims(x)
        return S("dense" if x.shape else "none", r, c)
    if not isinstance(x, Obj):
        return None
    r, c = dims(E.den(x).shape[-2:])
    n = x.cls.name
    if n == "Woodbury":
        return S("sum", r, c, [structure(E, E.den.attr(x, f)) for f in ("diag", "lr")])
    if n == "Kronecker":
        return S("kron", r, c, [structure(E, E.den.attr(x, f)) for f in ("left", "right")])
    return S(KINDS[n], r, c)


def product(a, b):
    """Work to multiply `a` and `b`."""
    if "none" in (a.kind, b.kind):
        return set()
    for x, f in ((a, lambda p: product(p, b)), (b, lambda p: product(a, p))):
        if x.kind == "sum":
            return set().union(*map(f, x.parts))
    if a.kind == b.kind == "row":
        return terms(a.c)
    if a.kind == "row":
        return applied(b, 1)
    if b.kind == "row":
        return applied(a, 1)
    if a.kind == b.kind == "kron":
        return set().union(*(product(p, q) for p, q in zip(a.parts, b.parts)))
    if a.kind == "kron":
        return applied(a, b.c)
    if b.kind == "kron":
        return applied(b, a.r)
    return terms(a.r * a.c * b.c)


def applied(a, k):
    """Work to multiply `a` with a dense matrix with `k` columns."""
    if a.kind == "none":
        return set()
    if a.kind == "sum":
        return set().union(*(applied(p, k) for p in a.parts))
    if a.kind == "row":
        return terms(a.r * k) | terms(a.c * k)
    if a.kind == "kron":
        l, r = a.parts
        return (
            terms(l.r * l.c * r.c * k) | terms(l.r * r.r * r.c * k)
            | terms(l.r * l.c * r.r * k) | terms(l.c * r.r * r.c * k)
        )
    return terms(a.r * a.c * k)


def factorised(a, tri=False):
    """Work to factorise or invert `a`. Is it also needed for triangular matrices?"""
    if a.kind == "none" or a.kind == "tri" and not tri:
        return set()
    if a.kind in ("sum", "row"):
        return terms(a.r)
    if a.kind == "kron":
        return set().union(*(factorised(p, tri) for p in a.parts))
    return terms(a.r * a.c * a.c) | terms(a.r * a.r * a.c)


def needed(name, ops):
    """Work which an operation on matrices of a structure needs at most."""
    f = factorised
    if name in ("matmul", "mm", "dot"):
        return product(*ops)
    if name == "matmul_diag":
        a, b = ops
        return set() if a.kind == b.kind == "dense" else small(a) | small(b)
    if name in ("solve", "triangular_solve", "cholesky_solve"):
        a, b = ops
        return f(a) | product(a, b)
    if name in ("inv", "pd_inv"):
        return f(ops[0], True)
    if name in ("logdet", "cholesky", "root", "schur", "pd_schur"):
        return f(ops[0])
    if name in ("iqf", "iqf_diag"):
        a, b, *c = ops
        c = c[0] if c else b
        out = f(a) | product(a, b) | product(a, c)
        return out | product(b.t, c) if name == "iqf" else out
    if name == "ratio":
        a, b = ops
        return (f(a) if b.kind != "sum" else set()) | f(b) | product(b, a)
    return set()


def small(a):
    """Work in which every entry of a matrix or its factors takes part once."""
    if a.kind in ("row", "sum"):
        return terms(a.r) | terms(a.c)
    if a.kind == "kron":
        return set().union(*map(small, a.parts)) | terms(a.r) | terms(a.c)
    return set()


def degree(ms, w):
    return max((sum(w(a) for a in m) for m in ms), default=0)


def excessive(E, case, o):
    """Work which grows faster than what is needed."""
    if any(e[0] == "warn" for e in o.op_events):
        return None
    spec = o.spec
    ops = [s for s in (structure(E, x) for x in spec.args) if s is not None]
    bound = needed(spec.fname, ops) | o.stored
    atoms = sorted({a for m in bound for a in m})
    regimes = [("all sizes", lambda a: 1)] + [(a, lambda b, a=a: int(a == b)) for a in atoms]
    for e in o.op_events:
        if e[0] != "work":
            continue
        for name, w in regimes:
            d, most = degree(terms(e[2]), w), degree(bound, w)
            if d > most:
                return (
                    f"{e[1]} of arrays of shapes {' and '.join(fmt(s) for s in e[3])} takes work "
                    f"of order {d} in {name}, where {most} is needed (at {e[4]})"
                )


def total(o):
    """The work on a path, as a polynomial."""
    p = Poly()
    for e in o.op_events:
        if e[0] == "work":
            p = p + Poly({tuple(a for a in k if a not in BATCH): v for k, v in e[2].t.items()})
    return p


def cheapest(I, o, orders, n=60):
    """Is a product computed in the cheapest order?"""
    got = total(o)
    if any(not d.t for d in orders) or not got.t:
        return "no products of arrays are computed"
    for m in I.models(n):
        for a in set().union(*(d.atoms() for d in [got] + orders)):
            m.size(a)
        x, best = got.subs(m.sizes), min(d.subs(m.sizes) for d in orders)
        if x > best:
            sizes = ", ".join(f"{a}={b}" for a, b in sorted(m.sizes.items()))
            return f"the product takes {x} multiplications instead of {best} for sizes {sizes}"


def triple(a, b, c):
    """The orders in which to multiply three dense matrices, given as pairs of sizes."""
    (i, j), k, l = a, b[1], c[1]
    return [i * j * k + i * k * l, j * k * l + i * j * l]


def kronecker(l, r, k):
    """The orders in which to multiply a Kronecker product with `k` columns."""
    (a, b), (c, d) = l, r
    return [a * b * d * k + c * d * a * k, c * d * b * k + a * b * c * k]
