"""Specification: the matrix which an object represents.

The denotation of a matrix is defined from its components and does not use any code of
the repository.
"""
from .core import Undecided, const, mk, si, prod
from .interp import Obj, T, undim


class Den:
    def __init__(self, I):
        self.I = I
        self.L = I.lab

    def batch_bcast(self, n, batch):
        """Broadcast the batch dimensions of a matrix."""
        return self.L.bcast(n, tuple(batch) + n.shape[-2:])

    def attr(self, o, name):
        if name in o.attrs:
            return o.attrs[name]
        try:
            return self.I.getattr(o, name)
        except Exception:
            raise Undecided(f"{o.cls.name} has no attribute {name}")

    def __call__(self, x):
        return self.den(x)

    def den(self, x):
        """Denotation of a value as a node."""
        L = self.L
        x = undim(x)
        if not isinstance(x, Obj):
            return L.node(x)
        f = getattr(self, "d_" + x.cls.name, None)
        if f is None:
            for c in x.cls.mro[1:]:
                f = getattr(self, "d_" + getattr(c, "name", ""), None)
                if f is not None:
                    break
        if f is None:
            raise Undecided(f"unknown class {x.cls.name}")
        return f(x)

    def mat(self, x):
        """Denotation of an operand as a matrix: numbers are 1 by 1 matrices, and vectors
        are columns."""
        n = self.den(x)
        L = self.L
        if len(n.shape) == 0:
            return L.reshape_node(n, (1, 1))
        if len(n.shape) == 1:
            return L.reshape_node(n, n.shape + (1,))
        return n

    def d_Zero(self, o):
        shape = tuple(self.attr(o, "batch")) + (self.attr(o, "rows"), self.attr(o, "cols"))
        return self.L.f_full(0, self.attr(o, "_dtype"), *shape).node

    def d_Dense(self, o):
        return self.L.node(self.attr(o, "mat"))

    d_LowerTriangular = d_Dense
    d_UpperTriangular = d_Dense

    def d_Diagonal(self, o):
        return self.L.f_diag_construct(self.attr(o, "diag")).node

    def d_Constant(self, o):
        L = self.L
        c = L._arr(self.attr(o, "const")).node
        c = L.reshape_node(c, c.shape + (1, 1))
        rc = (undim(self.attr(o, "rows")), undim(self.attr(o, "cols")))
        return L.bcast(c, c.shape[:-2] + rc)

    def d_LowRank(self, o):
        L = self.L
        left = self.den(self.attr(o, "left"))
        right = self.attr(o, "_right") if "_right" in o.attrs else self.attr(o, "right")
        right = left if right is None else self.den(right)
        middle = self.attr(o, "_middle") if "_middle" in o.attrs else self.attr(o, "middle")
        x = T(left)
        if middle is not None:
            x = L.f_matmul(x, T(self.den(middle)))
        return L.f_matmul(x, T(right), False, True).node

    def d_Woodbury(self, o):
        return self.L._bin(
            "add", T(self.den(self.attr(o, "diag"))), T(self.den(self.attr(o, "lr")))
        ).node

    def d_Kronecker(self, o):
        L = self.L
        a, b = self.den(self.attr(o, "left")), self.den(self.attr(o, "right"))
        batch = L.bshape(a.shape[:-2], b.shape[:-2])
        a, b = self.batch_bcast(a, batch), self.batch_bcast(b, batch)
        return L.f_kron(T(a), T(b), -2, -1).node

    def d_TiledBlocks(self, o):
        L = self.L
        blocks = [self.den(x) for x in self.attr(o, "blocks")]
        reps = [undim(r) for r in self.attr(o, "reps")]
        axis = undim(self.attr(o, "axis"))
        rank = max(len(n.shape) for n in blocks)
        ax = axis if axis < 0 else axis - rank
        # Broadcast all other axes.
        shapes = [(1,) * (rank - len(n.shape)) + n.shape for n in blocks]
        target = L.bshape(*[s[: rank + ax] + (1,) + s[rank + ax + 1 :] for s in shapes])
        out = []
        for n, s, r in zip(blocks, shapes, reps):
            t = list(target)
            t[ax] = s[ax]
            n = L.bcast(n, tuple(t))
            k = [1] * rank
            k[ax] = r
            out.append(L.f_tile(T(n), *k))
        return L.f_concat(*out, axis=ax).node


def agree(I, got, want, n=2, extra=(), zeros=(), tol=1e-6):
    """Compare two terms. Returns `None` if they agree, and otherwise a description of a
    difference."""
    from .core import close

    if got.id == want.id:
        return None
    if got.shape != want.shape:
        return f"shape is {fmt_shape(got.shape)} instead of {fmt_shape(want.shape)}"
    I.stats["compared"] = I.stats.get("compared", 0) + 1
    for m in I.models(n, zeros=zeros, extra=extra):
        x, y = m.value(got), m.value(want)
        if not close(x, y, tol):
            return f"values differ for sizes {m.sizes}"
    return None


def fmt_shape(s):
    return "(" + ", ".join(repr(x) for x in s) + ")"
