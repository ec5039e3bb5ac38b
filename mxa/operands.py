"""Operands: abstract matrices of every class, constructed by the repository's own
constructors from symbolic components."""
from .core import DT, Undecided, leaf, mk
from .interp import T
from .sizes import Poly

A = Poly.atom
N, M, K, P, Q = A("n"), A("m"), A("k"), A("p"), A("q")
Bt, Ct = A("b"), A("c")


class Operands:
    def __init__(self, I, dtype=DT("D")):
        self.I = I
        self.ns = I.modules["matrix"].ns
        self.dtype = dtype
        self.positive = False
        self.noise = None
        self.prefix = ""
        # Do all operands, or all components of operands, have data types of their own?
        self.mixed = None
        self.built = []  # All operands, and whether they are positive definite.

    def cls(self, name):
        return self.ns[name]

    def new(self, cls, *args, **kw):
        return self.I.call(self.cls(cls), list(args), kw)

    def leaf(self, name, *shape, kind="gen", dtype=None):
        if self.positive:
            kind = {"gen": "pos", "lower": "lowerpos", "upper": "upperpos"}.get(kind, kind)
            kind = "pos" if kind == "wellinv" else kind
        if self.noise and kind == "gen":
            kind = self.noise
        if self.mixed == "parts":
            self.dtype = DT("D2") if self.dtype == DT("D") else DT("D")
        return T(leaf(self.prefix + name, shape, dtype or self.dtype, kind))

    def build(self, kind, name, r, c, batch=(), pd=False):
        f = getattr(self, "k_" + kind)
        if self.mixed == "operands":
            self.dtype = DT("D" + str(len(self.built) + 1))
        x = f(name, r, c, tuple(batch), pd)
        self.built.append((x, kind, pd))
        return x

    # Numeric

    def k_num(self, name, r, c, batch, pd):
        return T(leaf(self.prefix + name, (), DT("pyfloat"), "num"), num=True)

    def k_zeronum(self, name, r, c, batch, pd):
        return 0

    def k_int(self, name, r, c, batch, pd):
        return 2

    def k_scalar(self, name, r, c, batch, pd):
        return self.leaf(name, kind="pos" if pd else "gen")

    def k_vec(self, name, r, c, batch, pd):
        return self.leaf(name, r)

    def k_arr(self, name, r, c, batch, pd):
        return self.leaf(name, *batch, r, c, kind="spd" if pd else "gen")

    # Matrices

    def k_Zero(self, name, r, c, batch, pd):
        return self.new("Zero", self.dtype, *batch, r, c)

    def k_Dense(self, name, r, c, batch, pd):
        return self.new("Dense", self.k_arr(name, r, c, batch, pd))

    def k_Diagonal(self, name, r, c, batch, pd):
        if r != c:
            raise Skip()
        return self.new("Diagonal", self.leaf(name, *batch, r, kind="pos" if pd else "gen"))

    def k_Constant(self, name, r, c, batch, pd):
        return self.new(
            "Constant", self.leaf(name, *batch, kind="pos" if pd else "gen"), r, c
        )

    def k_ConstantB(self, name, r, c, batch, pd):
        # The batch is given explicitly.
        if not batch:
            raise Skip()
        return self.new(
            "Constant", self.leaf(name, kind="pos" if pd else "gen"), *batch, r, c
        )

    def k_Lower(self, name, r, c, batch, pd):
        if r != c:
            raise Skip()
        return self.new("LowerTriangular", self.leaf(name, *batch, r, c, kind="lower"))

    def k_Upper(self, name, r, c, batch, pd):
        if r != c:
            raise Skip()
        return self.new("UpperTriangular", self.leaf(name, *batch, r, c, kind="upper"))

    def _lr(self, name, r, c, b1, b2, b3, k, sym, mid, dense=False):
        if sym and r != c:
            raise Skip()
        w = (lambda x: self.new("Dense", x)) if dense else (lambda x: x)
        left = w(self.leaf(name + ".l", *b1, r, k))
        right = None if sym else w(self.leaf(name + ".r", *b2, c, k))
        middle = None
        if mid == "gen":
            middle = w(self.leaf(name + ".m", *b3, k, k, kind="wellinv"))
        elif mid == "spd":
            middle = w(self.leaf(name + ".m", *b3, k, k, kind="spd"))
        elif mid == "diag":
            middle = self.new("Diagonal", self.leaf(name + ".m", *b3, k, kind="pos"))
        return self.new("LowRank", left, right, middle)

    def k_LRsym(self, name, r, c, batch, pd):
        return self._lr(name, r, c, batch, batch, batch, 1, True, None)

    def k_LRsym2(self, name, r, c, batch, pd):
        return self._lr(name, r, c, batch, batch, batch, 2, True, None)

    def k_LRlr(self, name, r, c, batch, pd):
        if pd:
            raise Skip()
        return self._lr(name, r, c, batch, batch, batch, 1, False, None)

    def k_LRlmr(self, name, r, c, batch, pd):
        if pd:
            raise Skip()
        return self._lr(name, r, c, batch, batch, batch, 2, False, "gen")

    def k_LRlm(self, name, r, c, batch, pd):
        return self._lr(name, r, c, batch, batch, batch, 2, True, "spd" if pd else "gen")

    def k_LRdiag(self, name, r, c, batch, pd):
        return self._lr(name, r, c, batch, batch, batch, 2, True, "diag")

    def _rect(self, name, r, c, batch, k1, k2):
        # The middle factor is not square: the rank is less than a number of columns.
        left = self.leaf(name + ".l", *batch, r, k1)
        right = self.leaf(name + ".r", *batch, c, k2)
        return self.new("LowRank", left, right, self.leaf(name + ".m", *batch, k1, k2))

    def k_LRrow(self, name, r, c, batch, pd):
        if pd:
            raise Skip()
        return self._rect(name, r, c, batch, 1, 2)

    def k_LRcol(self, name, r, c, batch, pd):
        if pd:
            raise Skip()
        return self._rect(name, r, c, batch, 2, 1)

    def k_LRone(self, name, r, c, batch, pd):
        if pd:
            raise Skip()
        return self._rect(name, r, c, batch, 1, 1)

    def k_LRconst(self, name, r, c, batch, pd):
        # The factors are structured.
        if pd:
            raise Skip()
        return self.new(
            "LowRank",
            self.k_Constant(name + ".l", r, 1, batch, pd),
            self.leaf(name + ".r", *batch, c, 1),
        )

    def k_LRDense(self, name, r, c, batch, pd):
        return self._lr(
            name, r, c, batch, batch, batch, 1, pd, "spd" if pd else "gen", dense=True
        )

    def k_LRpart(self, name, r, c, batch, pd):
        # Only the middle factor has the batch.
        if not batch:
            raise Skip()
        return self._lr(name, r, c, (), (), batch, 2, pd, "spd" if pd else "gen")

    def k_LRpart2(self, name, r, c, batch, pd):
        # Only the left factor has the batch.
        if not batch or pd:
            raise Skip()
        return self._lr(name, r, c, batch, (), (), 1, False, None)

    def k_Woodbury(self, name, r, c, batch, pd):
        return self.new(
            "Woodbury",
            self.k_Diagonal(name + ".d", r, c, batch, pd),
            self._lr(name + ".lr", r, c, batch, batch, batch, 1, pd, "spd" if pd else "gen"),
        )

    def k_Woodbury2(self, name, r, c, batch, pd):
        return self.new(
            "Woodbury",
            self.k_Diagonal(name + ".d", r, c, batch, pd),
            self._lr(name + ".lr", r, c, batch, batch, batch, 2, True, "spd" if pd else None),
        )

    def k_Woodburypart(self, name, r, c, batch, pd):
        if not batch:
            raise Skip()
        return self.new(
            "Woodbury",
            self.k_Diagonal(name + ".d", r, c, batch, pd),
            self._lr(name + ".lr", r, c, (), (), (), 1, True, None),
        )

    def k_Woodburypart2(self, name, r, c, batch, pd):
        # Only the low-rank part has the batch.
        if not batch:
            raise Skip()
        return self.new(
            "Woodbury",
            self.k_Diagonal(name + ".d", r, c, (), pd),
            self._lr(name + ".lr", r, c, batch, batch, batch, 1, True, None),
        )

    def _kron(self, name, r, c, b1, b2, pd):
        # The sizes are products.
        f = {}
        for s, (x, y) in KRON.items():
            f[s] = (x, y)
        if not (r in f and c in f):
            raise Skip()
        (r1, r2), (c1, c2) = f[r], f[c]
        kind = "spd" if pd else "gen"
        return self.new(
            "Kronecker",
            self.leaf(name + ".l", *b1, r1, c1, kind=kind),
            self.leaf(name + ".r", *b2, r2, c2, kind=kind),
        )

    def k_Kron(self, name, r, c, batch, pd):
        return self._kron(name, r, c, batch, batch, pd)

    def k_Kronpart(self, name, r, c, batch, pd):
        if not batch:
            raise Skip()
        return self._kron(name, r, c, batch, (), pd)

    def k_KronS(self, name, r, c, batch, pd):
        if r != c or r not in KRON:
            raise Skip()
        a, b = KRON[r]
        return self.new(
            "Kronecker",
            self.k_Diagonal(name + ".l", a, a, batch, pd),
            self.k_Dense(name + ".r", b, b, batch, pd)
            if pd
            else self.k_Lower(name + ".r", b, b, batch, pd),
        )

    def k_Kronpart2(self, name, r, c, batch, pd):
        if not batch:
            raise Skip()
        return self._kron(name, r, c, (), batch, pd)

    def k_KronD(self, name, r, c, batch, pd):
        # The factors are a low-rank and a diagonal matrix.
        if r != c or r not in KRON or pd:
            raise Skip()
        a, b = KRON[r]
        return self.new(
            "Kronecker",
            self.k_LRlmr(name + ".l", a, a, batch, pd),
            self.k_Diagonal(name + ".r", b, b, batch, pd),
        )

    def k_Densevec(self, name, r, c, batch, pd):
        # A dense matrix of a vector.
        if c != 1 or batch:
            raise Skip()
        return self.new("Dense", self.leaf(name, r))

    def k_Tiled(self, name, r, c, batch, pd):
        # Two blocks, the second of which is repeated twice. The number of rows is a sum.
        if r not in TILE:
            raise Skip()
        x, y, rep = TILE[r]
        return self.new(
            "TiledBlocks",
            (self.leaf(name + ".x", *batch, x, c), 1),
            (self.new("Dense", self.leaf(name + ".y", *batch, y, c)), rep),
        )

    def k_Tiledcol(self, name, r, c, batch, pd):
        if c not in TILE:
            raise Skip()
        x, y, rep = TILE[c]
        return self.new(
            "TiledBlocks",
            (self.leaf(name + ".x", *batch, r, x), 1),
            (self.leaf(name + ".y", r, y), rep),
            axis=-1,
        )


    def k_Tiledbatch(self, name, r, c, batch, pd):
        # Along a batch dimension, with another one that must be broadcast.
        if batch != (Ct, Bt):
            raise Skip()
        return self.new(
            "TiledBlocks",
            (self.leaf(name + ".x", A("c1"), Bt, r, c), 1),
            (self.new("Dense", self.leaf(name + ".y", A("c2"), 1, r, c)), 2),
            axis=-4,
        )

    def k_Tiledbatch2(self, name, r, c, batch, pd):
        if batch != (Ct, Bt):
            raise Skip()
        return self.new(
            "TiledBlocks",
            (self.leaf(name + ".x", Ct, A("b1"), r, c), 1),
            (self.new("Dense", self.leaf(name + ".y", A("b2"), r, c)), 2),
            axis=1,
        )

    def k_Tiledpos(self, name, r, c, batch, pd):
        # Along a positive axis, in which all blocks are repeated.
        if batch or r not in TILE:
            raise Skip()
        x, y, rep = TILE[r]
        return self.new(
            "TiledBlocks",
            (self.leaf(name + ".x", x, c), 1),
            (self.new("Dense", self.leaf(name + ".y", y, c)), rep),
            axis=0,
        )


class Skip(Exception):
    pass


KRON = {N: None, M: None}
# Sizes of Kronecker products: these worlds use products of sizes.
N1, N2, M1, M2 = A("n1"), A("n2"), A("m1"), A("m2")
NK, MK = N1 * N2, M1 * M2
KRON = {NK: (N1, N2), MK: (M1, M2), 1: (1, 1)}
# Sizes of tiled blocks.
NT = A("t1") + A("t2") * 2
MT = A("u1") + A("u2") * 2
TILE = {NT: (A("t1"), A("t2"), 2), MT: (A("u1"), A("u2"), 2)}
