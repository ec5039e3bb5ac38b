"""Catalogue of operations: how to build the operands of a case, and the specification of
the result in terms of the matrices which the operands represent.

The specification only uses the denotations of the operands (`den`) and primitives of the
numerical library on plain tensors; it does not use any code of the repository.
"""
from .core import DT, Undecided, const, leaf, mk, si
from .den import Den, fmt_shape
from .interp import Obj, RState, T, VShape, undim
from .operands import (
    A,
    Bt,
    Ct,
    K,
    KRON,
    M,
    MK,
    MT,
    N,
    NK,
    NT,
    P,
    Q,
    TILE,
    Skip,
)
from .rules import Snapshot, sampling_laws, schur_of, walk
from .sizes import Order, Poly, topoly
from .work import cheapest, kronecker, triple

NUMERIC = ("num", "zeronum", "int", "scalar", "vec", "arr")
STRUCT = (
    "Zero",
    "Dense",
    "Diagonal",
    "Constant",
    "Lower",
    "Upper",
    "LRlmr",
    "Woodbury",
    "Kron",
)

# Named shapes: (rows, columns).
SHAPES = {
    "nn": (N, N),
    "nm": (N, M),
    "mn": (M, N),
    "mm": (M, M),
    "mp": (M, P),
    "pq": (P, Q),
    "qp": (Q, P),
    "1p": (1, P),
    "p1": (P, 1),
    "1q": (1, Q),
    "q1": (Q, 1),
    "pm": (P, M),
    "np": (N, P),
    "pn": (P, N),
    "pp": (P, P),
    "1m": (1, M),
    "m1": (M, 1),
    "n1": (N, 1),
    "1n": (1, N),
    "11": (1, 1),
    "k1": (NK, 1),
    "1k": (1, NK),
    "1l": (1, MK),
    "l1": (MK, 1),
    # Kronecker worlds.
    "kk": (NK, NK),
    "kl": (NK, MK),
    "lk": (MK, NK),
    "ll": (MK, MK),
    "lp": (MK, P),
    "kp": (NK, P),
    "pk": (P, NK),
    "pl": (P, MK),
    # Tiled worlds.
    "tt": (NT, NT),
    "tu": (NT, MT),
    "tm": (NT, M),
    "nu": (N, MT),
}
BATCHES = {"": (), "b": (Bt,), "c": (Ct,), "1": (1,), "cb": (Ct, Bt), "c1": (Ct, 1)}


class Spec:
    """What a case calls, and what it should give."""

    def __init__(self, fname, args, kw=None, want=None, checks=None, run=None, dtype=True, dt=None,
        raises=False, laws=None):
        self.laws = laws  # Callable: outcome to a list of `(rule, obligation)`.
        self.raises = raises  # Should the call raise?
        self.dt = dt  # Data type of the result, if it is not that of `want`.
        self.fname, self.args, self.kw = fname, list(args), dict(kw or {})
        self.want = want  # Node, or a tuple of sizes for shape queries.
        self.checks = checks  # Callable: result to a list of `(rule, got, want)`.
        self.run = run
        self.dtype = dtype


class Case:
    __slots__ = ("fam", "p", "order", "props")

    def __init__(self, fam, order=(), **p):
        self.fam, self.p, self.order = fam, p, order

    @property
    def id(self):
        q = ",".join(
            f"{k}={'/'.join(map(str, v)) if isinstance(v, tuple) else v}"
            for k, v in sorted(self.p.items())
            if v not in ("", None, False) and not (isinstance(v, tuple) and not any(v))
        )
        return f"{self.fam}[{q}]"

    def __repr__(self):
        return self.id


FAMS = {}


def fam(f):
    FAMS[f.__name__] = f
    return f


def operand(E, O, kind, name, shape, batch="", pd=False):
    r, c = SHAPES[shape]
    if kind == "vec" and c != 1:
        # Vectors are columns.
        raise Skip()
    if kind in ("num", "zeronum", "int", "scalar") and batch:
        raise Skip()
    return O.build(kind, name, r, c, BATCHES[batch], pd)


def two(E, O, kinds, shapes, batches=("", ""), pd=(False, False)):
    if kinds[0] in NUMERIC and kinds[1] in NUMERIC:
        raise Skip()
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0], pd[0])
    b = operand(E, O, kinds[1], "b", shapes[1], batches[1], pd[1])
    return a, b


BIN = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div"}
PYOP = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div"}


@fam
def binary(E, O, op, kinds, shapes, batches=("", ""), via="fn"):
    a, b = two(E, O, kinds, shapes, batches)
    L = E.L
    want = L._bin(BIN[op], T(E.den.mat(a)), T(E.den.mat(b))).node
    run = None
    if via == "operator":
        run = lambda: E.I.binop(PYOP[op], a, b)
    return Spec(op, [a, b], want=want, run=run)


@fam
def same(E, O, op, kinds, shapes, batches=("", ""), tr=(False, False)):
    """Binary operation of an object with itself or with its negative."""
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    L = E.L
    n = E.den.mat(a)
    if op == "aliased":
        return Spec("add", [a, a], want=L._bin("add", T(n), T(n)).node)
    if op == "cancel":
        return Spec("subtract", [a, a], want=L._bin("sub", T(n), T(n)).node)
    if op == "square":
        return Spec("multiply", [a, a], want=L._bin("mul", T(n), T(n)).node)
    if op == "gram":
        return Spec(
            "matmul", [a, a], {"tr_b": True}, want=L.f_matmul(T(n), T(n), False, True).node
        )
    if op == "matmul":
        kw = {k: True for k, t in zip(("tr_a", "tr_b"), tr) if t}
        return Spec("matmul", [a, a], kw, want=L.f_matmul(T(n), T(n), *tr).node)
    if op == "matmul_diag":
        kw = {k: True for k, t in zip(("tr_a", "tr_b"), tr) if t}
        want = L.f_diag_extract(L.f_matmul(T(n), T(n), *tr)).node
        return Spec("matmul_diag", [a, a], kw, want=want)
    if op == "kron":
        return Spec("kron", [a, a], want=L.f_kron(T(n), T(n), -2, -1).node)
    if op == "divide":
        return Spec("divide", [a, a], want=L._bin("div", T(n), T(n)).node)
    raise Undecided(op)


@fam
def negative(E, O, kinds, shapes, batches=("",), via="fn"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    run = None
    if via == "operator":
        run = lambda: E.I.call_method(a, "__neg__", [])
    return Spec("negative", [a], want=E.L.unary("neg", T(E.den.mat(a))).node, run=run)


# Products


@fam
def matmul(E, O, kinds, shapes, batches=("", ""), tr=(False, False), via="fn"):
    a, b = two(E, O, kinds, shapes, batches)
    want = E.L.f_matmul(T(E.den.mat(a)), T(E.den.mat(b)), *tr).node
    kw = {}
    if tr[0]:
        kw["tr_a"] = True
    if tr[1]:
        kw["tr_b"] = True
    run = None
    if via == "operator":
        run = lambda: E.I.binop("matmul", a, b)
    if via == "mm":
        return Spec("mm", [a, b], kw, want=want)
    return Spec("matmul", [a, b], kw, want=want, run=run)


@fam
def matmul3(E, O, kinds, shapes, batches=("", "", ""), tr=(False, False, False)):
    ops = [
        operand(E, O, k, n, s, b)
        for k, n, s, b in zip(kinds, "abc", shapes, batches)
    ]
    L = E.L
    a, b, c = [T(E.den.mat(x)) for x in ops]
    want = L.f_matmul(L.f_matmul(a, b, tr[0], tr[1]), c, False, tr[2]).node
    kw = {f"tr_{n}": True for n, t in zip("abc", tr) if t}
    return Spec("matmul", ops, kw, want=want)


@fam
def chain(E, O, kinds, shapes, batches=("", "", ""), tr=(False, False, False)):
    """A product of which the order matters."""
    ops = [
        operand(E, O, k, n, s, b)
        for k, n, s, b in zip(kinds, "abc", shapes, batches)
    ]
    s = [[topoly(x) for x in SHAPES[x]] for x in shapes]
    s = [x[::-1] if t else x for x, t in zip(s, tr)]
    if "Kron" in kinds:
        i = kinds.index("Kron")
        k = topoly(s[1][1] if i == 0 else s[0][0])
        f = [[topoly(undim(y)) for y in E.den(E.den.attr(ops[i], x)).shape[-2:]] for x in ("left", "right")]
        f = [x[::-1] if t else x for x, t in zip(f, [tr[i]] * 2)]
        if i == 1:
            f = [x[::-1] for x in f]
        orders = kronecker(*f, k)
    else:
        orders = triple(*s)
    kw = {f"tr_{n}": True for n, t in zip("abc", tr) if t}
    laws = lambda o: [("order", lambda: cheapest(E.I, o, orders))]
    return Spec("matmul", ops, kw, laws=laws)


@fam
def matmul_diag(E, O, kinds, shapes, batches=("", ""), tr=(False, False)):
    a, b = two(E, O, kinds, shapes, batches)
    L = E.L
    want = L.f_diag_extract(L.f_matmul(T(E.den.mat(a)), T(E.den.mat(b)), *tr)).node
    kw = {}
    if tr[0]:
        kw["tr_a"] = True
    if tr[1]:
        kw["tr_b"] = True
    return Spec("matmul_diag", [a, b], kw, want=want)


@fam
def kron(E, O, kinds, shapes, batches=("", "")):
    a, b = two(E, O, kinds, shapes, batches)
    na, nb = E.den.mat(a), E.den.mat(b)
    L = E.L
    batch = L.bshape(na.shape[:-2], nb.shape[:-2])
    na, nb = E.den.batch_bcast(na, batch), E.den.batch_bcast(nb, batch)
    return Spec("kron", [a, b], want=L.f_kron(T(na), T(nb), -2, -1).node)


# Reductions


@fam
def sum(E, O, kinds, shapes, batches=("",), axis=None):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    if axis is not None and not -len(n.shape) <= axis < len(n.shape):
        raise Skip()
    kw = {} if axis is None else {"axis": axis}
    return Spec("sum", [a], kw, want=E.L.f_sum(T(n), axis).node)


@fam
def mean(E, O, kinds, shapes, batches=("",), axis=None):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    if axis is not None and not -len(n.shape) <= axis < len(n.shape):
        raise Skip()
    kw = {} if axis is None else {"axis": axis}
    return Spec("mean", [a], kw, want=E.L.f_mean(T(n), axis).node)


@fam
def trace(E, O, kinds, shapes, batches=("",)):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    return Spec("trace", [a], want=E.L.f_trace(T(E.den.mat(a))).node)


@fam
def diag(E, O, kinds, shapes, batches=("",), fn="diag"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    want = E.L.f_diag_extract(T(E.den.mat(a))).node
    if fn == "diagonal":
        return Spec("diag", [a], want=want, run=lambda: E.I.call_method(a, "diagonal", []))
    return Spec(fn, [a], want=want)


# Rearrangements


@fam
def transpose(E, O, kinds, shapes, batches=("",), via="fn"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    r = len(n.shape)
    want = E.L.transpose(T(n), tuple(range(r - 2)) + (r - 1, r - 2)).node
    run = (lambda: E.I.getattr(a, "T")) if via == "T" else None
    return Spec("transpose", [a], want=want, run=run)


@fam
def dense(E, O, kinds, shapes, batches=("",)):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    return Spec("dense", [a], want=E.den.mat(a))


def index(E, O, what, size):
    """An index operand for an axis of a given size, and its count."""
    if what == "list":
        return [1, 0]
    if what == "tuple":
        return (0, 1)
    if what == "dup":
        return [1, 1, 0]
    if what == "neg":
        return [-1, 0]
    if what == "one":
        return [0]
    if what == "neg1":
        return [-1]
    if what == "dup1":
        return [0, 0]
    atom = sorted(size.atoms())[0] if isinstance(size, Poly) else None
    if atom is None:
        raise Skip()
    if what == "mask":
        return T(leaf("mask", (size,), DT("bool"), f"maskk"))
    if what == "inc":
        return T(leaf("idx", (K,), DT("int64"), f"idxinc:{atom}"))
    if what == "any":
        return T(leaf("idx", (K,), DT("int64"), f"idxany:{atom}"))
    raise Undecided(what)


@fam
def take(E, O, kinds, shapes, batches=("",), axis=-2, idx="any"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    if not -len(n.shape) <= axis < len(n.shape):
        raise Skip()
    size = n.shape[axis]
    i = index(E, O, idx, size)
    want = E.L.take_axis(T(n), i, axis % len(n.shape)).node
    return Spec("take", [a, i], {"axis": axis} if axis != -2 else {}, want=want)


@fam
def submatrix(E, O, kinds, shapes, batches=("",), idx="inc"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    r = len(n.shape)
    i = index(E, O, idx, n.shape[-1])
    want = E.L.take_axis(E.L.take_axis(T(n), i, r - 2), i, r - 1).node
    return Spec("submatrix", [a, i], want=want)


@fam
def tile(E, O, kinds, shapes, batches=("",), reps=(2, 1)):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    reps = tuple(A(x) if isinstance(x, str) else x for x in reps)
    if len(reps) != len(n.shape):
        raise Skip()
    return Spec("tile", [a] + list(reps), want=E.L.f_tile(T(n), *reps).node)


@fam
def concat(E, O, kinds, shapes, batches=("", ""), axis=0):
    ops = [
        operand(E, O, k, n, s, b) for k, n, s, b in zip(kinds, "abc", shapes, batches)
    ]
    want = E.L.f_concat(*[T(E.den.mat(x)) for x in ops], axis=axis).node
    return Spec("concat", ops, {"axis": axis} if axis else {}, want=want)


@fam
def block(E, O, kinds, shapes, batches=None):
    """Block matrix with two rows and two columns, three rows and three columns, or a
    single row."""
    batches = batches or ("",) * len(kinds)
    ops = [
        operand(E, O, k, n, s, b) for k, n, s, b in zip(kinds, "abcdefghi", shapes, batches)
    ]
    ns = [E.den.mat(x) for x in ops]
    L = E.L
    batch = L.bshape(*[n.shape[:-2] for n in ns])
    ns = [T(E.den.batch_bcast(n, batch)) for n in ns]
    if len(ops) == 9:
        rows = [[0, 1, 2], [3, 4, 5], [6, 7, 8]]
    elif len(ops) == 4:
        rows = [[0, 1], [2, 3]]
    else:
        rows = [list(range(len(ops)))]
    want = L.f_concat(
        *[L.f_concat(*[ns[i] for i in r], axis=-1) for r in rows], axis=-2
    ).node
    return Spec("block", [[ops[i] for i in r] for r in rows], want=want)


@fam
def block_diag(E, O, kinds, shapes, batches=None):
    batches = batches or ("",) * len(kinds)
    ops = [
        operand(E, O, k, n, s, b) for k, n, s, b in zip(kinds, "abcd", shapes, batches)
    ]
    ns = [E.den.mat(x) for x in ops]
    return Spec("block_diag", ops, want=blkdiag(E, ns))


def blkdiag(E, ns):
    L = E.L
    batch = L.bshape(*[n.shape[:-2] for n in ns])
    ns = [E.den.batch_bcast(n, batch) for n in ns]
    rows = []
    for i, n in enumerate(ns):
        rows.append(
            L.f_concat(
                *[
                    T(n)
                    if i == j
                    else L.f_full(0, n.dtype, *batch, n.shape[-2], m.shape[-1])
                    for j, m in enumerate(ns)
                ],
                axis=-1,
            )
        )
    return L.f_concat(*rows, axis=-2).node


@fam
def block_diag_tiled(E, O, batch=""):
    """Block-diagonal matrix of tiled blocks: every block is repeated."""
    b = BATCHES[batch]
    x = O.leaf("x", *b, N, M)
    y = O.leaf("y", *b, P, M)
    t = O.new("TiledBlocks", (x, 1), (y, 2))
    return Spec("block_diag", [t], want=blkdiag(E, [x.node, y.node, y.node]))


@fam
def broadcast_to(E, O, kinds, shapes, batches=("",), to=("", "nn")):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    target = BATCHES[to[0]] + SHAPES[to[1]]
    if E.L.bshape(n.shape, target) != target:
        raise Skip()
    want = E.L.bcast(n, target)
    return Spec("broadcast_to", [a] + list(target), want=want)


@fam
def broadcast_batch_to(E, O, kinds, shapes, batches=("",), to="b"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    target = BATCHES[to] + n.shape[-2:]
    if E.L.bshape(n.shape, target) != target:
        raise Skip()
    want = E.L.bcast(n, target)
    return Spec("broadcast_batch_to", [a] + list(BATCHES[to]), want=want)


@fam
def reshape(E, O, kinds, shapes, batches=("",), to="flat", via="fn"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    t = n.shape
    target = {
        "flat": (-1,),
        "swap": t[:-2] + (t[-1], t[-2]),
        "merge": t[:-2] + (si(t[-1] * t[-2]),),
        "one": t[:-1] + (1, t[-1]),
    }[to]
    want = E.L.f_reshape(T(n), *target).node
    run = None
    if via == "method":
        run = lambda: E.I.call_method(a, "reshape", list(target))
    elif via == "tuple":
        run = lambda: E.I.call_method(a, "reshape", [tuple(target)])
    elif via == "flatten":
        run = lambda: E.I.call_method(a, "flatten", [])
    return Spec("reshape", [a] + list(target), want=want, run=run)


@fam
def squeeze(E, O, kinds, shapes, batches=("",), via="fn"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    want = E.L.reshape_node(n, tuple(s for s in n.shape if s != 1))
    run = (lambda: E.I.call_method(a, "squeeze", [])) if via == "method" else None
    return Spec("squeeze", [a], want=want, run=run)


ITEMS = {
    "int": 0,
    "neg": -1,
    "pair": (0, 1),
    "row": (0, slice(None)),
    "col": (slice(None), 1),
    "ell": (Ellipsis, 0),
    "slice": (slice(None), slice(1, None)),
    "none": (Ellipsis, None),
}


@fam
def getitem(E, O, kinds, shapes, batches=("",), item="int"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    want = E.L.getitem(T(n), ITEMS[item]).node
    return Spec("__getitem__", [a], want=want, run=lambda: E.I.getitem(a, ITEMS[item]))


@fam
def uprank(E, O, kinds, shapes, batches=("",)):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    return Spec("uprank", [a], want=E.den.mat(a))


@fam
def to_numpy(E, O, kinds, shapes, batches=("",)):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    return Spec("to_numpy", [a], want=E.den.mat(a))


@fam
def diag_of(E, O, kinds, shapes, batches=("",)):
    """Diagonal matrix from a matrix: takes the diagonal."""
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    L = E.L
    want = L.f_diag_construct(L.f_diag_extract(T(E.den.mat(a)))).node
    return Spec("Diagonal", [a], want=want, run=lambda: O.new("Diagonal", a))


# Generators


@fam
def generator(E, O, kinds, shapes, batches=("",), fn="zeros"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    L = E.L
    if fn == "zeros":
        want = L.f_full(0, n.dtype, *n.shape).node
    elif fn == "ones":
        want = L.f_full(1, n.dtype, *n.shape).node
    elif fn == "eye":
        # An identity matrix without batch dimensions.
        want = L.f_eye(n.dtype, *n.shape[-2:]).node
    elif fn in ("zero", "one"):
        want = L.f_full(0 if fn == "zero" else 1, n.dtype).node
    return Spec(fn, [a], want=want)


@fam
def fill_diag(E, O, batch="", what="scalar"):
    b = BATCHES[batch]
    if what == "num":
        x = T(leaf("x", (), DT("pyfloat"), "num"), num=True)
    else:
        x = O.leaf("x", *b)
    L = E.L
    d = L.bcast(L.reshape_node(L.node(x), L.node(x).shape + (1,)), L.node(x).shape + (N,))
    return Spec("fill_diag", [x, N], want=L.f_diag_construct(T(d)).node)


# Element-wise functions


@fam
def elementwise(E, O, fn, kinds, shapes, batches=("",)):
    pos = fn == "sqrt"
    if fn == "isnan":
        O.noise = "nan"
    O.positive = pos
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    want = E.L.unary({"abs": "abs", "sqrt": "sqrt", "isnan": "isnan"}[fn], T(E.den.mat(a)))
    return Spec(fn, [a], want=want.node)


@fam
def power(E, O, kinds, shapes, batches=("",), b=2, via="fn"):
    O.positive = not isinstance(b, int)
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    if b == "scalar":
        e = O.leaf("e", kind="posbig")
    else:
        e = b
    want = E.L._bin("pow", T(E.den.mat(a)), e).node
    run = (lambda: E.I.binop("pow", a, e)) if via == "operator" else None
    return Spec("power", [a, e], want=want, run=run)


@fam
def cast(E, O, kinds, shapes, batches=("",), to="float64"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    d = DT(to)
    want = E.L.f_cast(d, T(n)).node
    return Spec("cast", [d, a], want=want)


# Linear algebra


def eye_of(E, n):
    L = E.L
    return L.f_eye(n.dtype, *n.shape[-2:]).node


@fam
def inv(E, O, kinds, shapes, batches=("",), pd=False, fn="inv"):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0], pd)
    return Spec(fn, [a], want=E.L.f_inv(T(E.den.mat(a))).node)


def keeps_dtype(kind, n):
    """Data type of a factor, for classes of which the numerical library's decompositions
    do not determine it."""
    return n.dtype if kind in ("Zero", "Constant", "Diagonal") else None


@fam
def cholesky(E, O, kinds, shapes, batches=("",)):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0], True)
    n = E.den.mat(a)
    L = E.L

    def checks(r):
        out = []
        for f, name in ((E.den, "represented"), (E.dense_of, "dense")):
            l = T(f(r))
            out.append((f"factor ({name})", L.f_matmul(l, l, False, True).node, n))
        return out

    return Spec("cholesky", [a], checks=checks, dt=keeps_dtype(kinds[0], n))


@fam
def root(E, O, kinds, shapes, batches=("",)):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0], True)
    n = E.den.mat(a)
    L = E.L

    def checks(r):
        x = T(E.den(r))
        y = T(E.dense_of(r))
        return [
            ("square of the root (represented)", L.f_matmul(x, x).node, n),
            ("square of the root (dense)", L.f_matmul(y, y).node, n),
            ("symmetry of the root", L.f_transpose(x).node, x.node),
        ]

    return Spec("root", [a], checks=checks, dt=keeps_dtype(kinds[0], n))


def batched(E, *ns):
    batch = E.L.bshape(*[n.shape[:-2] for n in ns])
    return [T(E.den.batch_bcast(n, batch)) for n in ns]


@fam
def solve(E, O, kinds, shapes, batches=("", ""), fn="solve", lower_a=None, pd=False):
    a, b = two(E, O, kinds, shapes, batches, (pd, False))
    na, nb = batched(E, E.den.mat(a), E.den.mat(b))
    kw = {}
    if lower_a is not None:
        kw["lower_a"] = lower_a
    if fn == "cholesky_solve":
        L = E.L
        na = L.f_matmul(na, na, False, True)
    want = E.L.f_solve(na, nb).node
    return Spec(fn, [a, b], kw, want=want)


@fam
def logdet(E, O, kinds, shapes, batches=("",)):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0], True)
    return Spec("logdet", [a], want=E.L.f_logdet(T(E.den.mat(a))).node)


@fam
def schur(E, O, kinds, shapes, batches=("",), fn="schur", pd=False):
    """Schur complement of a Woodbury matrix."""
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0], pd)
    return Spec(fn, [a], want=schur_of(E, a))


@fam
def iqf(E, O, kinds, shapes, batches=("", ""), fn="iqf", c=None):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0], True)
    b = operand(E, O, kinds[1], "b", shapes[1], batches[1])
    args = [a, b]
    if c == "same":
        args.append(b)
        cc = b
    elif c is not None:
        cc = operand(E, O, c, "c", shapes[1], batches[1])
        args.append(cc)
    else:
        cc = b
    L = E.L
    na, nb, nc = batched(E, E.den.mat(a), E.den.mat(b), E.den.mat(cc))
    want = L.f_matmul(nb, L.f_solve(na, nc), True, False)
    if fn == "iqf_diag":
        want = L.f_diag_extract(want)
    return Spec(fn, args, want=want.node)


@fam
def ratio(E, O, kinds, shapes, batches=("", "")):
    a, b = two(E, O, kinds, shapes, batches, (True, True))
    L = E.L
    na, nb = batched(E, E.den.mat(a), E.den.mat(b))
    want = L.f_trace(L.f_solve(nb, na)).node
    return Spec("ratio", [a, b], want=want)


# Queries, which give no matrices


@fam
def query(E, O, what, kinds, shapes, batches=None, args=()):
    """A query of shapes."""
    I = E.I
    batches = batches or ("",) * len(kinds)
    ops = [operand(E, O, k, n, s, b) for k, n, s, b in zip(kinds, "abc", shapes, batches)]
    ns = [E.den(x) for x in ops]

    def full(n):
        return E.den.mat(T(n)).shape

    def want():
        if what in ("shape", "T.shape", ".shape"):
            s = ns[0].shape if not isinstance(ops[0], Obj) else full(ns[0])
            if what == "T.shape":
                s = s[:-2] + (s[-1], s[-2])
            return tuple(s[i] for i in args) if args else s
        if what == "shape_batch":
            s = full(ns[0])[:-2]
            return tuple(s[i] for i in args) if args else s
        if what == "shape_matrix":
            if len(ops) > 1:
                return E.L.bshape(*[full(n)[-2:] for n in ns])
            s = full(ns[0])[-2:]
            return tuple(s[i] for i in args) if args else s
        if what == "shape_broadcast":
            return E.L.bshape(*[n.shape for n in ns])
        if what == "shape_batch_broadcast":
            return E.L.bshape(*[full(n)[:-2] for n in ns])
        if what == "shape_matrix_broadcast":
            return E.L.bshape(*[full(n)[-2:] for n in ns])
        if what == "rank":
            return (len(full(ns[0])),)
        raise Undecided(what)

    try:
        w = tuple(map(si, want()))
    except IndexError:
        raise Skip()

    def run():
        if what == ".shape":
            r = I.getattr(ops[0], "shape")
        elif what == "T.shape":
            r = I.getattr(I.getattr(ops[0], "T"), "shape")
        else:
            return E.call(what, *ops, *args)
        for i in args:
            r = I.getitem(r, i)
        return r

    def laws(o):
        def law():
            r = undim(o.value)
            if len(args) == 1 or what == "rank":
                got = (r,)
            else:
                got = tuple(undim(x) for x in I.iterate(r))
            got = tuple(map(si, got))
            if got != w:
                return f"{what}{tuple(args) or ''} gives {fmt_shape(got)} instead of {fmt_shape(w)}"

        return [("shape", law)]

    return Spec(what, ops + list(args), run=run, laws=laws)


@fam
def abstract(E, O, kinds, shapes, batches=("",), which=0):
    """A matrix is abstract if and only if one of its components is."""
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    names = sorted({x.par[0] for x in leaves_of(E, a)})
    if which > len(names):
        raise Skip()
    E.L.abstract_leaves = {names[which - 1]} if which else set()

    def run():
        try:
            return E.call("isabstract", a)
        finally:
            E.L.abstract_leaves = set()

    def laws(o):
        def law():
            if o.value is not bool(which):
                what = f"component '{names[which - 1]}' is" if which else "no component is"
                return f"isabstract gives {o.value} although {what} abstract"

        return [("abstract", law)]

    return Spec("isabstract", [a], run=run, laws=laws)


def leaves_of(E, a):
    out = []
    for x in walk([a]):
        if isinstance(x, T):
            out += [n for n in subterms_of(x.node) if n.op == "leaf"]
    return out


def subterms_of(n):
    seen, todo = {}, [n]
    while todo:
        m = todo.pop()
        if m.id not in seen:
            seen[m.id] = m
            todo.extend(m.args)
    return seen.values()


DISPLAY = {
    "Zero": "zero", "Dense": "dense", "Diagonal": "diagonal", "Constant": "constant",
    "LowerTriangular": "lower-triangular", "UpperTriangular": "upper-triangular",
}


@fam
def display(E, O, kinds, shapes, batches=("",)):
    """Display of a matrix: shows its batch, shape, and data type."""
    I = E.I
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    n = E.den.mat(a)
    before = Snapshot([a])

    def run():
        I.fast_str = False
        try:
            return (I.to_str(a), I.to_str(a, "__repr__"))
        finally:
            I.fast_str = True

    def laws(o):
        s, r = (str(x) for x in o.value)
        shp = lambda x: str(I.to_str(VShape(*x)))
        want = {"batch": shp(n.shape[:-2]), "shape": shp(n.shape[-2:]), "dtype": str(I.to_str(n.dtype))}
        out = []
        for k, v in want.items():
            for name, x in (("str", s), ("repr", r)):
                def law(k=k, v=v, name=name, x=x):
                    head = x.split("\n")[0]
                    if f"{k}={v}" not in head:
                        return f"{name} does not show {k}={v}, but '{head}'"
                out.append(("display", law))

        def once():
            if any(s.count(f"{k}=") != 1 for k in want):
                return f"str shows an attribute not exactly once: '{s}'"
            if "\n" in s:
                return "str has several lines"
            if not (s.startswith("<") and s.endswith(">") and r.startswith("<") and r.endswith(">")):
                return f"the display is not in angle brackets: '{s}'"
            if not r.startswith(s[:-1]):
                return f"repr '{r}' does not begin like str '{s}'"

        def quiet():
            for e in o.op_events:
                if e[0] in ("warn", "random", "set_global_random_state", "mutate"):
                    return f"displaying a matrix has an effect: {e[0]}"
            ch = [x for x in before.changes(I, o.op_events)]
            if ch:
                return f"displaying a matrix changes it: {ch[0][0]}"

        return out + [("display", once), ("display", quiet)]

    return Spec("__repr__", [a], run=run, laws=laws)


# Sampling


@fam
def sample(E, O, kinds, shapes, batches=("",), num=1, stateful=False):
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0], True)
    n = E.den.mat(a)
    num = SIZES.get(num, num)
    I = E.I
    kw = {} if num is None else {"num": num}
    first = RState("first")
    args = [first, a] if stateful else [a]
    before = I.global_state

    def run():
        # Afterwards, `o.value` is the pair of the state and the sample.
        r = E.call("sample", *args, **kw)
        if not stateful:
            return (I.global_state, r)
        r = undim(r)
        if not isinstance(r, tuple) or len(r) != 2:
            raise Undecided("result of `sample`")
        return r

    def laws(o):
        return sampling_laws(I, E, o, n, 1 if num is None else num, first, before, stateful)

    return Spec("sample", args, kw, run=run, laws=laws)


# Errors: operations on operands which do not fit must raise


@fam
def bad(E, O, fn, kinds, shapes, batches=None, kw=()):
    """A function of operands which do not fit."""
    batches = batches or ("",) * len(kinds)
    ops = [
        operand(E, O, k, n, s, b) for k, n, s, b in zip(kinds, "abcd", shapes, batches)
    ]
    if all(not isinstance(x, Obj) for x in ops):
        raise Skip()
    if fn == "block":
        return Spec(fn, [ops[:2], ops[2:]], raises=True)
    return Spec(fn, ops, dict(kw), raises=True)


@fam
def bad_args(E, O, fn, kinds, shapes, args, batches=("",)):
    """A function of an operand and other arguments which do not fit."""
    a = operand(E, O, kinds[0], "a", shapes[0], batches[0])
    args = [SIZES[x] if x in SIZES else x for x in args]
    return Spec(fn, [a] + args, raises=True)


SIZES = {"N": N, "M": M, "NK": NK, "MK": MK, "P": P}


@fam
def bad_new(E, O, cls, what):
    """A constructor of which the arguments do not fit."""
    x = lambda *s: O.leaf("x", *s)
    y = lambda *s: O.leaf("y", *s)
    z = lambda *s: O.leaf("z", *s)
    diag = lambda *s: O.new("Diagonal", O.leaf("d", *s))
    args = {
        ("LowRank", "columns"): lambda: (x(N, K), y(M, P)),
        ("LowRank", "middle rows"): lambda: (x(N, K), y(M, K), z(P, K)),
        ("LowRank", "middle columns"): lambda: (x(N, K), y(M, K), z(K, P)),
        ("LowRank", "symmetric middle rows"): lambda: (x(N, K), None, z(P, P)),
        ("LowRank", "left vector"): lambda: (x(N),),
        ("LowRank", "left number"): lambda: (x(),),
        ("LowRank", "right vector"): lambda: (x(N, 1), y(M)),
        ("LowRank", "middle vector"): lambda: (x(N, K), y(M, K), z(K)),
        ("Woodbury", "sizes"): lambda: (diag(N), O.new("LowRank", x(M, K))),
        ("Woodbury", "columns"): lambda: (diag(N), O.new("LowRank", x(N, K), y(M, K))),
        ("Woodbury", "rows"): lambda: (diag(N), O.new("LowRank", x(M, K), y(N, K))),
        ("Woodbury", "batches"): lambda: (diag(Bt, N), O.new("LowRank", x(Ct, N, K))),
        ("Diagonal", "number"): lambda: (x(),),
        ("LowerTriangular", "rectangle"): lambda: (x(N, M),),
        ("UpperTriangular", "rectangle"): lambda: (x(N, M),),
        ("LowerTriangular", "vector"): lambda: (x(N),),
        ("UpperTriangular", "vector"): lambda: (x(N),),
        ("Kronecker", "left vector"): lambda: (x(N), y(N, M)),
        ("Kronecker", "right vector"): lambda: (x(N, M), y(N)),
        ("Kronecker", "number"): lambda: (x(N, M), y()),
        ("Constant", "one size"): lambda: (x(), N),
        ("Constant", "no size"): lambda: (x(),),
        ("Constant", "batches"): lambda: (x(Bt), Ct, N, M),
        ("Zero", "one size"): lambda: (O.dtype, N),
        ("Zero", "no size"): lambda: (O.dtype,),
        ("TiledBlocks", "columns"): lambda: ((x(N, M), 2), (y(N, P), 1)),
        ("TiledBlocks", "vector"): lambda: ((x(N), 2), (y(N), 1)),
        ("Dense", "number"): lambda: (x(),),
    }[cls, what]()
    return Spec(cls, list(args), raises=True, run=lambda: O.new(cls, *args))
