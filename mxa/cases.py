"""The cases which the analysis of every property covers.

Every function yields cases together with a factor: in the quick tier, one in `factor`
cases is analysed (always the same ones); in the thorough tier, all of them are.
"""
import zlib

from .catalog import Case

MAT = "Zero Dense Diagonal Constant Lower Upper LRsym LRlr LRlmr LRdiag Woodbury Kron KronS".split()
EXTRA = "LRsym2 LRlm LRDense LRrow LRcol LRone LRconst Woodbury2 KronD".split()
NUM = "num zeronum int scalar".split()
ALL = NUM + ["arr"] + MAT
RED = "Zero Dense Diagonal Constant Lower Upper LRlmr Woodbury Kron".split()
BATCHED = "Zero Dense Diagonal Constant ConstantB Lower Upper LRlmr LRpart LRpart2 Woodbury Woodburypart Woodburypart2 Kron Kronpart Kronpart2".split()
TILED = "Tiled Tiledcol".split()
# Pairs of batches.
BB = [("b", "b"), ("b", ""), ("", "b"), ("c1", "b"), ("1", "b"), ("b", "1")]
BB4 = BB[:4]
K_N = tuple(("k", x) for x in ("n", "m", "n1", "m1", "b", "c"))
KRONS = ("Kron", "KronS", "Kronpart", "Kronpart2", "KronD")
# Low-rank matrices with other factors.
LOW = "LRsym2 LRlm LRDense LRrow LRcol LRone LRconst".split()
TILEDB = "Tiledbatch Tiledbatch2".split()


def h(case):
    return zlib.crc32(case.id.encode())


def pick(gen, thorough):
    """Select the cases of a tier, without duplicates."""
    seen, out = set(), []
    for factor, c in gen:
        i = c.id
        if i in seen or not supported(c):
            continue
        seen.add(i)
        if thorough or factor <= 1 or h(c) % factor == 0:
            out.append(c)
    return out


def supported(c):
    """Combinations which the library does not implement by design. These raise
    explicitly that something is not implemented or not supported; DESIGN.md lists
    them."""
    p = c.p
    k = p.get("kinds", ())
    s = p.get("shapes", ())
    op = p.get("op")
    numeric = NUM + ["arr", "vec"]
    if c.fam == "bad":
        if all(x in numeric for x in k):
            return False
        # A zero right-hand side is returned as it is, by design.
        if p["fn"] in ("solve", "cholesky_solve", "iqf", "iqf_diag") and k[1] == "Zero":
            return False
        if p["fn"] == "ratio" and k[0] == "Zero":
            return False
        # It is documented that the sizes of blocks are assumed to agree.
        if p["fn"] == "block" and all(x == "Zero" for x in k):
            return False
    if c.fam == "binary":
        if k[0] in numeric and k[1] in numeric:
            return False
        # Kronecker products of other factors cannot be multiplied.
        if op in ("multiply", "divide") and k[0] in KRONS and k[1] in KRONS and s[0] != s[1]:
            return False
        tiled = [x in TILED for x in k]
        if any(tiled):
            if op == "subtract" and tiled[1]:
                return False
            if {"Diagonal", "Woodbury", "Woodbury2"} & set(k) and op in ("multiply", "divide"):
                return False
            if op == "divide" and tiled[1]:
                return False
        # Arrays have operators of their own.
        if p.get("via") == "operator" and k[0] in ("arr", "vec", "scalar"):
            return False
    return True


# Element-wise arithmetic


def _binary(ops, light=()):
    for op in ops:
        w = 2 if op in light else 1
        # All pairs of classes, square and not square.
        for a in ALL:
            for b in ALL:
                for s in ("kk", "kl"):
                    yield w, Case("binary", op=op, kinds=(a, b), shapes=(s, s))
        # Broadcasting of rows and columns.
        for a in RED + ["arr"]:
            for b in RED + ["arr"]:
                for s in [("kk", "11"), ("11", "kk"), ("nm", "1m"), ("1m", "nm"), ("n1", "nm"), ("n1", "1m")]:
                    yield 5 * w, Case("binary", op=op, kinds=(a, b), shapes=s)
        # Low-rank matrices with other factors, and compositions.
        for a in LOW + ["Woodbury2", "KronD"]:
            for b in LOW + RED + ["num", "arr"]:
                for s in ("kk", "kl"):
                    yield 3 * w, Case("binary", op=op, kinds=(a, b), shapes=(s, s))
                    yield 3 * w, Case("binary", op=op, kinds=(b, a), shapes=(s, s))
        # Single rows and columns, also in batches.
        for a in RED + ["arr", "Densevec"]:
            for b in RED + ["arr"]:
                for s in [("k1", "k1"), ("1k", "1k"), ("11", "11"), ("k1", "1k"), ("kk", "k1"), ("kk", "1k"), ("k1", "kk"), ("1k", "kk")]:
                    yield 6 * w, Case("binary", op=op, kinds=(a, b), shapes=s)
                for s in [("kk", "k1"), ("kk", "1k"), ("k1", "kk"), ("1k", "kk"), ("k1", "k1")]:
                    for bb in BB4:
                        yield 24 * w, Case("binary", op=op, kinds=(a, b), shapes=s, batches=bb)
        # Vectors.
        for a in MAT:
            yield 2 * w, Case("binary", op=op, kinds=(a, "vec"), shapes=("n1", "n1"))
            yield 2 * w, Case("binary", op=op, kinds=("vec", a), shapes=("n1", "n1"))
            yield 2 * w, Case("binary", op=op, kinds=(a, "vec"), shapes=("nm", "n1"))
        # Batches.
        for a in BATCHED + ["scalar", "num", "arr"]:
            for b in BATCHED + ["scalar", "num", "arr"]:
                for bb in BB:
                    yield 8 * w, Case(
                        "binary", op=op, kinds=(a, b), shapes=("kk", "kk"), batches=bb
                    )
        for a in MAT:
            for b in ("num", "scalar", "arr", "Dense", "Diagonal"):
                yield 3 * w, Case("binary", op=op, kinds=(a, b), shapes=("kk", "kk"), via="operator")
                if b not in MAT:
                    yield 2 * w, Case("binary", op=op, kinds=(b, a), shapes=("kk", "kk"), via="operator")
        for a in TILED:
            for b in ALL:
                yield 2 * w, Case("binary", op=op, kinds=(a, b), shapes=("tt", "tt"))
                yield 2 * w, Case("binary", op=op, kinds=(b, a), shapes=("tt", "tt"))


def sums():
    yield from _binary(("add", "subtract"), ("subtract",))
    for a in MAT + EXTRA:
        for op in ("aliased", "cancel"):
            for s in ("kk", "kl"):
                yield 1, Case("same", op=op, kinds=(a,), shapes=(s,))
        for s in ("kk", "kl"):
            for via in ("fn", "operator"):
                yield 1, Case("negative", kinds=(a,), shapes=(s,), via=via)
    for a in BATCHED:
        yield 1, Case("negative", kinds=(a,), shapes=("kk",), batches=("b",))


def products_elementwise():
    for w, c in _binary(("multiply", "divide"), ("divide",)):
        yield w if w > 1 else 1, c
    for a in MAT + EXTRA:
        for s in ("kk", "kl"):
            for op in ("square", "divide"):
                yield 1, Case("same", op=op, kinds=(a,), shapes=(s,))


# Products

TR = [(False, False), (True, False), (False, True), (True, True)]
SQ = {
    (False, False): ("kl", "lp"),
    (True, False): ("lk", "lp"),
    (False, True): ("kl", "pl"),
    (True, True): ("lk", "pl"),
}


def _shapes(a, b, tr):
    """Shapes of products which are not square."""
    free = ("Zero", "Dense", "Constant", "LRlr", "LRlmr", "arr")
    square = ("Diagonal", "Lower", "Upper", "Woodbury", "KronS", "LRdiag", "LRsym")
    s = []
    if a in free + ("Kron",) and b in free:
        s.append(SQ[tr])
    if a in square:
        s.append(("kk", "kl") if not tr[1] else ("kk", "lk"))
    if b in square:
        s.append(("lk", "kk") if not tr[0] else ("kl", "kk"))
    if b == "Kron" and a in free:
        s.append(
            {
                (False, False): ("pk", "kl"),
                (True, False): ("kp", "kl"),
                (False, True): ("pk", "lk"),
                (True, True): ("kp", "lk"),
            }[tr]
        )
    if a == "Kron" and b == "Kron":
        s.append(
            {
                (False, False): ("kl", "lk"),
                (True, False): ("lk", "lk"),
                (False, True): ("kl", "kl"),
                (True, True): ("lk", "kl"),
            }[tr]
        )
    return s


def matmuls():
    kinds = ["arr"] + MAT
    for a in kinds:
        for b in kinds:
            if a == b == "arr":
                continue
            for tr in TR:
                yield 1, Case("matmul", kinds=(a, b), shapes=("kk", "kk"), tr=tr)
                for s in _shapes(a, b, tr):
                    yield 2, Case("matmul", kinds=(a, b), shapes=s, tr=tr)
    for a in BATCHED + ["arr"]:
        for b in BATCHED + ["arr"]:
            if a == b == "arr":
                continue
            for bb in BB:
                for tr in TR:
                    yield 12, Case("matmul", kinds=(a, b), shapes=("kk", "kk"), batches=bb, tr=tr)
    for a in LOW + ["Woodbury2", "KronD"]:
        for b in LOW + RED + ["arr"]:
            for tr in TR:
                yield 4, Case("matmul", kinds=(a, b), shapes=("kk", "kk"), tr=tr)
                yield 4, Case("matmul", kinds=(b, a), shapes=("kk", "kk"), tr=tr)
    # Single rows and columns.
    for a in RED + ["arr", "Densevec"] + LOW:
        for b in RED + ["arr"]:
            for tr in TR:
                for s in [("1k", "k1"), ("k1", "1k"), ("kk", "k1"), ("1k", "kk"), ("1k", "kl"), ("11", "11"), ("11", "1k"), ("k1", "11")]:
                    s = [one(x) if t else x for x, t in zip(s, tr)]
                    yield 10, Case("matmul", kinds=(a, b), shapes=tuple(s), tr=tr)
    for a in MAT + EXTRA:
        yield 1, Case("same", op="gram", kinds=(a,), shapes=("kl",))
        yield 1, Case("same", op="gram", kinds=(a,), shapes=("kk",))
        for tr in TR:
            yield 1, Case("same", op="matmul", kinds=(a,), shapes=("kk",), tr=tr)
        yield 1, Case("same", op="matmul", kinds=(a,), shapes=("kl",), tr=(True, False))
        for b in ("arr", "Dense", "Diagonal", "LRlmr"):
            yield 2, Case("matmul", kinds=(a, b), shapes=("kk", "kk"), via="operator")
            yield 2, Case("matmul", kinds=(a, b), shapes=("kk", "kk"), via="mm", tr=(True, False))


TR3 = [(x, y, z) for x in (False, True) for y in (False, True) for z in (False, True)]


def one(s):
    """Transposed shape."""
    return s[::-1]


def products_other():
    kinds = ["arr"] + MAT
    for a in kinds:
        for b in kinds:
            if a == b == "arr":
                continue
            for tr in TR:
                yield 2, Case("matmul_diag", kinds=(a, b), shapes=("kk", "kk"), tr=tr)
                s = {
                    (False, False): ("kl", "lk"),
                    (True, False): ("lk", "lk"),
                    (False, True): ("kl", "kl"),
                    (True, True): ("lk", "kl"),
                }[tr]
                yield 2, Case("matmul_diag", kinds=(a, b), shapes=s, tr=tr)
            for s in (("kk", "kk"), ("kl", "kl"), ("kl", "lk")):
                yield 2, Case("kron", kinds=(a, b), shapes=s)
    for a in BATCHED + ["arr"]:
        for b in BATCHED + ["arr"]:
            if a == b == "arr":
                continue
            for bb in BB4:
                yield 6, Case("matmul_diag", kinds=(a, b), shapes=("kk", "kk"), batches=bb)
                yield 6, Case("kron", kinds=(a, b), shapes=("kk", "kk"), batches=bb)
    for a in LOW + ["KronD"]:
        for b in LOW + RED + ["arr"]:
            for tr in TR:
                yield 8, Case("matmul_diag", kinds=(a, b), shapes=("kk", "kk"), tr=tr)
            for s in (("kk", "kk"), ("kl", "lk")):
                yield 8, Case("kron", kinds=(b, a), shapes=s)
    for a in RED + ["arr"]:
        for b in RED + ["arr"]:
            if a == b == "arr":
                continue
            for tr in TR:
                for s in [("1k", "k1"), ("k1", "1k")]:
                    s = [one(x) if t else x for x, t in zip(s, tr)]
                    yield 8, Case("matmul_diag", kinds=(a, b), shapes=tuple(s), tr=tr)
            for s in [("11", "kk"), ("kk", "11"), ("k1", "1k"), ("1k", "kk"), ("k1", "k1")]:
                yield 8, Case("kron", kinds=(a, b), shapes=s)
    for a in MAT + EXTRA:
        for tr in TR:
            yield 2, Case("same", op="matmul_diag", kinds=(a,), shapes=("kk",), tr=tr)
        for s in ("kk", "kl"):
            yield 2, Case("same", op="matmul_diag", kinds=(a,), shapes=(s,), tr=(True, False))
            yield 2, Case("same", op="kron", kinds=(a,), shapes=(s,))
    for a in RED:
        for b in RED:
            for c in ("Dense", "Diagonal", "Lower", "LRlmr", "Zero", "arr"):
                for tr in TR3:
                    yield 16, Case("matmul3", kinds=(a, b, c), shapes=("kk", "kk", "kk"), tr=tr)
    # The order in which to multiply depends on the sizes.
    for a in RED + ["arr"]:
        for b in RED + ["arr"]:
            for c in ("Dense", "LRlmr", "Constant", "arr"):
                if a == b == c == "arr":
                    continue
                for tr in TR3:
                    for s in [("kk", "kk", "k1"), ("1k", "kk", "kk"), ("kk", "kk", "kl"), ("kl", "lk", "kp"), ("k1", "1k", "kk")]:
                        s = [one(x) if t else x for x, t in zip(s, tr)]
                        yield 48, Case("matmul3", kinds=(a, b, c), shapes=tuple(s), tr=tr)
    for a in RED + ["arr"]:
        for b in ("Dense", "Diagonal", "Woodbury", "Kron"):
            for bb in (("b", "", ""), ("", "b", ""), ("", "", "b"), ("c1", "b", "")):
                for tr in TR3:
                    yield 16, Case("matmul3", kinds=(a, b, "Dense"), shapes=("kk", "kk", "kk"), batches=bb, tr=tr)


def chains():
    """Products of which the order matters."""
    for s in [
        ("nm", "mp", "pq"), ("1m", "mp", "pq"), ("nm", "mp", "p1"), ("n1", "1m", "mp"),
        ("nm", "m1", "1p"), ("nn", "nm", "m1"), ("mn", "nn", "np"), ("1n", "nn", "n1"),
    ]:
        for tr in TR3:
            t = tuple(x[::-1] if y else x for x, y in zip(s, tr))
            for kinds in (("Dense",) * 3, ("arr", "Dense", "arr"), ("Dense", "arr", "arr"), ("arr",) * 3):
                yield 1, Case("chain", kinds=kinds, shapes=t, tr=tr)
            for b in (("b", "b", "b"), ("b", "", ""), ("", "", "b")):
                yield 1, Case("chain", kinds=("Dense",) * 3, shapes=t, tr=tr, batches=b)
    for a, b in (("Kron", "Dense"), ("Kron", "arr"), ("Dense", "Kron"), ("arr", "Kron")):
        for k in ("kk", "kl"):
            for p in ("p", "1", "k"):
                for tr in TR:
                    # The size which the factors share is that of the columns of the first.
                    x = k[::-1] if tr[0] else k
                    if a == "Kron":
                        s = [k, x[1] + p]
                    else:
                        i = k[1] if tr[1] else k[0]
                        s = [p + i, k]
                    j = 1 if a == "Kron" else 0
                    if tr[j]:
                        s[j] = s[j][::-1]
                    for bb in (("", ""), ("b", "b"), ("b", ""), ("", "b")):
                        yield 1, Case("chain", kinds=(a, b), shapes=tuple(s), tr=tr, batches=bb)


# Reductions


def reductions():
    for a in MAT + EXTRA + ["Densevec"]:
        for s in ("kk", "kl", "lk", "k1", "1k", "11"):
            for ax in (None, 0, 1, -1, -2):
                yield 1, Case("sum", kinds=(a,), shapes=(s,), axis=ax)
                yield 1, Case("mean", kinds=(a,), shapes=(s,), axis=ax)
            yield 1, Case("trace", kinds=(a,), shapes=(s,))
            for fn in ("diag", "diag_extract", "diagonal"):
                yield 1, Case("diag", kinds=(a,), shapes=(s,), fn=fn)
    for a in BATCHED:
        for s in ("kl", "k1", "1k"):
            for b in ("b", "cb"):
                for ax in (None, 0, 1, -1, -2, -3):
                    yield 4, Case("sum", kinds=(a,), shapes=(s,), batches=(b,), axis=ax)
                    yield 8, Case("mean", kinds=(a,), shapes=(s,), batches=(b,), axis=ax)
                yield 2, Case("diag", kinds=(a,), shapes=(s,), batches=(b,))
                yield 2, Case("trace", kinds=(a,), shapes=(s,), batches=(b,))
    for a in BATCHED + EXTRA + ["KronS"]:
        for b in ("b", "cb", "1"):
            for ax in (None, 0, 1, 2, -1, -2, -3):
                yield 1, Case("sum", kinds=(a,), shapes=("kk",), batches=(b,), axis=ax)
                yield 1, Case("mean", kinds=(a,), shapes=("kk",), batches=(b,), axis=ax)
            yield 1, Case("trace", kinds=(a,), shapes=("kk",), batches=(b,))
            for fn in ("diag", "diag_extract", "diagonal"):
                yield 1, Case("diag", kinds=(a,), shapes=("kk",), batches=(b,), fn=fn)


# Rearrangements


def conversions():
    kinds = MAT + EXTRA + ["Densevec"]
    for a in kinds:
        for s in ("kk", "kl"):
            for via in ("fn", "T"):
                yield 1, Case("transpose", kinds=(a,), shapes=(s,), via=via)
            yield 1, Case("dense", kinds=(a,), shapes=(s,))
            for to in ("float64", "int64", "complex128"):
                yield 1, Case("cast", kinds=(a,), shapes=(s,), to=to)
            yield 1, Case("uprank", kinds=(a,), shapes=(s,))
            yield 1, Case("to_numpy", kinds=(a,), shapes=(s,))
            for via, to in [("fn", "flat"), ("fn", "swap"), ("method", "swap"), ("tuple", "merge"), ("flatten", "flat"), ("fn", "one")]:
                yield 1, Case("reshape", kinds=(a,), shapes=(s,), to=to, via=via)
            for item in ("int", "neg", "pair", "row", "col", "ell", "slice", "none"):
                yield 1, Case("getitem", kinds=(a,), shapes=(s,), item=item)
            for via in ("fn", "method"):
                yield 1, Case("squeeze", kinds=(a,), shapes=(s,), via=via)
            for r in ((1, 1), (2, 1), (1, 2), (3, 2)):
                yield 1, Case("tile", kinds=(a,), shapes=(s,), reps=r)
        for s in ("n1", "1m", "11", "k1", "1k"):
            yield 1, Case("squeeze", kinds=(a,), shapes=(s,))
        for s in ("k1", "1k", "11"):
            for f in ("transpose", "dense", "cast"):
                yield 1, Case(f, kinds=(a,), shapes=(s,))
            for to in ("flat", "swap"):
                yield 2, Case("reshape", kinds=(a,), shapes=(s,), to=to)
            yield 2, Case("tile", kinds=(a,), shapes=(s,), reps=(3, 2))
        for to in [("b", "kk"), ("cb", "kk"), ("", "kk")]:
            yield 1, Case("broadcast_to", kinds=(a,), shapes=("kk",), to=to)
        for s, to in [("1m", ("", "nm")), ("n1", ("", "nm")), ("11", ("", "nm")), ("11", ("b", "nm")), ("1m", ("b", "nm"))]:
            yield 1, Case("broadcast_to", kinds=(a,), shapes=(s,), to=to)
        for to in ("b", "cb", ""):
            yield 1, Case("broadcast_batch_to", kinds=(a,), shapes=("kk",), to=to)
        yield 1, Case("diag_of", kinds=(a,), shapes=("kk",))
    for a in BATCHED + EXTRA + ["KronS"]:
        for b in ("b", "cb", "1"):
            s, B = "kk", (b,)
            for f in ("transpose", "dense", "cast", "uprank", "to_numpy"):
                yield 1, Case(f, kinds=(a,), shapes=(s,), batches=B)
            for to in ("flat", "swap", "merge"):
                yield 1, Case("reshape", kinds=(a,), shapes=(s,), batches=B, to=to)
            for item in ("int", "pair", "ell", "none"):
                yield 1, Case("getitem", kinds=(a,), shapes=(s,), batches=B, item=item)
            yield 1, Case("squeeze", kinds=(a,), shapes=(s,), batches=B)
            for r in ((1, 2, 1), (2, 1, 1), (1, 1, 3), (2, 2, 1), (1, 1, 1, 2), (2, 1, 1, 1)):
                yield 1, Case("tile", kinds=(a,), shapes=(s,), batches=B, reps=r)
            for to in [("b", "kk"), ("cb", "kk")]:
                yield 1, Case("broadcast_to", kinds=(a,), shapes=("kk",), batches=(b,), to=to)
            for to in ("b", "cb"):
                yield 1, Case("broadcast_batch_to", kinds=(a,), shapes=("kk",), batches=(b,), to=to)
        yield 1, Case("diag_of", kinds=(a,), shapes=("kk",), batches=("b",))
    for a in BATCHED:
        for s in ("kl", "k1", "1k"):
            for f in ("transpose", "dense"):
                yield 2, Case(f, kinds=(a,), shapes=(s,), batches=("b",))
            yield 2, Case("squeeze", kinds=(a,), shapes=(s,), batches=("b",))
            yield 2, Case("reshape", kinds=(a,), shapes=(s,), batches=("b",), to="swap")
            yield 2, Case("broadcast_batch_to", kinds=(a,), shapes=(s,), batches=("b",), to="cb")
    for a in TILED + TILEDB + ["Tiledpos"]:
        for b in ("", "b", "cb"):
            for s in ("tt", "tm", "nu"):
                for f in ("dense", "to_numpy", "cast", "transpose"):
                    yield 1, Case(f, kinds=(a,), shapes=(s,), batches=(b,))


def selections():
    kinds = MAT + EXTRA
    for a in kinds:
        s2 = "nn" if "Kron" not in a else "kk"
        for idx in ("list", "tuple", "dup", "neg", "one", "mask", "inc", "any"):
            for s in ("nn", "nm") if "Kron" not in a else ("kk", "kl"):
                for ax in (0, 1, -1, -2):
                    yield 1, Case("take", kinds=(a,), shapes=(s,), axis=ax, idx=idx, order=K_N)
            yield 1, Case("submatrix", kinds=(a,), shapes=(s2,), idx=idx, order=K_N)
    for a in RED + ["Densevec", "LRrow", "LRcol"]:
        for s in ("n1", "1m", "11"):
            for idx in ("one", "neg1", "dup1"):
                for ax in (0, 1):
                    yield 2, Case("take", kinds=(a,), shapes=(s,), axis=ax, idx=idx, order=K_N)
        for b in ("b", "cb"):
            for s in ("nm", "n1", "1m"):
                for ax in (0, 1, 2, -1, -2, -3):
                    for idx in ("dup", "mask", "one"):
                        yield 8, Case("take", kinds=(a,), shapes=(s,), batches=(b,), axis=ax, idx=idx, order=K_N)
    for a in BATCHED + ["LRsym2", "KronS"]:
        s2 = "nn" if "Kron" not in a else "kk"
        for b in ("b", "cb", "1"):
            for idx in ("dup", "inc", "mask", "tuple"):
                for ax in (0, 1, 2, -1, -2, -3):
                    yield 1, Case("take", kinds=(a,), shapes=(s2,), batches=(b,), axis=ax, idx=idx, order=K_N)
                yield 1, Case("submatrix", kinds=(a,), shapes=(s2,), batches=(b,), idx=idx, order=K_N)


# Construction from blocks


def blocks():
    S = RED + ["arr"]
    mats = lambda *k: any(x not in ("arr",) for x in k)
    for a in ALL:
        for b in ALL:
            if a in NUM or b in NUM or not mats(a, b):
                continue
            yield 3, Case("concat", kinds=(a, b), shapes=("kk", "lk"), axis=0)
            yield 3, Case("concat", kinds=(a, b), shapes=("kk", "kl"), axis=-1)
    q = ("kk", "kl", "lk", "ll")
    for a in S:
        for b in S:
            yield 1, Case("block", kinds=(a, "Zero", "Zero", b), shapes=q)
            yield 1, Case("block", kinds=(a, b, "Zero", "Dense"), shapes=q)
            yield 1, Case("block", kinds=("Dense", "Zero", b, a), shapes=q)
            yield 1, Case("block", kinds=(a, "Dense", b, "arr"), shapes=q)
            yield 1, Case("block", kinds=("Zero", a, b, "Zero"), shapes=q)
            if mats(a, b):
                yield 1, Case("block", kinds=(a, b), shapes=("kk", "kl"))
                yield 1, Case("block_diag", kinds=(a, b), shapes=("kk", "ll"))
                yield 1, Case("block_diag", kinds=(a, b), shapes=("kl", "lk"))
            yield 1, Case("block_diag", kinds=(a, b, "Diagonal"), shapes=("kk", "ll", "kk"))
            for bb in BB4:
                if mats(a, b):
                    yield 1, Case("block_diag", kinds=(a, b), shapes=("kk", "ll"), batches=bb)
                yield 1, Case("block", kinds=(a, "Zero", "Dense", b), shapes=q, batches=(bb[0], "", "", bb[1]))
                yield 1, Case("block", kinds=(a, "Zero", "Zero", b), shapes=q, batches=(bb[0], "", "", bb[1]))
    # Blocks of which the ones on the diagonal are not square, and three by three blocks.
    for a in RED:
        for b in RED:
            for q2 in [("kl", "kk", "kl", "kk"), ("kl", "kl", "ll", "ll"), ("kk", "kl", "kk", "kl"), ("kl", "kk", "ll", "lk"), ("kl", "kp", "kl", "kp"), ("pk", "pl", "kk", "kl"), ("kk", "k1", "1k", "11")]:
                yield 2, Case("block", kinds=("Zero", "Zero", a, b), shapes=q2)
                yield 2, Case("block", kinds=(a, b, "Zero", "Zero"), shapes=q2)
                yield 2, Case("block", kinds=(a, "Zero", "Zero", b), shapes=q2)
                yield 2, Case("block", kinds=("Zero", a, b, "Zero"), shapes=q2)
            q3 = ("kk", "kl", "kp", "lk", "ll", "lp", "pk", "pl", "pp")
            for z in range(9):
                k = ["Diagonal" if i in (0, 4, 8) else "Zero" for i in range(9)]
                k[z], k[(z + 4) % 9] = a, b
                yield 12, Case("block", kinds=tuple(k), shapes=q3)
    for a in RED:
        yield 1, Case("block_diag", kinds=(a,), shapes=("kk",))
        yield 1, Case("block", kinds=(a,), shapes=("kk",))
    for b in ("", "b", "cb"):
        yield 1, Case("block_diag_tiled", batch=b)
    for a in MAT:
        for fn in ("zeros", "ones", "eye", "zero", "one"):
            for s in ("kk", "kl"):
                if fn == "eye" and s == "kl":
                    continue
                yield 1, Case("generator", fn=fn, kinds=(a,), shapes=(s,))
                yield 1, Case("generator", fn=fn, kinds=(a,), shapes=(s,), batches=("b",))
    for b in ("", "b", "cb"):
        yield 1, Case("fill_diag", batch=b)
    yield 1, Case("fill_diag", what="num")


def elementwise():
    for a in MAT + EXTRA + ["Densevec"]:
        for s in ("k1", "1k", "11"):
            for b in ("", "b"):
                for fn in ("abs", "sqrt", "isnan"):
                    yield 3, Case("elementwise", fn=fn, kinds=(a,), shapes=(s,), batches=(b,))
                for e in (2, 3, "scalar"):
                    yield 6, Case("power", kinds=(a,), shapes=(s,), batches=(b,), b=e)
    for a in BATCHED:
        for fn in ("abs", "sqrt", "isnan"):
            yield 1, Case("elementwise", fn=fn, kinds=(a,), shapes=("kk",), batches=("b",))
        for e in (2, 3, "scalar"):
            yield 1, Case("power", kinds=(a,), shapes=("kk",), batches=("b",), b=e)
    for a in MAT + EXTRA:
        for s in ("kk", "kl"):
            for b in ("", "b", "cb"):
                for fn in ("abs", "sqrt", "isnan"):
                    yield 1, Case("elementwise", fn=fn, kinds=(a,), shapes=(s,), batches=(b,))
                for e in (2, 1, 3, "scalar"):
                    for via in ("fn", "operator"):
                        yield 1, Case("power", kinds=(a,), shapes=(s,), batches=(b,), b=e, via=via)


# Linear algebra


def factorisations():
    for b in ("", "b", "cb"):
        for a in ("Dense", "Diagonal", "Woodbury", "Woodbury2", "Kron"):
            yield 1, Case("inv", kinds=(a,), shapes=("kk",), batches=(b,))
        for a in ("Dense", "Diagonal", "Woodbury", "Woodbury2", "Kron", "Woodburypart", "Kronpart"):
            yield 1, Case("inv", kinds=(a,), shapes=("kk",), batches=(b,), pd=True)
            yield 1, Case("inv", fn="pd_inv", kinds=(a,), shapes=("kk",), batches=(b,), pd=True)
            yield 1, Case("cholesky", kinds=(a,), shapes=("kk",), batches=(b,))
            yield 1, Case("logdet", kinds=(a,), shapes=("kk",), batches=(b,))
            if b != "cb":
                yield 1, Case("root", kinds=(a,), shapes=("kk",), batches=(b,))
        for a in ("Constant", "LRsym", "LRsym2", "LRlm", "LRdiag", "Zero"):
            yield 1, Case("cholesky", kinds=(a,), shapes=("kk",), batches=(b,))
            if b != "cb":
                yield 1, Case("root", kinds=(a,), shapes=("kk",), batches=(b,))
        for a in ("Woodbury", "Woodbury2"):
            yield 1, Case("schur", kinds=(a,), shapes=("kk",), batches=(b,))
            yield 1, Case("schur", kinds=(a,), shapes=("kk",), batches=(b,), pd=True, fn="pd_schur")


def _zero_ok(b, bb):
    # A zero right-hand side is returned as it is, by design.
    return b != "Zero" or bb[0] in ("", bb[1])


def solves():
    for bb in [("", "")] + BB4:
        for a in ("Dense", "arr", "Diagonal", "Lower", "Upper", "Woodbury", "Kron"):
            for b in MAT + ["arr"]:
                if a == b == "arr" or not _zero_ok(b, bb):
                    continue
                for s in ("kk", "kl"):
                    yield 1, Case("solve", kinds=(a, b), shapes=("kk", s), batches=bb)
                yield 4, Case("solve", kinds=(a, b), shapes=("kk", "k1"), batches=bb)
        for a in ("Lower", "Diagonal", "Upper"):
            for b in MAT + ["arr"]:
                if not _zero_ok(b, bb):
                    continue
                for s in ("kk", "kl"):
                    yield 1, Case("solve", fn="cholesky_solve", kinds=(a, b), shapes=("kk", s), batches=bb)
                    if a != "Diagonal":
                        yield 2, Case(
                            "solve", fn="triangular_solve", kinds=(a, b), shapes=("kk", s), batches=bb,
                            lower_a=a == "Lower",
                        )


def forms():
    for bb in [("", "")] + BB4:
        for a in ("Dense", "arr", "Diagonal", "Woodbury", "Kron"):
            for b in MAT + ["arr"]:
                if not _zero_ok(b, bb):
                    continue
                # Expansions of these take long.
                w = 4 if a == "Woodbury" and (b[:2] == "LR" or b == "Woodbury") else 1
                for fn in ("iqf", "iqf_diag"):
                    for c in (None, "same", "Dense", "LRlmr"):
                        for s in ("kk", "kl", "k1"):
                            yield 8 * w, Case("iqf", fn=fn, kinds=(a, b), shapes=("kk", s), batches=bb, c=c)
            for b in ("Dense", "arr", "Diagonal", "Woodbury", "Kron", "LRsym"):
                if a == b == "arr":
                    continue
                yield 2, Case("ratio", kinds=(b, a), shapes=("kk", "kk"), batches=bb)


# Errors


def errors():
    kinds = MAT + ["arr"]
    for op in ("add", "subtract", "multiply", "divide"):
        for a in kinds:
            for b in kinds:
                for s in [("kk", "kl"), ("kk", "lk"), ("kk", "ll"), ("kl", "lk"), ("kk", "1l"), ("kk", "l1"), ("1l", "kk"), ("l1", "kk"), ("k1", "l1"), ("1k", "1l")]:
                    yield 4, Case("bad", fn=op, kinds=(a, b), shapes=s)
                yield 4, Case("bad", fn=op, kinds=(a, b), shapes=("kk", "kk"), batches=("b", "c"))
            yield 1, Case("bad", fn=op, kinds=(a, "vec"), shapes=("kk", "l1"))
            yield 1, Case("bad", fn=op, kinds=("vec", a), shapes=("l1", "kk"))
    for fn in ("matmul", "matmul_diag"):
        for a in kinds:
            for b in kinds:
                for tr in TR:
                    kw = tuple((k, True) for k, t in zip(("tr_a", "tr_b"), tr) if t)
                    for s in [("kk", "ll"), ("kl", "kk"), ("kl", "kl"), ("kk", "lk"), ("kk", "1k"), ("k1", "kk"), ("1l", "kk"), ("kk", "l1")]:
                        s = tuple(one(x) if t else x for x, t in zip(s, tr))
                        yield 8, Case("bad", fn=fn, kinds=(a, b), shapes=s, kw=kw)
                yield 4, Case("bad", fn=fn, kinds=(a, b), shapes=("kk", "kk"), batches=("b", "c"))
                for s in [("kk", "ll", "ll"), ("kk", "kk", "ll")]:
                    if fn == "matmul":
                        yield 12, Case("bad", fn=fn, kinds=(a, b, "Dense"), shapes=s)
    for a in kinds:
        for b in kinds:
            for fn in ("solve", "cholesky_solve", "iqf", "iqf_diag"):
                if fn == "cholesky_solve" and a not in ("Diagonal", "Lower", "Upper"):
                    continue
                for s in [("kk", "ll"), ("kk", "lk"), ("kk", "l1"), ("kk", "1k")]:
                    yield 4, Case("bad", fn=fn, kinds=(a, b), shapes=s)
            yield 4, Case("bad", fn="ratio", kinds=(a, b), shapes=("kk", "ll"))
            yield 4, Case("bad", fn="kron", kinds=(a, b), shapes=("kk", "kk"), batches=("b", "c"))
            yield 4, Case("bad", fn="concat", kinds=(a, b), shapes=("kk", "kl"))
            yield 4, Case("bad", fn="concat", kinds=(a, b), shapes=("kk", "lk"), kw=(("axis", -1),))
            yield 4, Case("bad", fn="block_diag", kinds=(a, b), shapes=("kk", "kk"), batches=("b", "c"))
            for s in [("kk", "lk", "kk", "lk"), ("kk", "kl", "lk", "lk")]:
                yield 8, Case("bad", fn="block", kinds=(a, b, "Dense", "Dense"), shapes=s)
                yield 8, Case("bad", fn="block", kinds=(a, "Zero", "Zero", b), shapes=s)
    for a in kinds:
        for fn in ("inv", "pd_inv", "cholesky", "logdet", "root"):
            for b in ("", "b"):
                yield 1, Case("bad", fn=fn, kinds=(a,), shapes=("kl",), batches=(b,))
        for t in [("N", "N"), ("MK", "NK"), (1, 1), ("NK",), ("NK", 1)]:
            yield 1, Case("bad_args", fn="broadcast_to", kinds=(a,), shapes=("kk",), args=t)
        yield 1, Case("bad_args", fn="broadcast_batch_to", kinds=(a,), shapes=("kk",), batches=("b",), args=("N",))
        yield 1, Case("bad_args", fn="reshape", kinds=(a,), shapes=("kk",), args=("NK", "MK"))
    for cls, whats in NEW.items():
        for w in whats:
            yield 1, Case("bad_new", cls=cls, what=w)


NEW = {
    "LowRank": ["columns", "middle rows", "middle columns", "symmetric middle rows", "left vector", "left number", "right vector", "middle vector"],
    "Woodbury": ["sizes", "columns", "rows", "batches"],
    "Diagonal": ["number"],
    "LowerTriangular": ["vector"],
    "UpperTriangular": ["vector"],
    "Constant": ["one size", "no size", "batches"],
    "Zero": ["one size", "no size"],
    "TiledBlocks": ["vector"],
}


def warmed(gens):
    """All cases, and all cases for which everything that operands store is computed before."""

    def gen():
        for g in gens:
            for f, c in g():
                yield f, c
                yield f, Case(c.fam, c.order, warm=True, **c.p)

    return gen


def mixed(gens, factor=2):
    """Cases of which the operands, or their components, have different data types. Zero
    matrices take over the data type of other operands, by design."""

    def gen():
        for g in gens:
            for f, c in g():
                k = c.p.get("kinds", ())
                if any(x in NUM or x in ("Zero", "vec") for x in k):
                    continue
                if len(k) > 1:
                    yield f * factor, Case(c.fam, c.order, mixed="operands", **c.p)
                if any(x.startswith(("LR", "Woodbury", "Kron", "Tiled")) for x in k):
                    yield f * factor, Case(c.fam, c.order, mixed="parts", **c.p)

    return gen


def cached_flow():
    """Cases for which the control flow depends on values."""
    lows = [k for k in MAT + EXTRA if k.startswith(("LR", "Woodbury"))] + ["Constant", "Zero"]
    for op in ("add", "subtract"):
        for a in lows:
            for b in lows:
                for s in ("kk", "kl", "k1"):
                    yield 1, Case("binary", op=op, kinds=(a, b), shapes=(s, s))
                for bb in BB4:
                    yield 2, Case("binary", op=op, kinds=(a, b), shapes=("kk", "kk"), batches=bb)
        for a in lows:
            for s in ("kk", "kl"):
                yield 1, Case("same", op="aliased" if op == "add" else "cancel", kinds=(a,), shapes=(s,))
    for a in MAT + EXTRA:
        for ax in (0, 1):
            for idx in ("mask", "inc"):
                yield 1, Case("take", kinds=(a,), shapes=("nn" if "Kron" not in a else "kk",), axis=ax, idx=idx, order=K_N)
        for idx in ("mask", "inc"):
            yield 1, Case("submatrix", kinds=(a,), shapes=("nn" if "Kron" not in a else "kk",), idx=idx, order=K_N)


def rarely(gens, k):
    def gen():
        for g in gens:
            for f, c in g():
                yield f * k, c

    return gen


def samples():
    kinds = "Zero Dense arr Diagonal Constant LRsym LRsym2 LRlm LRdiag LRDense Woodbury Woodbury2 Kron KronS".split()
    for a in kinds + ["LRpart", "ConstantB", "Woodburypart", "Woodburypart2", "Kronpart", "Kronpart2"]:
        for b in ("", "b", "cb", "1"):
            for num in (None, 1, 2, "P"):
                for st in (True, False):
                    yield 1, Case("sample", kinds=(a,), shapes=("kk",), batches=(b,), num=num, stateful=st)
            yield 1, Case("sample", kinds=(a,), shapes=("11",), batches=(b,), num=2, stateful=True)


def queries():
    kinds = MAT + EXTRA + ["Densevec"]
    for a in kinds + ["arr", "scalar", "num", "vec"]:
        for s in ("kk", "kl", "k1"):
            for what in ("shape", ".shape", "T.shape"):
                if a in NUM + ["arr", "vec"] and what != "shape":
                    continue
                for args in ((), (0,), (1,), (-1,), (-2,), (0, 1), (1, 0)):
                    if len(args) > 1 and what != "shape":
                        continue
                    yield 2, Case("query", what=what, kinds=(a,), shapes=(s,), args=args)
            for args in ((), (0,), (1,), (-1,), (0, 1), (1, 0), (0, 0)):
                yield 1, Case("query", what="shape_matrix", kinds=(a,), shapes=(s,), args=args)
            if a not in NUM + ["arr", "vec"]:
                yield 1, Case("query", what="rank", kinds=(a,), shapes=(s,))
            yield 1, Case("query", what="shape_batch", kinds=(a,), shapes=(s,))
    for a in BATCHED + EXTRA + TILEDB + ["arr"]:
        for b in ("b", "cb", "1", "c1"):
            s = "tm" if "Tiled" in a else "kk"
            for args in ((), (0,), (1,), (-1,), (0, 1), (1, 0)):
                yield 1, Case("query", what="shape_batch", kinds=(a,), shapes=(s,), batches=(b,), args=args)
            for args in ((), (0,), (1,), (2,), (-1,), (-3,), (0, 2)):
                yield 1, Case("query", what="shape", kinds=(a,), shapes=(s,), batches=(b,), args=args)
            yield 1, Case("query", what="shape_matrix", kinds=(a,), shapes=(s,), batches=(b,))
            if a != "arr":
                yield 1, Case("query", what="rank", kinds=(a,), shapes=(s,), batches=(b,))
                yield 1, Case("query", what="T.shape", kinds=(a,), shapes=(s,), batches=(b,))
    for a in TILED + ["Tiledpos"]:
        for s in ("tt", "tm", "nu"):
            for what in ("shape", "shape_matrix", "shape_batch", "rank", ".shape"):
                yield 1, Case("query", what=what, kinds=(a,), shapes=(s,))
    some = BATCHED + ["arr"]
    for what in ("shape_broadcast", "shape_batch_broadcast", "shape_matrix_broadcast"):
        for a in some:
            for b in some:
                for bb in BB:
                    yield 6, Case("query", what=what, kinds=(a, b), shapes=("kk", "kk"), batches=bb)
                for s in [("kk", "11"), ("1k", "kk"), ("k1", "kk"), ("k1", "1k"), ("kl", "kl")]:
                    yield 6, Case("query", what=what, kinds=(a, b), shapes=s)
            yield 1, Case("query", what=what, kinds=(a, "Dense", "arr"), shapes=("kk", "kk", "kk"), batches=("b", "", "cb"))
            yield 1, Case("query", what=what, kinds=(a,), shapes=("kk",), batches=("b",))
    for a in some:
        for b in RED:
            yield 4, Case("query", what="shape_matrix", kinds=(a, b), shapes=("kk", "kk"), batches=("b", ""))


def abstracts():
    for a in MAT + EXTRA:
        for b in ("", "b"):
            for s in ("kk", "kl"):
                for which in range(5):
                    yield 1, Case("abstract", kinds=(a,), shapes=(s,), batches=(b,), which=which)


def displays():
    for a in MAT + EXTRA + BATCHED + ["Densevec"]:
        for s in ("kk", "kl", "k1", "1k", "11"):
            for b in ("", "b", "cb", "1"):
                yield 1, Case("display", kinds=(a,), shapes=(s,), batches=(b,))
    for a in TILED + TILEDB + ["Tiledpos"]:
        for s in ("tt", "tm", "nu"):
            for b in ("", "b", "cb"):
                yield 1, Case("display", kinds=(a,), shapes=(s,), batches=(b,))


def representatives(gens, rest=9, thin=("matmul3", "iqf", "block", "kron"), without=()):
    """One case for every combination of an operation, classes, and arguments, with and
    without batches; few of the other cases."""

    def gen():
        best, all_ = {}, []
        for g in gens:
            for f, c in g():
                p = {k: v for k, v in c.p.items() if k not in ("shapes", "batches")}
                b = c.p.get("batches", ())
                k = (c.fam, tuple(sorted((k, str(v)) for k, v in p.items())), any(b))
                i = h(c)
                if c.fam in without:
                    continue
                all_.append((f, c, i))
                if supported(c) and (k not in best or i < best[k]):
                    best[k] = i
        keep = set(best.values())
        for f, c, i in all_:
            yield (4 if c.fam in thin else 1) if i in keep else f * rest, c

    return gen
