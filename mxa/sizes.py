"""Sizes: polynomials over size atoms, and structural dimensions.

An *axis* is either ``('a', name)``, an atomic axis whose size is the atom
`name` (always at least two), or ``('s', comps)``, the concatenation of the
dimensions `comps`.  A *dimension* is a tuple of axes (row-major product); the
empty tuple is a dimension of size one.
"""
from fractions import Fraction as Fr


def num(v):
    """Normalise a coefficient: integers are faster than fractions."""
    if type(v) is int:
        return v
    v = Fr(v)
    return v.numerator if v.denominator == 1 else v


class Poly:
    """Polynomial with rational coefficients over size atoms."""

    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    @staticmethod
    def const(c):
        return Poly({(): num(c)})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        o = topoly(o)
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Poly(t)

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __mul__(self, o):
        o = topoly(o)
        t = {}
        for k1, v1 in self.t.items():
            for k2, v2 in o.t.items():
                k = tuple(sorted(k1 + k2))
                t[k] = t.get(k, 0) + v1 * v2
        return Poly(t)

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return topoly(o) - self

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def is_const(self):
        return all(k == () for k in self.t)

    def value(self):
        return self.t.get((), 0)

    def key(self):
        return tuple(sorted((k, (v.numerator, v.denominator)) for k, v in self.t.items()))

    def atoms(self):
        return {a for k in self.t for a in k}

    def subs(self, sizes):
        out = 0
        for k, v in self.t.items():
            for a in k:
                v = v * sizes[a]
            out += v
        return out

    def divide(self, o):
        """Exact division by a monomial-content polynomial, or None."""
        o = topoly(o)
        if not o.t:
            return None
        if len(o.t) == 1:
            (ko, vo), = o.t.items()
            out = {}
            for k, v in self.t.items():
                k = list(k)
                for a in ko:
                    if a not in k:
                        return None
                    k.remove(a)
                out[tuple(k)] = num(Fr(v) / vo)
            return Poly(out)
        # Long division with respect to a fixed monomial order.
        rem, out = self, Poly()
        lead = max(o.t)
        for _ in range(64):
            if not rem.t:
                return out
            cand = None
            for k in sorted(rem.t, reverse=True):
                kk = list(k)
                ok = True
                for a in lead:
                    if a in kk:
                        kk.remove(a)
                    else:
                        ok = False
                        break
                if ok:
                    cand = (k, tuple(kk))
                    break
            if cand is None:
                return None
            q = Poly({cand[1]: num(Fr(rem.t[cand[0]]) / o.t[lead])})
            out = out + q
            rem = rem - q * o
        return None

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for k, v in sorted(self.t.items()):
            s = "*".join(k)
            if v == 1 and s:
                out.append(s)
            else:
                out.append(f"{v}" + ("*" + s if s else ""))
        return "+".join(out)


def topoly(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def ax_size(ax):
    if ax[0] == "a":
        return Poly.atom(ax[1])
    out = Poly()
    for c in ax[1]:
        out = out + dim_size(c)
    return out


def dim_size(dim):
    out = Poly.const(1)
    for ax in dim:
        out = out * ax_size(ax)
    return out


def atom(name):
    return (("a", name),)


def lit_dim(k):
    """Structural dimension of a literal size."""
    k = int(k)
    if k == 1:
        return ()
    if k == 0:
        return None
    return (("s", ((),) * k),)


def sum_dim(dims):
    """Structural dimension of a concatenation."""
    comps = []
    for d in dims:
        if len(d) == 1 and d[0][0] == "s":
            comps.extend(d[0][1])
        else:
            comps.append(d)
    if len(comps) == 1:
        return comps[0]
    return (("s", tuple(comps)),)


def poly_dim(p):
    """Structural dimension of a size polynomial: the canonical guess if there is no
    structure attached."""
    if p.is_const():
        v = p.value()
        if v.denominator != 1 or v <= 0:
            return None
        return lit_dim(v)
    dims = []
    for k, v in sorted(p.t.items()):
        if v.denominator != 1 or v <= 0 or v > 8:
            return None
        d = tuple(("a", a) for a in k)
        dims.extend([d] * int(v))
    return sum_dim(dims)


class Order:
    """Facts about the order of size atoms."""

    def __init__(self, less=(), sizes=None):
        # Pairs (a, b) of atoms such that a < b.
        self.less = set(less)
        changed = True
        while changed:
            changed = False
            for a, b in list(self.less):
                for c, d in list(self.less):
                    if b == c and (a, d) not in self.less:
                        self.less.add((a, d))
                        changed = True

    def sign(self, p):
        """Sign of a polynomial: -1, 0, 1, or None if not known. Distinct atoms are
        generic: a polynomial which is not identically zero is not zero."""
        if not p.t:
            return 0
        if self._nonneg(p):
            return 1
        if self._nonneg(-p):
            return -1
        return None

    def _nonneg(self, p):
        # Rewrite the greater atoms in terms of the smaller ones, then shift every
        # atom by two and check the coefficients.
        t = p
        greater = {}
        for a, b in self.less:
            greater.setdefault(b, set()).add(a)
        # Process: b = a + 1 + b' with b' >= 0, where a is a maximal smaller atom.
        def expand(q, atom, rep):
            out = Poly()
            for k, v in q.t.items():
                m = Poly({tuple(x for x in k if x != atom): v})
                for _ in range(k.count(atom)):
                    m = m * rep
                out = out + m
            return out

        names = sorted(greater, key=lambda b: -len(greater[b]))
        for b in names:
            smaller = greater[b]
            # Choose a maximal element among the smaller atoms.
            best = max(smaller, key=lambda a: len(greater.get(a, ())))
            t = expand(t, b, Poly.atom(best) + 1 + Poly.atom(b + "'"))
        for a in sorted(t.atoms()):
            if not a.endswith("'"):
                t = expand(t, a, Poly.atom(a + "''") + 2)
        return all(v >= 0 for v in t.t.values()) and bool(t.t)
