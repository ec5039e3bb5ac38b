"""Further rules: what an operation does besides giving the right result."""
import numpy as np

from . import core
from .core import Undecided, mk
from .interp import Obj, RState, T, undim
from .operands import Operands
from .sizes import Poly, topoly

# Attributes which hold results that were computed before.
CACHES = ("dense", "cholesky", "schur", "_middle_default")


def walk(xs):
    """All objects, tensors, lists, and dictionaries which can be reached."""
    seen, out, todo = set(), [], list(xs)
    while todo:
        x = undim(todo.pop())
        if isinstance(x, (tuple,)):
            todo.extend(x)
            continue
        if not isinstance(x, (Obj, T, list, dict)) or id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        if isinstance(x, Obj):
            todo.extend(x.attrs.values())
        elif isinstance(x, list):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.values())
    return out


class Snapshot:
    """Contents of everything which can be reached from the operands."""

    def __init__(self, xs):
        self.objs = walk(xs)
        self.old = []
        for x in self.objs:
            if isinstance(x, Obj):
                self.old.append(dict(x.attrs))
                x.owner = x.owner or "an operand"
            elif isinstance(x, T):
                self.old.append(x.node)
                x.owner = x.owner or "an operand"
            elif isinstance(x, list):
                self.old.append(list(x))
            else:
                self.old.append(dict(x))

    def changes(self, I, events):
        """Pairs of a description and two terms which must agree; `None` if the change
        cannot be undone."""
        out = []

        def where(x, name=None):
            for e in reversed(events):
                if e[0] == "setattr" and e[1] is x and e[2] == name:
                    return f" (at {fmt(e[4])})"
                if name is None and e[0] == "mutate" and isinstance(x, T):
                    return f" (at {fmt(e[3])})"
            return ""

        for x, old in zip(self.objs, self.old):
            if isinstance(x, T):
                if x.node is not old:
                    out.append((f"an array of an operand is changed in place{where(x)}", x.node, old))
            elif isinstance(x, (list, tuple)):
                if len(x) != len(old) or any(a is not b for a, b in zip(x, old)):
                    out.append(("a list which is an argument is changed", None, None))
            elif isinstance(x, dict):
                if list(x) != list(old) or any(x[k] is not old[k] for k in x):
                    out.append(("a dictionary which is an argument is changed", None, None))
            else:
                for k, v in old.items():
                    if v is None:
                        continue
                    if k not in x.attrs:
                        out.append((f"attribute '{k}' of an operand is deleted", None, None))
                        continue
                    w = x.attrs[k]
                    if w is v or same_value(w, v):
                        continue
                    text = f"attribute '{k}' of a {x.cls.name} operand is changed{where(x, k)}"
                    out.append((text, w, v))
        return out


def same_value(a, b):
    a, b = undim(a), undim(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (Obj, T)) or isinstance(b, (Obj, T)):
        return a is b
    try:
        return bool(a == b)
    except Exception:
        return False


def fmt(w):
    return f"{w[0]}:{w[1]} in {w[2]}" if isinstance(w, tuple) else str(w)


def caches(E, xs):
    """Defining equations of all results which are stored: `(text, got, want)`."""
    L, out = E.L, []
    for x in walk(xs):
        if not isinstance(x, Obj):
            continue
        a = x.attrs
        name = x.cls.name
        if isinstance(a.get("dense"), (T, Obj)):
            out.append((f"the stored dense version of a {name}", E.den(a["dense"]), E.den(x)))
        if isinstance(a.get("cholesky"), (T, Obj)):
            l = T(E.den(a["cholesky"]))
            out.append(
                (f"the stored Cholesky decomposition of a {name}", L.f_matmul(l, l, False, True).node, E.den(x))
            )
        if isinstance(a.get("schur"), (T, Obj)) and name == "Woodbury":
            out.append((f"the stored Schur complement of a {name}", E.den(a["schur"]), schur_of(E, x)))
        if isinstance(a.get("_middle_default"), (T, Obj)) and name == "LowRank":
            n = E.den(a["_middle_default"])
            k = E.den(a["left"]).shape[-1]
            w = L.f_eye(n.dtype, k, k).node
            if len(n.shape) > 2:
                w = L.bcast(w, n.shape)
            out.append((f"the stored middle factor of a {name}", n, w))
    return out


def schur_of(E, a):
    """Schur complement of a Woodbury matrix from its definition."""
    L = E.L
    lr = a.attrs["lr"]
    d = E.den(a.attrs["diag"])
    left = E.den(lr.attrs["left"])
    right = lr.attrs.get("_right")
    right = left if right is None else E.den(right)
    mid = lr.attrs.get("_middle")
    k = left.shape[-1]
    minv = L.f_eye(left.dtype, k, k) if mid is None else L.f_inv(T(E.den(mid)))
    x = L.f_matmul(L.f_matmul(T(right), L.f_inv(T(d)), True, False), T(left), False, False)
    return L._bin("add", minv, x).node


def warm(E, O):
    """Compute everything which operands store."""
    for x, kind, pd in O.built:
        for y in [x] + [z for z in walk([x]) if isinstance(z, Obj) and z is not x]:
            if not isinstance(y, Obj):
                continue
            E.call("dense", y)
            if y.cls.name == "LowRank":
                E.I.getattr(y, "middle")
            if y.cls.name == "Woodbury":
                E.call("pd_schur" if pd else "schur", y)
        if pd and isinstance(x, Obj) and x.cls.name not in ("LowerTriangular", "UpperTriangular"):
            E.call("cholesky", x)


# Sampling


def noises(n):
    """All leaves of a term which are random draws."""
    seen, out, todo = set(), [], [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "leaf" and "@" in str(x.par[0]):
            out.append(x)
        todo.extend(x.args)
    return sorted(out, key=lambda x: x.id)


def responses(m, n, leaves):
    """Responses of a term to one unit of every entry of the noise, and to none."""
    out = []

    def run(which, v=1.0):
        for x in leaves:
            z = np.zeros(m.shape(x))
            if which is not None and x is which[0]:
                z[which[1]] = v
            m.vals[x.id] = z
        m.memo.clear()
        return np.array(m.value(n), float)

    base = run(None)
    for x in leaves:
        for i in np.ndindex(*m.shape(x)):
            out.append(run((x, i)))
    # Is the response linear?
    rng = np.random.RandomState(m.seed)
    zs = {x.id: rng.randn(*m.shape(x)) for x in leaves}
    m.vals.update(zs)
    m.memo.clear()
    y = np.array(m.value(n), float)
    w = np.concatenate([zs[x.id].reshape(-1) for x in leaves]) if leaves else np.zeros(0)
    lin = base + sum((c * (r - base) for c, r in zip(w, out)), np.zeros_like(base))
    return base, out, np.allclose(lin, y, rtol=1e-6, atol=1e-8)


def sampling_laws(I, E, o, n, num, first, before, stateful):
    """Obligations on the result of sampling with covariance `n`."""
    state, r = o.value
    x = E.den.mat(r)
    leaves = noises(x)
    events = o.op_events
    used = [(e[1], e[2]) for e in events if e[0] == "random"]
    shape = n.shape[:-2] + (n.shape[-2], num)
    out = []

    def law(f):
        out.append(("sample", f))

    @law
    def _shape():
        if x.shape != shape:
            return f"samples have shape {x.shape} instead of {shape}"

    @law
    def _dtype():
        if x.dtype.strong() != n.dtype.strong():
            return f"samples have data type {x.dtype} instead of {n.dtype}"

    @law
    def _normal():
        for y in leaves:
            if not str(y.par[0]).startswith("randn@"):
                return f"the noise is not normal, but from '{str(y.par[0]).split('@')[0]}'"

    @law
    def _states():
        seen = set()
        for t, w in used:
            if t in seen:
                return f"a random state is used twice (at {fmt(w)})"
            seen.add(t)
        root = first.token if stateful else before.token
        for t, w in used:
            if not t.startswith(root):
                return f"another random state than the given one is used (at {fmt(w)})"
        if not isinstance(state, RState):
            return "no random state is returned"
        if state.token in seen:
            return "the random state after sampling was already used"
        if not state.token.startswith(root):
            return "the random state after sampling does not follow from the given one"
        if not stateful:
            return None
        if I.global_state.token != before.token or any(e[0] == "set_global_random_state" for e in events):
            return "the global random state is changed although a random state is given"

    @law
    def _moments():
        if x.shape != shape:
            return None
        for m in I.models(1):
            f = feasible_in(m, o)
            if f is None:
                raise Undecided("feasibility of a path is unknown")
            if not f:
                raise Undecided("no model of the path was found")
            cov = np.array(m.value(n), float)
            base, rs, linear = responses(m, x, leaves)
            sizes = ", ".join(f"{a}={b}" for a, b in sorted(m.sizes.items()))
            if not np.all(np.isfinite(base)):
                raise Undecided("samples are not finite")
            if not linear:
                return f"samples are not linear in the noise, for example for sizes {sizes}"
            if np.abs(base).max(initial=0) > 1e-8:
                return f"the mean of the samples is not zero, for example for sizes {sizes}"
            k = base.shape[-1]
            got = np.zeros(base.shape[:-2] + (base.shape[-2], k, base.shape[-2], k))
            for y in rs:
                got += y[..., :, :, None, None] * y[..., None, None, :, :]
            want = cov[..., :, None, :, None] * np.eye(k)[:, None, :]
            if not np.allclose(got, want, rtol=1e-5, atol=1e-7 * max(np.abs(cov).max(initial=0), 1)):
                i = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
                return (
                    f"the covariance of the samples is wrong, for example for sizes {sizes}: of "
                    f"entries {tuple(map(int, i[-4:-2]))} and {tuple(map(int, i[-2:]))} it is "
                    f"{got[i]:.6g} instead of {want[i]:.6g}"
                )

    return out


def feasible_in(m, o):
    from .runner import feasible

    return feasible(m, o.decisions)


def monomials(shape, same=False):
    """The monomials of the number of entries of an array, without batch dimensions."""
    n = Poly.const(1)
    for d in shape:
        n = n * topoly(undim(d))
    return {tuple(SAME.get(a, a) if same else a for a in k if a not in BATCH) for k in n.t}


BATCH = ("b", "c")
# The factors of a Kronecker product have numbers of rows and columns of the same order.
SAME = {"m1": "n1", "m2": "n2"}


def stored(E, xs, same):
    """Numbers of entries of what the matrices store, and of their rows and columns."""
    out = set()
    for x in walk(xs):
        if isinstance(x, T):
            out |= monomials(x.shape, same)
        if isinstance(x, Obj):
            for d in E.den(x).shape[-2:]:
                out |= monomials((d,), same)
    return out


def kron(o):
    return any(k.startswith("Kron") for k in o.kinds)


def divides(p, q):
    q = list(q)
    for a in p:
        if a not in q:
            return False
        q.remove(a)
    return True


def large(case, o):
    """Arrays which are larger than everything that the operands and the result store."""
    if any(e[0] == "warn" for e in o.op_events):
        return None
    # The dense version is needed for the diagonal of a non-square Kronecker product.
    if case.fam in ("diag", "trace") and any(
        x.startswith("Kron") and s[0] != s[1] for x, s in zip(o.kinds, case.p["shapes"])
    ):
        return None
    same = kron(o)
    for e in o.op_events:
        if e[0] == "array":
            for m in monomials(e[2], same):
                if not any(divides(m, q) for q in o.stored):
                    return f"{e[1]} forms an array of shape {fmt(e[2])} (at {e[3]})"


def fmt(s):
    return "(" + ", ".join(repr(undim(x)) for x in s) + ")"
