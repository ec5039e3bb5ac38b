"""Engine: runs abstract cases on all paths and collects observations."""
import traceback

from . import plummodel as pm
from .core import DT, Undecided, const, leaf, mk, reset_terms, si
from .den import Den, agree, fmt_shape
from .interp import Explorer, Interp, Obj, PyRaise, T, undim
from .operands import Operands, Skip
from .sizes import Poly


class Outcome:
    """Outcome of one path of a case."""

    def __init__(self):
        self.status = None  # value, raise, undecided
        self.value = None
        self.exc = None
        self.where = None
        self.method = None
        self.nodes = {}
        self.events = []
        self.decisions = []
        self.why = None

    def cls(self):
        v = undim(self.value)
        if isinstance(v, Obj):
            return v.cls.name
        return "tensor"


class Engine:
    def __init__(self, root="/repo", seed=1):
        self.I = Interp(root)
        self.I.seed = seed
        self.I.stats = {}
        self.I.n_models = 2
        self.I.load_package("matrix")
        self.I.fast_str = True
        self.L = self.I.lab
        self.B = self.L.module
        self.den = Den(self.I)

    def fn(self, name):
        """Function of the numerical library after the package extended it."""
        f = self.L.fns.get(name)
        if f is None:
            f = self.I.getattr(self.B, name)
        return f

    def call(self, name, *args, **kw):
        return self.I.call(self.fn(name), list(args), kw)

    def method_where(self, name, args):
        """Source location of the method which the top-level call resolves to."""
        try:
            f = self.fn(name)
            if getattr(f, "where", None):
                return f.where
            m = self.I.resolve_call(f, [self.I.force(a) for a in args])
            return m.where
        except Exception:
            return f"matrix: {name}"

    def ops(self, dtype=DT("D")):
        return Operands(self.I, dtype)

    def explore(self, f, max_paths=64):
        """Run `f(outcome)` on all paths; `f` fills in the outcome."""
        I = self.I
        ex = self.explorer = Explorer(max_paths)

        def g():
            o = Outcome()
            try:
                f(o)
                if o.status is None:
                    o.status = "value"
            except PyRaise as e:
                o.status, o.exc, o.where = "raise", e, e.where
            except Skip:
                o.status = "skip"
            except Undecided as e:
                o.status, o.why = "undecided", str(e)
                o.where = I.where()
            except RecursionError:
                o.status, o.why = "undecided", "recursion"
            o.events = list(I.events)
            return o

        try:
            for made, o in ex.run(I, g):
                o.decisions = made
                yield o
        except Undecided as e:
            o = Outcome()
            o.status, o.why = "undecided", str(e)
            yield o
