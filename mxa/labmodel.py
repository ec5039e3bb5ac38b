"""Model of the libraries which the repository uses: LAB, plum, and small utilities.

Every library function is modelled by its signatures (for dispatch), by its effect on
symbolic shapes and data types, and by the term which it constructs.
"""
from fractions import Fraction

from . import plummodel as pm
from .core import (
    DT,
    Node,
    Undecided,
    close,
    const,
    dt_of_pytype,
    float_dt,
    mk,
    prod,
    promote_dt,
    si,
)
from .interp import (
    Bound,
    ClassVal,
    FuncVal,
    Invoked,
    LazyGen,
    ModuleVal,
    NotFoundLookup,
    Obj,
    Opaque,
    Prim,
    PyRaise,
    RState,
    T,
    TypeVal,
    UBool,
    VDim,
    VShape,
    VStr,
    undim,
)
from .sizes import Poly

INT = frozenset(["int", "bool", "dimension"])
NUMBER = INT | {"float", "complex"}
NPNUM = NUMBER | {"array"}
NUMERIC = NPNUM | {"otherarray"}
DTYPE = frozenset(["dtype", "type", "otherdtype"])
NPDTYPE = frozenset(["dtype", "type"])
RS = frozenset(["randomstate", "otherrandomstate"])
NPRS = frozenset(["randomstate"])
TYPES = {
    "N": NUMERIC,
    "NP": NPNUM,
    "I": INT,
    "In": (INT - {"bool"}) | {"none"},
    "b": frozenset(["bool"]),
    "A": pm.ANY,
    "D": DTYPE,
    "ND": NPDTYPE,
    "RS": RS,
    "NRS": NPRS,
    "l": frozenset(["list"]),
    "t": frozenset(["tuple"]),
    "d": frozenset(["dict"]),
    "tl": frozenset(["tuple", "list"]),
    "tln": frozenset(["tuple", "list", "none"]),
    "S": frozenset(["shape"]),
}
pm.NAMED.update(
    Int=INT, Number=NUMBER, Numeric=NUMERIC, DType=DTYPE, RandomState=RS, Any=pm.ANY
)

ALIASES = {
    "mm": "matmul",
    "dot": "matmul",
    "t": "transpose",
    "T": "transpose",
    "chol": "cholesky",
    "cholsolve": "cholesky_solve",
    "trisolve": "triangular_solve",
    "size": "length",
}


def toDT(x):
    if isinstance(x, DT):
        return x
    if x in (bool, int, float):
        return dt_of_pytype(x)
    raise Undecided("data type")


class CallType(TypeVal):
    def __init__(self, toks, name, f):
        TypeVal.__init__(self, toks, name)
        self.f = f

    def lib_call(self, *a, **k):
        return self.f(*a, **k)


class LabModule(ModuleVal):
    def __init__(self, lab):
        ModuleVal.__init__(self, "lab")
        self.lab = lab

    def lookup(self, name):
        name = ALIASES.get(name, name)
        if name in self.lab.builtin_names:
            return self.lab.fns[name]
        if name in self.lab.consts:
            return self.lab.consts[name]
        if name in self.lab.unmodelled:
            return Opaque("lab." + name)
        self.lab.I.pyraise(AttributeError, f"module 'lab' has no attribute {name!r}")


class LibModule(ModuleVal):
    def lookup(self, name):
        return Opaque(self.name + "." + name)


class DispatcherVal:
    """A dispatcher."""

    def __init__(self, I, fns, fixed=None):
        self.I, self.fns, self.fixed = I, fns, fixed

    def get(self, f):
        key = f.name if self.fixed is not None else (f.cls, f.name)
        if key not in self.fns:
            self.fns[key] = pm.PFunction(f.name)
        return self.fns[key]

    def lib_call(self, f=None, precedence=0):
        if f is None:
            return Prim("dispatch", lambda f: self.lib_call(f, precedence))
        return self.I.register(self.get(f), f, precedence)

    def multi(self, *types):
        def deco(f):
            return self.I.register(
                self.get(f), f, 0, [t if isinstance(t, tuple) else (t,) for t in types]
            )

        return Prim("dispatch.multi", deco)

    def lib_getattr(self, name):
        if name == "multi":
            return Prim("dispatch.multi", self.multi)
        if name == "abstract":
            return Prim("dispatch.abstract", lambda f: self.get(f))
        raise Undecided(f"dispatcher.{name}")


class ControlFlow:
    def __init__(self, I):
        self.I = I

    def lib_getattr(self, name):
        I = self.I
        if name == "use_cache":
            return I.use_cache
        if name == "caching":
            return I.caching
        if name == "get_outcome":

            def get(name):
                if not I.use_cache:
                    I.pyraise(RuntimeError, "no cache is used")
                I.outcome_pos += 1
                I.event("get_outcome", name, I.outcome_pos, I.where())
                try:
                    r = I.replay[name, I.outcome_pos]
                    # Cached outcomes are concrete.
                    return T(r.node, r.num, owner="outcome") if isinstance(r, T) else r
                except KeyError:
                    I.pyraise(KeyError, f"outcome {name}")

            return Prim("get_outcome", get)
        if name == "set_outcome":

            def set_(name, outcome, type=None):
                if I.caching:
                    I.outcome_pos += 1
                    if type is not None:
                        outcome = I.call(type, [outcome], {})
                    I.event("set_outcome", name, I.outcome_pos, I.where())
                    I.outcomes.append(((name, I.outcome_pos), outcome))

            return Prim("set_outcome", set_)
        raise Undecided(f"control_flow.{name}")


class NoOp:
    """An object whose methods do nothing, such as a logger."""

    def lib_getattr(self, name):
        return Prim(name, lambda *a, **k: None)

    def lib_setattr(self, name, v):
        pass

    def lib_call(self, *a, **k):
        return None


class LibType:
    """`Union`, `Tuple`, …"""

    def __init__(self, lab, name):
        self.lab, self.name = lab, name

    def lib_getitem(self, i):
        return self.lab.type_getitem(self, i)


class Lab:
    numeric_toks = NUMERIC

    def __init__(self, I):
        self.I = I
        self.fns = {}
        self.called = set()
        self.unmodelled = set(UNMODELLED)
        self.proven_level = 0
        self.abstract_leaves = set()
        self._types()
        self._register()
        self.builtin_names = set(self.fns)
        self.module = LabModule(self)
        self.random_used = False

    # Types

    def _types(self):
        I = self.I

        def mk_tuple(x=()):
            return tuple(I.iterate(x))

        def mk_list(x=()):
            return list(I.iterate(x))

        def mk_int(x=0):
            x = undim(x)
            if isinstance(x, (Poly, int)):
                return int(x) if isinstance(x, int) else x
            if isinstance(x, float):
                return int(x)
            if isinstance(x, T) and x.node.op == "const":
                return int(x.node.par)
            raise Undecided("int()")

        def mk_float(x=0.0):
            x = undim(x)
            if isinstance(x, (int, float)):
                return float(x)
            if isinstance(x, T) and x.shape == ():
                return T(mk("cast", None, (x.node,), (), DT("pyfloat")), num=True)
            if isinstance(x, Poly):
                return T(mk("cast", None, (self.node(x),), (), DT("pyfloat")), num=True)
            raise Undecided("float()")

        def mk_dict(*a, **k):
            out = {}
            for x in a:
                if isinstance(x, dict):
                    out.update(x)
                else:
                    for kv in I.iterate(x):
                        kk, v = I.iterate(kv)
                        out[kk] = v
            out.update(k)
            return out

        def mk_str(x=""):
            return I.to_str(x)

        self.native_types = {
            tuple: mk_tuple,
            list: mk_list,
            int: mk_int,
            float: mk_float,
            bool: lambda x=False: I.truth(x),
            str: mk_str,
            dict: mk_dict,
            set: lambda x=(): set(undim(y) for y in I.iterate(x)),
            slice: lambda *a: slice(*[undim(x) for x in a]),
            object: lambda: Opaque("object"),
        }
        B = lambda t, n: TypeVal(t, n)
        self.control_flow = ControlFlow(I)
        self.dispatch = DispatcherVal(I, self.fns, fixed=True)
        self.consts = {
            "Int": B(INT, "Int"),
            "Number": B(NUMBER, "Number"),
            "Numeric": B(NUMERIC, "Numeric"),
            "NPNumeric": B(frozenset(["array"]), "NPNumeric"),
            "NPOrNum": B(NPNUM, "NPOrNum"),
            "NP": B(frozenset(["array"]), "NP"),
            "Bool": B(frozenset(["bool"]), "Bool"),
            "Float": B(frozenset(["float"]), "Float"),
            "Complex": B(frozenset(["complex"]), "Complex"),
            "DType": B(DTYPE, "DType"),
            "NPDType": B(NPDTYPE, "NPDType"),
            "RandomState": B(RS, "RandomState"),
            "NPRandomState": B(NPRS, "NPRandomState"),
            "epsilon": 1e-12,
            "default_dtype": DT("float64"),
            "control_flow": self.control_flow,
            "dispatch": self.dispatch,
            "nan": float("nan"),
            "pi": 3.141592653589793,
        }

    def native_toks(self, t):
        m = {
            int: ["int", "bool"],
            float: ["float"],
            bool: ["bool"],
            str: ["str"],
            tuple: ["tuple"],
            list: ["list"],
            dict: ["dict"],
            set: ["set"],
            slice: ["slice"],
            object: ["object"],
            complex: ["complex"],
            type: ["type"],
            type(None): ["none"],
        }
        if t in m:
            return frozenset(m[t])
        raise Undecided(f"type {t!r}")

    def type_getitem(self, o, i):
        I = self.I
        items = i if isinstance(i, tuple) else (i,)
        name = o.name if isinstance(o, LibType) else o.__name__
        if name == "Union":
            out = frozenset()
            for t in items:
                out |= I.totype(t)
            return TypeVal(out)
        if name == "Optional":
            return TypeVal(I.totype(items[0]) | {"none"})
        if name in ("Tuple", "tuple"):
            if len(items) == 2 and items[1] is Ellipsis:
                return TypeVal(["tuple"])
            return TypeVal([("tuple", tuple(I.totype(t) for t in items))])
        if name in ("List", "list"):
            return TypeVal([("list", I.totype(items[0]))])
        if name in ("Dict", "dict"):
            return TypeVal(["dict"])
        if name in ("Callable",):
            return TypeVal(["function"])
        if name in ("Type",):
            return TypeVal(["type"])
        if name in ("Sequence", "Iterable"):
            return TypeVal(["tuple", "list"])
        raise Undecided(f"type {name}[…]")

    # Libraries

    def library(self, name):
        I = self.I
        if name == "lab":
            return self.module
        m = LibModule(name)
        ns = m.ns
        P = Prim
        if name == "lab.shape":
            ns["Shape"] = CallType(["shape"], "Shape", VShape)
            ns["Dimension"] = CallType(["dimension"], "Dimension", lambda d: VDim(undim(d)))
            ns["unwrap_dimension"] = P("unwrap_dimension", undim)
        elif name == "lab.util":
            ns["resolve_axis"] = P("resolve_axis", self.resolve_axis)
            ns["as_tuple"] = P("as_tuple", lambda x: x if isinstance(x, tuple) else (x,))
        elif name in ("lab.types",):
            ns.update({k: v for k, v in self.consts.items() if isinstance(v, TypeVal)})
        elif name == "plum":
            ns["Dispatcher"] = P("Dispatcher", lambda *a, **k: DispatcherVal(I, {}))
            ns["convert"] = P("convert", lambda v, t: I.convert(v, I.totype(t)))
            ns["promote"] = P("promote", lambda *a: I.promote(a))
            ns["isinstance"] = I.builtins["isinstance"]
            ns["issubclass"] = I.builtins["issubclass"]
            ns["Function"] = CallType(["function"], "Function", lambda *a: Opaque("f"))

            def add_promotion_rule(a, b, c):
                I.promotion_rules.append((I.totype(a), I.totype(b), I.totype(c)))

            def conversion_method(type_from, type_to):
                def deco(f):
                    I.conversions.append((f, I.totype(type_from), I.totype(type_to)))
                    return f

                return P("conversion_method", deco)

            ns["add_promotion_rule"] = P("add_promotion_rule", add_promotion_rule)
            ns["conversion_method"] = P("conversion_method", conversion_method)
            ns["add_conversion_method"] = P(
                "add_conversion_method",
                lambda a, b, f: I.conversions.append((f, I.totype(a), I.totype(b))),
            )
        elif name in ("wbml.warning", "warnings"):

            def warn(msg="", category=None, *a, **k):
                I.event(
                    "warn",
                    category.name
                    if isinstance(category, ClassVal)
                    else getattr(category, "__name__", "UserWarning"),
                    msg,
                    I.where(),
                )

            ns["warn_upmodule"] = P("warn_upmodule", warn)
            ns["warn"] = P("warn", warn)
        elif name == "wbml":
            ns["out"] = I.import_module("wbml.out")
            ns["warning"] = I.import_module("wbml.warning")
        elif name == "wbml.out":
            ns["format"] = P("format", lambda x, *a, **k: VStr("‹…›"))
        elif name == "typing":
            for n in (
                "Union Tuple List Optional Callable Dict Type Sequence Iterable"
            ).split():
                ns[n] = LibType(self, n)
            ns["Any"] = TypeVal(pm.ANY, "Any")
            ns["TYPE_CHECKING"] = False
            ns["cast"] = P("cast", lambda t, v: v)
        elif name == "abc":
            ns["ABCMeta"] = type
            ns["ABC"] = object
            ns["abstractmethod"] = P("abstractmethod", lambda f: f)
        elif name == "functools":

            def reduce(f, xs, *init):
                xs = list(I.iterate(xs))
                if init:
                    acc = init[0]
                elif xs:
                    acc = xs.pop(0)
                else:
                    I.pyraise(TypeError, "reduce() of empty iterable")
                for x in xs:
                    acc = I.call(f, [acc, x], {})
                return acc

            ns["reduce"] = P("reduce", reduce)

            def memoise(f):
                def call(*a, **k):
                    try:
                        key = (tuple(undim(x) for x in a), tuple(sorted(k.items())))
                        hash(key)
                    except TypeError:
                        I.pyraise(TypeError, "unhashable argument")
                    if key not in table:
                        table[key] = I.call(f, list(a), k)
                    return table[key]

                table = {}
                g = P("memoised function", call)
                g.memo_table = table
                return g

            ns["cache"] = P("cache", memoise)
            ns["lru_cache"] = P(
                "lru_cache",
                lambda f=None, *a, **k: memoise(f)
                if isinstance(f, (FuncVal, Prim))
                else P("lru_cache", memoise),
            )
            ns["wraps"] = P("wraps", lambda f: P("wraps", lambda g: g))
            ns["partial"] = P(
                "partial",
                lambda f, *a, **k: P(
                    "partial", lambda *b, **kk: I.call(f, list(a) + list(b), {**k, **kk})
                ),
            )
        elif name == "operator":
            for n, op in dict(
                mul="mul",
                add="add",
                sub="sub",
                truediv="div",
                matmul="matmul",
                floordiv="floordiv",
                or_="or",
                and_="and",
                pow="pow",
                mod="mod",
            ).items():
                ns[n] = P(n, lambda a, b, op=op: I.binop(op, a, b))
            for n in ("eq", "ne", "lt", "le", "gt", "ge"):
                ns[n] = P(n, lambda a, b, n=n: I.cmp(n, a, b))
            ns["not_"] = P("not_", lambda a: not I.truth(a))
            ns["getitem"] = P("getitem", lambda a, i: I.getitem(a, i))
            ns["itemgetter"] = P(
                "itemgetter", lambda i: P("itemgetter", lambda a: I.getitem(a, i))
            )
            ns["attrgetter"] = P(
                "attrgetter", lambda n: P("attrgetter", lambda a: I.getattr(a, n))
            )
        elif name == "logging":
            ns["getLogger"] = P("getLogger", lambda *a: NoOp())
        elif name == "algebra":
            ns["proven"] = P("proven", self._proven)
        elif name == "itertools":

            def product(*xs, repeat=1):
                import itertools

                return list(
                    itertools.product(*[list(I.iterate(x)) for x in xs], repeat=repeat)
                )

            def chain(*xs):
                return [y for x in xs for y in I.iterate(x)]

            def zip_longest(*xs, fillvalue=None):
                import itertools

                return list(
                    itertools.zip_longest(
                        *[list(I.iterate(x)) for x in xs], fillvalue=fillvalue
                    )
                )

            def accumulate(xs, f=None):
                out = []
                for x in I.iterate(xs):
                    if not out:
                        out.append(x)
                    elif f is None:
                        out.append(I.binop("add", out[-1], x))
                    else:
                        out.append(I.call(f, [out[-1], x], {}))
                return out

            ns["product"] = P("product", product)
            ns["chain"] = P("chain", chain)
            ns["zip_longest"] = P("zip_longest", zip_longest)
            ns["accumulate"] = P("accumulate", accumulate)
            ns["repeat"] = P("repeat", lambda x, n: [x] * n)
        elif name == "math":
            import math

            def prod_(xs, start=1):
                out = start
                for x in I.iterate(xs):
                    out = I.binop("mul", out, x)
                return out

            ns["prod"] = P("prod", prod_)
            ns["pi"] = math.pi
            ns["inf"] = math.inf
            ns["sqrt"] = P("sqrt", lambda x: self._pynum(self.unary("sqrt", x)))
            ns["log"] = P("log", lambda x: self._pynum(self.unary("log", x)))
        elif name == "numpy":
            self._numpy(ns)
        return m

    def _pynum(self, t):
        return T(mk("cast", None, (t.node,), (), DT("pyfloat")), num=True)

    def _proven(self):
        self.proven_level += 1
        return self.proven_level

    def _numpy(self, ns):
        I, P = self.I, Prim

        def array(x, dtype=None, **k):
            x = undim(x)
            if isinstance(x, T):
                out = T(x.node)
            elif isinstance(x, (int, float, Poly)):
                n = self.node(x)
                out = T(mk("cast", None, (n,), (), n.dtype.strong()))
            elif isinstance(x, (tuple, list, range)):
                out = self.constarr([undim(y) for y in x])
            else:
                raise Undecided("np.array")
            if dtype is not None:
                out = self.f_cast(dtype, out)
            return out

        for n in ("array", "asarray", "ascontiguousarray"):
            ns[n] = P(n, array)

        def arange(*a):
            a = [undim(x) for x in a]
            if all(isinstance(x, int) for x in a):
                return self.constarr(list(range(*a)))
            raise Undecided("np.arange")

        ns["arange"] = P("arange", arange)
        ns["newaxis"] = None
        ns["ndarray"] = TypeVal(["array"], "ndarray")
        ns["float64"] = DT("float64")
        ns["float32"] = DT("float32")
        ns["float16"] = DT("float16")
        ns["int64"] = DT("int64")
        ns["bool_"] = DT("bool")
        ns["integer"] = DT("abs:integer")
        ns["floating"] = DT("abs:floating")
        ns["inf"] = float("inf")
        ns["nan"] = float("nan")
        ns["pi"] = 3.141592653589793
        ns["issubdtype"] = P("issubdtype", self.f_issubdtype)
        ns["promote_types"] = P(
            "promote_types", lambda a, b: promote_dt(toDT(a).strong(), toDT(b).strong())
        )
        ns["ndim"] = P("ndim", lambda x: len(self.shape(x)))
        ns["shape"] = P("shape", lambda x: self.shape(x))

        def prod_(xs):
            out = 1
            for x in I.iterate(xs):
                out = I.binop("mul", out, x)
            return out

        ns["prod"] = P("prod", prod_)
        for n, m in dict(
            sum="sum",
            mean="mean",
            abs="abs",
            sqrt="sqrt",
            log="log",
            exp="exp",
            multiply="multiply",
            add="add",
            subtract="subtract",
            divide="divide",
            minimum="minimum",
            maximum="maximum",
            power="power",
            diag="diag",
            isnan="isnan",
            negative="negative",
            squeeze="squeeze",
            matmul="matmul",
            argsort="argsort",
        ).items():
            ns[n] = P(
                n,
                lambda *a, m=m, **k: I.call(
                    self.fns[m], [array(x) if isinstance(x, (list, tuple)) else x for x in a], k
                ),
            )
        for n in ("concatenate", "stack"):
            ns[n] = P(
                n,
                lambda xs, axis=0, n=n: I.call(
                    self.fns["concat" if n == "concatenate" else n],
                    list(I.iterate(xs)),
                    {"axis": axis},
                ),
            )
        ns["all"] = P("all", lambda x: I.call(self.fns["all"], [x], {}))
        ns["any"] = P("any", lambda x: I.call(self.fns["any"], [x], {}))
        ns["expand_dims"] = P("expand_dims", lambda x, axis: self.f_expand_dims(x, axis))
        ns["transpose"] = P(
            "transpose",
            lambda x, axes=None: self.transpose(
                x, tuple(axes) if axes else tuple(reversed(range(len(x.shape))))
            ),
        )
        ns["reshape"] = P(
            "reshape",
            lambda x, s: self.f_reshape(x, *(s if isinstance(s, (tuple, list)) else (s,))),
        )

    def constarr(self, xs):
        if all(isinstance(x, bool) for x in xs) and xs:
            return T(mk("constarr", tuple(xs), (), (len(xs),), DT("bool")))
        if all(isinstance(x, int) for x in xs):
            return T(
                mk(
                    "constarr",
                    tuple(int(x) for x in xs),
                    (),
                    (len(xs),),
                    DT("int64") if xs else DT("float64"),
                )
            )
        if all(isinstance(x, (int, float, T, Poly)) for x in xs):
            return self.f_stack(*xs)
        raise Undecided("array of objects")

    # Terms

    def node(self, x):
        x = undim(x)
        if isinstance(x, T):
            return x.node
        if isinstance(x, (bool, int, float)):
            return const(x)
        if isinstance(x, Poly):
            return mk("size", x, (), (), DT("pyint"))
        if isinstance(x, UBool):
            raise Undecided("unknown Boolean as a tensor")
        if isinstance(x, Opaque):
            raise Undecided(f"tensor from {x!r}")
        self.I.pyraise(TypeError, "not a tensor")

    def shape(self, x):
        x = undim(x)
        if isinstance(x, T):
            return x.node.shape
        if isinstance(x, (int, float, Poly)):
            return ()
        raise Undecided("shape")

    def eqsize(self, a, b):
        return si(a) == si(b)

    def bshape(self, *shapes):
        n = max(len(s) for s in shapes)
        out = []
        for i in range(n):
            d = 1
            for s in shapes:
                j = i - (n - len(s))
                if j < 0:
                    continue
                e = s[j]
                if e == 1 or e == d:
                    continue
                if d == 1:
                    d = e
                else:
                    self.I.pyraise(
                        ValueError, "operands could not be broadcast together"
                    )
            out.append(d)
        return tuple(out)

    def bcast(self, n, shape):
        shape = tuple(si(s) for s in shape)
        if n.shape == shape:
            return n
        return mk("bcast", None, (n,), shape, n.dtype)

    def binary(self, op, a, b):
        """Operator of Python on tensors or numbers."""
        a, b = undim(a), undim(b)
        weak = all(not isinstance(x, T) or x.num for x in (a, b))
        return self._bin(op, a, b, weak)

    def _bin(self, op, a, b, weak=False):
        if op in ("floordiv", "mod", "or", "and", "xor") and not (
            op in ("or", "and")
        ):
            raise Undecided(f"tensor operation {op}")
        na, nb = self.node(a), self.node(b)
        shape = self.bshape(na.shape, nb.shape)
        dt = promote_dt(na.dtype, nb.dtype)
        if not weak:
            dt = dt.strong()
        if op == "div":
            dt = float_dt(dt) if not weak else DT("pyfloat")
        if op in ("add", "mul") and dt == DT("bool"):
            # Logical operations: not represented.
            pass
        if op == "sub" and dt == DT("bool"):
            self.I.pyraise(TypeError, "boolean subtract")
        return T(mk(op, None, (na, nb), shape, dt), num=weak)

    def unary(self, op, a):
        a = undim(a)
        n = self.node(a)
        num = not isinstance(a, T) or a.num
        weak = num and op in ("neg", "abs")
        dt = n.dtype if weak else n.dtype.strong()
        if op in ("sqrt", "log", "exp"):
            dt = float_dt(dt)
        if op in ("isnan", "not"):
            dt = DT("bool")
        return T(mk(op, None, (n,), n.shape, dt), num=weak)

    def compare(self, op, a, b):
        na, nb = self.node(a), self.node(b)
        shape = self.bshape(na.shape, nb.shape)
        return T(mk(op, None, (na, nb), shape, DT("bool")))

    def has_leaf(self, n, seen=None):
        seen = set() if seen is None else seen
        todo = [n]
        while todo:
            m = todo.pop()
            if m.id in seen:
                continue
            seen.add(m.id)
            if m.op == "leaf":
                return True
            todo.extend(m.args)
        return False

    def truth(self, t):
        """Truth of a tensor."""
        I = self.I
        n = t.node
        for s in n.shape:
            if s != 1:
                I.pyraise(ValueError, "truth value of an array is ambiguous")
        neg = False
        while n.op in ("not", "reshape", "bcast"):
            if n.op == "not":
                neg = not neg
            n = n.args[0]
        if n.op == "const":
            return bool(n.par) != neg
        I.concrete = t.owner == "outcome"
        if n.op == "leaf" and n.par[1] == "num":
            return not neg
        if n.op in ("eq", "ne") and {a.op for a in n.args} == {"leaf", "const"}:
            lf, c = n.args if n.args[0].op == "leaf" else n.args[::-1]
            if lf.par[1] == "num":
                return (n.op == "ne") != neg
        if not self.has_leaf(n):
            vals = [bool(m.value(n).reshape(-1)[0]) for m in I.models(4)]
            if all(v == vals[0] for v in vals):
                return vals[0] != neg
        else:
            x = self.measure(n)
            if x is not None:
                try:
                    vals = [bool(m.value(n).reshape(-1)[0]) for m in I.models(3)]
                except Undecided:
                    vals = [False]
                if all(vals):
                    I.memo[("cond", n.id)] = True
                    return not neg
                r = I.decide(("cond", n.id))
                if r:
                    if x.op == "sub":
                        I.facts.append((x.args[0], x.args[1]))
                    else:
                        I.zero_facts.append(x)
                return r != neg
        r = I.decide(("cond", n.id))
        return r != neg

    def measure(self, n):
        """Does the condition assert that a measure of a tensor vanishes? Then return
        the tensor."""
        if n.op in ("lt", "le"):
            m, c = n.args
        elif n.op in ("gt", "ge"):
            c, m = n.args
        elif n.op == "eq":
            m, c = n.args
            if m.op == "const":
                m, c = c, m
            if c.op == "const" and c.par == 0:
                return m
            return None
        elif n.op == "minred" and n.args[0].op in ("eq", "not"):
            e = n.args[0]
            neg = False
            if e.op == "eq":
                m, c = e.args
                if m.op == "const" or m.op == "full":
                    m, c = c, m
                if c.op in ("const", "full") and c.par == 0:
                    return m
                return mk("sub", None, (m, c), e.shape, promote_dt(m.dtype, c.dtype))
            return None
        elif n.op == "not" and n.args[0].op == "maxred":
            return None
        else:
            return None
        if c.op != "const" or not 0 < abs(c.par) <= 1e-6:
            return None
        while True:
            if m.op == "div" and not self.has_leaf(m.args[1]):
                m = m.args[0]
            elif m.op in ("sum", "maxred", "reshape", "sqrt", "cast"):
                m = m.args[0]
            elif m.op == "pow" and m.args[1].op == "const" and m.args[1].par == 2:
                return m.args[0]
            elif m.op == "abs":
                return m.args[0]
            elif m.op == "mul" and m.args[0].id == m.args[1].id:
                return m.args[0]
            else:
                return None

    # Indexing

    def resolve_axis(self, a, axis, negative=False):
        I = self.I
        axis = undim(axis)
        if axis is None:
            return None
        rank = I.call(I.getattr(self.module, "rank"), [a], {})
        given = axis
        if not isinstance(axis, int):
            raise Undecided("symbolic axis")
        if not negative:
            if axis < 0:
                axis += rank
            if not 0 <= axis < rank:
                I.pyraise(ValueError, f"axis {given} cannot be resolved")
        else:
            if axis >= 0:
                axis -= rank
            if not -rank <= axis < 0:
                I.pyraise(ValueError, f"axis {given} cannot be resolved")
        return axis

    def ax(self, axis, rank):
        axis = undim(axis)
        if not isinstance(axis, int):
            raise Undecided("symbolic axis")
        if not -rank <= axis < rank:
            self.I.pyraise(ValueError, f"axis {axis} is out of bounds")
        return axis % rank

    def slice_size(self, s, n):
        I = self.I
        step = 1 if s.step is None else s.step
        if step not in (1, -1):
            if isinstance(n, int) and all(
                x is None or isinstance(x, int) for x in (s.start, s.stop)
            ):
                return len(range(*s.indices(n)))
            raise Undecided("slice with a step")
        if isinstance(n, int) and all(
            x is None or isinstance(x, int) for x in (s.start, s.stop)
        ):
            return len(range(*s.indices(n)))
        if step == -1:
            if s.start is None and s.stop is None:
                return n
            raise Undecided("slice with a negative step")

        def norm(x, default):
            if x is None:
                return default
            if I.truth(I.cmp("lt", x, 0)):
                x = I.binop("add", x, n)
                if I.truth(I.cmp("lt", x, 0)):
                    return 0
                return x
            if I.truth(I.cmp("gt", x, n)):
                return n
            return x

        a, b = norm(s.start, 0), norm(s.stop, n)
        if I.truth(I.cmp("gt", a, b)):
            return 0
        return I.binop("sub", b, a)

    def getitem(self, t, i):
        I = self.I
        if t.num:
            I.pyraise(TypeError, "number is not subscriptable")
        n = t.node
        if n.op == "constarr" and isinstance(undim(i), int):
            try:
                return n.par[undim(i)]
            except IndexError as e:
                raise PyRaise(e, I.where())
        items = list(i) if isinstance(i, tuple) else [i]
        items = [undim(x) for x in items]
        items = [list(x) if isinstance(x, range) else x for x in items]
        used = sum(1 for x in items if x is not None and x is not Ellipsis)
        if used > len(n.shape):
            I.pyraise(IndexError, "too many indices")
        k = sum(1 for x in items if x is Ellipsis)
        fill = [slice(None)] * (len(n.shape) - used)
        if k == 1:
            j = next(j for j, x in enumerate(items) if x is Ellipsis)
            items = items[:j] + fill + items[j + 1 :]
        elif k == 0:
            items = items + fill
        else:
            I.pyraise(IndexError, "an index can only have a single ellipsis")
        # Advanced indexing on one axis.
        adv = [j for j, x in enumerate(items) if isinstance(x, (list, T, tuple))]
        if adv:
            for j in adv:
                x = items[j]
                if isinstance(x, T) and x.shape == ():
                    raise Undecided("symbolic index")
            if len(adv) > 1:
                raise Undecided("advanced indexing")
            if any(not (isinstance(x, slice) and x == slice(None)) for j, x in enumerate(items) if j not in adv):
                raise Undecided("advanced indexing")
            return self.take_axis(t, items[adv[0]], adv[0])
        par, shape, j = [], [], 0
        for x in items:
            if x is None:
                par.append(("none",))
                shape.append(1)
                continue
            size = n.shape[j]
            j += 1
            if isinstance(x, slice):
                sl = slice(*[undim(y) for y in (x.start, x.stop, x.step)])
                par.append(("slice", sl.start, sl.stop, sl.step))
                shape.append(self.slice_size(sl, size))
            elif isinstance(x, (int, Poly)):
                if isinstance(x, bool):
                    raise Undecided("index")
                if isinstance(x, int) and isinstance(size, int):
                    if not -size <= x < size:
                        I.pyraise(IndexError, "index is out of bounds")
                elif isinstance(x, Poly):
                    if I.truth(I.cmp("ge", x, size)):
                        I.pyraise(IndexError, "index is out of bounds")
                par.append(("int", x))
            else:
                I.pyraise(IndexError, "invalid index")
        if all(p == ("slice", None, None, None) for p in par):
            return T(n)
        return T(mk("getitem", tuple(par), (n,), shape, n.dtype))

    def setitem(self, t, i, v):
        probe = self.getitem(T(t.node), i)
        nv = self.node(v)
        self.bshape(probe.shape, nv.shape)
        items = list(i) if isinstance(i, tuple) else [i]
        par = []
        for x in items:
            x = undim(x)
            if x is Ellipsis:
                used = len([y for y in items if y is not None and y is not Ellipsis])
                par.extend([("slice", None, None, None)] * (len(t.shape) - used))
            elif x is None:
                par.append(("none",))
            elif isinstance(x, slice):
                par.append(("slice", undim(x.start), undim(x.stop), x.step))
            elif isinstance(x, (int, Poly)):
                par.append(("int", x))
            elif isinstance(x, list):
                par.append(("list", tuple(x)))
            else:
                raise Undecided("item assignment")
        return mk("setitem", tuple(par), (t.node, nv), t.node.shape, t.node.dtype)

    def take_axis(self, t, idx, axis):
        """Advanced indexing with a list, or a rank-one tensor."""
        I = self.I
        n = t.node
        size = n.shape[axis]
        if isinstance(idx, (list, tuple)):
            idx = [undim(x) for x in idx]
            if any(isinstance(x, T) for x in idx):
                raise Undecided("symbolic index")
            idx = self.constarr(list(idx))
        ni = idx.node
        if len(ni.shape) != 1:
            raise Undecided("advanced indexing")
        if ni.op == "constarr":
            if ni.dtype == DT("bool"):
                if size != len(ni.par):
                    I.pyraise(IndexError, "Boolean index did not match")
                ni = self.constarr([k for k, b in enumerate(ni.par) if b]).node
            elif isinstance(size, int):
                if any(not -size <= k < size for k in ni.par):
                    I.pyraise(IndexError, "index is out of bounds")
            if ni.dtype == DT("float64") and len(ni.par) > 0:
                I.pyraise(IndexError, "index")
            k = len(ni.par)
        elif ni.dtype == DT("bool"):
            if ni.shape[0] != size:
                I.pyraise(IndexError, "Boolean index did not match")
            k = self.mask_count(ni)
        elif ni.dtype == DT("int64"):
            bound = self.idx_bound(ni)
            if bound is not None and bound != size:
                # Is the bound smaller than the size?
                if I.order.sign(_pp(size) - _pp(bound)) != 1:
                    I.pyraise(IndexError, "index is out of bounds")
            k = ni.shape[0]
        else:
            I.pyraise(IndexError, "arrays used as indices must be of integer type")
        shape = list(n.shape)
        shape[axis] = k
        return T(mk("take", (axis,), (n, ni), shape, n.dtype))

    def mask_count(self, ni):
        if ni.op == "leaf" and ni.par[1].startswith("mask"):
            return Poly.atom(ni.par[1][4:])
        raise Undecided("count of an unknown mask")

    def idx_bound(self, ni):
        if ni.op == "leaf" and ni.par[1].startswith("idx"):
            b = ni.par[1].split(":")[1]
            return Poly.atom(b)
        return None

    # Attributes

    def tensor_attr(self, t, name):
        I = self.I
        if t.num:
            if name in ("real",):
                return t
            I.pyraise(AttributeError, f"number has no attribute {name}")
        P = Prim
        if name == "shape":
            return t.node.shape
        if name == "dtype":
            return t.node.dtype
        if name == "ndim":
            return len(t.shape)
        if name == "size":
            return prod(t.shape)
        if name == "T":
            return self.transpose(t, tuple(reversed(range(len(t.shape)))))
        if name == "reshape":
            return P(
                name,
                lambda *s: self.f_reshape(
                    t, *(s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
                ),
            )
        if name == "transpose":
            return P(
                name,
                lambda *s: self.transpose(
                    t, tuple(s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
                    or tuple(reversed(range(len(t.shape)))),
                ),
            )
        if name == "copy":
            return P(name, lambda: T(t.node))
        if name == "astype":
            return P(name, lambda d, **k: self.f_cast(d, t))
        if name in ("sum", "mean", "max", "min", "any", "all", "argsort"):
            return P(
                name,
                lambda axis=None, keepdims=False: I.call(
                    self.fns[name],
                    [t],
                    {"axis": axis, "squeeze": not keepdims}
                    if name != "argsort"
                    else {"axis": -1 if axis is None else axis},
                ),
            )
        if name == "squeeze":
            return P(name, lambda axis=None: self.f_squeeze(t, axis))
        if name == "flatten" or name == "ravel":
            return P(name, lambda: self.f_reshape(t, -1))
        if name == "tolist":
            return P(name, lambda: list(I.iterate(t)))
        if name == "item":
            return P(name, lambda: self._pynum(self.f_reshape(t)))
        if name == "real":
            return t
        if name in ("diag", "left", "right", "middle", "mat", "const", "rows", "cols",
                    "dense", "cholesky", "lr", "blocks", "reps", "axis", "rank", "batch"):
            I.pyraise(AttributeError, f"array has no attribute {name}")
        raise Undecided(f"array.{name}")

    def plum_attr(self, pf, name):
        I = self.I
        if name == "dispatch":
            return _FnDispatch(I, pf)
        if name == "dispatch_multi":
            return Prim(
                name,
                lambda *types: Prim(
                    name,
                    lambda f: self._reg_multi(pf, f, types),
                ),
            )
        if name == "invoke":
            return Prim(name, lambda *types: I.invoke(pf, types))
        if name == "__name__":
            return pf.name
        if name == "methods":
            raise Undecided("methods of a function")
        raise Undecided(f"function.{name}")

    def _reg_multi(self, pf, f, types):
        I = self.I
        types = [t if isinstance(t, tuple) else (t,) for t in types]
        where = I.where()
        where = f"{where[0]}:{where[1]}" if where else "?"
        for ts in types:
            sig = pm.Sig([I.totype(t) for t in ts], None, 0)
            pf.register(pm.Method(sig, f, getattr(f, "where", where)))
        return pf

    def native_attr(self, o, name):
        I = self.I
        if isinstance(o, str):
            if isinstance(o, VStr) or name in ("format", "join"):

                def strm(*a, **k):
                    a = [list(I.iterate(x)) if not isinstance(x, str) else x for x in a]
                    for x in a:
                        if isinstance(x, list) and name == "join":
                            for y in x:
                                if not isinstance(y, str):
                                    I.pyraise(TypeError, "expected str")
                    if name == "join" and not isinstance(o, VStr):
                        if all(type(y) is str for x in a for y in x):
                            return o.join(*a)
                    if name in ("startswith", "endswith", "isdigit"):
                        raise Undecided("unknown string")
                    if name == "split" or name == "splitlines":
                        return [VStr("…")]
                    return VStr("…")

                return Prim(name, strm)
        if not hasattr(o, name):
            I.pyraise(AttributeError, f"{type(o).__name__} has no attribute {name}")
        m = getattr(o, name)

        def call(*a, **k):
            a = [undim(x) for x in a]
            if isinstance(o, list) and name == "sort":
                o[:] = I.builtins["sorted"].f(o, **k)
                return None
            if isinstance(o, (list, tuple)) and name in ("index", "count", "remove"):
                hits = [j for j, y in enumerate(o) if I.truth(I.cmp("eq", y, a[0]))]
                if name == "count":
                    return len(hits)
                if not hits:
                    I.pyraise(ValueError, "not in list")
                if name == "index":
                    return hits[0]
                del o[hits[0]]
                return None
            if name in ("extend", "update") and a and not isinstance(o, (dict,)):
                a = [list(I.iterate(a[0]))]
            try:
                r = m(*a, **k)
            except (IndexError, KeyError, ValueError, TypeError, AttributeError) as e:
                raise PyRaise(e, I.where())
            if isinstance(o, dict) and name in ("items", "keys", "values"):
                r = list(r)
            return r

        return Prim(name, call)

    # Functions

    def _lib(self, name, specs, impl, prec=0):
        pf = self.fns.setdefault(name, pm.PFunction(name))

        def wrapped(*a, **k):
            return impl(*[undim(x) for x in a], **{q: undim(v) for q, v in k.items()})

        for s in specs:
            types, var = [], None
            for tk in s.split():
                if tk.startswith("*"):
                    var = TYPES[tk[1:]]
                else:
                    types.append(TYPES[tk])
            pf.register(pm.Method(pm.Sig(types, var, prec), wrapped, "lab", True))

    def _abstract(self, name, promote):
        I = self.I

        def impl(*args, **kw):
            k = len(args) if promote < 0 else promote
            before = [I.token(a) for a in args]
            new = list(I.promote(args[:k])) + list(args[k:])
            if [I.token(a) for a in new] == before:
                I.event(
                    "lookup",
                    "not found",
                    name,
                    tuple(I.tokname(a) for a in args),
                    I.where(),
                )
                raise PyRaise(
                    NotFoundLookup(
                        f"{name}({', '.join(I.tokname(a) for a in args)}) is not "
                        f"implemented"
                    ),
                    I.where(),
                )
            return I.call(self.fns[name], new, kw)

        return impl

    def _binf(self, name, impl, extra=("",)):
        self._lib(name, ["A A " + e for e in extra], self._abstract(name, 2))
        self._lib(name, ["NP NP " + e for e in extra], impl, prec=1)

    def _unf(self, name, impl, extra=("",), first="N"):
        nf = self._abstract(name, 0)
        self._lib(name, [first + " " + e for e in extra], nf)
        self._lib(name, ["NP " + e for e in extra], impl, prec=1)

    def _register(self):
        L, U, Bf = self._lib, self._unf, self._binf
        I = self.I
        for n, op in dict(
            add="add", subtract="sub", multiply="mul", divide="div", power="pow"
        ).items():
            Bf(n, lambda a, b, op=op: self._bin(op, a, b))
        for n in ("minimum", "maximum"):
            Bf(n, lambda a, b, n=n: self.f_minmax(n, a, b))
        for n in ("eq", "ne", "lt", "le", "gt", "ge"):
            Bf(n, lambda a, b, n=n: self.compare(n, a, b))
        for n, op in dict(
            abs="abs",
            negative="neg",
            sqrt="sqrt",
            log="log",
            exp="exp",
            sign="sign",
            isnan="isnan",
        ).items():
            U(n, lambda a, op=op: T(self.unary(op, self._arr(a)).node))
        tr = ("", "b", "b b")
        Bf("matmul", self.f_matmul, tr)
        L("kron", ["A A *I"], self._abstract("kron", 2))
        L("kron", ["N N *I"], self.f_kron)
        Bf("solve", self.f_solve)
        Bf("cholesky_solve", self.f_cholesky_solve)
        Bf("triangular_solve", self.f_triangular_solve, ("", "b"))
        for n, f in dict(inv=self.f_inv, logdet=self.f_logdet, det=self.f_det).items():
            U(n, f, first="A")
        L("pinv", ["A"], self._opaque("pinv"))
        L("cholesky", ["N"], self.f_cholesky)
        U("svd", self.f_svd, ("", "b"))
        red = ("", "In", "In b")
        U("sum", self.f_sum, red)
        U("mean", self.f_mean, red)
        for n, op in dict(max="maxred", min="minred", any="maxred", all="minred").items():
            U(n, lambda a, axis=None, squeeze=True, op=op: self.f_red(op, a, axis, squeeze), red)
        L("shape", ["N", "tl", "A I", "A I *I"], self.f_shape)
        L("rank", ["N", "tl"], self.f_rank)
        U("length", lambda a: prod(self.shape(a)))
        L("is_scalar", ["N"], lambda a: len(self.shape(a)) == 0)
        L("expand_dims", ["N", "N I", "N I I", "N I I b"], self.f_expand_dims)
        U("squeeze", self.f_squeeze, ("", "In"))
        L("squeeze", ["tl"], lambda a: a[0] if len(a) == 1 else a)
        L("uprank", ["N", "N I"], self.f_uprank)
        L("downrank", ["N", "N I", "N I b"], self._opaque("downrank"))
        U("broadcast_to", self.f_broadcast_to, ("*I",))
        U("diag", self.f_diag)
        U("diag_extract", self.f_diag_extract)
        L("diag_construct", ["N"], self.f_diag_construct)
        L("flatten", ["A"], lambda a: I.call(self.fns["reshape"], [a, -1], {}))
        L("stack", ["*A"], self._abstract("stack", -1))
        L("stack", ["*NP"], self.f_stack, prec=1)
        L("unstack", ["N", "N I", "N I b"], self.f_unstack)
        U("reshape", self.f_reshape, ("*I",))
        L("concat", ["*A"], self._abstract("concat", -1))
        L("concat", ["*NP"], self.f_concat, prec=1)
        L("concat2d", ["*l"], self.f_concat2d)
        U("tile", self.f_tile, ("*I",))
        L("take", ["N A", "N A I"], self.f_take)
        L("submatrix", ["N A"], self.f_submatrix)
        U("transpose", self.f_transpose, ("", "tln"))
        U("trace", self.f_trace, ("", "I", "I I"))
        L("outer", ["A A", "A"], self.f_outer)
        L("reg", ["A"], self._opaque("reg"))
        U("isabstract", self.f_isabstract)
        for n, v in dict(zeros=0, ones=1).items():
            nf = self._abstract(n, 0)
            L(n, ["D *I"], nf)
            L(n, ["*I"], lambda *s, v=v: self.f_full(v, DT("float64"), *s))
            L(n, ["N"], lambda r, v=v: self.f_full(v, self._dtype(r), *self.shape(r)))
            L(n, ["I"], lambda s, v=v: self.f_full(v, DT("float64"), s))
            L(n, ["ND *I"], lambda d, *s, v=v: self.f_full(v, toDT(d), *s), prec=1)
        for n, v in dict(zero=0, one=1).items():
            L(n, ["D"], lambda d, v=v: self.f_cast(d, v))
            L(n, ["*A"], lambda *r, v=v: self.f_cast(I.call(self.fns["dtype"], list(r), {}), v))
        L("eye", ["D *I"], self.f_eye)
        L("eye", ["D I"], lambda d, n: self.f_eye(d, n, n))
        L("eye", ["*I"], lambda *s: self.f_eye(DT("float64"), *s))
        L("eye", ["I"], lambda n: self.f_eye(DT("float64"), n, n))
        L("eye", ["N"], lambda r: self.f_eye(self._dtype(r), *self.shape(r)))
        L("cast", ["D N"], self._abstract("cast", 0))
        L("cast", ["ND NP"], self.f_cast, prec=1)
        U("identity", lambda a: T(self._arr(a).node))
        U("argsort", self.f_argsort, ("", "I", "I b"))
        L("where", ["A A A"], self._abstract("where", 3))
        L("where", ["NP NP NP"], self.f_where, prec=1)
        L("to_numpy", ["A", "*A", "l", "t", "d"], self.f_to_numpy)
        L("to_numpy", ["S"], lambda s: s.dims)
        L("jit_to_numpy", ["*A"], self.f_jit_to_numpy)
        L("dtype", ["A"], lambda a: I.getattr(a, "dtype"))
        L("dtype", ["NP"], self._dtype)
        L("dtype", ["*A"], lambda *a: self.f_dtypes(a))
        L("dtype", ["t"], self.f_dtypes)
        L("issubdtype", ["D D"], self.f_issubdtype)
        L("promote_dtypes", ["D *D"], self.f_promote_dtypes)
        L("dtype_float", ["D"], lambda d: float_dt(toDT(d)))
        L("dtype_float", ["A"], lambda x: float_dt(toDT(I.call(self.fns["dtype"], [x], {}))))
        L("global_random_state", ["A", "D"], lambda a: I.global_state)
        L("global_random_state", ["ND"], lambda a: I.global_state, prec=1)
        L("set_global_random_state", ["RS"], self.f_set_grs)
        L("set_global_random_state", ["NRS"], self.f_set_grs, prec=1)
        L("create_random_state", ["D", "D I"], lambda d, seed=0: RState(f"seed{seed}"))
        for n in ("randn", "rand"):
            nf = self._abstract(n, 0)
            L(n, ["RS D *I"], nf)
            L(n, ["NRS ND *I"], lambda s, d, *sh, n=n: self.f_rand(n, s, toDT(d), *sh), prec=1)
            L(n, ["RS N"], lambda s, r, n=n: self.f_rand(n, s, self._dtype(r), *self.shape(r)))
            L(n, ["ND *I"], lambda d, *sh, n=n: self._rand_global(n, toDT(d), *sh), prec=1)
            L(n, ["*I"], lambda *sh, n=n: self._rand_global(n, DT("float64"), *sh))
            L(n, ["I"], lambda s, n=n: self._rand_global(n, DT("float64"), s))
            L(n, ["N"], lambda r, n=n: self._rand_global(n, self._dtype(r), *self.shape(r)))

    def _opaque(self, name):
        def f(*a, **k):
            raise Undecided(f"library function {name}")

        return f

    def _arr(self, x):
        """Strong array of `x`."""
        x = undim(x)
        if isinstance(x, T) and not x.num:
            return x
        n = self.node(x)
        return T(mk("cast", None, (n,), n.shape, n.dtype.strong()))

    def _dtype(self, a):
        a = undim(a)
        if isinstance(a, T):
            return a.node.dtype
        return self.node(a).dtype

    def f_minmax(self, n, a, b):
        I = self.I
        if all(isinstance(x, (int, Poly)) and not isinstance(x, bool) for x in (a, b)):
            less = I.truth(I.cmp("lt", a, b))
            return (a if less else b) if n == "minimum" else (b if less else a)
        return self._bin(n[:3], a, b)

    def f_shape(self, a, *dims):
        I = self.I
        if dims:
            s = I.call(self.fns["shape"], [a], {})
            out = [undim(I.getitem(s, d)) for d in dims]
            return out[0] if len(out) == 1 else tuple(out)
        if isinstance(a, (tuple, list)):
            return self._nested_shape(a)
        return self.shape(a)

    def _nested_shape(self, a):
        if isinstance(a, (tuple, list)):
            if len(a) == 0:
                return (0,)
            return (len(a),) + self._nested_shape(a[0])
        if isinstance(a, (Obj,)):
            return ()
        return self.shape(a)

    def f_rank(self, a):
        if isinstance(a, (tuple, list)):
            return len(self._nested_shape(a))
        return len(self.shape(a))

    def transpose(self, t, perm):
        n = t.node
        r = len(n.shape)
        if len(perm) != r or sorted(p % r if r else p for p in perm) != list(range(r)):
            self.I.pyraise(ValueError, "axes do not match array")
        perm = tuple(p % r for p in perm)
        if perm == tuple(range(r)):
            return T(n)
        if n.op == "transpose":
            inner = n.par
            comp = tuple(inner[p] for p in perm)
            return self.transpose(T(n.args[0]), comp)
        return T(
            mk("transpose", perm, (n,), tuple(n.shape[p] for p in perm), n.dtype)
        )

    def f_transpose(self, a, perm=None):
        r = len(self.shape(a))
        if r == 0:
            return a
        if r == 1 and perm is None:
            return self.getitem(a, (None, slice(None)))
        if perm is None:
            p = list(range(r))
            p[-2], p[-1] = p[-1], p[-2]
        else:
            p = [undim(x) for x in perm]
        return self.transpose(a, tuple(p))

    def matmul(self, a, b):
        """Python's matrix multiplication."""
        return self.f_matmul(a, b)

    def f_matmul(self, a, b, tr_a=False, tr_b=False):
        I = self.I
        if I.truth(tr_a):
            a = self.f_transpose(a)
        if I.truth(tr_b):
            b = self.f_transpose(b)
        na, nb = self.node(a), self.node(b)
        if len(na.shape) == 0 or len(nb.shape) == 0:
            I.pyraise(ValueError, "matmul: input operand has too few dimensions")
        va, vb = len(na.shape) == 1, len(nb.shape) == 1
        if va:
            na = self.reshape_node(na, (1,) + na.shape)
        if vb:
            nb = self.reshape_node(nb, nb.shape + (1,))
        if na.shape[-1] != nb.shape[-2]:
            I.pyraise(ValueError, "matmul: mismatch in core dimension")
        batch = self.bshape(na.shape[:-2], nb.shape[:-2])
        dt = promote_dt(na.dtype, nb.dtype)
        out = mk(
            "matmul", None, (na, nb), batch + (na.shape[-2], nb.shape[-1]), dt.strong()
        )
        shape = out.shape
        if vb:
            shape = shape[:-1]
        if va:
            shape = shape[: len(shape) - (1 if vb else 2)] + (() if vb else shape[-1:])
        return T(self.reshape_node(out, shape))

    def reshape_node(self, n, shape):
        shape = tuple(si(s) for s in shape)
        if n.shape == shape:
            return n
        if n.op == "reshape":
            return self.reshape_node(n.args[0], shape)
        return mk("reshape", None, (n,), shape, n.dtype)

    def f_reshape(self, a, *shape):
        I = self.I
        a = self._arr(a)
        n = a.node
        shape = [undim(s) for s in shape]
        for s in shape:
            if not isinstance(s, (int, Poly)):
                raise Undecided("shape")
        total = prod(n.shape)
        unknown = [i for i, s in enumerate(shape) if isinstance(s, int) and s < 0]
        if len(unknown) > 1:
            I.pyraise(ValueError, "can only specify one unknown dimension")
        if unknown:
            rest = prod([s for i, s in enumerate(shape) if i not in unknown])
            if rest == 0:
                I.pyraise(ValueError, "cannot reshape array")
            q = _pp(total).divide(_pp(rest))
            if q is None or (q.is_const() and q.value().denominator != 1):
                I.pyraise(ValueError, "cannot reshape array")
            shape[unknown[0]] = si(q)
        elif prod(shape) != total:
            I.pyraise(ValueError, "cannot reshape array")
        return T(self.reshape_node(n, shape))

    def f_kron(self, a, b, *indices):
        I = self.I
        a, b = self._arr(a), self._arr(b)
        sa, sb = a.shape, b.shape
        if len(sa) != len(sb):
            I.pyraise(ValueError, "Kronecker product of tensors of unequal ranks")
        r = len(sa)
        ind = list(range(r)) if not indices else [r + i if i < 0 else i for i in indices]
        ia, ib, target = (), (), ()
        for i in range(r):
            if i in ind:
                ia += (slice(None), None)
                ib += (None, slice(None))
                target += (si(sa[i] * sb[i]),)
            else:
                ia += (slice(None),)
                ib += (slice(None),)
                if sa[i] != sb[i]:
                    I.pyraise(ValueError, "shapes of inputs differ")
                target += (sa[i],)
        prod_ = self._bin("mul", self.getitem(a, ia), self.getitem(b, ib))
        return self.f_reshape(prod_, *target)

    def _square(self, n, what):
        if len(n.shape) < 2:
            self.I.pyraise(ValueError, f"{what} of a tensor of rank less than two")
        if n.shape[-1] != n.shape[-2]:
            self.I.pyraise(ValueError, f"{what} of a matrix which is not square")

    def f_solve(self, a, b):
        na, nb = self.node(a), self.node(b)
        self._square(na, "solve")
        fd = float_dt(promote_dt(na.dtype, nb.dtype))
        if len(nb.shape) == 0:
            self.I.pyraise(ValueError, "solve")
        if len(nb.shape) == 1:
            if nb.shape[0] != na.shape[-1]:
                self.I.pyraise(ValueError, "solve: mismatch")
            nb2 = self.reshape_node(nb, nb.shape + (1,))
            out = mk("solve", None, (na, nb2), na.shape[:-1] + (1,), fd)
            return T(self.reshape_node(out, na.shape[:-1]))
        if nb.shape[-2] != na.shape[-1]:
            self.I.pyraise(ValueError, "solve: mismatch in core dimension")
        batch = self.bshape(na.shape[:-2], nb.shape[:-2])
        return T(mk("solve", None, (na, nb), batch + nb.shape[-2:], fd))

    def f_triangular_solve(self, a, b, lower_a=True):
        na, nb = self.node(a), self.node(b)
        low = self.I.truth(lower_a)
        self._square(na, "triangular solve")
        fd = float_dt(promote_dt(na.dtype, nb.dtype))
        if len(nb.shape) == 0:
            self.I.pyraise(ValueError, "triangular solve")
        if len(nb.shape) == 1:
            if nb.shape[0] != na.shape[-1]:
                self.I.pyraise(ValueError, "triangular solve: mismatch")
            nb2 = self.reshape_node(nb, nb.shape + (1,))
            out = mk("trisolve", low, (na, nb2), na.shape[:-1] + (1,), fd)
            return T(self.reshape_node(out, na.shape[:-1]))
        if nb.shape[-2] != na.shape[-1]:
            self.I.pyraise(ValueError, "triangular solve: mismatch in core dimension")
        batch = self.bshape(na.shape[:-2], nb.shape[:-2])
        return T(mk("trisolve", low, (na, nb), batch + nb.shape[-2:], fd))

    def f_cholesky_solve(self, a, b):
        x = self.f_triangular_solve(a, b)
        return self.f_triangular_solve(self.f_transpose(a), x, lower_a=False)

    def f_inv(self, a):
        n = self.node(a)
        self._square(n, "inverse")
        return T(mk("inv", None, (n,), n.shape, float_dt(n.dtype)))

    def f_logdet(self, a):
        n = self.node(a)
        self._square(n, "log-determinant")
        return T(mk("logdet", None, (n,), n.shape[:-2], float_dt(n.dtype)))

    def f_det(self, a):
        n = self.node(a)
        self._square(n, "determinant")
        return T(mk("det", None, (n,), n.shape[:-2], float_dt(n.dtype)))

    def f_cholesky(self, a):
        n = self.node(a)
        self._square(n, "Cholesky decomposition")
        return T(mk("cholesky", None, (n,), n.shape, float_dt(n.dtype)))

    def minsize(self, a, b):
        if a == b:
            return a
        return a if self.I.truth(self.I.cmp("lt", a, b)) else b

    def f_svd(self, a, compute_uv=True):
        n = self.node(a)
        if len(n.shape) < 2:
            self.I.pyraise(ValueError, "SVD of a tensor of rank less than two")
        k = self.minsize(n.shape[-2], n.shape[-1])
        batch = n.shape[:-2]
        dt = float_dt(n.dtype)
        s = T(mk("svd", "s", (n,), batch + (k,), dt))
        if not compute_uv:
            return s
        u = T(mk("svd", "u", (n,), batch + (n.shape[-2], k), dt))
        v = T(mk("svd", "v", (n,), batch + (n.shape[-1], k), dt))
        return (u, s, v)

    def _axes(self, n, axis):
        r = len(n.shape)
        if axis is None:
            return tuple(range(r))
        if isinstance(axis, (tuple, list)):
            return tuple(sorted(self.ax(x, r) for x in axis))
        return (self.ax(axis, r),)

    def f_sum(self, a, axis=None, squeeze=True):
        a = self._arr(a)
        n = a.node
        if n.op == "leaf" and n.par[1].startswith("mask") and axis in (None, 0, -1):
            return self.mask_count(n)
        if n.op == "constarr" and n.dtype == DT("bool"):
            return sum(n.par)
        axes = self._axes(n, axis)
        dt = DT("int64") if n.dtype == DT("bool") else n.dtype
        shape = tuple(s for i, s in enumerate(n.shape) if i not in axes)
        out = mk("sum", (axes,), (n,), shape, dt) if axes else n
        if not self.I.truth(squeeze):
            out = self.reshape_node(
                out, tuple(1 if i in axes else s for i, s in enumerate(n.shape))
            )
        return T(out)

    def f_mean(self, a, axis=None, squeeze=True):
        a = self._arr(a)
        axes = self._axes(a.node, axis)
        s = self._arr(self.f_sum(a, axis, squeeze))
        count = prod([a.shape[i] for i in axes])
        out = self._bin("div", s, count)
        return out

    def f_red(self, op, a, axis=None, squeeze=True):
        a = self._arr(a)
        n = a.node
        axes = self._axes(n, axis)
        if op == "minred" and n.dtype != DT("bool") and False:
            pass
        shape = tuple(s for i, s in enumerate(n.shape) if i not in axes)
        out = mk(op, (axes,), (n,), shape, n.dtype) if axes else n
        if not self.I.truth(squeeze):
            out = self.reshape_node(
                out, tuple(1 if i in axes else s for i, s in enumerate(n.shape))
            )
        return T(out)

    def f_expand_dims(self, a, axis=0, times=1, ignore_scalar=False):
        if self.I.truth(ignore_scalar) and len(self.shape(a)) == 0:
            return a
        for _ in range(times):
            a = self._arr(a)
            r = len(a.shape)
            j = self.ax(axis, r + 1)
            a = T(self.reshape_node(a.node, a.shape[:j] + (1,) + a.shape[j:]))
        return a

    def f_squeeze(self, a, axis=None):
        a = self._arr(a)
        if axis is None:
            return T(self.reshape_node(a.node, tuple(s for s in a.shape if s != 1)))
        j = self.ax(axis, len(a.shape))
        if a.shape[j] != 1:
            self.I.pyraise(ValueError, "cannot squeeze an axis of size not equal to one")
        return T(self.reshape_node(a.node, a.shape[:j] + a.shape[j + 1 :]))

    def f_uprank(self, a, rank=2):
        r = len(self.shape(a))
        while r < rank:
            a = self.f_expand_dims(a, -1)
            r += 1
        return a

    def f_broadcast_to(self, a, *shape):
        a = self._arr(a)
        shape = tuple(si(undim(s)) for s in shape)
        n = a.node
        if len(n.shape) > len(shape):
            self.I.pyraise(ValueError, "input operand has more dimensions than allowed")
        for s, t in zip(reversed(n.shape), reversed(shape)):
            if s != 1 and s != t:
                self.I.pyraise(ValueError, "operands could not be broadcast together")
        return T(self.bcast(n, shape))

    def f_diag(self, a):
        r = len(self.shape(a))
        if r == 1:
            return self.f_diag_construct(a)
        if r == 2:
            return self.f_diag_extract(a)
        self.I.pyraise(ValueError, "input must be 1- or 2-d")

    def f_diag_construct(self, a):
        a = self._arr(a)
        n = a.node
        if len(n.shape) == 0:
            self.I.pyraise(ValueError, "input must have at least rank 1")
        return T(mk("diag_construct", None, (n,), n.shape + n.shape[-1:], n.dtype))

    def f_diag_extract(self, a):
        a = self._arr(a)
        n = a.node
        if len(n.shape) < 2:
            self.I.pyraise(ValueError, "diagonal requires an array of at least two dims")
        k = self.minsize(n.shape[-2], n.shape[-1])
        return T(mk("diag_extract", None, (n,), n.shape[:-2] + (k,), n.dtype))

    def f_stack(self, *xs, axis=0):
        if not xs:
            self.I.pyraise(ValueError, "need at least one array to stack")
        ns = [self._arr(x).node for x in xs]
        for n in ns:
            if n.shape != ns[0].shape:
                self.I.pyraise(ValueError, "all input arrays must have the same shape")
        j = self.ax(axis, len(ns[0].shape) + 1)
        s = ns[0].shape
        dt = promote_dt(*[n.dtype for n in ns])
        return T(mk("stack", j, ns, s[:j] + (len(ns),) + s[j:], dt))

    def f_unstack(self, a, axis=0, squeeze=True):
        a = self._arr(a)
        j = self.ax(axis, len(a.shape))
        k = a.shape[j]
        if not isinstance(k, int):
            raise Undecided("unstacking a symbolic axis")
        out = []
        for i in range(k):
            x = self.getitem(a, (slice(None),) * j + (i,))
            if not self.I.truth(squeeze):
                x = self.f_expand_dims(x, axis)
            out.append(x)
        return out

    def f_concat(self, *xs, axis=0):
        if not xs:
            self.I.pyraise(ValueError, "need at least one array to concatenate")
        ns = [self._arr(x).node for x in xs]
        r = len(ns[0].shape)
        if r == 0:
            self.I.pyraise(ValueError, "zero-dimensional arrays cannot be concatenated")
        j = self.ax(axis, r)
        for n in ns:
            if len(n.shape) != r or any(
                n.shape[i] != ns[0].shape[i] for i in range(r) if i != j
            ):
                self.I.pyraise(ValueError, "dimensions must match for concatenation")
        dt = promote_dt(*[n.dtype for n in ns])
        if len(ns) == 1:
            return T(ns[0])
        shape = list(ns[0].shape)
        for n in ns[1:]:
            shape[j] = si(shape[j] + n.shape[j])
        return T(mk("concat", j, ns, shape, dt))

    def f_concat2d(self, *rows):
        I = self.I
        c = I.getattr(self.module, "concat")
        rs = [I.call(c, list(r), {"axis": -1}) for r in rows]
        return I.call(c, rs, {"axis": -2})

    def f_tile(self, a, *reps):
        a = self._arr(a)
        n = a.node
        reps = [undim(r) for r in reps]
        r = max(len(reps), len(n.shape))
        reps = [1] * (r - len(reps)) + reps
        shape = (1,) * (r - len(n.shape)) + n.shape
        n = self.reshape_node(n, shape)
        if all(x == 1 for x in reps):
            return T(n)
        return T(
            mk(
                "tile",
                tuple(reps),
                (n,),
                tuple(si(s * q) for s, q in zip(shape, reps)),
                n.dtype,
            )
        )

    def f_take(self, a, idx, axis=0):
        I = self.I
        rank = I.call(I.getattr(self.module, "rank"), [idx], {})
        if rank != 1:
            I.pyraise(ValueError, "indices or mask must be rank 1")
        a = self._arr(a)
        j = self.resolve_axis(a, axis)
        return self.take_axis(a, idx, j)

    def f_submatrix(self, a, idx):
        a = self.f_take(a, idx, -1)
        return self.f_take(a, idx, -2)

    def f_trace(self, a, axis1=-2, axis2=-1):
        a = self._arr(a)
        r = len(a.shape)
        if r < 2:
            self.I.pyraise(ValueError, "trace")
        i, j = self.ax(axis1, r), self.ax(axis2, r)
        perm = [k for k in range(r) if k not in (i, j)] + [i, j]
        return self.f_sum(self.f_diag_extract(self.transpose(a, tuple(perm))), -1)

    def f_outer(self, a, b=None):
        I = self.I
        b = a if b is None else b
        a, b = self.f_uprank(a), self.f_uprank(b)
        return self.f_matmul(a, b, False, True)

    def f_isabstract(self, a):
        if not self.abstract_leaves or not isinstance(a, T):
            return False
        todo, seen = [a.node], set()
        while todo:
            m = todo.pop()
            if m.id in seen:
                continue
            seen.add(m.id)
            if m.op == "leaf" and m.par[0] in self.abstract_leaves:
                return True
            todo.extend(m.args)
        return False

    def f_full(self, v, dtype, *shape):
        return T(mk("full", v, (), tuple(undim(s) for s in shape), toDT(dtype).strong()))

    def f_eye(self, dtype, *shape):
        I = self.I
        shape = tuple(undim(s) for s in shape)
        if len(shape) < 2:
            I.pyraise(IndexError, "shape of identity matrix")
        n = T(mk("eye", None, (), shape[-2:], toDT(dtype).strong()))
        if len(shape) == 2:
            return n
        for _ in shape[:-2]:
            n = self.f_expand_dims(n, 0)
        return self.f_tile(n, *shape[:-2], 1, 1)

    def f_cast(self, dtype, a):
        d = toDT(dtype)
        n = self.node(a)
        if n.dtype == d:
            return a
        d = d.strong()
        if isinstance(a, T) and not a.num and n.dtype == d:
            return a
        return T(mk("cast", None, (n,), n.shape, d))

    def f_argsort(self, a, axis=-1, descending=False):
        I = self.I
        n = self.node(a)
        if len(n.shape) != 1 or not isinstance(n.shape[0], int):
            raise Undecided("argsort of a symbolic axis")
        k = n.shape[0]
        if k > 4:
            raise Undecided("argsort of many elements")
        out = []
        for i in range(k):
            # Insert `i`.
            j = len(out)
            while j > 0 and I.decide(("argsort", n.id, bool(descending), i, out[j - 1])):
                j -= 1
            out.insert(j, i)
        return self.constarr(out)

    def f_where(self, c, a, b):
        nc, na, nb = self.node(c), self.node(a), self.node(b)
        return T(
            mk(
                "where",
                None,
                (nc, na, nb),
                self.bshape(nc.shape, na.shape, nb.shape),
                promote_dt(na.dtype, nb.dtype).strong(),
            )
        )

    def f_to_numpy(self, *a):
        I = self.I
        f = self.fns["to_numpy"]
        if len(a) != 1:
            return tuple(I.call(f, [x], {}) for x in a)
        a = a[0]
        if isinstance(a, list):
            return [I.call(f, [x], {}) for x in a]
        if isinstance(a, tuple):
            return tuple(I.call(f, [x], {}) for x in a)
        if isinstance(a, dict):
            return {k: I.call(f, [x], {}) for k, x in a.items()}
        if isinstance(a, (T, int, float, Poly)):
            if isinstance(a, T):
                I.event("to_numpy", I.where())
            return a
        I.pyraise(TypeError, "cannot convert to NumPy")

    def f_jit_to_numpy(self, *a):
        I = self.I
        if I.use_cache:
            return I.call(self.control_flow.lib_getattr("get_outcome"), ["to_numpy"], {})
        r = I.call(self.fns["to_numpy"], list(a), {})
        I.call(self.control_flow.lib_getattr("set_outcome"), ["to_numpy", r], {})
        return r

    def f_dtypes(self, xs):
        ds = [toDT(self.I.call(self.fns["dtype"], [x], {})) for x in xs]
        if not ds:
            self.I.pyraise(NotFoundLookup, "promote_dtypes()")
        return self.f_promote_dtypes(*ds)

    def f_promote_dtypes(self, *ds):
        ds = [toDT(d) for d in ds]
        if len(ds) == 1:
            return ds[0]
        return promote_dt(*[d.strong() for d in ds])

    def f_issubdtype(self, a, b):
        a, b = toDT(a), toDT(b)
        k = {
            "bool": "bool",
            "pybool": "bool",
            "int64": "int",
            "pyint": "int",
        }
        kinds = {k.get(n, "float") for n in a.names}
        (bn,) = b.names
        if bn in ("bool", "pybool"):
            ok = {x == "bool" for x in kinds}
        elif bn in ("int64", "pyint", "abs:integer"):
            ok = {x == "int" for x in kinds}
        elif bn == "abs:floating":
            ok = {x == "float" for x in kinds}
        else:
            raise Undecided("issubdtype")
        if len(ok) > 1:
            return False
        return ok.pop()

    # Random numbers

    def f_set_grs(self, s):
        self.I.event("set_global_random_state", s.token, self.I.where())
        self.I.global_state = s

    def f_rand(self, name, s, d, *shape):
        I = self.I
        shape = tuple(undim(x) for x in shape)
        lf = mk("leaf", (f"{name}@{s.token}", "gen"), (), shape, d.strong())
        I.event("random", s.token, I.where())
        return (RState(s.token + "'"), T(lf))

    def _rand_global(self, name, d, *shape):
        s, x = self.f_rand(name, self.I.global_state, d, *shape)
        self.I.global_state = s
        return x


class _FnDispatch:
    def __init__(self, I, pf):
        self.I, self.pf = I, pf

    def lib_call(self, f=None, precedence=0):
        if f is None:
            return Prim("dispatch", lambda f: self.lib_call(f, precedence))
        return self.I.register(self.pf, f, precedence)

    def lib_getattr(self, name):
        raise Undecided(f"dispatch.{name}")


def _pp(x):
    return x if isinstance(x, Poly) else Poly.const(x)


UNMODELLED = """
tanh einsum vec_to_tril tril_to_vec logsumexp floor round cumsum prod std erf sin cos tan
arcsin arccos arctan cosh sinh relu softplus sigmoid expm logm toeplitz_solve eig pw_dists
pw_dists2 ew_dists ew_dists2 pw_sums pw_sums2 ew_sums ew_sums2 repeat linspace range cond
scan sort quantile randint randperm randcat choice randgamma randbeta bvn_cdf logbeta
loggamma digamma real imag complex isfinite nanmean gather move_axis flip square mod
leaky_relu xlogy index device to_active_device on_device jit variance scatter lazy_shapes
dtype_int default_dtype cholesky_retry_factor identity nansum dtype_complex
""".split()
