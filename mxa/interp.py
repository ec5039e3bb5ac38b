"""Abstract interpreter for the Python subset used by the repository.

The interpreter walks the syntax tree of the repository's current source. Tensors are
abstract values (terms over symbolic shapes); branches which depend on tensor values or
on unknown size comparisons are explored both ways.
"""
import ast
import builtins
import os

from fractions import Fraction

from . import plummodel as pm
from .core import DT, Model, Node, Undecided, close, const, mk, si
from .sizes import Order, Poly


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc, where=None):
        super().__init__(str(exc))
        self.exc = exc  # Native exception instance or `Obj`.
        self.where = where

    @property
    def cls(self):
        return self.exc.cls if isinstance(self.exc, Obj) else type(self.exc)


class ReturnSignal(Exception):
    def __init__(self, value):
        self.value = value


class BreakSignal(Exception):
    pass


class ContinueSignal(Exception):
    pass


class NotFoundLookup(LookupError):
    pass


class AmbiguousLookup(LookupError):
    pass


class Opaque:
    """An unknown value of the libraries. Any use is undecided."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class VStr(str):
    """A string with unknown parts."""


class UBool:
    """An unknown Boolean."""

    def __init__(self, key, facts=None, neg=False):
        self.key, self.facts, self.neg = key, facts, neg


class Env:
    __slots__ = ("vars", "parent", "globs", "nonlocals", "cls", "func")

    def __init__(self, parent=None, globs=None, cls=None, func=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.nonlocals = None
        self.cls = cls
        self.func = func

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)

    def assign(self, name, v):
        if self.nonlocals and name in self.nonlocals:
            if self.nonlocals[name] == "global":
                self.globs[name] = v
                return
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        self.vars[name] = v


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = [self]
        for b in bases:
            if isinstance(b, ClassVal):
                for c in b.mro:
                    if c not in self.mro:
                        self.mro.append(c)
            elif b is not object:
                self.mro.append(b)

    def find(self, name):
        for c in self.mro:
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name]
        raise KeyError(name)

    def native_base(self):
        for c in self.mro:
            if isinstance(c, type):
                return c
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class Obj:
    """An instance of a class of the repository."""

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.owner = None

    def __repr__(self):
        return f"<{self.cls.name}>"


class FuncVal:
    def __init__(self, node, env, module, name, cls=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.cls = cls
        self.defaults = []
        self.kwdefaults = {}
        self.props = None

    @property
    def where(self):
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<function {self.name}>"


class Bound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj


class Prim:
    """Function of a library, or a built-in function, with a native model."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<primitive {self.name}>"


class Property:
    def __init__(self, fget):
        self.fget = fget


class StaticM:
    def __init__(self, f, kind):
        self.f, self.kind = f, kind


class Invoked:
    """A method of a function selected by types."""

    def __init__(self, f, method):
        self.f, self.method = f, method


class ModuleVal:
    def __init__(self, name, relpath=None):
        self.name = name
        self.relpath = relpath
        self.ns = {}
        self.source = None

    def __repr__(self):
        return f"<module {self.name}>"


class TypeVal:
    """A type for dispatch."""

    def __init__(self, toks, name=None):
        self.toks = frozenset(toks)
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeVal) and self.toks == o.toks

    def __hash__(self):
        return hash(self.toks)


# Functions which do not compute an array.
VIEWS = {
    "broadcast_to", "broadcast_batch_to", "reshape", "transpose", "expand_dims", "squeeze", "uprank",
    "dense", "flatten", "to_numpy", "cast", "shape", "stack", "unstack", "jit_to_numpy",
}


class T:
    """A tensor value. `num` indicates a Python number."""

    __slots__ = ("node", "num", "owner")

    def __init__(self, node, num=False, owner=None):
        self.node, self.num, self.owner = node, num, owner

    @property
    def shape(self):
        return self.node.shape

    @property
    def dtype(self):
        return self.node.dtype

    def __repr__(self):
        return f"T({self.node!r})"


class VShape:
    """Shape of the library: iterates over dimensions."""

    def __init__(self, *dims):
        self.dims = tuple(undim(d) for d in dims)


class VDim:
    def __init__(self, dim):
        self.dim = dim


def undim(x):
    while isinstance(x, VDim):
        x = x.dim
    return x


class RState:
    """A random state."""

    def __init__(self, token):
        self.token = token


class Explorer:
    """Decisions on unknown conditions. If there are more than `max_paths` paths, then a
    fixed, spread-out selection of the paths is explored."""

    def __init__(self, max_paths=96):
        self.max_paths = max_paths
        self.truncated = False

    def run(self, interp, f):
        """Run `f` on all paths. Yields `(decisions, outcome)`."""
        pending = [[]]
        n = 0
        while pending:
            if n < self.max_paths // 2:
                script = pending.pop()
            else:
                script = pending.pop((n * 7919) % len(pending))
            n += 1
            if n > self.max_paths:
                self.truncated = True
                return
            interp.begin_path(script)
            out = f()
            # Schedule the alternatives of the decisions which were not scripted.
            made = interp.made
            for i in range(len(script), len(made)):
                pending.append([c for _, c in made[:i]] + [not made[i][1]])
            yield list(made), out


BINOPS = {
    ast.Add: "add",
    ast.Sub: "sub",
    ast.Mult: "mul",
    ast.Div: "div",
    ast.Pow: "pow",
    ast.MatMult: "matmul",
    ast.FloorDiv: "floordiv",
    ast.Mod: "mod",
    ast.BitOr: "or",
    ast.BitAnd: "and",
    ast.BitXor: "xor",
    ast.LShift: "lshift",
    ast.RShift: "rshift",
}
DUNDER = {
    "add": "__add__",
    "sub": "__sub__",
    "mul": "__mul__",
    "div": "__truediv__",
    "pow": "__pow__",
    "matmul": "__matmul__",
    "floordiv": "__floordiv__",
    "mod": "__mod__",
    "or": "__or__",
    "and": "__and__",
}
NATIVE_BIN = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b,
    "pow": lambda a, b: a**b,
    "floordiv": lambda a, b: a // b,
    "mod": lambda a, b: a % b,
    "or": lambda a, b: a | b,
    "and": lambda a, b: a & b,
    "xor": lambda a, b: a ^ b,
    "lshift": lambda a, b: a << b,
    "rshift": lambda a, b: a >> b,
}
CMPOPS = {
    ast.Eq: "eq",
    ast.NotEq: "ne",
    ast.Lt: "lt",
    ast.LtE: "le",
    ast.Gt: "gt",
    ast.GtE: "ge",
}
NATIVE_CMP = {
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
}
SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


class Interp:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.dispatchers = {}
        self.proven_level = 0
        self.steps = 0
        self.max_steps = 400000
        self.script, self.made, self.memo = [], [], {}
        self.events = []
        self.order = Order()
        self.base_order = Order()
        self.facts, self.zero_facts = [], []
        self.called = set()
        self.lines = set()
        self.stack = []
        self.promotion_rules = []
        self.conversions = []
        self.loading = False
        self.use_cache = False
        self.caching = False
        self.sizing = False
        self.outcomes = []
        self.n_states = 0
        self.global_state = RState("global")
        self.depth = 0
        self.class_list = []
        self.stats = {}
        self._ev, self._ex = {}, {}
        self.fast_str = False
        self.saved_state = []
        self.concrete = False
        from .labmodel import Lab

        from . import work

        self.work = work
        self.builtins = self._make_builtins()
        self.lab = Lab(self)

    # Paths

    def begin_path(self, script):
        self.restore_state()
        self.concrete = False
        self.script = list(script)
        self.made = []
        self.memo = {}
        self.events = []
        self.order = Order(self.base_order.less)
        self.facts, self.zero_facts = [], []
        self.steps = 0
        self.stack = []
        self.outcomes = []
        self.outcome_pos = -1
        self.n_states = 0
        self.global_state = RState("global")
        self.depth = 0

    def decide(self, key, n=2):
        concrete, self.concrete = self.concrete, False
        if key[0] != "pos" and not concrete:
            self.event("concrete", key, self.where())
        if key in self.memo:
            return self.memo[key]
        i = len(self.made)
        if i < len(self.script):
            v = self.script[i]
        else:
            v = True
        self.made.append((key, v))
        self.memo[key] = v
        return v

    def models(self, n=3, zeros=(), extra=()):
        """Models of the current path: the sizes respect the comparisons made."""
        from .core import NoSizes
        from .sizes import Poly, num

        signs = [
            (Poly({k: num(Fraction(c[0], c[1])) for k, c in key[1]}), v)
            for key, v in self.memo.items()
            if key[0] == "pos"
        ]
        found = 0
        for s in range(n if not signs else 8 * n + 120):
            try:
                m = Model(
                    self.order,
                    1000 * getattr(self, "seed", 1) + s,
                    facts=list(self.facts) + list(extra),
                    zeros=zeros,
                    signs=signs,
                    spread=3 if s < 2 * n else 3 + s // 8,
                )
            except NoSizes:
                continue
            yield m
            found += 1
            if found == n:
                return
        if not found:
            raise Undecided("no sizes of the path were found")

    def event(self, kind, *data):
        self.events.append((kind,) + data)

    def here(self):
        return self.stack[-1] if self.stack else None

    def pyraise(self, cls, msg=""):
        raise PyRaise(cls(msg), self.where())

    def where(self):
        for f, node in reversed(self.stack):
            if f is not None:
                return (
                    f.module.relpath,
                    getattr(node, "lineno", getattr(f.node, "lineno", 0)),
                    f.name,
                )
        return None

    # Modules

    def load_package(self, pkg):
        self.loading = True
        self.begin_path([])
        path = os.path.join(self.root, pkg, "__init__.py")
        m = self._load(pkg, path, is_pkg=True)
        self.loading = False
        self.save_state()
        return m

    # State of the modules: every path starts from the state after the import.

    def save_state(self):
        """Save the contents of all containers which outlive a call."""
        saved, seen = [], set()

        def add(x):
            if id(x) in seen:
                return
            seen.add(id(x))
            if isinstance(x, dict):
                saved.append((x, dict(x)))
                for v in list(x.values()):
                    add(v)
            elif isinstance(x, list):
                saved.append((x, list(x)))
                for v in x:
                    add(v)
            elif isinstance(x, set):
                saved.append((x, set(x)))
            elif isinstance(x, tuple):
                for v in x:
                    add(v)
            elif isinstance(x, FuncVal):
                add(x.defaults)
                add(x.kwdefaults)
                env = x.env
                while env is not None:
                    add(env.vars)
                    env = env.parent
            elif isinstance(x, ClassVal):
                add(x.ns)
            elif isinstance(x, Obj):
                add(x.attrs)
            elif isinstance(x, ModuleVal) and x.relpath is not None:
                add(x.ns)
            elif isinstance(x, (StaticM, Property)):
                add(x.f if isinstance(x, StaticM) else x.fget)
            elif isinstance(x, pm.PFunction):
                for m in x.methods:
                    add(m.impl)
            elif hasattr(x, "memo_table"):
                add(x.memo_table)

        for m in list(self.modules.values()):
            add(m)
        self.saved_state = saved

    def restore_state(self):
        for x, old in self.saved_state:
            if x != old if isinstance(x, set) else not same_items(x, old):
                x.clear()
                x.extend(old) if isinstance(x, list) else x.update(old)

    def _load(self, name, path, is_pkg):
        m = ModuleVal(name, os.path.relpath(path, self.root))
        m.is_pkg = is_pkg
        self.modules[name] = m
        with open(path) as f:
            m.source = f.read()
        tree = ast.parse(m.source, path)
        m.tree = tree
        m.ns["__name__"] = name
        env = Env(None, m.ns)
        env.vars = m.ns
        self.stack.append((FuncVal(tree, env, m, "<module>"), tree))
        self.exec_block(tree.body, env, m)
        self.stack.pop()
        if "." in name:
            parent, child = name.rsplit(".", 1)
            if parent in self.modules:
                self.modules[parent].ns[child] = m
        return m

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(os.path.join(self.root, top)) and (
            os.path.isfile(base + ".py") or os.path.isdir(base)
        ):
            if "." in name:
                self.import_module(name.rsplit(".", 1)[0])
                if name in self.modules:
                    return self.modules[name]
            if os.path.isfile(base + ".py"):
                return self._load(name, base + ".py", False)
            init = os.path.join(base, "__init__.py")
            if os.path.isfile(init):
                return self._load(name, init, True)
            raise Undecided(f"no module {name}")
        m = self.lab.library(name)
        self.modules[name] = m
        return m

    def _relative(self, module, level, name):
        if level == 0:
            return name
        parts = module.name.split(".")
        if not module.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([name] if name else []))

    # Statements

    def exec_block(self, body, env, module):
        for s in body:
            self.exec(s, env, module)

    def exec(self, s, env, module):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("too many steps")
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], s)
        t = type(s)
        f = self._ex.get(t)
        if f is None:
            f = self._ex[t] = getattr(self, "x_" + t.__name__, self._x_unsupported)
        f(s, env, module)

    def _x_unsupported(self, s, env, module):
        raise Undecided(f"unsupported statement {type(s).__name__}")

    def x_Expr(self, s, env, module):
        self.eval(s.value, env, module)

    def x_Pass(self, s, env, module):
        pass

    def x_Return(self, s, env, module):
        raise ReturnSignal(
            None if s.value is None else self.eval(s.value, env, module)
        )

    def x_Assign(self, s, env, module):
        v = self.eval(s.value, env, module)
        for t in s.targets:
            self.assign(t, v, env, module)

    def x_AnnAssign(self, s, env, module):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env, module), env, module)

    def x_AugAssign(self, s, env, module):
        op = BINOPS[type(s.op)]
        cur = self.eval(_load(s.target), env, module)
        v = self.eval(s.value, env, module)
        if isinstance(cur, T) and not cur.num and cur.shape != ():
            # In-place operation on an array.
            new = self.binop(op, cur, v)
            if not isinstance(new, T) or new.shape != cur.shape:
                self.pyraise(ValueError, "in-place operation")
            self.mutate_tensor(cur, new.node)
            self.assign(s.target, cur, env, module)
            return
        if isinstance(cur, list) and op == "add":
            cur.extend(self.iterate(v))
            self.assign(s.target, cur, env, module)
            return
        self.assign(s.target, self.binop(op, cur, v), env, module)

    def mutate_tensor(self, t, node):
        if t.owner is not None:
            self.event("mutate", t.owner, "in-place operation", self.where())
        t.node = node

    def assign(self, t, v, env, module):
        if isinstance(t, ast.Name):
            env.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.pyraise(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env, module)
                self.assign(
                    t.elts[i].value, vals[i : len(vals) - after], env, module
                )
                for e, x in zip(t.elts[i + 1 :], vals[len(vals) - after :]):
                    self.assign(e, x, env, module)
            else:
                if len(vals) != len(t.elts):
                    self.pyraise(ValueError, "wrong number of values to unpack")
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env, module)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env, module), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, module)
            i = self.eval(t.slice, env, module)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v)), env, module)
        else:
            raise Undecided("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if o.owner is not None:
                self.event("setattr", o, name, v, self.where())
            o.attrs[name] = v
        elif isinstance(o, ModuleVal):
            o.ns[name] = v
        elif isinstance(o, ClassVal):
            o.ns[name] = v
        elif isinstance(o, FuncVal):
            o.props = dict(o.props or {}, **{name: v})
        elif hasattr(o, "lib_setattr"):
            o.lib_setattr(name, v)
        else:
            raise Undecided(f"setting attribute {name}")

    def setitem(self, o, i, v):
        if isinstance(o, T):
            self.mutate_tensor(o, self.lab.setitem(o, i, v))
        elif isinstance(o, (list, dict)):
            i = undim(i)
            if isinstance(i, T):
                raise Undecided("symbolic list index")
            try:
                o[i] = v
            except (IndexError, TypeError) as e:
                raise PyRaise(e, self.where())
        elif isinstance(o, Obj):
            self.call_method(o, "__setitem__", [i, v])
        else:
            self.pyraise(TypeError, "item assignment")

    def x_Delete(self, s, env, module):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env, module)
                i = undim(self.eval(t.slice, env, module))
                try:
                    del o[i]
                except Exception as e:
                    if isinstance(e, (IndexError, KeyError, TypeError)):
                        raise PyRaise(e, self.where())
                    raise
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env, module)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    self.event("setattr", o, t.attr, None, self.where())
                    del o.attrs[t.attr]
                else:
                    raise Undecided("delete attribute")
            else:
                raise Undecided("delete")

    def x_If(self, s, env, module):
        if self.truth(self.eval(s.test, env, module)):
            self.exec_block(s.body, env, module)
        else:
            self.exec_block(s.orelse, env, module)

    def x_While(self, s, env, module):
        n = 0
        while self.truth(self.eval(s.test, env, module)):
            n += 1
            if n > 200:
                raise Undecided("too many iterations")
            try:
                self.exec_block(s.body, env, module)
            except BreakSignal:
                return
            except ContinueSignal:
                continue
        self.exec_block(s.orelse, env, module)

    def x_For(self, s, env, module):
        for v in self.iterate(self.eval(s.iter, env, module)):
            self.assign(s.target, v, env, module)
            try:
                self.exec_block(s.body, env, module)
            except BreakSignal:
                return
            except ContinueSignal:
                continue
        self.exec_block(s.orelse, env, module)

    def x_Break(self, s, env, module):
        raise BreakSignal()

    def x_Continue(self, s, env, module):
        raise ContinueSignal()

    def x_Global(self, s, env, module):
        env.nonlocals = dict(env.nonlocals or {}, **{n: "global" for n in s.names})

    def x_Nonlocal(self, s, env, module):
        env.nonlocals = dict(env.nonlocals or {}, **{n: "nonlocal" for n in s.names})

    def x_Raise(self, s, env, module):
        if s.exc is None:
            raise Undecided("bare raise") if not getattr(
                self, "_handling", None
            ) else self._handling[-1]
        e = self.eval(s.exc, env, module)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        elif isinstance(e, ClassVal):
            e = self.call(e, [], {})
        raise PyRaise(e, self.where())

    def x_Assert(self, s, env, module):
        if not self.truth(self.eval(s.test, env, module)):
            if s.msg is not None:
                self.eval(s.msg, env, module)
            raise PyRaise(AssertionError("assertion"), self.where())

    def x_Try(self, s, env, module):
        try:
            try:
                self.exec_block(s.body, env, module)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.eval(h.type, env, module)
                        ok = self.exc_match(e, ty)
                    if ok:
                        if h.name:
                            env.assign(h.name, e.exc)
                        self._handling = getattr(self, "_handling", []) + [e]
                        try:
                            self.exec_block(h.body, env, module)
                        finally:
                            self._handling = self._handling[:-1]
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env, module)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, env, module)

    def exc_match(self, e, ty):
        if isinstance(ty, tuple):
            return any(self.exc_match(e, t) for t in ty)
        if isinstance(e.exc, Obj):
            if isinstance(ty, ClassVal):
                return ty in e.exc.cls.mro
            nb = e.exc.cls.native_base()
            return isinstance(ty, type) and nb is not None and issubclass(nb, ty)
        return isinstance(ty, type) and isinstance(e.exc, ty)

    def x_With(self, s, env, module):
        exits = []
        for item in s.items:
            m = self.eval(item.context_expr, env, module)
            v = self.call(self.getattr(m, "__enter__"), [], {})
            exits.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env, module)
        try:
            self.exec_block(s.body, env, module)
        finally:
            for m in reversed(exits):
                self.call(self.getattr(m, "__exit__"), [None, None, None], {})

    def x_Import(self, s, env, module):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                env.assign(a.asname, m)
            else:
                top = a.name.split(".")[0]
                env.assign(top, self.import_module(top))

    def x_ImportFrom(self, s, env, module):
        if s.module == "__future__":
            module.future_annotations = True
            return
        name = self._relative(module, s.level, s.module)
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                names = m.ns.get("__all__")
                if names is None:
                    names = [n for n in m.ns if not n.startswith("_")]
                for n in names:
                    env.assign(n, self.from_module(m, n))
            else:
                env.assign(a.asname or a.name, self.from_module(m, a.name))

    def from_module(self, m, n):
        try:
            return self.getattr(m, n)
        except PyRaise:
            sub = m.name + "." + n
            return self.import_module(sub)

    def x_FunctionDef(self, s, env, module):
        f = self.make_func(s, env, module, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env, module), [v], {})
        env.assign(s.name, v)

    def make_func(self, s, env, module, name):
        # Functions in class bodies do not close over the class.
        fenv = env
        while fenv is not None and fenv.cls is not None:
            fenv = fenv.parent
        f = FuncVal(s, fenv, module, name, env.cls)
        f.defaults = [self.eval(d, env, module) for d in s.args.defaults]
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                f.kwdefaults[a.arg] = self.eval(d, env, module)
        f.def_env = env
        f.is_gen = not isinstance(s, ast.Lambda) and _has_yield(s)
        return f

    def x_ClassDef(self, s, env, module):
        bases = [self.eval(b, env, module) for b in s.bases]
        cenv = Env(env, module.ns)
        cls = ClassVal(s.name, [b for b in bases if b is not object], cenv.vars, module)
        cls.where = f"{module.relpath}:{s.lineno}"
        cls.node = s
        cenv.cls = cls
        self.exec_block(s.body, cenv, module)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env, module), [v], {})
        env.assign(s.name, v)
        self.class_list.append(cls)

    # Expressions

    def eval(self, e, env, module):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("too many steps")
        t = type(e)
        f = self._ev.get(t)
        if f is None:
            f = self._ev[t] = getattr(self, "e_" + t.__name__, self._e_unsupported)
        return f(e, env, module)

    def _e_unsupported(self, e, env, module):
        raise Undecided(f"unsupported expression {type(e).__name__}")

    def e_Constant(self, e, env, module):
        return e.value

    def e_Name(self, e, env, module):
        name = e.id
        fr = env
        while fr is not None:
            if name in fr.vars:
                return fr.vars[name]
            fr = fr.parent
        if name in module.ns:
            return module.ns[name]
        if e.id in self.builtins:
            return self.builtins[e.id]
        if hasattr(builtins, e.id):
            v = getattr(builtins, e.id)
            if isinstance(v, type) and issubclass(v, BaseException):
                return v
            raise Undecided(f"built-in {e.id}")
        self.pyraise(NameError, e.id)

    def e_Attribute(self, e, env, module):
        return self.getattr(self.eval(e.value, env, module), e.attr)

    def e_Tuple(self, e, env, module):
        return tuple(self._elts(e.elts, env, module))

    def e_List(self, e, env, module):
        return self._elts(e.elts, env, module)

    def e_Set(self, e, env, module):
        return set(undim(x) for x in self._elts(e.elts, env, module))

    def e_Dict(self, e, env, module):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.eval(v, env, module))
            else:
                out[self.eval(k, env, module)] = self.eval(v, env, module)
        return out

    def _elts(self, elts, env, module):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env, module)))
            else:
                out.append(self.eval(x, env, module))
        return out

    def e_Starred(self, e, env, module):
        raise Undecided("starred")

    def e_NamedExpr(self, e, env, module):
        v = self.eval(e.value, env, module)
        self.assign(e.target, v, env, module)
        return v

    def e_JoinedStr(self, e, env, module):
        out, unknown = "", False
        for v in e.values:
            x = self.eval(v, env, module)
            unknown = unknown or isinstance(x, VStr)
            out += x
        return VStr(out) if unknown else out

    def e_FormattedValue(self, e, env, module):
        v = self.eval(e.value, env, module)
        if e.conversion == ord("r"):
            return self.to_str(v, "__repr__")
        return self.to_str(v)

    def to_str(self, v, meth="__str__"):
        if isinstance(v, (str, int, float, bool, type(None))) and not isinstance(
            v, VStr
        ):
            return repr(v) if meth == "__repr__" else str(v)
        if isinstance(v, VStr):
            return v
        if isinstance(v, Obj):
            if self.fast_str:
                return VStr(f"‹{v.cls.name}›")
            if getattr(self, "in_str", 0) > 6:
                return VStr("…")
            try:
                self.in_str = getattr(self, "in_str", 0) + 1
                out = self.call_method(v, meth, [])
            finally:
                self.in_str -= 1
            return out if isinstance(out, str) else VStr("…")
        if isinstance(v, (tuple, list)):
            parts = [self.to_str(x, "__repr__") for x in v]
            return VStr("(" + ", ".join(parts) + ")")
        if isinstance(v, VShape):
            return VStr(
                "("
                + ", ".join(self.to_str(x, "__repr__") for x in v.dims)
                + ("," if len(v.dims) == 1 else "")
                + ")"
            )
        if isinstance(v, VDim):
            return self.to_str(v.dim)
        if isinstance(v, ClassVal):
            return v.name
        return VStr(f"‹{type(v).__name__}:{v!r}›" if isinstance(v, (Poly, DT)) else "‹…›")

    def e_UnaryOp(self, e, env, module):
        v = self.eval(e.operand, env, module)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        v = undim(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Poly):
                return si(-v)
            if isinstance(v, T):
                return self.lab.unary("neg", v)
            if isinstance(v, Obj):
                return self.call_method(v, "__neg__", [])
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, T):
                return self.lab.unary("not", v)
            return ~v
        raise Undecided("unary operator")

    def e_BinOp(self, e, env, module):
        a = self.eval(e.left, env, module)
        b = self.eval(e.right, env, module)
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], e)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        a, b = undim(a), undim(b)
        if isinstance(a, (TypeVal, ClassVal)) or isinstance(b, (TypeVal, ClassVal)):
            if op == "or":
                return TypeVal(self.totype(a) | self.totype(b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                d = DUNDER.get(op)
                if d is not None and self.has_method(a, d):
                    r = self.call_method(a, d, [b])
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                d = DUNDER.get(op)
                if d is not None:
                    d = "__r" + d[2:]
                    if self.has_method(b, d):
                        if isinstance(a, T) and not a.num:
                            # Left operand is an array: the array would broadcast
                            # over the object.
                            raise Undecided("array on the left of an operator")
                        return self.call_method(b, d, [a])
            self.pyraise(TypeError, f"unsupported operand types for {op}")
        if isinstance(a, T) or isinstance(b, T):
            if not isinstance(a, (T, int, float, Poly)) or not isinstance(
                b, (T, int, float, Poly)
            ):
                self.pyraise(TypeError, f"unsupported operand types for {op}")
            if op == "matmul":
                return self.lab.matmul(a, b)
            return self.lab.binary(op, a, b)
        if isinstance(a, Poly) or isinstance(b, Poly):
            if isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str)):
                raise Undecided("repetition with a symbolic count")
            return self.poly_op(op, a, b)
        if isinstance(a, VShape) or isinstance(b, VShape):
            if op == "add":
                return VShape(*self.iterate(a), *self.iterate(b))
            self.pyraise(TypeError, "shape operation")
        if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)):
            raise Undecided("operation on an opaque value")
        if isinstance(a, VStr) or isinstance(b, VStr):
            if op == "add" and isinstance(a, str) and isinstance(b, str):
                return VStr(str(a) + str(b))
            if op == "mod":
                return VStr("…")
        try:
            return NATIVE_BIN[op](a, b)
        except (TypeError, ValueError, ZeroDivisionError) as e:
            raise PyRaise(e, self.where())

    def poly_op(self, op, a, b):
        if op == "add":
            return si(_p(a) + _p(b))
        if op == "sub":
            return si(_p(a) - _p(b))
        if op == "mul":
            if isinstance(a, float) or isinstance(b, float):
                return self.lab.binary(op, a, b)
            return si(_p(a) * _p(b))
        if op == "floordiv":
            q = _p(a).divide(_p(b))
            if q is None:
                raise Undecided("floor division of sizes")
            return si(q)
        if op == "pow" and isinstance(b, int) and b >= 0:
            out = Poly.const(1)
            for _ in range(b):
                out = out * _p(a)
            return si(out)
        if op == "div":
            return self.lab.binary(op, a, b)
        raise Undecided(f"size operation {op}")

    def e_BoolOp(self, e, env, module):
        v = None
        for x in e.values:
            v = self.eval(x, env, module)
            if isinstance(e.op, ast.And):
                if not self.truth(v):
                    return v if not isinstance(v, UBool) else False
            else:
                if self.truth(v):
                    return v if not isinstance(v, UBool) else True
        return v

    def e_Compare(self, e, env, module):
        left = self.eval(e.left, env, module)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env, module)
            res = self.compare(op, left, right)
            if len(e.ops) > 1 and not self.truth(res):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.truth(self.contains(b, a))
        return self.cmp(CMPOPS[type(op)], a, b)

    def is_(self, a, b):
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, UBool) or isinstance(b, UBool):
                raise Undecided("identity of an unknown Boolean")
            return a is b
        if isinstance(a, T) and isinstance(b, T):
            return a is b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return a is b

    def contains(self, c, x):
        x = undim(x)
        if isinstance(c, (set, dict, str)) and isinstance(x, (int, str, type(None))):
            return x in c
        for y in self.iterate(c):
            if self.truth(self.cmp("eq", x, y)):
                return True
        return False

    def cmp(self, op, a, b):
        a, b = undim(a), undim(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Undecided("comparison of an opaque value")
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, other = (a, b) if isinstance(a, Obj) else (b, a)
            d = "__" + (op if isinstance(a, Obj) else SWAP[op]) + "__"
            if self.has_method(o, d):
                return self.call_method(o, d, [other])
            if op == "eq":
                return a is b
            if op == "ne":
                return a is not b
            self.pyraise(TypeError, "comparison")
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, (type(None), str, tuple)) or isinstance(
                b, (type(None), str, tuple)
            ):
                if op in ("eq", "ne"):
                    return op == "ne"
                self.pyraise(TypeError, "comparison")
            return self.lab.compare(op, a, b)
        if isinstance(a, (VShape, tuple, list)) and isinstance(
            b, (VShape, tuple, list)
        ):
            if op in ("eq", "ne"):
                if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                    if isinstance(a, tuple) != isinstance(b, tuple):
                        return op == "ne"
                xs, ys = list(self.iterate(a)), list(self.iterate(b))
                r = len(xs) == len(ys) and all(
                    self.truth(self.cmp("eq", x, y)) for x, y in zip(xs, ys)
                )
                return r if op == "eq" else not r
        if isinstance(a, (Poly, int, float)) and isinstance(b, (Poly, int, float)):
            if isinstance(a, Poly) or isinstance(b, Poly):
                return self.cmp_poly(op, a, b)
        if isinstance(a, UBool) or isinstance(b, UBool):
            a = self.truth(a) if isinstance(a, UBool) else a
            b = self.truth(b) if isinstance(b, UBool) else b
        if isinstance(a, VStr) or isinstance(b, VStr):
            raise Undecided("comparison of an unknown string")
        try:
            return NATIVE_CMP[op](a, b)
        except TypeError as e:
            raise PyRaise(e, self.where())

    def cmp_poly(self, op, a, b):
        from fractions import Fraction

        d = _p(a if not isinstance(a, float) else Fraction(a)) - _p(
            b if not isinstance(b, float) else Fraction(b)
        )
        s = self.order.sign(d)
        if op in ("eq", "ne"):
            # Distinct atoms are generic.
            eq = not d.t
            return eq if op == "eq" else not eq
        if s is None:
            s = 1 if self.decide(("pos", d.key())) else -1
            if ("pos", d.key()) in self.memo:
                self.memo[("pos", (-d).key())] = s < 0
            self._order_fact(d, s)
        return NATIVE_CMP[op](s, 0)

    def _order_fact(self, d, s):
        if s < 0:
            d = -d
        # `d > 0`. If `d` is a difference of atoms, then record it.
        if len(d.t) == 2:
            pos = [k for k, v in d.t.items() if v == 1 and len(k) == 1]
            neg = [k for k, v in d.t.items() if v == -1 and len(k) == 1]
            if len(pos) == 1 and len(neg) == 1:
                self.order = Order(self.order.less | {(neg[0][0], pos[0][0])})

    def truth(self, v):
        v = undim(v)
        if v is None or isinstance(v, (bool, int, float, str, tuple, list, dict, set)):
            return bool(v)
        if isinstance(v, UBool):
            r = self.decide(v.key)
            return r != v.neg
        if isinstance(v, Poly):
            return True
        if isinstance(v, T):
            return self.lab.truth(v)
        if isinstance(v, VShape):
            return len(v.dims) > 0
        if isinstance(v, Obj):
            if self.has_method(v, "__bool__"):
                return self.truth(self.call_method(v, "__bool__", []))
            if self.has_method(v, "__len__"):
                return self.truth(self.call_method(v, "__len__", []))
            return True
        if isinstance(v, Opaque):
            raise Undecided("truth of an opaque value")
        return True

    def e_IfExp(self, e, env, module):
        if self.truth(self.eval(e.test, env, module)):
            return self.eval(e.body, env, module)
        return self.eval(e.orelse, env, module)

    def e_Lambda(self, e, env, module):
        return self.make_func(e, env, module, "<lambda>")

    def e_Slice(self, e, env, module):
        return slice(
            *[
                None if x is None else undim(self.eval(x, env, module))
                for x in (e.lower, e.upper, e.step)
            ]
        )

    def e_Subscript(self, e, env, module):
        o = self.eval(e.value, env, module)
        i = self.eval(e.slice, env, module)
        return self.getitem(o, i)

    def getitem(self, o, i):
        i = undim(i)
        if isinstance(o, T):
            return self.lab.getitem(o, i)
        if isinstance(o, Obj):
            return self.call_method(o, "__getitem__", [i])
        if isinstance(o, VShape):
            if isinstance(i, slice):
                return VShape(*o.dims[self._slice(i)])
            try:
                return VDim(o.dims[self._index(i)])
            except IndexError as e:
                raise PyRaise(e, self.where())
        if isinstance(o, (tuple, list, str)):
            if isinstance(i, slice):
                return o[self._slice(i)]
            try:
                return o[self._index(i)]
            except (IndexError, TypeError) as e:
                raise PyRaise(e, self.where())
        if isinstance(o, range):
            return o[i]
        if isinstance(o, dict):
            try:
                return o[i]
            except KeyError as e:
                raise PyRaise(e, self.where())
        if hasattr(o, "lib_getitem"):
            return o.lib_getitem(i)
        if isinstance(o, Prim) or o in (tuple, list, dict, set, type):
            return self.lab.type_getitem(o, i)
        raise Undecided(f"item of {o!r}")

    def _index(self, i):
        if isinstance(i, T):
            raise Undecided("symbolic index")
        if isinstance(i, Poly):
            raise Undecided("symbolic index")
        if not isinstance(i, int):
            raise TypeError("index")
        return i

    def _slice(self, s):
        out = []
        for x in (s.start, s.stop, s.step):
            x = undim(x)
            if isinstance(x, (T, Poly)):
                raise Undecided("symbolic slice of a sequence")
            out.append(x)
        return slice(*out)

    def e_ListComp(self, e, env, module):
        out = []
        self._comp(
            e.generators, 0, env, module, lambda c: out.append(self.eval(e.elt, c, module))
        )
        return out

    def e_SetComp(self, e, env, module):
        return set(self.e_ListComp(e, env, module))

    def e_GeneratorExp(self, e, env, module):
        # Generators are evaluated eagerly, except that `any` and `all` are lazy.
        return LazyGen(self, e, env, module)

    def e_DictComp(self, e, env, module):
        out = {}

        def add(c):
            k = self.eval(e.key, c, module)
            out[k] = self.eval(e.value, c, module)

        self._comp(e.generators, 0, env, module, add)
        return out

    def _comp(self, gens, i, env, module, f):
        if i == len(gens):
            f(env)
            return
        g = gens[i]
        for v in self.iterate(self.eval(g.iter, env, module)):
            c = Env(env, module.ns)
            self.assign(g.target, v, c, module)
            if all(self.truth(self.eval(t, c, module)) for t in g.ifs):
                self._comp(gens, i + 1, c, module, f)

    def _comp_iter(self, gens, i, env, module, elt):
        if i == len(gens):
            yield self.eval(elt, env, module)
            return
        g = gens[i]
        for v in self.iterate(self.eval(g.iter, env, module)):
            c = Env(env, module.ns)
            self.assign(g.target, v, c, module)
            if all(self.truth(self.eval(t, c, module)) for t in g.ifs):
                yield from self._comp_iter(gens, i + 1, c, module, elt)

    def iterate(self, v):
        if isinstance(v, (tuple, list, set, dict, range, str)):
            return list(v)
        if isinstance(v, LazyGen):
            return iter(v)
        if isinstance(v, VShape):
            return [VDim(d) for d in v.dims]
        if isinstance(v, VDim):
            return self.iterate(v.dim)
        if isinstance(v, T):
            if v.shape == ():
                self.pyraise(TypeError, "iteration over a 0-d array")
            if not isinstance(v.shape[0], int):
                raise Undecided("iteration over a symbolic axis")
            return [self.lab.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, Obj):
            if self.has_method(v, "__iter__"):
                return self.iterate(self.call_method(v, "__iter__", []))
            if self.has_method(v, "__getitem__"):
                # Old iteration protocol.
                raise Undecided("iteration over a matrix")
        if hasattr(v, "__next__"):
            return v
        if isinstance(v, (int, float, bool, type(None), Poly)):
            self.pyraise(TypeError, "object is not iterable")
        raise Undecided(f"iteration over {v!r}")

    def e_Yield(self, e, env, module):
        v = None if e.value is None else self.eval(e.value, env, module)
        env.lookup("$yield").append(v)
        return None

    def e_Await(self, e, env, module):
        raise Undecided("await")

    # Calls

    def e_Call(self, e, env, module):
        f = self.eval(e.func, env, module)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env, module)))
            else:
                args.append(self.eval(a, env, module))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, env, module))
            else:
                kw[k.arg] = self.eval(k.value, env, module)
        if isinstance(f, Prim) and f.name == "super":
            if not args:
                fr = env
                while fr is not None and fr.func is None:
                    fr = fr.parent
                fn = fr.func
                selfv = fr.vars[fn.node.args.args[0].arg]
                return Super(fn.cls, selfv)
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], e)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, pm.PFunction):
            return self.call_plum(f, args, kw)
        if isinstance(f, Prim):
            return f.f(*args, **kw)
        if isinstance(f, Bound):
            return self.call(f.f, [f.obj] + list(args), kw)
        if isinstance(f, Invoked):
            return self.call_impl(f.f, f.method, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, type):
            return self.native_type(f, args, kw)
        if isinstance(f, Obj):
            return self.call_method(f, "__call__", args, kw)
        if hasattr(f, "lib_call"):
            return f.lib_call(*args, **kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Opaque):
            raise Undecided(f"call of {f!r}")
        if f is None or isinstance(f, (int, float, str, tuple, list, T, Poly)):
            self.pyraise(TypeError, "object is not callable")
        raise Undecided(f"call of {f!r}")

    def native_type(self, f, args, kw):
        if issubclass(f, BaseException):
            return f(*[str(a) if isinstance(a, str) else "…" for a in args])
        g = self.lab.native_types.get(f)
        if g is None:
            raise Undecided(f"call of {f!r}")
        return g(*args, **kw)

    def instantiate(self, cls, args, kw):
        nb = cls.native_base()
        if nb is not None and not (issubclass(nb, BaseException)):
            raise Undecided(f"instance of a subclass of {nb!r}")
        o = Obj(cls)
        try:
            init = cls.find("__init__")
        except KeyError:
            o.attrs["args"] = tuple(args)
            return o
        self.call(init, [o] + list(args), kw)
        return o

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise PyRaise(RecursionError("recursion"), self.where())
        self.called.add((f.module.relpath, f.name, getattr(f.node, "lineno", 0)))
        env = Env(f.env, f.module.ns, func=f)
        self.stack.append((f, f.node))
        try:
            self.bind(f, args, kw, env)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env, f.module)
            if f.is_gen:
                env.vars["$yield"] = []
                try:
                    self.exec_block(f.node.body, env, f.module)
                except ReturnSignal:
                    pass
                return env.vars["$yield"]
            try:
                self.exec_block(f.node.body, env, f.module)
            except ReturnSignal as r:
                return r.value
            return None
        finally:
            self.stack.pop()
            self.depth -= 1

    def bind(self, f, args, kw, env):
        a = f.node.args
        kw = dict(kw)
        pos = list(a.posonlyargs) + list(a.args)
        vals = list(args)
        n = len(pos)
        if len(vals) > n and a.vararg is None:
            self.pyraise(
                TypeError, f"{f.name}() takes {n} positional arguments but more given"
            )
        for i, p in enumerate(pos):
            if i < len(vals):
                if p.arg in kw:
                    self.pyraise(TypeError, f"multiple values for argument {p.arg}")
                env.vars[p.arg] = vals[i]
            elif p.arg in kw:
                env.vars[p.arg] = kw.pop(p.arg)
            else:
                j = i - (n - len(f.defaults))
                if j < 0:
                    self.pyraise(
                        TypeError, f"{f.name}() missing argument {p.arg!r}"
                    )
                env.vars[p.arg] = f.defaults[j]
        if a.vararg is not None:
            env.vars[a.vararg.arg] = tuple(vals[n:])
        for p in a.kwonlyargs:
            if p.arg in kw:
                env.vars[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env.vars[p.arg] = f.kwdefaults[p.arg]
            else:
                self.pyraise(TypeError, f"{f.name}() missing keyword {p.arg!r}")
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = kw
        elif kw:
            self.pyraise(
                TypeError, f"{f.name}() got unexpected keyword {sorted(kw)[0]!r}"
            )

    # Dispatch

    def token(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, T):
            return "float" if v.num else "array"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, (int, Poly)):
            return "int"
        if isinstance(v, float):
            return "float"
        if isinstance(v, complex):
            return "complex"
        if isinstance(v, VDim):
            return "dimension"
        if isinstance(v, VShape):
            return "shape"
        if v is None:
            return "none"
        if isinstance(v, str):
            return "str"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, list):
            return "list"
        if isinstance(v, LazyGen):
            return "generator"
        if isinstance(v, dict):
            return "dict"
        if isinstance(v, set):
            return "set"
        if isinstance(v, slice):
            return "slice"
        if isinstance(v, DT):
            return "dtype"
        if isinstance(v, (type, ClassVal)):
            return "type"
        if isinstance(v, UBool):
            return "bool"
        if isinstance(v, RState):
            return "randomstate"
        if v is Ellipsis:
            return "ellipsis"
        if isinstance(v, (FuncVal, Prim, pm.PFunction, Bound, Invoked)):
            return "function"
        return "other"

    def match(self, v, ty):
        if "any" in ty or "object" in ty:
            return True
        t = self.token(v)
        if t in ty:
            return True
        if isinstance(t, ClassVal):
            return any(c in ty for c in t.mro)
        if t in ("tuple", "list"):
            for k in ty:
                if isinstance(k, tuple) and k[0] == t:
                    if t == "list":
                        if all(self.match(x, k[1]) for x in v):
                            return True
                    elif len(k[1]) == len(v) and all(
                        self.match(x, y) for x, y in zip(v, k[1])
                    ):
                        return True
        return False

    def totype(self, v):
        """Convert an annotation to a type for dispatch."""
        if isinstance(v, TypeVal):
            return v.toks
        if isinstance(v, ClassVal):
            return frozenset([v])
        if v is None or v is type(None):
            return frozenset(["none"])
        if isinstance(v, type):
            return self.lab.native_toks(v)
        if isinstance(v, str):
            raise Undecided("string annotation")
        if isinstance(v, Prim) and v.name in ("Any",):
            return pm.ANY
        if isinstance(v, Prim) and v.name in ("type", "object"):
            return frozenset([v.name])
        raise Undecided(f"annotation {v!r}")

    def signatures(self, f, prec=0, types=None):
        """Signatures of a function definition: one for every number of defaults."""
        a = f.node.args
        pos = list(a.posonlyargs) + list(a.args)
        env = f.def_env

        def ann(p):
            if p.annotation is None:
                return pm.ANY
            v = self.eval(p.annotation, env, f.module)
            if isinstance(v, str):
                v = self.eval(ast.parse(v, mode="eval").body, env, f.module)
            return self.totype(v)

        tys = [ann(p) for p in pos]
        var = ann(a.vararg) if a.vararg is not None else None
        sigs = [pm.Sig(tys, var, prec)]
        for _ in f.defaults:
            tys = tys[:-1]
            sigs.append(pm.Sig(tys, None, prec))
        return sigs

    def register(self, pf, f, prec=0, types=None):
        where = getattr(f, "where", "?")
        if types is not None:
            sigs = [pm.Sig([self.totype(t) for t in ts], None, prec) for ts in types]
        elif isinstance(f, (Invoked, pm.PFunction)):
            raise Undecided("dispatch of a non-function")
        else:
            sigs = self.signatures(f, prec)
        for s in sigs:
            pf.register(pm.Method(s, f, where))
        return pf

    def resolve_call(self, pf, args):
        key = None
        if not any(isinstance(a, (tuple, list)) for a in args):
            key = tuple(self.token(a) for a in args)
            if key in pf.cache:
                return pf.cache[key]
        try:
            m = pm.resolve(
                pf.methods, lambda m: m.sig.matches(args, self.match), pf.name
            )
        except pm.NotFound:
            self.event(
                "lookup",
                "not found",
                pf.name,
                tuple(self.tokname(a) for a in args),
                self.where(),
            )
            raise PyRaise(
                NotFoundLookup(
                    f"{pf.name}({', '.join(self.tokname(a) for a in args)}) could not "
                    f"be resolved"
                ),
                self.where(),
            )
        except pm.Ambiguous as e:
            self.event(
                "lookup",
                "ambiguous",
                pf.name,
                tuple(self.tokname(a) for a in args),
                self.where(),
            )
            raise PyRaise(
                AmbiguousLookup(
                    f"{pf.name}({', '.join(self.tokname(a) for a in args)}) is "
                    f"ambiguous: {', '.join(str(m.sig) for m in e.methods)}"
                ),
                self.where(),
            )
        if key is not None:
            pf.cache[key] = m
        return m

    def tokname(self, v):
        t = self.token(v)
        return t if isinstance(t, str) else t.name

    def call_plum(self, pf, args, kw):
        args = [self.force(a) for a in args]
        m = self.resolve_call(pf, args)
        return self.call_impl(pf, m, args, kw)

    def force(self, a):
        return a

    def call_impl(self, pf, m, args, kw):
        impl = m.impl
        if isinstance(impl, FuncVal):
            return self.call_func(impl, args, kw)
        if isinstance(impl, Invoked):
            return self.call_impl(impl.f, impl.method, args, kw)
        if isinstance(impl, (pm.PFunction, Prim, Bound)):
            return self.call(impl, args, kw)
        if not self.loading:
            self.lab.called.add(pf.name)
        r = impl(*args, **kw)
        if self.sizing and not self.loading and pf.name not in VIEWS:
            for x in r if isinstance(r, tuple) else (r,):
                if isinstance(x, T):
                    self.event("array", pf.name, x.shape, self.where())
            w = self.work.computed(pf.name, args, kw)
            if w is not None:
                shapes = [x.shape for x in args if isinstance(x, T)]
                self.event("work", pf.name, w, shapes, self.where())
        return r

    def invoke(self, pf, types):
        target = pm.Sig([self.totype(t) for t in types])
        try:
            m = pm.resolve(pf.methods, lambda m: target.le(m.sig), pf.name)
        except (pm.NotFound, pm.Ambiguous) as e:
            raise PyRaise(NotFoundLookup(f"{pf.name}.invoke{target}"), self.where())
        return Invoked(pf, m)

    def convert(self, v, ty):
        if self.match(v, ty):
            return v
        best = pm.PFunction("convert")
        for f, t_from, t_to in self.conversions:
            if self.match(v, t_from) and pm.subset(ty, t_to):
                best.methods.append(pm.Method(pm.Sig([t_from]), f, "?"))
        if not best.methods:
            self.pyraise(TypeError, "cannot convert")
        m = pm.resolve(best.methods, lambda m: True, "convert")
        return self.call(m.impl, [v], {})

    def promote(self, args):
        if len(args) < 2:
            return tuple(args)
        toks = [frozenset([self.token(a)]) for a in args]

        def rule(x, y):
            if pm.hint_eq(x, y):
                return x
            best = pm.PFunction("promotion rule")
            for t1, t2, t in self.promotion_rules:
                for p, q in ((t1, t2),) if pm.hint_eq(t1, t2) else ((t1, t2), (t2, t1)):
                    if pm.subset(x, p) and pm.subset(y, q):
                        best.methods.append(pm.Method(pm.Sig([p, q]), t, "?"))
            if best.methods:
                return pm.resolve(best.methods, lambda m: True, "promotion").impl
            if pm.subset(x, y):
                return y
            if pm.subset(y, x):
                return x
            numeric = self.lab.numeric_toks
            if x <= numeric and y <= numeric:
                return None
            self.event(
                "lookup",
                "no promotion rule",
                "promote",
                tuple(self.tokname(a) for a in args),
                self.where(),
            )
            self.pyraise(TypeError, "No promotion rule")

        common = toks[0]
        for t in toks[1:]:
            c = rule(common, t)
            if c is not None:
                common = c
        return tuple(
            self.convert(a, common) if not self.match(a, common) else a for a in args
        )

    # Attributes

    def has_method(self, o, name):
        try:
            o.cls.find(name)
            return True
        except KeyError:
            return False

    def call_method(self, o, name, args, kw=None):
        return self.call(self.getattr(o, name), args, kw or {})

    def getattr(self, o, name):
        if isinstance(o, VDim):
            o = o.dim
        if isinstance(o, Obj):
            try:
                v = o.cls.find(name)
            except KeyError:
                v = None
                found = False
            else:
                found = True
                if isinstance(v, Property):
                    return self.call(v.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if found:
                if isinstance(v, (FuncVal, pm.PFunction)):
                    return Bound(v, o)
                if isinstance(v, StaticM):
                    return v.f if v.kind == "static" else Bound(v.f, o.cls)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if name in ("args",):
                return ()
            self.pyraise(AttributeError, f"{o.cls.name} has no attribute {name}")
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return o.ns[name]
            if o.relpath is not None:
                sub = o.name + "." + name
                if sub in self.modules:
                    return self.modules[sub]
                self.pyraise(AttributeError, f"module {o.name} has no {name}")
            if hasattr(o, "lookup"):
                return o.lookup(name)
            return Opaque(o.name + "." + name)
        if isinstance(o, ClassVal):
            try:
                v = o.find(name)
            except KeyError:
                if name == "__name__":
                    return o.name
                if name == "__mro__":
                    return tuple(o.mro)
                self.pyraise(AttributeError, name)
            if isinstance(v, StaticM):
                return v.f if v.kind == "static" else Bound(v.f, o)
            return v
        if isinstance(o, T):
            return self.lab.tensor_attr(o, name)
        if isinstance(o, pm.PFunction):
            return self.lab.plum_attr(o, name)
        if isinstance(o, Super):
            mro = o.obj.cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1 :]:
                if isinstance(c, ClassVal) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Property):
                        return self.call(v.fget, [o.obj], {})
                    return Bound(v, o.obj)
            if name == "__init__":
                return Prim("object.__init__", lambda *a, **k: None)
            self.pyraise(AttributeError, name)
        if isinstance(o, VShape):
            if name == "dims":
                return o.dims
            if name == "index":
                return Prim("index", lambda x: list(o.dims).index(undim(x)))
            raise Undecided(f"shape.{name}")
        if isinstance(o, FuncVal):
            if o.props and name in o.props:
                return o.props[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__module__":
                return o.module.name
            raise Undecided(f"function.{name}")
        if isinstance(o, (str, list, dict, set, tuple)):
            return self.lab.native_attr(o, name)
        if isinstance(o, BaseException):
            if name == "args":
                return o.args
            raise Undecided(f"exception.{name}")
        if hasattr(o, "lib_getattr"):
            return o.lib_getattr(name)
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + name)
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
        if isinstance(o, (int, float, Poly)) and not isinstance(o, bool):
            if name in ("shape", "dtype", "ndim", "T"):
                self.pyraise(AttributeError, f"number has no attribute {name}")
            if name in ("real",):
                return o
        if isinstance(o, slice) and name in ("start", "stop", "step"):
            return getattr(o, name)
        if isinstance(o, DT):
            if name == "__name__":
                return VStr(repr(o))
        raise Undecided(f"attribute {name} of {type(o).__name__}")

    # Built-ins

    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance_(v, x) for x in c)
        if isinstance(c, type) and issubclass(c, BaseException):
            return isinstance(v, c)
        return self.match(v, self.totype(c))

    def _make_builtins(self):
        I = self

        def b_len(x):
            x = undim(x)
            if isinstance(x, (tuple, list, str, dict, set, range)):
                return len(x)
            if isinstance(x, VShape):
                return len(x.dims)
            if isinstance(x, T):
                if x.shape == ():
                    I.pyraise(TypeError, "len() of unsized object")
                return x.shape[0]
            if isinstance(x, Obj) and I.has_method(x, "__len__"):
                return I.call_method(x, "__len__", [])
            if isinstance(x, LazyGen) or isinstance(x, (int, float, type(None), Obj)):
                I.pyraise(TypeError, "object has no len()")
            raise Undecided("len")

        def b_range(*a):
            a = [undim(x) for x in a]
            if any(isinstance(x, (Poly, T)) for x in a):
                raise Undecided("symbolic range")
            return range(*a)

        def b_sum(x, start=0):
            out = start
            for v in I.iterate(x):
                out = I.binop("add", out, v)
            return out

        def b_minmax(op):
            def f(*a, key=None, default=_missing):
                xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
                if not xs:
                    if default is not _missing:
                        return default
                    I.pyraise(ValueError, "empty sequence")
                best = xs[0]
                kb = best if key is None else I.call(key, [best], {})
                for v in xs[1:]:
                    kv = v if key is None else I.call(key, [v], {})
                    if I.truth(I.cmp(op, kv, kb)):
                        best, kb = v, kv
                return best

            return f

        def b_sorted(x, key=None, reverse=False):
            xs = list(I.iterate(x))
            ks = [v if key is None else I.call(key, [v], {}) for v in xs]
            ks = [undim(k) for k in ks]
            if any(isinstance(k, (T, Poly)) for k in ks):
                raise Undecided("sorting of symbolic values")
            idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
            return [xs[i] for i in idx]

        def b_all(x):
            for v in I.iterate(x):
                if not I.truth(v):
                    return False
            return True

        def b_any(x):
            for v in I.iterate(x):
                if I.truth(v):
                    return True
            return False

        def b_zip(*a, strict=False):
            ls = [list(I.iterate(x)) for x in a]
            return [tuple(t) for t in zip(*ls)]

        def b_map(f, *a):
            return [I.call(f, list(t), {}) for t in zip(*[list(I.iterate(x)) for x in a])]

        def b_filter(f, x):
            return [
                v
                for v in I.iterate(x)
                if I.truth(v if f is None else I.call(f, [v], {}))
            ]

        def b_getattr(o, n, *d):
            try:
                return I.getattr(o, n)
            except PyRaise as e:
                if d and isinstance(e.exc, AttributeError):
                    return d[0]
                raise

        def b_hasattr(o, n):
            try:
                I.getattr(o, n)
                return True
            except PyRaise as e:
                if isinstance(e.exc, AttributeError):
                    return False
                raise

        def b_type(x, *rest):
            if rest:
                raise Undecided("type()")
            if isinstance(x, Obj):
                return x.cls
            t = I.token(x)
            nat = {
                "int": int,
                "float": float,
                "bool": bool,
                "str": str,
                "tuple": tuple,
                "list": list,
                "dict": dict,
                "slice": slice,
                "none": type(None),
            }
            if t in nat:
                return nat[t]
            return TypeVal([t])

        def b_abs(x):
            x = undim(x)
            if isinstance(x, T):
                return I.lab.unary("abs", x)
            if isinstance(x, Poly):
                return x
            if isinstance(x, Obj):
                return I.call_method(x, "__abs__", [])
            return abs(x)

        def b_enumerate(x, start=0):
            return [(i + start, v) for i, v in enumerate(I.iterate(x))]

        def b_reversed(x):
            if isinstance(x, VShape):
                return VShape(*reversed(x.dims))
            return list(reversed(list(I.iterate(x))))

        def b_issubclass(c, d):
            if isinstance(d, tuple):
                return any(b_issubclass(c, x) for x in d)
            if isinstance(c, ClassVal):
                return d in c.mro or d is object
            if isinstance(c, type) and isinstance(d, type):
                return issubclass(c, d)
            raise Undecided("issubclass")

        def b_iter(x):
            return iter(list(I.iterate(x)))

        def b_next(x, *d):
            if isinstance(x, LazyGen):
                x = x.iterator()
            try:
                return next(x)
            except StopIteration:
                if d:
                    return d[0]
                I.pyraise(StopIteration, "")

        def b_round(x, *a):
            if isinstance(x, (int, float)):
                return round(x, *a)
            raise Undecided("round")

        prims = dict(
            len=b_len,
            range=b_range,
            sum=b_sum,
            min=b_minmax("lt"),
            max=b_minmax("gt"),
            sorted=b_sorted,
            all=b_all,
            any=b_any,
            zip=b_zip,
            map=b_map,
            filter=b_filter,
            getattr=b_getattr,
            hasattr=b_hasattr,
            setattr=lambda o, n, v: I.setattr(o, n, v),
            abs=b_abs,
            enumerate=b_enumerate,
            reversed=b_reversed,
            isinstance=lambda v, c: I.isinstance_(v, c),
            issubclass=b_issubclass,
            repr=lambda x: I.to_str(x, "__repr__"),
            id=lambda x: id(x),
            callable=lambda x: isinstance(
                x, (FuncVal, Prim, pm.PFunction, Bound, Invoked, ClassVal, type)
            ),
            print=lambda *a, **k: None,
            iter=b_iter,
            next=b_next,
            round=b_round,
            property=lambda f: Property(f),
            staticmethod=lambda f: StaticM(f, "static"),
            classmethod=lambda f: StaticM(f, "class"),
            super=lambda *a: Super(*a),
            vars=lambda o: o.attrs,
            format=lambda x, *a: I.to_str(x),
            pow=lambda a, b: I.binop("pow", a, b),
            divmod=lambda a, b: (I.binop("floordiv", a, b), I.binop("mod", a, b)),
            hash=lambda x: hash(x),
        )
        out = {k: Prim(k, v) for k, v in prims.items()}
        out["type"] = Prim("type", b_type)
        for t in (int, float, bool, str, tuple, list, dict, set, slice, object, complex):
            out[t.__name__] = t
        out["frozenset"] = set
        out["NotImplemented"] = NotImplemented
        out["Ellipsis"] = Ellipsis
        out["__name__"] = "__main__"
        return out


_missing = object()


def same_items(x, old):
    """Do two containers hold the same objects?"""
    if len(x) != len(old):
        return False
    if isinstance(x, dict):
        return all(k in x and x[k] is v for k, v in old.items())
    return all(a is b for a, b in zip(x, old))


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class LazyGen:
    """A generator expression."""

    def __init__(self, interp, e, env, module):
        self.interp, self.e, self.env, self.module = interp, e, env, module
        # The first iterable is evaluated immediately.
        self.it = None

    def iterator(self):
        if self.it is None:
            self.it = self.interp._comp_iter(
                self.e.generators, 0, self.env, self.module, self.e.elt
            )
        return self.it

    def __iter__(self):
        return self.iterator()


def _load(t):
    import copy

    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _has_yield(s):
    todo = list(s.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _p(x):
    from .sizes import topoly

    return topoly(x)
