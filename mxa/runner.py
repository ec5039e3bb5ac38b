"""Runs cases on all paths, decides the obligations, and distributes the work."""
import gc
import json
import multiprocessing as mp
import os
import time
import traceback

import numpy as np

from . import core
from .catalog import FAMS, Case, Spec
from .core import DT, Undecided, close, si
from .den import fmt_shape
from .engine import Engine, Outcome
from .interp import Obj, PyRaise, T, VShape, undim
from .operands import Operands, Skip
from . import rules as R
from . import structure as S
from . import work as W
from .sizes import Order, Poly


class Finding:
    def __init__(self, rule, case, where, detail, path=""):
        self.rule, self.case, self.where = rule, case, where
        self.detail, self.path = detail, path

    def tup(self):
        return (self.rule, self.case, self.where, self.detail, self.path)


def path_text(decisions):
    out = []
    for key, v in decisions:
        if key[0] == "cond":
            out.append(f"{core.show(core._nodes[key[1]], 4)} is {v}")
        elif key[0] == "pos":
            out.append(f"{'positive' if v else 'negative'}: {Poly({k: core_fr(c) for k, c in key[1]})!r}")
        elif key[0] == "argsort":
            out.append(f"element {key[3]} sorts before {key[4]}: {v}")
        else:
            out.append(f"{key}: {v}")
    return "; ".join(out)


def core_fr(c):
    from .sizes import num
    from fractions import Fraction

    return num(Fraction(c[0], c[1]))


def feasible(m, decisions):
    """Do the decisions of the path hold in a model? `None` if this is not known."""
    for key, v in decisions:
        if key[0] == "cond":
            x = m.value(core._nodes[key[1]])
            if bool(np.asarray(x).reshape(-1)[0]) != v:
                return False
        elif key[0] == "argsort":
            x = m.value(core._nodes[key[1]]).reshape(-1)
            a, b = x[key[3]], x[key[4]]
            r = a > b if key[2] else a < b
            if bool(r) != v:
                return False
        elif key[0] == "pos":
            x = m.ev(Poly({k: core_fr(c) for k, c in key[1]}))
            if x == 0 or (x > 0) != v:
                return False
        else:
            return None
    return True


def compare(I, o, got, want, n=None, zeros=(), tol=1e-6, tries=16):
    """Do two terms agree in all models of a path? Returns a description of a
    difference, or `None`."""
    if got.id == want.id:
        I.stats["identical"] = I.stats.get("identical", 0) + 1
        return None
    if got.shape != want.shape:
        return f"shape is {fmt_shape(got.shape)} instead of {fmt_shape(want.shape)}"
    I.stats["compared"] = I.stats.get("compared", 0) + 1
    bad = False
    n = n or I.n_models
    for k, m in enumerate(I.models(tries, zeros=zeros)):
        if k >= n and not bad:
            break
        x, y = m.value(got), m.value(want)
        if close(x, y, tol):
            continue
        f = feasible(m, o.decisions)
        if f:
            return (
                f"values differ, for example for sizes "
                f"{', '.join(f'{a}={b}' for a, b in sorted(m.sizes.items()))}: "
                f"{witness(x, y)}"
            )
        if f is None:
            raise Undecided("feasibility of a path is unknown")
        bad = True
    if bad:
        raise Undecided("no model of the path was found")
    return None


def witness(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    d = np.where(np.isfinite(x) & np.isfinite(y), np.abs(x - y), 0)
    d = np.where(np.isfinite(x) != np.isfinite(y), np.inf, d)
    i = np.unravel_index(np.argmax(d), d.shape) if d.size else ()
    i = tuple(int(k) for k in i)
    return f"entry {i} is {float(x[i]):.6g} instead of {float(y[i]):.6g}"


def subterms(n):
    seen, todo = set(), [n]
    while todo:
        m = todo.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        todo.extend(m.args)
    return seen


class Runner:
    def __init__(self, E):
        self.E = E
        self.I = E.I
        E.dense_of = lambda r: E.L.node(E.call("dense", r))

    def body(self, case, o, rules):
        E, I = self.E, self.I
        I.use_cache, I.caching = False, "replay" in rules
        I.sizing = bool({"size", "work", "order"} & set(rules))
        O = Operands(I)
        p = {k: v for k, v in case.p.items() if k not in ("warm", "mixed")}
        O.mixed = case.p.get("mixed")
        spec = FAMS[case.fam](E, O, **p)
        o.kinds = case.p.get("kinds", ())
        o.spec = spec
        o.method = E.method_where(spec.fname, spec.args) if spec.fname in E.L.fns or True else None
        if "pure" in rules:
            o.stage = "warming up"
            if case.p.get("warm"):
                R.warm(E, O)
            snap = R.Snapshot([spec.args, spec.kw])
            o.stage = "operands"
        start = len(I.events)
        if "size" in rules or "work" in rules:
            o.stored = R.stored(E, [spec.args, spec.kw], R.kron(o))
        if spec.run is not None:
            r = spec.run()
        else:
            r = E.call(spec.fname, *spec.args, **spec.kw)
        o.op_events = I.events[start:]
        o.value = r
        if spec.raises:
            # The sizes must be incompatible in some model.
            I.models(1)
            # The batches of factors are only checked once the shape is asked for.
            if isinstance(undim(r), Obj):
                E.call("shape", r)
            o.stage = "done"
            return
        if "kept" in rules or "warned" in rules or "record" in rules:
            o.sig = S.signature(E, r)
            o.warned = " ".join(sorted({e[1] for e in o.op_events if e[0] == "warn"}))
            o.stage = "done"
            return
        if spec.laws is None and {"size", "work"} & set(rules):
            o.stored |= R.stored(E, [r], R.kron(o))
            o.stage = "done"
            return
        if spec.laws is not None:
            o.laws = spec.laws(o)
            o.stage = "done"
            return
        o.stage = "represented"
        o.den = E.den(r)
        if "value" in rules:
            o.stage = "dense"
            o.dense = E.dense_of(r)
        if "shape" in rules:
            o.stage = "shape"
            o.shape = tuple(undim(s) for s in I.iterate(E.call("shape", r)))
            o.rank = undim(E.call("rank", r))
        if "dtype" in rules:
            o.stage = "dtype"
            o.dtype = E.call("dtype", r)
        if spec.checks is not None and "value" in rules:
            o.stage = "checks"
            o.checks = spec.checks(r)
        if "pure" in rules:
            self.pure(case, o, snap, start)
        if "replay" in rules:
            self.replay(case, o)
        o.stage = "done"

    def replay(self, case, o):
        """Run the operation again with the cached outcomes of the control flow."""
        E, I = self.E, self.I
        I.caching = False
        o.recorded = list(I.outcomes)
        o.first = E.den(o.value)
        o.stage = "building the operands again"
        s = FAMS[case.fam](E, Operands(I), **case.p)
        start = len(I.events)
        o.stage = "replaying the control flow"
        I.use_cache, I.replay, I.outcome_pos = True, dict(o.recorded), -1
        try:
            r = s.run() if s.run is not None else E.call(s.fname, *s.args, **s.kw)
        finally:
            I.use_cache = False
        o.replayed = E.den(r)
        o.replay_pos = I.outcome_pos
        o.replay_events = I.events[start:]

    def replay_obligations(self, o, zero):
        I = self.I
        got = o.recorded
        out = []

        def used():
            if o.replay_pos + 1 != len(got):
                return f"only {o.replay_pos + 1} of {len(got)} cached outcomes are used"

        def concrete():
            for e in o.replay_events:
                if e[0] == "concrete" or e[0] == "to_numpy" and o.spec.fname != "to_numpy":
                    return (
                        "the operation depends on the values of arrays although the control "
                        f"flow is cached (at {fmt_where(e[-1])})"
                    )

        out.append(("replay", used))
        out.append(("replay", concrete))
        out.append(
            ("replay", lambda: self.pre("the result with the cached control flow is wrong",
             compare(I, o, o.replayed, o.first, zeros={z.id for z in zero})))
        )
        return out

    def pure(self, case, o, snap, start):
        """Run the operation again, with the same operands and with other operands."""
        E, I, spec = self.E, self.I, o.spec
        run = lambda s: s.run() if s.run is not None else E.call(s.fname, *s.args, **s.kw)
        o.first = E.den(o.value)
        o.stage = "running the operation again"
        o.again = E.den(run(spec))
        o.first2 = E.den(o.value)
        o.stage = "running the operation with other operands"
        O = Operands(I)
        O.prefix = "other "
        p = {k: v for k, v in case.p.items() if k != "warm"}
        o.other_spec = FAMS[case.fam](E, O, **p)
        o.other = E.den(run(o.other_spec))
        o.changes = snap.changes(I, I.events[start:])
        o.caches = R.caches(E, [spec.args, o.value])

    def run(self, case, rules, max_paths=24):
        """Returns `(findings, counts)`."""
        E, I = self.E, self.I
        core.reset_terms()
        I.base_order = Order(set(case.order))
        I.use_cache = I.caching = False
        findings, counts = [], {}
        self.outcomes, self.complete, last = set(), True, None

        def count(k, n=1):
            counts[k] = counts.get(k, 0) + n

        def f(o):
            o.spec, o.stage = None, "operands"
            self.body(case, o, rules)

        for o in E.explore(f, max_paths):
            if o.status == "skip":
                count("skipped")
                return findings, counts
            count("paths")
            if o.status == "undecided":
                self.complete = False
                count("undecided paths")
                count(f"undecided: {o.why}")
                continue
            if o.spec is not None and o.spec.raises:
                self.must_raise(case, o, count, findings)
                continue
            if o.spec is None and o.status == "raise":
                count("undecided paths")
                count(f"undecided: operands raise {o.exc}")
                continue
            add = lambda rule, detail: findings.append(
                (rule, case.id, o.method or str(o.where), detail, path_text(o.decisions))
            )
            if o.status == "raise":
                count("obligations")
                what = {"operands": "the operation"}.get(o.stage, o.stage)
                add(
                    {
                        "shape": "raises: shape",
                        "dtype": "raises: dtype",
                        "replaying the control flow": "raises: replay",
                        "running the operation again": "raises: pure",
                        "running the operation with other operands": "raises: pure",
                        "warming up": "raises: pure",
                    }.get(o.stage, "raises"),
                    f"{what} raises {o.exc.cls.__name__}: {str(o.exc)[:160]}"
                    f" (at {fmt_where(o.where)})",
                )
                continue
            for rule, fn in self.obligations(case, o, rules):
                count("obligations")
                try:
                    d = fn()
                except Undecided as e:
                    count("undecided obligations")
                    count(f"undecided: {e}")
                    continue
                if d is None:
                    count("discharged")
                else:
                    add(rule, d)
            if getattr(o, "sig", None):
                self.outcomes.add(json.dumps([o.sig, o.warned]))
                last = o
        self.complete = self.complete and not E.explorer.truncated
        if "kept" in rules and self.complete and self.outcomes:
            count("obligations")
            d = S.missing(case.id, [json.loads(x)[0] for x in sorted(self.outcomes)])
            if d is None:
                count("discharged")
            else:
                findings.append(("kept", case.id, last.method or str(last.where), d, ""))
        if "record" in rules:
            counts["record"] = (self.complete, sorted(self.outcomes))
        return findings, counts

    def must_raise(self, case, o, count, findings):
        count("obligations")
        if o.status == "raise":
            if isinstance(o.exc.exc, (RecursionError,)):
                d = "recurses without end"
            else:
                count("discharged")
                return
        else:
            d = f"gives {self.describe(o.value)} instead of raising"
        findings.append(
            ("raises not", case.id, o.method or str(o.where), f"the operation {d}", path_text(o.decisions))
        )

    def describe(self, v):
        v = undim(v)
        if isinstance(v, Obj):
            try:
                return f"a {v.cls.name} of shape {fmt_shape(self.E.den(v).shape)}"
            except Exception:
                return f"a {v.cls.name}"
        return "a result"

    def sibling(self, case, o, rules):
        """Outcome of the path which differs in that vanishing measures do not vanish."""
        I, E = self.I, self.E
        zs = {z.id for z in I.zero_facts}
        keep = [(k, v) for k, v in o.decisions]
        I.begin_path([])
        for k, v in keep:
            if k[0] == "cond":
                x = E.L.measure(core._nodes[k[1]])
                if x is not None and x.id in zs and v:
                    v = False
            I.memo[k] = v
        s = Outcome()
        s.spec, s.stage = None, "operands"
        self.body(case, s, rules)
        return s

    def obligations(self, case, o, rules):
        I, E = self.I, self.E
        spec = o.spec
        zero = list(I.zero_facts)
        if spec.laws is not None:
            return [x for x in o.laws if x[0] in rules]
        out = []
        if "value" in rules and spec.want is not None:
            if zero:
                out.append(("value", lambda: self.zero_value(case, o, zero, rules)))
            else:
                out.append(
                    ("value", lambda: self.pre("the result represents a wrong matrix", compare(I, o, o.den, spec.want)))
                )
                out.append(
                    ("value", lambda: self.pre("the dense version of the result is wrong", compare(I, o, o.dense, spec.want)))
                )
        if "value" in rules and spec.checks is not None and not zero:
            for name, got, want in o.checks:
                out.append(
                    ("value", lambda name=name, got=got, want=want: self.pre(f"{name} is wrong", compare(I, o, got, want)))
                )
        if "shape" in rules:
            out.append(("shape", lambda: self.shape(o)))
        if (
            "dtype" in rules
            and (spec.want is not None or spec.dt is not None)
            and spec.dtype
            and not any(k in ("num", "zeronum", "int") for k in o.kinds)
            # Parts which vanish become zero matrices, which take over data types.
            and not ((zero or I.facts) and "mixed" in case.p)
        ):
            out.append(("dtype", lambda: self.dtype(o)))
        if "kept" in rules:
            out.append(("kept", lambda: self.table(S.check_signature(case.id, o.sig))))
        if "warned" in rules:
            out.append(("warned", lambda: self.table(S.check_warning(case.id, o.sig, o.warned))))
        if "size" in rules:
            out.append(("size", lambda: R.large(case, o)))
        if "work" in rules and spec.laws is None:
            out.append(("work", lambda: W.excessive(E, case, o)))
        if "pure" in rules:
            out += self.pure_obligations(o, zero)
        if "replay" in rules:
            out += self.replay_obligations(o, zero)
        if "structure" in rules:
            out.append(("structure", lambda: self.structure(o, o.value)))
        return out

    @staticmethod
    def table(d):
        if d == "absent":
            raise Undecided("no specification of the structure")
        return d

    def pure_obligations(self, o, zero):
        I, spec = self.I, o.spec
        out = []

        def eq(text, got, want):
            if not isinstance(got, (T, Obj, core.Node)) or not isinstance(want, (T, Obj, core.Node)):
                out.append(("pure", lambda: text))
                return
            g, w = (x if isinstance(x, core.Node) else self.E.den(x) for x in (got, want))
            out.append(
                ("pure", lambda: self.pre(text, compare(I, o, g, w, zeros={z.id for z in zero})))
            )

        for text, got, want in o.changes:
            eq(text, got, want)
        for text, got, want in o.caches:
            eq(f"{text} is wrong", got, want)
        eq("the second call gives another result", o.again, o.first)
        eq("the second call changes the first result", o.first2, o.first)
        if spec.want is not None and not zero:

            def after(text, got, want):
                # Whether the first result is right is another property.
                if compare(I, o, o.first, spec.want) is not None:
                    raise Undecided("the first result is wrong")
                return self.pre(text, compare(I, o, got, want))

            out.append(("pure", lambda: after("the result is wrong after an earlier call", o.again, spec.want)))
            out.append(
                ("pure", lambda: after("the result for other operands is wrong after an earlier call",
                 o.other, o.other_spec.want))
            )
        return out

    @staticmethod
    def pre(text, d):
        return None if d is None else f"{text}: {d}"

    def zero_value(self, case, o, zero, rules):
        I = self.I
        saved = (I.facts, I.order)
        s = self.sibling(case, o, rules)
        if I.zero_facts:
            raise Undecided("nested vanishing measures")
        sub = subterms(s.den)
        if not any(z.id in sub for z in zero):
            raise Undecided("a vanishing measure is not a component of the result")
        I.facts, I.order = saved
        s.decisions = [(k, v) for k, v in o.decisions]
        d = compare(I, s, o.den, s.den, zeros={z.id for z in zero})
        d = d or compare(I, s, o.dense, s.den, zeros={z.id for z in zero})
        I.zero_facts = zero
        return self.pre("the result is wrong if it is simplified", d)

    def shape(self, o):
        I = self.I
        want = o.spec.want.shape if o.spec.want is not None else o.den.shape
        if tuple(map(si, o.shape)) != tuple(o.den.shape):
            return (
                f"the shape of the result is given as {fmt_shape(o.shape)}, but the "
                f"result has shape {fmt_shape(o.den.shape)}"
            )
        if tuple(map(si, o.shape)) != tuple(want):
            return f"the shape is {fmt_shape(o.shape)} instead of {fmt_shape(want)}"
        if o.rank != len(o.den.shape):
            return f"the rank is {o.rank} instead of {len(o.den.shape)}"
        return None

    def dtype(self, o):
        want = (o.spec.dt or o.spec.want.dtype).strong()
        got = o.dtype
        if not isinstance(got, DT):
            raise Undecided("data type")
        if got.strong() != want:
            return f"the data type is {got} instead of {want}"
        if o.den.dtype.strong() != want:
            return f"the data type of the components is {o.den.dtype} instead of {want}"
        return None

    def structure(self, o, r):
        """Do the triangular parts of a result hold what the classes declare?"""
        I, E = self.I, self.E
        r = undim(r)
        if not isinstance(r, Obj):
            return None
        name = r.cls.name
        if name in ("LowerTriangular", "UpperTriangular"):
            n = E.den(r)
            if n.shape[-1] != n.shape[-2]:
                pass
            t = core.mk("tril" if name[0] == "L" else "triu", None, (n,), n.shape, n.dtype)
            return self.pre(f"a {name} result is not triangular", compare(I, o, n, t))
        for k in ("left", "_right", "_middle", "diag", "lr"):
            v = r.attrs.get(k)
            if isinstance(v, Obj):
                d = self.structure(o, v)
                if d:
                    return d
        for v in r.attrs.get("blocks", ()):
            d = self.structure(o, v)
            if d:
                return d
        return None


def fmt_where(w):
    if w is None:
        return "?"
    if isinstance(w, tuple):
        return f"{w[0]}:{w[1]} in {w[2]}"
    return str(w)


# Distribution

_runner = None


def _init(root, seed, models):
    global _runner
    _runner = Runner(Engine(root, seed))
    _runner.I.n_models = models
    gc.collect()
    gc.freeze()
    gc.disable()


def _work(job):
    cases, rules, max_paths = job
    out = []
    for c in cases:
        t = time.time()
        try:
            fs, counts = _runner.run(c, rules, max_paths)
        except Exception as e:
            fs, counts = [], {"internal errors": 1, "undecided paths": 1}
            counts["internal: " + traceback.format_exc()[-600:]] = 1
        counts["time"] = time.time() - t
        out.append((c.id, fs, counts))
    gc.collect()
    stats = dict(_runner.I.stats)
    called = set(_runner.I.called)
    _runner.I.stats = {}
    return out, stats, called


def sweep(cases, rules, root="/repo", seed=1, jobs=None, max_paths=24, chunk=12, models=2):
    jobs = jobs or min(8, os.cpu_count() or 1)
    cases = list(cases)
    # Spread expensive cases.
    order = sorted(range(len(cases)), key=lambda i: (i * 7919) % 10007)
    work = [
        ([cases[i] for i in order[k : k + chunk]], rules, max_paths)
        for k in range(0, len(order), chunk)
    ]
    results, stats, called = {}, {}, set()
    with mp.get_context("fork").Pool(jobs, _init, (root, seed, models)) as pool:
        for out, st, ca in pool.imap_unordered(_work, work):
            for cid, fs, counts in out:
                results[cid] = (fs, counts)
            for k, v in st.items():
                stats[k] = stats.get(k, 0) + v
            called |= ca
    return results, stats, called
