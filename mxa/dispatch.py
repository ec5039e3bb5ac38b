"""Dispatch: every call on matrices resolves to exactly one implementation."""
import itertools
import json
import os

from . import plummodel as pm
from .engine import Engine
from .interp import PyRaise
from .operands import N, NK, NT, Operands

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "dispatch.json")
KINDS = {
    "Zero": N, "Dense": N, "Diagonal": N, "Constant": N, "Lower": N, "Upper": N, "LRlmr": N,
    "Woodbury": N, "Kron": NK, "Tiled": NT, "arr": N, "num": N, "int": N,
}
NUMERIC = ("arr", "num", "int")


class Result:
    def __init__(self):
        self.findings, self.counts, self.called, self.info = [], {}, set(), {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def functions(E):
    """Functions of the numerical library which the package defines or extends."""
    out = {}
    for name, f in E.L.fns.items():
        if isinstance(f, pm.PFunction) and any(not m.lib for m in f.methods):
            out[name] = f
    for name in ("dense", "block", "fill_diag", "matmul_diag", "ratio", "root", "sample"):
        try:
            f = E.fn(name)
        except Exception:
            continue
        if isinstance(f, pm.PFunction):
            out[name] = f
    return out


def tuples(E, f):
    own = [m for m in f.methods if not m.lib]
    ns = {len(m.sig.types) for m in own} | {len(m.sig.types) + k for m in own for k in (1, 2) if m.sig.varargs}
    for n in sorted(ns):
        if 1 <= n <= 3:
            for ks in itertools.product(KINDS, repeat=n):
                if any(k not in NUMERIC for k in ks):
                    yield ks


def survey(root, seed=1):
    """All resolutions: `{function: {tuple: method, 'not found', or 'ambiguous'}}`."""
    E = Engine(root, seed)
    O = Operands(E.I)
    vals = {k: O.build(k, "a", r, N if k == "Tiled" else r) for k, r in KINDS.items()}
    out = {}
    for name, f in sorted(functions(E).items()):
        res = out[name] = {}
        for ks in tuples(E, f):
            try:
                res[ks] = E.I.resolve_call(f, [vals[k] for k in ks])
            except PyRaise as e:
                res[ks] = ("ambiguous: " if "ambiguous" in str(e) else "not found: ") + str(e)
    return E, out


def unsupported(res):
    """Per function and number of operands, the tuples which are not supported; nothing if
    most tuples of that length are not, because the argument is not an operand then."""
    out = {}
    for n in {len(k) for k in res}:
        ks = [k for k in res if len(k) == n]
        bad = [k for k in ks if isinstance(res[k], str)]
        if 2 * len(bad) < len(ks):
            out[n] = sorted(bad)
    return out


def check(root, seed, thorough, jobs):
    r = Result()
    with open(TABLE) as f:
        table = json.load(f)
    E, out = survey(root, seed)
    r.called = set(E.I.called)
    resolved = set()
    for name, res in out.items():
        for ks, m in res.items():
            r.count("obligations")
            case = f"{name}({', '.join(ks)})"
            if isinstance(m, str):
                allowed = table.get(name, {}).get(str(len(ks)))
                if m.startswith("ambiguous"):
                    r.findings.append(("dispatch", case, name, m, ""))
                    continue
                if allowed is not None and list(ks) not in allowed:
                    r.findings.append(("dispatch", case, name, f"there is no implementation: {m}", ""))
                    continue
            else:
                resolved.add(m.where)
            r.count("discharged")
    for name, ns in table.items():
        r.count("obligations")
        if name not in out:
            try:
                E.fn(name)
            except PyRaise as e:
                r.findings.append(("dispatch", name, name, f"the function is gone: {e}", ""))
                continue
        r.count("discharged")
    for f in {id(f): f for f in functions(E).values()}.values():
        own = [m for m in f.methods if not m.lib]
        r.count("obligations")
        again = [(a, b) for a, b in f.redefined if not a.lib and not b.lib and a.impl is not b.impl]
        if again:
            a, b = again[0]
            r.findings.append(
                ("dispatch", f"{f.name}{b.sig}", str(b.where), f"the definition replaces the one at {a.where}", "")
            )
            continue
        r.count("discharged")
    r.info = {
        "explanation": (
            "All implementations of all functions of the numerical library which the package "
            "defines or extends were collected from the source with their signatures; every "
            "tuple of classes of matrices, arrays, and Python numbers was resolved by the "
            "rules of multiple dispatch: exactly one implementation must be the most "
            "specific, and operands that are supported must be."
        ),
        "functions_with_dispatch": len(out),
        "resolutions": sum(len(x) for x in out.values()),
        "implementations_resolved_to": len(resolved),
    }
    return r


if __name__ == "__main__":
    E, out = survey("/repo")
    table = {n: unsupported(r) for n, r in out.items()}
    with open(TABLE, "w") as f:
        f.write("{\n" + ",\n".join(
            json.dumps(n) + ": " + json.dumps(t, separators=(",", ":")) for n, t in table.items() if t
        ) + "\n}\n")
    for n, t in table.items():
        print(n, {k: len(v) for k, v in t.items()})
