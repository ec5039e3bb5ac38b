"""Structure of results, and warnings when structure is lost.

A signature describes the classes which a result consists of; signatures are partially
ordered by how much structure they have. `tables/structure.json` holds, for every abstract
call, the signatures which the operations are specified to give (see DESIGN.md).
"""
import hashlib
import json
import os

from .interp import Obj, T, undim

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "structure.json")
SHORT = {
    "Zero": "Z", "Diagonal": "D", "Constant": "C", "LowerTriangular": "L", "UpperTriangular": "U",
    "Dense": "M", "LowRank": "R", "Woodbury": "W", "Kronecker": "K", "TiledBlocks": "B",
}
NAMES = {v: k for k, v in SHORT.items()}


def signature(E, r):
    """Signature of a result: a nested list."""
    r = undim(r)
    if isinstance(r, (tuple, list)):
        return ["tuple"] + [signature(E, x) for x in r]
    if not isinstance(r, Obj):
        return ["t"]
    s = SHORT.get(r.cls.name, r.cls.name)
    if s == "R":
        left = E.den(r.attrs["left"])
        mid = r.attrs.get("_middle")
        # The rank, and whether the middle factor is diagonal.
        rank = undim(E.I.getattr(r, "rank"))
        m = undim(mid) if mid is not None else None
        return [s, repr(rank), "D" if m is None or isinstance(m, Obj) and m.cls.name == "Diagonal" else "M"]
    if s == "W":
        return [s, signature(E, r.attrs["diag"]), signature(E, r.attrs["lr"])]
    if s == "K":
        return [s, signature(E, r.attrs["left"]), signature(E, r.attrs["right"])]
    return [s]


def leq(a, b):
    """Does `a` have at least as much structure as `b`?"""
    if a == b:
        return True
    x, y = a[0], b[0]
    if x == "tuple" or y == "tuple":
        return x == y and len(a) == len(b) and all(map(leq, a[1:], b[1:]))
    if y == "t":
        return True
    if x == "t":
        return False
    if x == "Z" or y == "M":
        return True
    if x == y:
        if x == "R":
            ok = a[1] == b[1] or a[1].isdigit() and b[1].isdigit() and int(a[1]) <= int(b[1])
            return ok and (a[2] == b[2] or a[2] == "D")
        return len(a) == len(b) and all(map(leq, a[1:], b[1:]))
    if y == "W":
        if x == "D":
            return True
        if x == "R" or x == "C":
            return leq(a, b[2])
    if x == "D" and y in ("L", "U", "W"):
        return True
    if x == "C" and y == "R":
        return True
    return False


def text(s):
    if s[0] == "t":
        return "an array"
    if s[0] == "tuple":
        return "a tuple of " + ", ".join(map(text, s[1:]))
    n = NAMES.get(s[0], s[0])
    if s[0] == "R":
        return f"LowRank of rank {s[1]}" + (" with a dense middle factor" if s[2] == "M" else "")
    if len(s) > 1:
        return f"{n} ({', '.join(map(text, s[1:]))})"
    return n


def key(case_id):
    return hashlib.md5(case_id.encode()).hexdigest()[:11]


_table = None


def table():
    global _table
    if _table is None:
        with open(TABLE) as f:
            _table = json.load(f)
    return _table


def entry(case_id):
    """`(complete, list of (signature, warnings))`, or `None`."""
    t = table()
    i = t["cases"].get(key(case_id))
    return None if i is None else t["outcomes"][i]


def check_signature(case_id, sig):
    e = entry(case_id)
    if e is None:
        return "absent"
    complete, outs = e
    if any(leq(sig, s) for s, _ in outs):
        return None
    if not complete:
        return "absent"
    return f"the result is {text(sig)} instead of {' or '.join(sorted({text(s) for s, _ in outs}))}"


def check_warning(case_id, sig, warns):
    e = entry(case_id)
    if e is None:
        return "absent"
    complete, outs = e
    have = [w for s, w in outs if s == sig]
    if warns in have:
        return None
    if not have or not complete:
        return "absent"
    if warns:
        return f"a warning ({warns}) is given although the result keeps the structure it should have"
    return f"no {have[0]} is given although structure is lost: the result is {text(sig)}"


def missing(case_id, sigs):
    """Signatures of most structure must still be reached."""
    e = entry(case_id)
    if e is None or not e[0]:
        return None
    want = [s for s, _ in e[1]]
    for m in want:
        if any(leq(x, m) and x != m for x in want):
            continue
        if not any(leq(x, m) for x in sigs):
            return f"the result is never {text(m)}, but {' or '.join(sorted({text(s) for s in sigs}))}"
    return None
