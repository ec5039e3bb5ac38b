"""Command line: decides one property on the current source of the repository.

    python3-vt -m mxa.check C01 [--thorough] [--root /repo] [--update-known]
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.json")


def load_known(pid):
    """Map from `(rule, case)` to the known finding."""
    with open(KNOWN) as f:
        data = json.load(f)
    out = {}
    for e in data["findings"]:
        if e["property"] == pid:
            for c in e["cases"]:
                out[(e["rule"], c)] = e
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--root", default=os.environ.get("MXA_REPO", "/repo"))
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--list", action="store_true", help="print all findings")
    ap.add_argument("--case", help="only cases whose name contains this")
    a = ap.parse_args(argv)
    from .props import PROPS
    from . import runner

    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[a.property]
    t0 = time.time()
    thorough = tier == "thorough"
    findings, counts, stats, called, extra = [], {}, {}, set(), {}
    cs = p.cases(thorough) if p.gens else []
    if a.case:
        cs = [c for c in cs if a.case in c.id]
    if cs:
        res, stats, called = runner.sweep(
            cs, p.rules, root=a.root, seed=seed, jobs=a.jobs, max_paths=p.paths[thorough],
            models=6 if thorough else 2,
        )
        for cid in sorted(res):
            fs, co = res[cid]
            findings += [f for f in fs if f[0] in p.report]
            for k, v in co.items():
                counts[k] = counts.get(k, 0) + v
    if p.extra is not None:
        ex = p.extra(a.root, seed, thorough, a.jobs)
        findings += ex.findings
        for k, v in ex.counts.items():
            counts[k] = counts.get(k, 0) + v
        called |= ex.called
        extra = ex.info
    known = load_known(p.id)
    new, hit = {}, {}
    for f in findings:
        k = known.get((f[0], f[1]))
        if k is not None:
            hit.setdefault(k["id"], (k, []))[1].append(f)
        else:
            new.setdefault((f[0], f[1]), f)
    for kid in sorted(hit):
        k, fs = hit[kid]
        print(
            f"KNOWN-FINDING: property={p.id} {k['what']} [{kid}: "
            f"{len(set(f[1] for f in fs))} of {len(k['cases'])} listed cases analysed here]"
        )
    if a.list:
        for f in new.values():
            print("FINDING", json.dumps(f))
    internal = [k for k in counts if k.startswith("internal: ")]
    if a.list:
        for k in sorted(set(internal))[:8]:
            print("INTERNAL", k)
    replay = os.path.join("evidence", f"{p.id}.violations.json")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, replay)
    if new:
        with open(path, "w") as f:
            json.dump(
                [dict(zip(("rule", "instance", "where", "detail", "path"), x)) for x in new.values()],
                f,
                indent=1,
            )
        shown = sorted(new.values())[:12]
        for f in shown:
            print(f"{f[2]}: rule '{f[0]}': {f[1]}: {f[3]}" + (f" [path: {f[4]}]" if f[4] else ""))
        if len(new) > len(shown):
            print(f"… and {len(new) - len(shown)} more")
        print(f"VIOLATION property={p.id} replay=/verif/{replay}")
    elif os.path.exists(path):
        os.remove(path)
    und = sorted(
        ((k[11:], v) for k, v in counts.items() if k.startswith("undecided: ")), key=lambda x: -x[1]
    )
    disch = counts.get("discharged", 0)
    methods = sorted({f"{c[0]}:{c[1]}" for c in called})
    evidence = {
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (
                f"{p.title}: abstract interpretation of the repository's source from "
                f"{len(cs)} abstract call sites (operation × classes of the operands × "
                "symbolic shapes); every decided obligation holds for the symbolic term of "
                "the path. Undecided obligations are counted and stay quiet."
            ),
            "abstract_calls": len(cs),
            "calls_without_operands": counts.get("skipped", 0),
            "paths": counts.get("paths", 0),
            "obligations": counts.get("obligations", 0),
            "discharged": disch,
            "discharged_by_equal_terms": stats.get("identical", 0),
            "discharged_by_random_interpretation": stats.get("compared", 0),
            "undecided_obligations": counts.get("undecided obligations", 0),
            "undecided_paths": counts.get("undecided paths", 0),
            "undecided_reasons": [[k[:300], v] for k, v in und[:12]],
            "internal_errors": counts.get("internal errors", 0),
            "functions_interpreted": len(methods),
            "functions": methods,
            "known_findings": sorted(hit),
            "violations": len(new),
            **extra,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, "evidence", f"{p.id}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{p.id} {tier}: {len(cs)} abstract calls, {counts.get('paths', 0)} paths, "
        f"{counts.get('obligations', 0)} obligations, {disch} discharged, "
        f"{counts.get('undecided obligations', 0)} undecided, {len(new)} new findings, "
        f"{evidence['wall_s']} s"
    )
    if new:
        return 1
    if a.case:
        return 0
    if disch < p.min_q or counts.get("internal errors", 0) > 0.02 * max(len(cs), 1):
        print(f"ERROR: the analysis of {p.id} is broken: {disch} obligations were discharged, "
              f"at least {p.min_q} should be")
        for k in internal[:3]:
            print(k)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
