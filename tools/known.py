"""Regenerates known_findings.json from thorough runs; every finding must belong to a group
that was confirmed on the real code (see DESIGN.md). Never run by a check."""
import json, re, subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mxa.props import PROPS
from mxa.known_groups import group
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
data = json.load(open(path))
pids = sys.argv[1:] or sorted(PROPS)
bad = 0
for pid in pids:
    data = json.load(open(path))
    keep = [e for e in data["findings"] if e["property"] != pid]
    json.dump({**data, "findings": keep}, open(path, "w"), indent=1)
    new = {}
    out = subprocess.run([sys.executable, "-m", "mxa.check", pid, "--thorough", "--list"], capture_output=True, text=True, cwd=os.path.dirname(path)).stdout
    print(out.splitlines()[-1] if out else "?", flush=True)
    for l in out.splitlines():
        if l.startswith("FINDING "):
            f = json.loads(l[8:])
            g = group(pid, f)
            if g is None:
                bad += 1
                print("UNGROUPED", pid, f, flush=True)
                continue
            kid, what = g
            e = new.setdefault((pid, kid, f[0]), {"id": kid, "property": pid, "rule": f[0], "what": what, "cases": []})
            e["cases"].append(f[1])
    fs = keep + list(new.values())
    for e in fs:
        e["cases"] = sorted(set(e["cases"]))
    fs.sort(key=lambda e: (e["property"], e["id"], e["rule"]))
    json.dump({**data, "findings": fs}, open(path, "w"), indent=1)
print(bad, "ungrouped")
