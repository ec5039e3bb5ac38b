"""Regenerates tables/structure.json: the structure of the results of all abstract calls, and
the warnings which they give. Never run by a check; changes are reviewed by hand."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mxa import runner, structure
from mxa.props import PROPS

cases = PROPS["C16"].cases(True)
res, stats, called = runner.sweep(cases, ("record",), max_paths=16, jobs=6)
outs, index, table = [], {}, {}
truncated = 0
for cid in sorted(res):
    fs, counts = res[cid]
    complete, sigs = counts.get("record", (False, []))
    if not sigs:
        continue
    truncated += not complete
    e = json.dumps([bool(complete), [json.loads(x) for x in sigs]])
    if e not in index:
        index[e] = len(outs)
        outs.append(json.loads(e))
    table[structure.key(cid)] = index[e]
with open(structure.TABLE, "w") as f:
    f.write('{"outcomes": [\n' + ",\n".join(json.dumps(o, separators=(",", ":")) for o in outs))
    f.write('\n],\n"cases": {\n')
    ks = sorted(table)
    f.write(",\n".join(",".join(f'"{k}":{table[k]}' for k in ks[i : i + 8]) for i in range(0, len(ks), 8)))
    f.write("\n}}\n")
print(len(cases), "cases", len(table), "entries", len(outs), "outcomes", truncated, "incomplete")
