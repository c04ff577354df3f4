#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (id, title, statement, over, quantifier, why, files, mechanism, note)
NA = []  # (id, reason)

def prop(id, title, statement, over, q, why, files, mech, note="", na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=q), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CH.append((id, note))
CH = []
exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
TRUST = ("Bounded model checking of the compiled-from-source SSA of the current tree: z3 decides every assertion for all values on every path within the "
         "bounds named per harness (evidence: harnesses[].bounds, outside, all_paths_within_bounds_explored); counterexamples are replayed on the natively built code "
         "before they are reported. Trusted: the SSA executor, its models of the standard library and z3; sampled paths are validated natively on every run.")
m = dict(version=1, setup_cmd="./run.sh setup",
         checks=[dict(property=i, quick_cmd="VERIF_TIER=quick ./run.sh check " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh check " + i,
                      technique="symbolic execution of the Go SSA of /repo with z3 deciding assertions (bounded model checking)",
                      level="model_checking", level_note=(n + " " if n else "") + TRUST) for i, n in sorted(CH)],
         not_applicable=sorted(NA, key=lambda x: x["property"]),
         notes="Harnesses in /verif/harness state the properties; /verif/gosym is the symbolic executor. KNOWN_FINDINGS.json lists open findings and fixed defects.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(CH), "claimed")
