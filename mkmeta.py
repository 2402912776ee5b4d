#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
MI = "alg/src/lin_alg/matrix_impl.rs"; SP = "alg/src/lin_alg/sparse_matrix_impl.rs"; CM = "alg/src/lin_alg/const_matrix_impl.rs"
LA = "alg/src/lin_alg.rs"; CO = "alg/src/commutative.rs"; RI = "alg/src/commutative/rational_impl.rs"; PE = "alg/src/non_commutative/permutation.rs"
TS = "topo_spaces/src/lib.rs"; SM = "topo_spaces/src/simplicial/mod.rs"; SI = "topo_spaces/src/simplicial/mod_impl.rs"; GR = "topo_spaces/src/graph.rs"; CU = "topo_spaces/src/cubical.rs"
UT = "util/src/lib.rs"; GE = "geom/src/lib.rs"; AN = "analysis/src/lib.rs"
P = []
def prop(id, title, statement, text, why, files, mech, observe, note, technique="reference-model monitor over random executions", over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, observe=observe, note=note, technique=technique, over=list(over)))
exec(open(os.path.join(here, "props_table.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []; na = []
for p in P:
    if p["note"] is None: na.append({"property": p["id"], "reason": NOT_CLAIMED[p["id"]]}); continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds harness/ (a crate with path dependencies on /repo's crates) and runs worker processes that execute the real code under monitors; see DESIGN.md. No hooks were added to /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
