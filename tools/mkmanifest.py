#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from plan import PLAN, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PLAN:
        p = PLAN[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique=p.get("technique", "bounded symbolic execution of the crate's LLVM IR, branches and assertions decided by Z3"),
            level="model_checking",
            level_note="Every value of the symbolic inputs%s within the bounds is covered by a solver verdict; nothing outside the bounds is claimed. Bounds: %s. Counterexamples count only if they fail on a native build too. Trusts rustc, the executor's IR semantics (sampled paths are compared with native runs) and Z3." % (
                " and every schedule" if any(r["variant"] == "thr" for r in p["runs"]) else "", p["bounds"])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="cargo build --release --offline --locked --manifest-path qsym/Cargo.toml --target-dir build/qsym",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness uses the public API only (threads: the crate's own `shuttle` feature with the shuttle crate replaced by /verif/models/shuttle). fix: commits in /repo are listed in known_findings.txt.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
