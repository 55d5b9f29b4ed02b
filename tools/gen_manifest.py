#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and gv/meta.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "gv"))
from meta import META, NOT_APPLICABLE

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
        continue
    m = META[i]
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 gv/driver.py {i}",
        thorough_cmd=f"VERIF_TIER=thorough python3 gv/driver.py {i}",
        evidence_file=f"evidence/{i}.json",
        technique=m["technique"],
        level="other",
        level_note=m["note"],
    ))
man = dict(
    version=1,
    setup_cmd="python3 gv/setup.py",
    hooks=dict(
        guard="cfg(generic_vec_modern_nightly)",
        enable='RUSTFLAGS="--cfg generic_vec_modern_nightly" together with the crate feature "nightly" '
               '(only the nightly lane of the checks uses it)',
        source_commits=["87a3d46"],
    ),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. Defects found and repaired are listed in known_findings.txt.",
)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
