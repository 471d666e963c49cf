#!/usr/bin/env python3
"""writes MANIFEST.json from props.py + properties.jsonl"""
import json, os
from props import PROPS, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks = []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",
                           evidence_file=f"evidence/{p}.json",
                           technique="contract-based deductive verification (Verus/Z3) of the functions extracted mechanically from /repo on every run; failed obligations replayed on the real code",
                           level="proof", level_note=c["note"]))
na = [dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()]
missing = [p for p in ids if p not in PROPS and p not in NOT_APPLICABLE]
assert not missing, missing
extra = [p for p in list(PROPS) + list(NOT_APPLICABLE) if p not in ids]
assert not extra, extra
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none: no hooks are needed in /repo", enable="nothing to enable", source_commits=[]),
         checks=checks, not_applicable=na, notes="see DESIGN.md")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
