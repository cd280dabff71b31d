#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist (checks/<id>.py)."""
import json, os, re
D = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
# id -> (technique, level, note)
CLAIMS = {
 "C01": ("runtime monitoring: online reference-model oracle over wire responses", "exploration",
         "Every response of a real server under random multi-type workloads is compared with an executable map model; assurance is statistical over the generated programs. Trusts the independent wire client and model."),
}
exec(open(os.path.join(D, "claims.py")).read()) if os.path.exists(os.path.join(D, "claims.py")) else None
NA = globals().get("NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        cmd = "python3 checks/%s.py" % i.lower()
        assert os.path.exists(os.path.join(D, "checks", i.lower() + ".py")), i
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd,
                           evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
h = globals().get("HOOKS")
if h:
    m["hooks"] = h
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
