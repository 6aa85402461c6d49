#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property drivers that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "default": "TLC checks the specification exhaustively within small constants and enumerates or simulates configurations and "
            "histories; the real code is driven through them and TLC judges every recorded event against the specification "
            "(real-valued functions come from the FloatMath operator override). Covers the explored configurations and inputs, not all.",
}
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(R, "ntnv/props/%s.py" % p.lower())):
        checks.append(dict(property=p, quick_cmd="bash check.sh %s" % p, thorough_cmd="bash check.sh %s --tier thorough" % p,
                           technique="TLA+ specification checked with TLC; TLC-generated cases and histories replayed on the "
                                     "real code and recorded traces validated by TLC against the specification",
                           level="model_checking", level_note=NOTE.get(p, NOTE["default"])))
    else:
        na.append(dict(property=p, reason="check under construction"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: the public interface and the attributes the repository's own tests use expose all observed values.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
