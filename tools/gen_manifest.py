#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (one place to edit the claims)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIX = "TLA+ specification model-checked with TLC; the library's records validated against it by TLC with an independent numeric oracle"
C = {}
def claim(pid, technique, level, note):
    C[pid] = dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                  technique=technique, level=level, level_note=note)
ORA = ("Trusts the numeric oracle in native/ (own lasso and bisquare regression, compared within rounding margins: decisions closer "
       "to a threshold than the margin may go either way) and the sampled series; the control machine itself is exhaustive only on tiny series.")
for p in ("C01", "C02", "C03", "C04", "C05", "C08", "C09"):
    claim(p, PIX, "model_checking", "Every sampled series' records must be a behaviour of spec/cold/Cold.tla. " + ORA)
claim("C06", PIX + "; metamorphic variants whose equality the specification implies", "model_checking",
      "Which observations count is the specification's (Pixel.tla); results must be bit-equal under changes of the others. " + ORA)
claim("C07", PIX, "model_checking", "Fallback branch of spec/cold/Cold.tla on sampled series. " + ORA)
claim("C10", "TLA+ call-history specification; TLC enumerates all pairs of consecutive calls, the recorded walk is validated by TLC", "model_checking",
      "Every ordered pair of 40 kinds of calls, with layouts and positions varied; results compared bit for bit with calls alone in fresh processes with different heap fill.")
for p in ("C11", "C12"):
    claim(p, PIX, "model_checking", "Every sampled reconstruction must be a behaviour of spec/cold/ObCold.tla. " + ORA)
exec(open(os.path.join(ROOT, "tools/claims.py")).read()) if os.path.exists(os.path.join(ROOT, "tools/claims.py")) else None
NA = globals().get("NA", {})
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py setup",
         checks=[C[p] for p in props if p in C],
         not_applicable=[dict(property=p, reason=NA.get(p, "specification not built yet")) for p in props if p not in C])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
