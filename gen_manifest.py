#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and claims.json (run by hand after changing either)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
claims = json.load(open(os.path.join(HERE, "claims.json")))
levels = json.load(open(os.path.join(HERE, "levels.json")))
TECH = "contract-based deductive verification of the real functions (symbolic execution of their ASTs to proof obligations, z3/cvc5)"
checks, na = [], []
for p in props:
    c = claims.get(p["id"])
    if not c or "not_applicable" in c:
        na.append(dict(property=p["id"], reason=(c or {}).get("not_applicable", "contracts not written yet")))
        continue
    cmd = f"/opt/venv/bin/python check.py {p['id']}"
    checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd, evidence_file=f"evidence/{p['id']}.json",
                       technique=TECH + c.get("technique", ""), level=levels.get(p["id"], "proof"), level_note=c["note"]))
m = dict(version=1, setup_cmd="/opt/venv/bin/python selftest.py", checks=checks, not_applicable=na,
         notes="pyvc (in /verif/pyvc) is the verifier; contracts/cNN.py hold the lemmas over /repo's functions. "
               "Both tiers read VERIF_TIER and VERIF_SEED. No hooks in /repo: the verifier reads the unmodified source.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
