#!/opt/venv/bin/python
"""Rewrites the generated part of DESIGN.md (functions, lemmas, scenarios, assumptions) from evidence/*.json, and the table of planted bugs from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/coverage.py from the evidence files -->"
out = ["", "## Appendix A: what each check covers (from the last run's evidence)", ""]
for path in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
    d = json.load(open(path))
    c = d["coverage"]
    out += [f"### {d['property']}", "",
            f"{c['discharged']} of {c['obligations']} obligations discharged on {c['paths']} paths"
            + (f"; undecided: {', '.join(c['lemmas_undecided'])}" if c["lemmas_undecided"] else "")
            + (f"; lemmas only sampled: {', '.join(b['name'] for b in c['lemmas_bounded'])}" if c["lemmas_bounded"] else "") + ".", "",
            f"- Functions of /repo interpreted ({len(c['functions_under_contract'])}): " + ", ".join(f"`{f.removeprefix('arti.')}`" for f in c["functions_under_contract"]),
            "- Lemmas proved: " + ", ".join(f"`{x}`" for x in c["lemmas_proved"])]
    out += [f"- Bounded: `{b['name']}` – {b['bound']} ({b['runs']} runs)" for b in c["bounded_stand_ins"]]
    out += [f"- Assumed: {a}" for a in d["assumptions"]]
    out.append("")
out += ["## Appendix B: planted bugs", "", "Each is caught by the check of its property (exit 1 and its VIOLATION line).", "", "| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")), key=lambda p: (json.load(open(p))["property"], p)):
    m = json.load(open(path))
    out.append(f"| `{os.path.basename(os.path.dirname(path))}` | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
f = os.path.join(HERE, "DESIGN.md")
head = open(f).read().split(MARK)[0]
open(f, "w").write(head + MARK + "\n" + "\n".join(out) + "\n")
