"""Regenerates /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contracts on the real functions, verification conditions generated from the current "
        "source by PyVC (symbolic execution with loop invariants) and discharged by z3; "
        "bounded contract runs for functions outside its reach")
NOTE = {}
LEVEL = {}
exec(open(os.path.join(here, "tools", "levels.py")).read())
checks = []
for i in range(1, 25):
    p = f"C{i:02d}"
    checks.append(dict(
        property=p,
        quick_cmd=f"python3-vt /verif/check.py {p} --tier quick",
        thorough_cmd=f"python3-vt /verif/check.py {p} --tier thorough",
        technique=TECH,
        level=LEVEL.get(p, "exploration"),
        level_note=NOTE.get(p, "Bounded: contracts executed on the real code over seeded inputs "
                            "biased to the edges of the domain; nothing is counted as proved yet.")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[])
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
