"""DESIGN.md = tools/design_body.md + the table of planted changes"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = {
    "rnglist-reinit-head": "histories with re-seeding after an advance", "jitclass-inherited-fields": "witness classes with inherited annotations",
    "xorshift-advance-narrow": "trip counts decided apart from the loop", "bare-decorator-keyword": "keyword calls of every witness",
    "rnglist-needs-numba": "module graph with the compiler missing", "splitmix-second-word": "aimed valuations",
    "unown-question-mark": "uninterpreted tables that differ between valuations and prefer constants of the graph",
}
LATE.update(json.load(open(os.path.join(ROOT, "tools", "late.json"))) if os.path.exists(os.path.join(ROOT, "tools", "late.json")) else {})
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    j = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append((j["property"], d, j["what_it_breaks"], j["needs"], LATE.get(d)))
rows.sort()
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(ROOT, "tools", "design_body.md")).read())
    f.write("| property | change | breaks | needs | caught by |\n|---|---|---|---|---|\n")
    for p, d, b, n, late in rows:
        f.write("| %s | %s | %s | %s | %s |\n" % (p, d, b.replace("|", "/"), n.replace("|", "/"), ("not caught: " + late[4:]) if late and late.startswith("not:") else p + (" (missed at first; added: %s)" % late if late else "")))
    rej = os.path.join(ROOT, "tools", "rejected.md")
    if os.path.exists(rej):
        f.write("\n" + open(rej).read())
