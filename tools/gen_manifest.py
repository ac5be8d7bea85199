#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from sfa/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from sfa import props, rules, core
rules.load_all()
claimed = []
na = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                 why_tests_cant=p["why"], anchors=p["anchors"])
        f.write(json.dumps(d) + "\n")
        if p.get("na"):
            na.append(dict(property=p["id"], reason=p["na"]))
        else:
            assert p["id"] in core.REGISTRY, p["id"]
            claimed.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                                thorough_cmd="python3 check.py --thorough " + p["id"],
                                technique=p["technique"], level="other", level_note=p["note"]))
missing = set(core.REGISTRY) - {p["id"] for p in props.PROPS}
assert not missing, missing
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=claimed, not_applicable=na)
if props.NOTES:
    m["notes"] = props.NOTES
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import glob
D = open(os.path.join(V, "docs", "design_head.md")).read()
for p in props.PROPS:
    if p.get("na"):
        continue
    R = next(x for x in core.REGISTRY[p["id"]] if callable(x))
    doc = " ".join((R.__doc__ or "").split())
    mod = os.path.relpath(sys.modules[R.__module__].__file__, V)
    D += "### %s %s\n\n*Statement.* %s\n\n*Quantifies over* %s.\n\n*Method.* %s (`%s`).\n\n*Rule.* %s\n\n*Why not tests.* %s\n\n" % (
        p["id"], p["title"], p["statement"], p["quantifier"]["text"], p["technique"], mod, doc, p["why_tests_cant"] if "why_tests_cant" in p else p["why"])
    extra = p["note"].replace(props.TRUST, "").strip()
    if extra:
        D += "*Limits.* %s\n\n" % extra
D += "## 4. Properties not claimed\n\n"
for x in na:
    D += "* **%s**: %s\n" % (next(p["id"] + " " + p["title"] for p in props.PROPS if p["id"] == x["property"]), x["reason"])
D += "\n## 5. Defects found: repaired (fixed) or recorded (known; known_findings.json)\n\n"
for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"]:
    D += "* %s `%s`: %s\n" % (k["status"], k["construct"], k["what"])
D += "\n## 6. Planted bugs\n\nEach lies in `seeded/<name>/` with its demonstration, and the check of its property reports it.\n\n| seed | property | breaks | needs |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    x = json.load(open(m))
    D += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), x["property"], x["what_it_breaks"], x["needs"])
D += "\n" + open(os.path.join(V, "docs", "design_tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(D)
print(len(claimed), "claimed", len(na), "not applicable")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
