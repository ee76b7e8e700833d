#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.json (one file per property)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(HERE, "meta", "[A-Z]*.json"))):
    m = json.load(open(f))
    pid = m["id"]
    props.append({k: m[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    if "not_applicable" in m:
        na.append({"property": pid, "reason": m["not_applicable"]})
        continue
    assert glob.glob(os.path.join(HERE, "harness", pid + "_*.cpp")), pid
    checks.append({"property": pid, "quick_cmd": "python3 bin/check.py %s quick" % pid,
                   "thorough_cmd": "python3 bin/check.py %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": m["technique"],
                   "level": "exploration", "level_note": m["level_note"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": checks, "not_applicable": na,
       "notes": "Checks build /repo's sources into /verif/build (content-hash cached), see DESIGN.md. Replay a failure with: python3 bin/check.py <ID> --replay <file>."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, s)
        assert len([x for x in p["statement"].replace("e.g.", "eg").split(". ")]) <= 3, p["id"]
    print("schemas ok")
except ImportError:
    pass
