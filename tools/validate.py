"""schema validation of the committed JSON files: python3-vt tools/validate.py"""
import json, jsonschema, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jsonschema.validate(json.load(open(R + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
n = 0
for line in open(R + "/properties.jsonl"):
    p = json.loads(line)
    jsonschema.validate(p, S)
    n += 1
    if p["statement"].count(". ") > 2:
        print("long statement", p["id"])
ES = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for f in os.listdir(R + "/evidence"):
    jsonschema.validate(json.load(open(R + "/evidence/" + f)), ES)
print("valid:", n, "properties")
