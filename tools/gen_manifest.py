"""Writes MANIFEST.json: claimed = property modules present in mc/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
import re
checks, na = [], []
TECH = {}
for p in props:
    i = p["id"]
    f = "%s/mc/props/%s.py" % (V, i.lower())
    if os.path.exists(f):
        src = open(f).read()
        m = re.search(r'^TECHNIQUE\s*=\s*\(?((?:\s*"[^"\n]*")+)', src, re.M)
        tech = "".join(re.findall(r'"([^"\n]*)"', m.group(1)))
        m = re.search(r'^LEVEL_NOTE\s*=\s*\(?((?:\s*"[^"\n]*")+)', src, re.M)
        note = "".join(re.findall(r'"([^"\n]*)"', m.group(1))) if m else tech
        checks.append(dict(property=i, quick_cmd="/verif/check %s quick" % i, thorough_cmd="/verif/check %s thorough" % i,
                           technique="model checking: " + tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/verif/setup.sh", checks=checks, not_applicable=na),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
