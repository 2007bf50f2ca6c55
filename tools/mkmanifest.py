"""Writes MANIFEST.json from vc/meta.json and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/vc/meta.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1,
         setup_cmd="/opt/venv/bin/python -c 'import vc.run as r; r.setup_env(); import z3, jax, numpy; print(z3.get_version_string(), jax.__version__)'",
         checks=[], not_applicable=[],
         notes="No hooks: the checks trace and run the functions of /repo's working tree as they are. See DESIGN.md.")
for p in props:
  e = meta.get(p, {})
  if "na" in e:
    m["not_applicable"].append(dict(property=p, reason=e["na"]))
  elif os.path.exists(f"{V}/vc/checks/{p.lower()}.py"):
    m["checks"].append(dict(
        property=p,
        quick_cmd=f"/opt/venv/bin/python -m vc.run {p} --tier quick",
        thorough_cmd=f"/opt/venv/bin/python -m vc.run {p} --tier thorough",
        technique=e["technique"], level=e.get("level", "proof"),
        level_note=e["note"]))
  else:
    m["not_applicable"].append(dict(property=p, reason="check not built yet"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
