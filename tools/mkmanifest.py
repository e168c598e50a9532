"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read(), NOTES)
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        tech, note = NOTES["N"].get(p, ("bounded-exhaustive model checking of the implementation", "within the bounds in the evidence"))
        checks.append(dict(property=p, quick_cmd=f"bash check.sh {p} --tier quick",
                           thorough_cmd=f"bash check.sh {p} --tier thorough",
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the random source, services and schedules are controlled from outside.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
