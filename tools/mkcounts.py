"""tools/counts.json from the evidence files of the last quick runs (for DESIGN.md)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(f"{V}/evidence/P*.json")):
    d = json.load(open(f)); c = d["coverage"]
    assert d["tier"] == "quick" and not d["violations"], f
    out[d["property"]] = {"wall": round(d["wall_s"]), "states": c["states"], "transitions": c["transitions"], "traces": c["traces_validated_against_impl"],
                          "spaces": {s["name"]: [s["cases"], s["traces"]] for s in c["spaces"]}}
json.dump(out, open(f"{V}/tools/counts.json", "w"), indent=0)
print(len(out))
