"""Writes MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks

PROPS = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TRACE = "TLA+ specification (Hxhim.tla); TLC validates histories recorded from the real library against it"
NOTE = ("Every recorded history of seeded random programs is accepted or rejected by TLC against the specification's actions (all interleavings of the "
        "unrecorded steps are searched). Trusts the driver that records calls and results, the simulated MPI, and the specification; bounded by the generated programs.")
out = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": [], "not_applicable": [],
       "notes": "No hooks: everything is observed through the public API, the message layer (a simulated MPI) and, for parts, direct calls of library functions."}
for p in PROPS:
    i = p["id"]
    if i in checks.CLAIMED:
        t = checks.TECHNIQUE.get(i, (TRACE, NOTE))
        out["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                              "technique": t[0], "level": "model_checking", "level_note": t[1]})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_YET.get(i, "check under construction")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
