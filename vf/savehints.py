"""savehints.py <result.json>...: keep the invariants that a proof found"""
import json, sys, os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "hints")
for p in sys.argv[1:]:
    r = json.load(open(p))
    if r["status"] == "ok" and r.get("enabled"):
        with open("%s/%s.json" % (H, r["task"]), "w") as f:
            f.write("[\n" + ",\n".join(json.dumps(x) for x in r["enabled"]) + "\n]\n")
