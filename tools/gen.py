"""Writes properties.jsonl and MANIFEST.json from tools/meta.json (developer tool, not run by checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(os.path.join(V, "tools", "meta.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in meta["properties"]:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
NOTE = ("Z3 decides every goal element for all values of the symbolic inputs of each case; bounds (array shapes, "
        "expansions, batch shapes, any concretised inputs) are listed per case in the evidence. Assumes exact real "
        "arithmetic (rounding is outside the bound), non-singular divisors/matrices, and trusts the symbolic "
        "interpreter of the traced program, which is validated against the real code at a witness point on every run. ")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": meta["not_applicable"],
       "notes": "No hooks are needed: the checks trace the unmodified public API from /repo/src."}
for p in meta["properties"]:
    if any(n["property"] == p["id"] for n in meta["not_applicable"]):
        continue
    man["checks"].append({
        "property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "technique": p.get("technique", "symbolic execution of the traced code (jaxpr) + Z3 (nonlinear real arithmetic)"),
        "level": "other", "level_note": NOTE + p.get("note", "")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
