"""writes MANIFEST.json and contracts/skeletons.json from the contracts and the property list"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx, check
V = vx.VERIF
NA = json.load(open(V + "/tools/not_applicable.json"))
NOTES = json.load(open(V + "/tools/level_notes.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
ex, cfg = vx.extract()
ex["cfg"] = cfg
cs = vx.load_contracts()
have = {p for c in cs.values() if not c.trusted for p in c.props}
checks, na = [], []
for p in props:
    if p in have and p not in NA:
        checks.append({"property": p, "quick_cmd": "python3 vx.py check %s" % p, "thorough_cmd": "python3 vx.py check %s --thorough" % p,
                       "technique": "deductive verification (Verus contracts on the extracted functions); bounded replay search with the real code",
                       "level": "proof", "level_note": NOTES.get(p, NOTES["default"])})
    else:
        na.append({"property": p, "reason": NA.get(p, "no contract for this property yet: its functions are still being brought under contract")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md; no hooks are needed in /repo"}, open(V + "/MANIFEST.json", "w"), indent=1)
sk = {}
g, bodied, lost, missing = vx.generate(ex, cs, "all")
for k in bodied:
    sk[k] = check.skeleton(ex["items"][k])
json.dump(sk, open(V + "/contracts/skeletons.json", "w"), indent=0)
json.dump(check.literals(), open(V + "/tools/literals.json", "w"), ensure_ascii=False, indent=0, sort_keys=True)
print(len(checks), "checks;", len(na), "not applicable;", "missing", missing, "lost", lost)
