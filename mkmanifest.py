"""MANIFEST.json from properties.jsonl and the spec modules (python3 mkmanifest.py)"""
import ast, json, os
H = os.path.dirname(os.path.abspath(__file__))
NA = json.load(open(os.path.join(H, "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(H, "specs", p + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "no contract written yet")})
        continue
    d = {t.targets[0].id: t.value for t in ast.parse(open(f).read()).body
         if isinstance(t, ast.Assign) and isinstance(t.targets[0], ast.Name)}
    get = lambda k, dflt: ast.literal_eval(d[k]) if k in d else dflt
    checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": get("TECHNIQUE", "contract-based deductive verification: contracts on the real functions, "
                                    "verification conditions generated by executing them on symbolic inputs along every "
                                    "path, discharged by a ring normaliser, z3 and cvc5"),
                   "level": get("LEVEL", "proof"), "level_note": get("LEVEL_NOTE", "")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; no hooks are needed in /repo"}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
