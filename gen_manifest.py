"""writes MANIFEST.json from the specs present"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
LEVELS = {"C15": ("other", "Every obligation is discharged for all array sizes, contents and call histories (induction over the operations), but the number of parts per array (<= 3) and of dimensions per part are bounded, so these are reported as bounded obligations and none is counted as proved.")}
claimed = [i for i in ids if os.path.exists(os.path.join(H, "specs", i.lower() + ".py")) and os.path.exists(os.path.join(H, "concrete", "k" + i[1:] + ".py"))]
notes = {}
try:
    exec(open(os.path.join(H, "specs", "notes.py")).read(), notes)
except OSError:
    pass
NOTES = notes.get("NOTES", {})
GEN = ("Contracts on the functions of /repo are discharged for all inputs and all iterations on the instrumented current source (no bound, exact arithmetic: floats treated as reals); "
       "numpy/scipy/sklearn/pymanopt operations are assumed contracts (see trusted_base). Seeded runtime contracts on the real code are a bounded companion that supplies failing inputs.")
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": "contract-based deductive verification: symbolic execution of the real source against contracts, loop invariants by induction, equalities by a normal-form prover and z3",
                            "level": LEVELS.get(i, ("proof", ""))[0], "level_note": (LEVELS.get(i, ("", ""))[1] + " " + NOTES.get(i, "") + " " + GEN).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "contracts for this property are not written yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
