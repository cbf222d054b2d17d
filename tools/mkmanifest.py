"""writes MANIFEST.json from the spec modules that exist"""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
NOTES = {}
NA = {}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "specs", i.lower() + ".py")) and i not in NA:
        m = importlib.import_module("specs." + i.lower())
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": getattr(m, "TECHNIQUE", "contract-based deductive verification: contracts on the real functions, path-wise verification conditions discharged by z3/cvc5/polynomial identities; counter-models replayed on the real code"),
                       "level": getattr(m, "LEVEL", "proof"),
                       "level_note": getattr(m, "NOTE", "") or "Trusted: the engine in dv/, its numpy and file-system contracts, the solvers; reals for floats. Bounds per harness in the evidence file."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
man = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na,
       "notes": "Known findings: known_findings.txt. Bounded parts are labelled per harness in the evidence files."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
