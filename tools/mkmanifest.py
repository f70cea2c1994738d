"""regenerates MANIFEST.json from the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TV = ("symbolic execution of the LLVM IR lacsap emits, compared with an independent C oracle by SMT (Z3)",
      "translation_validation",
      "fixed family of programs (generated and hand written), every value of their inputs within the stated bounds; "
      "counterexamples are replayed on the compiled program before being reported")
RT = ("symbolic execution of the runtime library's LLVM IR linked with the LLVM IR lacsap emits, compared with an independent C oracle by SMT (Z3)",
      "translation_validation",
      "fixed family of programs, all values of the data and input characters within the stated sizes; "
      "counterexamples are replayed on the compiled program (with ASan for memory errors) before being reported")
FE = ("symbolic execution of the front end's LLVM IR with SMT (Z3) deciding every assertion",
      "bounded_model_checking",
      "all source characters / operand values within the stated bounds; counterexamples are replayed with the real compiler")
FT = (FE[0] + "; symbolic execution of the LLVM IR lacsap emits for nested constant expressions, compared with an oracle by SMT (Z3)", FE[1], FE[2])
KIND = {"C13": RT, "C14": RT, "C15": RT, "C16": RT, "C22": RT, "C11": FT, "C17": FE, "C25": FE}
NA = {}
na_file = V + "/tools/not_applicable.json"
if os.path.exists(na_file):
    NA = json.load(open(na_file))
levels = json.load(open("/root/.vp/MANIFEST.schema.json"))["properties"]["checks"]["items"]["properties"]["level"]["enum"] if os.path.exists("/root/.vp/MANIFEST.schema.json") else None
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(V + "/" + f) and i not in NA:
        t, l, n = KIND.get(i, TV)
        if levels and l not in levels:
            l = "model_checking"
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Solver-based checking; see DESIGN.md. No hooks in /repo: the checks build the compiler and the runtime from /repo as they are. Known findings: known_findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
