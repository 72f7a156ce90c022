"""Writes MANIFEST.json from the checks present and tools/notes below."""
import importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", f"{i}.py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check not written yet"})
        continue
    src = open(f).read()
    m = re.search(r'^TECHNIQUE = \(?\s*((?:"[^"]*"\s*)+)\)?', src, re.M)
    tech = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else (
        "bounded exhaustive exploration of the real code, every step compared with a reference model")
    m = re.search(r'^NOTE = \(?\s*((?:"[^"]*"\s*)+)\)?', src, re.M)
    note = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else (
        "Every case of the stated finite spaces is executed on the code of /repo and compared with the reference model; "
        "nothing is claimed outside the bounds listed in the evidence file and DESIGN.md. Trusts numpy/sympy/scipy and the reference model.")
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks use public interfaces and close the random sources from outside."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "without")
