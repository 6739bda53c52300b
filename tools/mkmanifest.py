#!/usr/bin/env python3
"""Writes MANIFEST.json from the implemented checks."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
checks, na = [], []
for p in props:
    f = V / "checks" / f"{p.lower()}.py"
    if not f.exists():
        na.append({"property": p, "reason": "no check yet"})
        continue
    src = f.read_text()
    doc = re.match(r'"""(.*?)"""', src, re.S).group(1)
    note = re.search(r"LEVEL_NOTE = (?:\(\s*)?((?:\".*?\"\s*)+)\)?", src, re.S)
    note = "".join(json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', note.group(1))) if note else \
        "exhaustive TLC models within small bounds; the real code is bound to them by replayed and recorded traces"
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "TLA+ specification checked with TLC; replay of specified cases and TLC trace validation of recordings of the real code",
        "level": "model_checking",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public API, the C API and the command-line tools. See DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
