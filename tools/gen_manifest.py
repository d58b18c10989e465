"""MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = ("held on the executions observed: seeded random, boundary-biased workloads on the real pure-Python implementation, "
        "judged by an independent specification; no claim about inputs the workloads did not drive")
NOTE_EXT = ("held on the executions observed: seeded random and hostile workloads on the real Rust extension, compiled from /repo/src by rustc against "
            "a stand-in for the pyo3-ffi crate (/verif/rust), and on the Python implementation; no claim about inputs the workloads did not drive")
TECH = json.load(open(os.path.join(R, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(R, "mon", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./run.py {i} quick", "thorough_cmd": f"./run.py {i} thorough",
                       "technique": TECH.get(i, TECH["*"]), "level": "exploration", "level_note": NOTE_EXT if i in ("C32", "C33") else NOTE})
    else:
        na.append({"property": i, "reason": "check not written yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, \".\"); import mon.core'",
           "hooks": {"guard": "WHENEVER_VERIF", "enable": "no hooks were needed: every property is observed at the public API; no commit in /repo is guarded by it", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
