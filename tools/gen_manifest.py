#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "ASan+UBSan and MSan over the whole API and all other workloads",
 "P02": "history monitor: forked fresh-process call histories compared bit for bit, environment probes",
 "P03": "ThreadSanitizer plus parallel-vs-sequential result monitor, default and thread-safe builds",
 "P04": "sanitized runs, aliased-vs-separate result monitor",
 "P34": "statistical and replay monitors over recorded deviate streams from fresh processes",
 "P33": "exactly-once/ordering checker over recorded enumeration traces",
 "P36": "virtual-time monitor of sleep requests with injected signal interruptions (ASan+UBSan build), plus real-time runs",
 "P37": "online shadow-state monitor of random write/read histories over all record types (ASan+UBSan build)",
 "P35": "sanitized runs, single-vs-double precision differential monitor",
}
D = "sanitized runs (ASan+UBSan) judged by independent oracles and an extended-precision shadow model"
N = "Every execution is judged online by the oracles described in DESIGN.md; assurance extends to the inputs executed (seeded, boundary-directed generation incl. literals harvested from the current source). Trusts the oracle formulas, the frozen shadow model in ref/ and the sanitizer runtimes."
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: checks compile /repo/src unmodified with sanitizers (the thread-safe configuration is a scratch copy with SLALIB_THREAD_SAFE set to 1)", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": T.get(p, D), "level": "exploration", "level_note": N} for p in props],
     "not_applicable": [],
     "notes": "Defects found and repaired are listed in known_findings.json (fixed). bin/check.py --replay FILE re-runs one recorded violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
