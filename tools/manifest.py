#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
tech = {
 "C06": "runtime monitor: rendered conditions evaluated under three-valued logic against the recorded composition",
 "C14": "Go race detector over concurrent workloads, with text monitors",
 "C12": "runtime monitor under forced garbage collections",
 "C16": "fault-injecting call workload with panic, stack, memory and hang monitors",
 "C15": "runtime monitor with injected faults at every operand slot",
 "C13": "snapshot monitor over random call histories with branches",
 "C11": "history monitor: repeated rendering and building compared",
 "C21": "runtime monitor: variants of one construct compared",
}
note = {
 "C01": "random walks over the builder states, up to 9 clauses; not exhaustive",
 "C06": "all assignments up to 7 atoms, else 2500 random ones; one known finding",
 "C14": "the schedules the Go scheduler happens to take, with injected yields",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
skip = set(os.environ.get("SKIP", "").split())
m = {"version": 1, "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks build the unchanged package of /repo and observe it through its exported API", "source_commits": []},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
   "technique": tech.get(i, "runtime monitor: trace oracle on rendered statements of random API workloads"),
   "level": "exploration", "level_note": note.get(i, "random and directed workloads of a bounded size; every text is decided by an independent lexer, parser and model, nothing is proved")}
   for i in ids if i not in skip],
 "not_applicable": [{"property": i, "reason": "its check is still being built"} for i in ids if i in skip]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
