import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "P03": "Seeded search over interleavings of the shipped cache code with real std locks on a simulated scheduler; freed memory is poisoned and kept aside so that a use of a replaced map or table shows. A second stage runs the same scenarios with every access a preemption point and judges data races by vector clocks.",
 "P04": "Seeded search over histories mixing unsupported requests with supported ones on several threads; every supported request must still succeed and every table transform correctly.",
}
exec(open(os.path.join(root, "tools/notes.py")).read()) if os.path.exists(os.path.join(root, "tools/notes.py")) else None
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences"
NA = {
 "P16": "pure functions of their operands: no scheduling, time, I/O, randomness or fault for a simulation to vary",
 "P17": "a pure validation function of its arguments: no scheduling, time, I/O, randomness or fault for a simulation to vary",
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
  "technique": TECH, "level": "exploration", "level_note": NOTE[p]} for p in props if p in NOTE]
m = {"version": 1, "setup_cmd": "./setup.sh",
  "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator interposes libc entry points and compiler-inserted edge callbacks when it builds /repo's crates", "source_commits": []},
  "checks": checks,
  "not_applicable": [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in NOTE],
  "notes": "replay a violation with ./replay.sh <file>"}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
