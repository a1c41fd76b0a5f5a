#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the scenarios registered in sim/check."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = set()
for f in glob.glob(V + "/sim/check/*.go"):
    claimed |= set(re.findall(r'tuning\["(C\d+)"\]', open(f).read()))
NA = {
 "N01": "Pure function of its input: the formatter reads a string and returns a string; no schedule, clock, fault or second party can change the result. Its file handling is covered by C20.",
 "N02": "Pure function of its input: the MusicXML importer converts one string to another; nothing a simulator controls can change the result. Its file handling is covered by C20.",
 "N03": "Pure function of its input: scanner and parser depend on nothing but the source text. That no text a client sends can take the server down is covered by C07.",
 "N04": "Pure function of its input: alda-lisp evaluation reads no clock, file, randomness or other party.",
 "N05": "Pure function of its input: channel assignment is computed from the finished score alone. Its independence of map iteration order is covered by C23.",
 "N06": "Pure function of its input: arithmetic on pitches. Its independence of map iteration order is covered by C23.",
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection: seeded search over workloads, schedules and faults of the real client in a simulated machine",
          "level": "exploration",
          "level_note": "Samples executions; a clean batch is evidence, not proof. Real Go client code under a simulated scheduler, clock, network, file system and processes; the Kotlin player, the HTTP service and the operating system are models (see DESIGN.md)."})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is built for it yet.")})
m = {"version": 1, "setup_cmd": "bin/setup.sh",
 "hooks": {"guard": "none", "enable": "No hooks in /repo: the check rewrites a copy of the sources so that every source of nondeterminism goes to the simulator (gotools/simrewrite).", "source_commits": []},
 "checks": checks, "not_applicable": na,
 "notes": "bin/check --replay FILE replays a reported violation. known_findings.json lists genuine defects that were repaired (fixed) or recorded."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
