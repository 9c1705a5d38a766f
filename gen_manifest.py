#!/usr/bin/env python3
# writes MANIFEST.json from jobs.py and properties.jsonl
import json, os
from jobs import JOBS, META
os.chdir(os.path.dirname(os.path.abspath(__file__)))
NA=json.load(open("not_applicable.json")) if os.path.exists("not_applicable.json") else {}
props=[json.loads(l)["id"] for l in open("properties.jsonl")]
m=dict(version=1,setup_cmd="python3 check.py --build",
  hooks=dict(guard="none: no hook was added to /repo",enable="sim/build.sh compiles /repo/src with -fsanitize=thread instrumentation served by the simulator and renames libc, pthread and libaio symbols with objcopy --redefine-syms",source_commits=[]),
  checks=[dict(property=p,quick_cmd=f"python3 check.py {p} quick",thorough_cmd=f"python3 check.py {p} thorough",technique="deterministic simulation with fault injection: seeded search over schedules, faults and histories, "+META[p].get("oracle","reference-model oracle"),level=META[p]["level"],level_note=META[p]["note"]) for p in props if p in JOBS],
  not_applicable=[dict(property=p,reason=NA.get(p,"no check yet; being built")) for p in props if p not in JOBS],
  notes="See DESIGN.md. Replay a violation with: python3 check.py --replay FILE")
json.dump(m,open("MANIFEST.json","w"),indent=1)
