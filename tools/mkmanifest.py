#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list below (run after adding a check)."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
W="runtime monitoring: random multi-client histories against the real server under AddressSanitizer/UBSan, an online reference model checking every reply, event and tag value"
T={"P01":W,"P02":W,"P03":W,"P04":W,"P06":W,"P07":W,"P08":W,"P09":W,"P11":W,"P12":W,
 "P10":"runtime monitoring with fault injection: the server is killed at random and at injected write/fsync points, restarted, and compared with the log of acknowledged operations",
 "P17":"sanitizer monitoring under hostile input: structure-aware fuzzing of every request and of the framing, with a protected probe client checking service and data in between",
 "P18":"runtime monitoring: the same recorded conversation replayed unsegmented and under random segmentation, delay and pipelining; replies and final state compared",
 }
NOTE={}
NA={}
exec(open(V+"/tools/techniques.py").read()) if os.path.exists(V+"/tools/techniques.py") else None
checks=[]; na=[]
for p in props:
    i=p["id"]; f="checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append({"property": i, "quick_cmd": "python3 "+f, "thorough_cmd": "VERIF_TIER=thorough python3 "+f, "evidence_file": "evidence/%s.json" % i,
          "technique": T[i], "level": "exploration", "level_note": NOTE.get(i, "Decides every execution it observes exactly; reach is that of the seeded workload (VERIF_SEED), see DESIGN.md for its dimensions and bounds.")})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
  "notes": "No hooks: all instrumentation is compiler sanitizers, LD_PRELOAD shims and the network interfaces. Repairs of /repo are listed in known_findings.json."}, open(V+"/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
