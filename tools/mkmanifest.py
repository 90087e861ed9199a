#!/usr/bin/env python3
# mkmanifest.py SM: writes MANIFEST.json and harness/race.txt from `SM describe` and properties.jsonl.
import json, os, subprocess, sys
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.loads(subprocess.check_output([sys.argv[1], 'describe']))
props = [json.loads(l) for l in open(v + '/properties.jsonl')]
out = {"version": 1, "setup_cmd": "bash run.sh build", "checks": [], "not_applicable": []}
base = ("The real code is run through its public API and client callbacks; a violation is always a concrete failing execution. "
        "Assurance is limited to the executions run (see the evidence file). ")
for p in props:
    i = p['id']
    if i in checks:
        c = checks[i]
        out['checks'].append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i,
                              "evidence_file": "evidence/%s.json" % i, "technique": c["technique"],
                              "level": c["level"], "level_note": base + "Assumes: " + "; ".join(c["assumptions"] or ["nothing further"]) + "."})
    else:
        out['not_applicable'].append({"property": i, "reason": "its monitor is still being built"})
out['notes'] = "The monitors are black-box: they use /repo's public API and client callbacks only, so no hooks were added to /repo. Known findings and fixed defects: known-findings.txt."
open(v + '/MANIFEST.json', 'w').write(json.dumps(out, indent=1) + '\n')
open(v + '/harness/race.txt', 'w').write(''.join(i + '\n' for i in sorted(checks) if checks[i]['race']))
