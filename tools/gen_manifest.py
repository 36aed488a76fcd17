#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, re
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
claimed = set(re.findall(r'"(C\d\d)":', open('/verif/sim/build/rules.go').read()))
PURE = {
 'N01': 'The verdict on a runbook file is a pure function of its text: no scheduling, time, I/O fault or other party takes part (reading the file under faults is C22/C23), so simulation has nothing to vary.',
 'N02': 'Topological sorting is a pure sequential function of the graph; nothing nondeterministic or faulty takes part. Its use during a run is covered by C05, C08 and C14.',
 'N03': 'Writing and parsing a description are pure functions of a value and a string; there is no schedule, clock, fault or other party to simulate. The round trip of what an inspection writes is covered by C19.',
 'N04': 'Parsing a constraint definition is a pure function of a string.',
 'N05': 'SQL generation is a pure function of a description.',
 'N06': 'Command-line parsing is a pure function of the arguments.',
 'N07': 'Parsing a task set file is a pure function of its text.',
 'N08': 'Converting storage parameters is a pure function of the reported strings.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh ' + i,
            'thorough_cmd': 'env VERIF_TIER=thorough ./check.sh ' + i,
            'evidence_file': f'evidence/{i}.json',
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, scenarios and faults',
            'level': 'exploration',
            'level_note': 'Samples executions of the real code under a simulated scheduler, clock, kernel, network and server; a violation is minimised and replayed exactly in a fresh process before it is reported. Assurance is statistical: what no sampled run shows is not ruled out. Trusts the simulated runtime hooks, kernel and server, and preempts between statements only.',
        })
    else:
        na.append({'property': i, 'reason': PURE.get(i, 'The workload that decides it is not built yet.')})
json.dump({'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: every seam is added at build time by go build -overlay (see DESIGN.md). VERIF_TIER=thorough selects the deeper exploration; VERIF_RUNS and VERIF_WALL (seconds) override the budgets. ./check.sh replay FILE repeats a recorded run (exit 1: the violation occurs again, exactly).'},
  open('/verif/MANIFEST.json', 'w'), indent=1)
