#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
SCHED = 'stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption bound, virtual time, happens-before state cache, race detection in every execution)'
DELAY = 'stateless model checking of the real code under a controlled scheduler (all schedules up to a delay bound, all select choices and operation sequences, virtual time, race detection in every execution)'
ENUM = 'exhaustive enumeration of bounded inputs, histories and faults on the real code against an independent oracle; concurrent calls under all schedules up to a preemption bound'
FAULT = 'exhaustive enumeration of faults (every cut, every changed bit, every fragmentation or failure point of bounded cases) on the real code'
NOTE_S = 'Holds on every execution within the bounds that DESIGN.md and the evidence file state per scenario (threads, operations, preemptions); trusts the instrumentation of goroutines, channels, select, sync, atomic, time and context (cmd/instr, vrt), which the self test checks against known programs, and the race detector for unsynchronised accesses.'
NOTE_E = 'Holds for every enumerated input within the stated bounds; trusts the standard library parts used as oracle and the representative choice beyond the bounds.'
checks = []
for i in ids:
    n = int(i[1:])
    if n <= 21: t, lvl, note = SCHED, 'model_checking', NOTE_S
    elif n <= 26 or n in (38, 39): t, lvl, note = (DELAY if n in (25, 38) else SCHED), 'model_checking', NOTE_S
    elif i in ('C32', 'C36', 'C37'): t, lvl, note = FAULT, 'fault_enumeration', NOTE_E
    else: t, lvl, note = ENUM, 'exploration', NOTE_E
    checks.append({'property': i, 'quick_cmd': f'./run.sh {i} quick', 'thorough_cmd': f'./run.sh {i} thorough', 'technique': t, 'level': lvl, 'level_note': note})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
     'hooks': {'guard': 'none: /repo carries no hooks', 'enable': 'run.sh instruments a copy of the packages with cmd/instr and builds it with go build -overlay; /repo stays as it is', 'source_commits': []},
     'notes': 'See DESIGN.md. known_findings.txt lists the defects found: repaired ones and the one that is not.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
