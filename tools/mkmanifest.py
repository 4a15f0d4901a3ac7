#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TLA = 'TLA+ specification checked with TLC; sessions of the real code replayed against it (trace validation)'
PMC = ('Explicit TLA+ specification of the PMC format (spec/PmcFormat.tla). TLC judges every call recorded from the real code against it; '
       'the bounded models enumerate small configurations, cuts and corruptions exhaustively and every enumerated file is replayed. '
       'Outside those bounds the assurance is that of seeded random sessions. Trusts TLC, the driver that records the calls, and construct.')
PML = ('Explicit TLA+ specification of the log format and the reader (spec/PmlFormat, EventDetail, Csv, PmlReader.tla). TLC computes from the bytes of '
       'generated files what every call must answer and judges the recorded calls of the real code; bounded models are enumerated exhaustively where '
       'listed in the evidence and replayed. Outside those bounds the assurance is that of seeded random sessions. Trusts TLC, the file builder '
       '(only to be diverse, not to be right) and the driver that records the calls.')
BOTH = ('Explicit TLA+ specifications of the reader, the log format and the PMC format; MC_Threads refines the reader step by step and enumerates the orders of the '
        'threads, a scheduler makes the real threads take them (by stream operations, lines or instructions) and TLC judges every call as if it had been made alone. '
        'Outside the enumerated orders the assurance is that of seeded random schedules. Trusts TLC, the scheduler and the driver.')
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': TLA, 'level': 'model_checking',
                   'level_note': BOTH if p == 'C30' else PMC if p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C28') else PML})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: the checks drive the public interface from outside.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
