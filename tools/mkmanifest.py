#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a working check."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
CLAIMED = open(os.path.join(here, 'claimed.txt')).read().split()
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
NA = {
 'C30': 'pure function of its input: no schedule, time, I/O, randomness or second party for a simulator to control, so deterministic simulation would be plain input testing',
 'C31': 'pure function of the source text, see C30; its I/O-facing side is covered by C08-C10',
 'C32': 'single-threaded in-memory data structure without I/O, time or concurrency, see C30',
 'C33': 'pure function of the parsed object tree, see C30',
 'C34': 'pure function of the parsed sources, see C30; that its reports do not depend on schedule, hash seeds or delivery is C08',
}
NOTE = {
 'default': 'Seeded search over faults and schedules: assurance grows with the number of runs, it is not exhaustive. Trusts the simulated operating system (simos) to behave like Linux as far as Rust std uses it, sequentially consistent memory, and the workload generators to reach the relevant inputs.',
}
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hook if 'cfg(spaceman_sim)' in l]
m = {
 'version': 1,
 'setup_cmd': './run.sh setup',
 'hooks': {
  'guard': 'cfg(spaceman_sim)',
  'enable': 'the checks compile /repo/crates with --cfg spaceman_sim (sim/tools/rustc-wrapper.sh)',
  'source_commits': hooks,
 },
 'checks': [],
 'not_applicable': [],
 'notes': 'All checks are one simulator (sim/simos, sim/simdrv) with one workload and oracle per property. Known and fixed defects: known_findings.json. Replay a reported file with ./run.sh <id> --replay <file>.',
}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({
            'property': i,
            'quick_cmd': f'./run.sh {i}',
            'thorough_cmd': f'./run.sh {i} --tier thorough',
            'technique': 'deterministic simulation with fault injection (seeded search over schedules, faults and inputs)',
            'level': 'exploration',
            'level_note': NOTE.get(i, NOTE['default']),
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
