#!/usr/bin/env python3
"""MANIFEST.json from the table of checks and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from checks import CHECKS
PURE = 'A pure function of its arguments: no schedule, clock, fault, history or interleaving for a simulator to control. Deciding it is numerical input testing or proof, which this family does not offer.'
TECH = 'deterministic simulation: seeded search over simulated histories'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 sim/check.py %s' % i, thorough_cmd='python3 sim/check.py %s thorough' % i,
            technique=c.get('tech', TECH + ' with allocator placement, poisoned memory and fault injection, against a reference model'), level='exploration',
            level_note=c.get('note', 'Sampled, not exhaustive: %d simulated runs per quick check. Real FCL code, instrumented; simulated allocator, clock, threads and locks. Trusts the compiler, Eigen, libccd, octomap and the reference model in harness/%s.' % (sum(x['quick'] for x in c.get('parts', [c])), ', harness/'.join(x['harness'] for x in c.get('parts', [c]))))))
    else: na.append(dict(property=i, reason=PURE if i >= 'C30' else 'No check yet.'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks were needed: the simulator interposes the allocator, clocks, pthread primitives and every memory access (ThreadSanitizer instrumentation with its own runtime) at build and link time', source_commits=[]), checks=checks, not_applicable=na,
    notes='fix: commits in /repo repair genuine defects and are recorded in known_findings.json and DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
