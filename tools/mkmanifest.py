"""Writes MANIFEST.json from properties.jsonl and the scenarios that exist (run from /verif)"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.getcwd())
PURE = ('A pure function of its input: no schedule, clock, I/O, fault or second party for a simulator to decide, so '
        'deterministic simulation has nothing to search')
NA = {
    'N03': PURE + '. (Damage to addresses and keys in transit is part of A01.)',
}
checks, na = [], []
for line in open('properties.jsonl'):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists('dst/props/%s.py' % pid.lower()):
        mod = importlib.import_module('dst.props.%s' % pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 -m dst.check %s --tier quick' % pid,
            'thorough_cmd': 'python3 -m dst.check %s --tier thorough' % pid,
            'technique': 'deterministic simulation with fault injection: seeded search over %s' % mod.SEARCH,
            'level': 'exploration',
            'level_note': 'Samples, does not enumerate. Oracle: %s. Assumes: %s.' % (mod.ORACLE, '; '.join(mod.ASSUMPTIONS)),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No check has been built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -m dst.setup', 'checks': checks, 'not_applicable': na,
     'notes': 'One simulator (dst/engine.py, universe.py, simfs.py, simnet.py, sched.py) runs the unmodified code of /repo in simulated '
              'processes; no hooks in /repo are needed. Replay: python3 -m dst.check ID --replay FILE. See DESIGN.md.'}
with open('MANIFEST.json', 'w') as fd:
    json.dump(m, fd, indent=1)
    fd.write('\n')
