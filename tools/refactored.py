"""Runs checks on a copy of /repo with refactored.diff applied: no behaviour differs, so all must be quiet

usage: python3 tools/refactored.py [--seed N] [PROPERTY...]
"""

import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def main():
    args = sys.argv[1:]
    seed = '1'
    if args[:1] == ['--seed']:
        seed, args = args[1], args[2:]
    ids = args or [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    bad = []
    with tempfile.TemporaryDirectory(prefix='refactored-') as d:
        repo = os.path.join(d, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(HERE, 'refactored.diff')])
        for p in ids:
            r = subprocess.run([sys.executable, '-m', 'dst.check', p, '--seed', seed, '--repo', repo, '--no-evidence'], cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = (r.stdout.strip().splitlines() or ['(nothing)'])[-1]
            print(p, r.returncode, last, flush=True)
            if r.returncode:
                bad.append(p)
    print('alarms: %s' % (' '.join(bad) or 'none'))
    return bool(bad)


if __name__ == '__main__':
    sys.exit(main())
