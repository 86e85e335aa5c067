"""Makes and validates planted bugs

  python3 tools/plant.py SPEC.py [ID...]

SPEC.py defines BUGS: dicts with id, prop, edits [(file, old, new)], demo (Python source), needs, breaks.
A bug is kept as seeded/<id>/ if the change passes the stable tests and its demonstration tells the two trees apart.
Whether the checks catch it is printed, and noted in seeded/RESULTS.
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/plant-wt'
BASE = '3f33f4f'
DEMO_SH = '''#!/bin/sh
# exit 0: the property holds; run with the repository as working directory
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$PWD/lib/python-bitcoinlib:$PWD/lib/python-proofmarshal"
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 python3 "$D/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def tests(wt):
    xml = '/tmp/plant.xml'
    rc, out = sh('. /opt/vp/env.sh; export PYTHONPATH=%s:%s/lib/python-bitcoinlib:%s/lib/python-proofmarshal; /opt/venv/bin/python -m pytest -q -p no:cacheprovider '
                 '--import-mode=prepend --rootdir=%s --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s '
                 '--ignore=lib/python-bitcoinlib/bitcoin/tests/test_wallet.py proofchains lib/python-bitcoinlib/bitcoin '
                 'lib/python-proofmarshal/proofmarshal' % (wt, wt, wt, wt, xml), cwd=wt)
    rc2, out2 = sh('/opt/venv/bin/python /opt/vp/results.py /tmp/plant.json junit:' + xml)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(json.load(open('/tmp/plant.json'))['passed'])
    return [t for t in stable if t not in passed]


def original(diff, wt):
    """All removed lines are of the original repository"""
    bad, any_ = [], False
    fn = None
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            fn = line[6:]
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1)) - 1
        elif fn and not line.startswith(('---', '+++', '+', '\\')):
            n = locals().get('n', 0) + 1
            if line.startswith('-'):
                any_ = True
                rc, out = sh(['git', '-C', '/repo', 'blame', '-s', '-l', '-L', '%d,%d' % (n, n), 'HEAD', '--', fn])
                base = sh(['git', '-C', '/repo', 'rev-parse', BASE])[1].strip()
                if base[:30] not in out:
                    bad.append(line)
    return any_ and not bad, bad


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        shutil.rmtree(WT, ignore_errors=True)
        sh(['cp', '-a', '/repo', WT])
        ok = True
        for fn, old, new in b['edits']:
            p = os.path.join(WT, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT: %r occurs %d times' % (old[:60], s.count(old)))
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff', cwd=WT)[1]
        orig, bad = original(diff, WT)
        if not orig:
            print(b['id'], 'NOT ORIGINAL LINES', bad)
            continue
        d = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh(d + '/demo.sh', cwd='/repo')
        rc1, o1 = sh(d + '/demo.sh', cwd=WT)
        fails = tests(WT)
        if rc0 != 0 or rc1 == 0 or fails:
            print(b['id'], 'INVALID: demo clean %d, patched %d, tests %s\n%s' % (rc0, rc1, fails[:5], o0[-800:] if rc0 else o1[-800:]))
            shutil.rmtree(d)
            continue
        res = []
        for prop in b.get('props', [b['prop']]):
            rc, out = sh(['python3', '-m', 'dst.check', prop, '--repo', WT, '--no-evidence', '--tier', 'quick'], cwd=ROOT)
            line = [x for x in out.split('\n') if x.startswith('VIOLATION') or ' held' in x] or [out[-300:]]
            res.append('%s %s %s' % (prop, {0: 'missed', 1: 'CAUGHT'}.get(rc, 'ERROR %d' % rc), line[-1]))
        print(b['id'], '|', ' | '.join(res), flush=True)
    shutil.rmtree(WT, ignore_errors=True)


if __name__ == '__main__':
    main()
