"""Quick trial of changes: python3 tools/trial.py FILE [ID...]

FILE defines TRIALS = [(id, [props], [(file, old, new)...])].  No demonstration, only: do the tests pass, do the checks notice?
"""
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

ROOT = plant.ROOT
WT = os.environ.get('TRIAL_WT', '/tmp/trial-wt')


def main():
    plant.WT = WT
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    want = sys.argv[2:]
    for ident, props, edits in ns['TRIALS']:
        if want and not any(w in ident for w in want):
            continue
        shutil.rmtree(WT, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', WT])
        for fn, old, new in edits:
            p = os.path.join(WT, fn)
            s = open(p).read()
            assert s.count(old) >= 1, (ident, fn, old)
            if s.count(old) != 1:
                print(ident, 'AMBIGUOUS', s.count(old))
            open(p, 'w').write(s.replace(old, new, 1))
        bad = plant.tests(WT) if not os.environ.get('NOTESTS') else []
        r = []
        for prop in props:
            q = subprocess.run([sys.executable, '-m', 'dst.check', prop, '--repo', WT, '--no-evidence'], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = q.stdout.decode('utf8', 'replace')
            v = [x for x in out.split('\n') if x.startswith('VIOLATION')]
            kind = [x for x in out.split('\n') if 'violated' in x or 'kind' in x]
            r.append('%s:%s' % (prop, 'caught' if q.returncode == 1 and v else 'missed' if q.returncode == 0 else 'ERROR' + out[-400:]))
        print(ident, 'TESTS FAIL %s' % bad[:2] if bad else '', ' '.join(r), flush=True)
    shutil.rmtree(WT, ignore_errors=True)


if __name__ == '__main__':
    main()
