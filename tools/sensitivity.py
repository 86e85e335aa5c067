"""Does every repaired defect make the check of its property fail again when its repair is reverted?

  python3 tools/sensitivity.py [COMMIT...]

Works in a scratch worktree under /tmp, which is removed afterwards; the result goes to tools/SENSITIVITY.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/sens-wt'


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def main():
    want = sys.argv[1:]
    lines = []
    try:
        for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['fixed']:
            _, prop, commit = f.split()[:3]
            prop = prop.split('=')[1]
            if want and commit not in want and prop not in want:
                continue
            shutil.rmtree(WT, ignore_errors=True)
            sh(['git', 'clone', '-q', '/repo', WT])
            sh(['git', 'config', 'user.email', 'x@y'], WT)
            sh(['git', 'config', 'user.name', 'x'], WT)
            rc, out = sh(['git', 'revert', '-n', '-X', 'theirs', commit], WT)
            if rc:
                r = 'CONFLICT ' + out.split('\n')[0]
            else:
                rc, out = sh([sys.executable, '-m', 'dst.check', prop, '--repo', WT, '--no-evidence'], ROOT)
                v = [x for x in out.split('\n') if x.startswith('VIOLATION')]
                r = 'caught' if rc == 1 and v else 'MISSED' if rc == 0 else 'ERROR %d %s' % (rc, out[-300:])
            lines.append('%s %s %s' % (prop, commit, r))
            print(lines[-1], flush=True)
    finally:
        shutil.rmtree(WT, ignore_errors=True)
    if not want:
        with open(os.path.join(ROOT, 'tools', 'SENSITIVITY'), 'w') as fd:
            fd.write('\n'.join(lines) + '\n')


if __name__ == '__main__':
    main()
