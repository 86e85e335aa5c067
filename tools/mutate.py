"""Systematic mutations of the sources: which of those that pass the tests do the checks miss?

  python3 tools/mutate.py list                      counts
  python3 tools/mutate.py tests OUT [JOBS]          run the tests on each mutant; OUT gets those that survive
  python3 tools/mutate.py checks IN OUT [JOBS]      run the checks on those; OUT gets the verdicts

Works in copies under /tmp/mut-*.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
BL, PM = 'lib/python-bitcoinlib/bitcoin/', 'lib/python-proofmarshal/proofmarshal/'
# file: properties, those that are likely to notice first
FILES = {
    'sus-tool.py': ['C03', 'C04', 'C05'],
    'proofchains/core/bitcoin.py': ['C02', 'C01', 'M06', 'M07', 'M01'],
    'proofchains/core/uniquebits/singleuseseal.py': ['C02', 'C06', 'C01', 'M07', 'M06'],
    'proofchains/core/uniquebits/gumap.py': ['C06'],
    'proofchains/uniquebits/singleuseseal.py': ['C05', 'C01', 'C03'],
    PM + 'proof.py': ['M01', 'M02', 'M07', 'M06', 'M05', 'C02', 'C06', 'M03', 'M04'],
    PM + 'bits.py': ['M08', 'M06', 'M03', 'M07', 'C06'],
    PM + 'serialize.py': ['M06', 'M02', 'M07', 'C02', 'M03', 'C06'],
    PM + 'mmr.py': ['M04', 'M02', 'M01', 'M07', 'M05'],
    PM + 'merbinnertree.py': ['M03', 'M02', 'M01', 'M07', 'M05'],
    BL + '__init__.py': ['A01', 'V02', 'R03', 'W01'],
    BL + 'base58.py': ['A01', 'K01'],
    BL + 'bloom.py': ['B01'],
    BL + 'messages.py': ['W02', 'W01'],
    BL + 'net.py': ['W02', 'W01'],
    BL + 'rpc.py': ['R04', 'R01', 'R03', 'R02', 'C05'],
    BL + 'wallet.py': ['A01', 'K01', 'S01', 'R04'],
    BL + 'core/__init__.py': ['T01', 'V02', 'W02', 'V01', 'M07', 'S01'],
    BL + 'core/_bignum.py': ['S01', 'W02'],
    BL + 'core/key.py': ['K01', 'S01', 'A01'],
    BL + 'core/script.py': ['S01', 'V02', 'A01', 'W02', 'T01'],
    BL + 'core/scripteval.py': ['S01'],
    BL + 'core/serialize.py': ['W02', 'W01', 'T01', 'B01'],
}
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//'], ast.FloorDiv: ['*'], ast.Mod: ['//'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.BitXor: ['|']}


class M(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.starts = [0]
        for line in src.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.b = src.encode()
        self.out = []

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def put(self, a, b, new, what):
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, what))

    def sub(self, n, new, what):
        self.put(*self.span(n), new, what)

    def visit_FunctionDef(self, n):
        if n.name in ('__repr__', '__str__', 'str_money_value'):
            return
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in n.decorator_list + n.args.defaults:
            self.visit(d)
        for s in body:
            self.visit(s)

    def visit_ClassDef(self, n):
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.visit(s)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), ()):
                a, b = self.span(n.left)[1], self.span(n.comparators[0])[0]
                old = self.b[a:b].decode()
                pre, post = ('', '')
                # parentheses may stand in between
                core = old.strip(' \n\\()')
                if core and old.count(core) == 1:
                    self.put(a, b, old.replace(core, new), 'compare')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        new = 'or' if isinstance(n.op, ast.And) else 'and'
        old = 'and' if new == 'or' else 'or'
        for x, y in zip(n.values, n.values[1:]):
            a, b = self.span(x)[1], self.span(y)[0]
            t = self.b[a:b].decode()
            if t.split('#')[0].count(old) == 1:
                self.put(a, b, t.replace(old, new, 1), 'bool')
        for x in n.values:
            self.sub(x, 'True' if new == 'or' else 'False', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.sub(n, '(%s)' % self.text(n.operand), 'not')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes)):
            return
        for new in BIN.get(type(n.op), ()):
            a, b = self.span(n.left)[1], self.span(n.right)[0]
            t = self.b[a:b].decode()
            core = t.strip(' \n\\()')
            if core and t.count(core) == 1:
                self.put(a, b, t.replace(core, new), 'binop')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.sub(n, str(not n.value), 'constant')
        elif isinstance(n.value, int):
            self.sub(n, str(n.value + 1), 'constant')
            if n.value:
                self.sub(n, str(n.value - 1), 'constant')
        elif isinstance(n.value, (str, bytes)) and len(n.value) > 0:
            t = self.text(n)
            if t.count('\n') == 0 and t[-1] in '\'"' and len(t) < 60 and t[-2] not in '\\x' and not t[-4:-2] == '\\x':
                c = 'e' if t[-2] != 'e' else 'd'
                self.sub(n, t[:-2] + c + t[-1], 'string')

    def test(self, n):
        t = self.text(n.test)
        self.sub(n.test, '(not (%s))' % t if '\n' not in t else '(not (%s))' % t, 'negate')
        self.sub(n.test, 'False', 'never')
        if not isinstance(n, ast.While):
            self.sub(n.test, 'True', 'always')

    def visit_If(self, n):
        self.test(n)
        self.generic_visit(n)

    def visit_While(self, n):
        self.test(n)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.test(n)
        self.generic_visit(n)

    def visit_Assert(self, n):
        self.sub(n, 'pass', 'drop assert')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if not isinstance(n.value, ast.Constant):
            self.sub(n, 'pass', 'drop call')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.sub(n, 'pass', 'drop raise')

    def visit_Delete(self, n):
        self.sub(n, 'pass', 'drop del')

    def visit_Assign(self, n):
        self.sub(n, 'pass', 'drop assignment')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.sub(n, 'pass', 'drop assignment')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.sub(n, 'return None', 'drop result')
        self.generic_visit(n)

    def visit_Break(self, n):
        self.sub(n, 'continue', 'continue')
        self.sub(n, 'pass', 'no break')

    def visit_Continue(self, n):
        self.sub(n, 'break', 'break')
        self.sub(n, 'pass', 'no continue')

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                self.sub(n.slice.lower, '', 'no lower bound')
            if n.slice.upper is not None:
                self.sub(n.slice.upper, '', 'no upper bound')
        self.generic_visit(n)

    def visit_Call(self, n):
        # a cast, a copy
        if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)) and not isinstance(n.args[0], (ast.GeneratorExp, ast.Starred)):
            self.sub(n, '(%s)' % self.text(n.args[0]), 'argument instead of call')
        if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            x, y = n.args
            a, b = self.span(x)[0], self.span(y)[1]
            self.put(a, b, self.text(y) + ', ' + self.text(x), 'swap arguments')
        self.generic_visit(n)

    def visit_Try(self, n):
        for h in n.handlers:
            if h.type is not None:
                self.sub(h.type, 'ZeroDivisionError', 'no handler')
        self.generic_visit(n)


def mutants():
    out = []
    for fn in FILES:
        src = open(os.path.join('/repo', fn)).read()
        m = M(src)
        tree = ast.parse(src)
        m.visit(tree)
        seen = set()
        for a, b, new, what in m.out:
            if (a, b, new) in seen:
                continue
            seen.add((a, b, new))
            t = m.b[:a].decode() + new + m.b[b:].decode()
            try:
                compile(t, fn, 'exec')
            except (SyntaxError, ValueError):
                continue
            line = m.b[:a].count(b'\n') + 1
            out.append({'id': '%s:%d:%d:%s' % (os.path.basename(fn), line, a - m.starts[line - 1], what), 'file': fn, 'a': a, 'b': b, 'new': new, 'line': m.src.split('\n')[line - 1].strip(), 'what': what})
    return out


def copy(k):
    wt = '/tmp/mut-%s' % k
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', wt])
    return wt


def apply(wt, m):
    p = os.path.join(wt, m['file'])
    b = open(os.path.join('/repo', m['file']), 'rb').read()
    with open(p, 'wb') as fd:
        fd.write(b[:m['a']] + m['new'].encode() + b[m['b']:])


def undo(wt, m):
    shutil.copyfile(os.path.join('/repo', m['file']), os.path.join(wt, m['file']))


STABLE = None


def tests(wt, k):
    global STABLE
    if STABLE is None:
        STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
    xml, js = '/tmp/mut-%s.xml' % k, '/tmp/mut-%s.json' % k
    for f in (xml, js):
        if os.path.exists(f):
            os.unlink(f)
    cmd = ('. /opt/vp/env.sh; export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s:%s/lib/python-bitcoinlib:%s/lib/python-proofmarshal; ulimit -v 6000000; timeout 25 /opt/venv/bin/python -W ignore -m pytest -x -q -p no:cacheprovider '
           '--import-mode=prepend --rootdir=%s --timeout=20 -o junit_family=xunit2 --junitxml=%s '
           '--deselect lib/python-bitcoinlib/bitcoin/tests/test_transactions.py::Test_CTransaction::test_tx_valid --ignore=lib/python-bitcoinlib/bitcoin/tests/test_wallet.py proofchains lib/python-bitcoinlib/bitcoin '
           'lib/python-proofmarshal/proofmarshal; /opt/venv/bin/python /opt/vp/results.py %s junit:%s' % (wt, wt, wt, wt, xml, js, xml))
    subprocess.run(['bash', '-c', cmd], cwd=wt, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        passed = set(json.load(open(js))['passed'])
    except (OSError, ValueError):
        return False
    return all(t in passed for t in STABLE)


def check(wt, m):
    for prop in FILES[m['file']]:
        p = subprocess.run([sys.executable, '-m', 'dst.check', prop, '--repo', wt, '--no-evidence', '--first', '--jobs', '1', '--cap', os.environ.get('CAP', '40')], cwd=ROOT, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        if p.returncode:
            return '%s %d %s' % (prop, p.returncode, p.stdout.decode('utf8', 'replace').strip()[-200:])
    return None


def pool(work, jobs, do):
    names = ['%d-%d' % (os.getpid(), i) for i in range(jobs)]
    free = [(k, copy(k)) for k in names]

    def go(m):
        k, wt = free.pop()
        try:
            apply(wt, m)
            return m, do(wt, k, m)
        finally:
            undo(wt, m)
            free.append((k, wt))
    with ThreadPoolExecutor(jobs) as ex:
        yield from ex.map(go, work)
    for k in names:
        shutil.rmtree('/tmp/mut-%s' % k, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == 'list':
        c = {}
        for m in mutants():
            c[m['file']] = c.get(m['file'], 0) + 1
        print(c, sum(c.values()))
    elif cmd == 'show':
        for m in mutants():
            print(m['id'], '|', m['line'], '|', m['new'][:60])
    elif cmd == 'tests':
        jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 6
        with open(sys.argv[2], 'w') as fd:
            for m, ok in pool(mutants(), jobs, lambda wt, k, m: tests(wt, k)):
                if ok:
                    fd.write(json.dumps(m) + '\n')
                    fd.flush()
    else:
        jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 6
        work = [json.loads(x) for x in open(sys.argv[2])]
        only = sys.argv[5:]
        if only:
            work = [m for m in work if any(o in m['file'] for o in only)]
        with open(sys.argv[3], 'a') as fd:
            for m, r in pool(work, jobs, lambda wt, k, m: check(wt, m)):
                fd.write('%s\t%s\t%s\t=> %s\n' % (m['id'], r or 'MISSED', m['line'], m['new'][:80].replace('\n', ' ')))
                fd.flush()


if __name__ == '__main__':
    main()
