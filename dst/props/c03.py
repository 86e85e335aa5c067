"""C03: sus-tool tells the truth by its exit status"""

import errno

from .. import simfs, tool
from .common import world, show, STUBS

RUNS = {'quick': 4500, 'thorough': 100000}
RULE = ('One run: one to three invocations of sus-tool with valid or invalid arguments and files, while the disk or the '
        'standard output fails at chosen calls (full disk, I/O errors, short and torn writes, failing open, close, read and '
        'entropy source).  Non-trivial: a fault really fired or the input was invalid.')
STATE = 'distinct (subcommand, input class, fault kind, failing call, exit status) tuples'
SEARCH = 'invocations and failing system calls'
ORACLE = 'expected effect of every invocation, computed independently from its arguments and input files'
REAL = ['sus-tool.py', 'argparse (private copy)', 'proofchains.*', 'proofmarshal.*', 'bitcoin.*', 'io buffering']
STUB = STUBS
ASSUMPTIONS = ['close reports write errors of the last chunk at the latest', 'asserts are enabled (no python -O)']


def plan(sim, nfaults):
    """Inject faults at chosen calls"""
    kinds = {'write': (('errno', errno.ENOSPC), ('errno', errno.EIO), ('short', 1), ('short', 7), ('torn', 3, errno.ENOSPC),
                       ('torn', 0, errno.EIO), ('errno', errno.EDQUOT), ('errno', errno.EPIPE)),
             'close': (('errno', errno.EIO), ('errno', errno.ENOSPC), ('errno', errno.EDQUOT)),
             'open': (('errno', errno.EACCES), ('errno', errno.EMFILE), ('errno', errno.ENOSPC), ('errno', errno.EIO)),
             'read': (('errno', errno.EIO), ('short', 1), ('short', 20)),
             'fsync': (('errno', errno.EIO),)}
    faults = []
    for _ in range(nfaults):
        op = sim.weighted((5, 'write'), (3, 'close'), (2, 'open'), (3, 'read'), (1, 'fsync'))
        faults.append([op, sim.choice((0, 0, 1, 2, 3)), sim.choice(kinds[op])])
    fired = []
    count = {}

    def inject(proc, op, path, n):
        k = count.get(op, 0)
        count[op] = k + 1
        for f in faults:
            if f[0] == op and f[1] == k:
                if f[2][0] == 'short' and n <= f[2][1]:
                    return None
                name = '%s:%s' % (op, f[2][0] if f[2][0] != 'errno' else errno.errorcode[f[2][1]])
                sim.fault(name)
                fired.append((name, f[2], path))
                return f[2] if f[2][0] != 'torn' else ('torn', min(f[2][1], n), f[2][2])
        return None
    return inject, fired


def run(sim):
    fs = simfs.FS(sim)
    fs.trace = False
    nonces = []
    for inv in range(sim.choice((1, 2, 3))):
        for p in list(fs.names):
            del fs.names[p]
        bad = sim.chance(30)
        case = tool.gen_case(sim, fs, bad)
        before = fs.listing()
        nf = 0 if sim.chance(25) else sim.choice((1, 1, 2))
        fs.inject, fired = plan(sim, nf)
        u = world(sim, 'tool%d' % inv, fs=fs)
        if nf and case.cmd == 'mkseal' and sim.chance(10):
            def hook(n):
                sim.fault('urandom')
                fired.append(('urandom', ('errno', errno.EIO), ''))
                raise OSError(errno.EIO, 'no entropy')
            u.urandom_hook = hook
        if case.cmd == 'mkseal' and not bad and sim.chance(10):
            case.args[-1] = '/nowhere/new.seal'
            case.ok = False
            case.outputs = {}
        ex = u.run_main(sim.repo + '/sus-tool.py', case.argv())
        fs.inject = None
        out = u.out_text()
        sim.log('%s -> %r, %d bytes', case.describe(), ex, len(out))
        hard = [f for f in fired if f[1][0] != 'short']
        sim.state(case.cmd, case.why.split(' ')[-1] if not case.ok else '', tuple(f[0] for f in fired), ex.status)
        if fired or not case.ok:
            sim.nontrivial = True
        sim.check(ex.how != 'crash' and isinstance(ex.status, int), 'status', '%s ends without a status', case.describe())
        if ex.status == 0:
            sim.check(case.ok, 'false-success', '%s (%s) exits with 0', case.describe(), case.why)
            r = case.judge(fs, out)
            sim.check(r is None, 'incomplete', '%s exits with 0 after %s, but: %s', case.describe(), [f[0] for f in fired], r)
            if case.cmd == 'verifywitness' and not case.local:
                sim.known('verifywitness-chain', 'verifywitness without --local succeeds for a transaction that is not in '
                          'the chain')
            if case.cmd == 'mkseal':
                nonces.append(fs.get(list(case.outputs)[0])[-16:])
        else:
            # Failing is fine only for a reason
            sim.check(not case.ok or bool(hard) or (case.cmd == 'verifywitness' and not case.local), 'false-failure',
                      '%s exits with %d: %s', case.describe(), ex.status, u.err_text()[-300:])
            sim.check(u.err_text() != '', 'silent', '%s exits with %d and no message', case.describe(), ex.status)
        # Inputs and everything else are left alone
        for p, b in before.items():
            sim.check(fs.get(p) == b, 'clobbered', '%s changed %s', case.describe(), p)
        if ex.status == 0:
            for p in fs.names:
                sim.check(p in before or p in case.outputs, 'stray', '%s left %s behind', case.describe(), p)
    sim.check(len(set(nonces)) == len(nonces), 'nonce', 'two seals have the same nonce')
    # usage errors
    if sim.chance(10):
        u = world(sim, 'usage', fs=fs)
        argv = sim.choice(([], ['nosuch'], ['mkseal'], ['mkseal', 'a'], ['mkwitness', 's'], ['verifywitness'], ['sealinfo'],
                           ['mkclosetx'], ['witnessinfo', 'nowhere'], ['sealinfo', 'nowhere'], ['-t'], ['mkclosetx', '00' * 32],
                           ['mkwitness', '--tx', '00', '--txid', '00' * 32, 's'],
                           ['mkclosetx', '--p2sh', '--p2pkh', '00' * 32, 's']))
        ex = u.run_main(sim.repo + '/sus-tool.py', ['sus-tool.py'] + argv)
        sim.log('%s -> %r', argv, ex)
        sim.check(ex.status != 0, 'false-success', 'sus-tool %s exits with 0', ' '.join(argv))
