"""C04: files of concurrent, killed and powered off invocations of sus-tool"""

import errno

from .. import families, refs, simfs, tool
from ..sched import Scheduler
from ..universe import Clock
from .common import world, STUBS

RUNS = {'quick': 2600, 'thorough': 60000}
RULE = ('One run: two to four invocations of sus-tool that make, extend or read the same files run at once; a seeded '
        'scheduler switches between them at system calls; writes are short or fail, one of them may be killed at any system '
        'call, or the machine loses power, which leaves only a prefix of what was not synced.  Every torn file is then given '
        'to every command that reads it, and the interrupted command is repeated after removing the leftovers.  '
        'Non-trivial: two or more switches, or a crash.')
STATE = 'distinct (commands, faults, exit statuses, switches up to 12) tuples'
SEARCH = 'interleavings of system calls of several processes, and crash points'
ORACLE = 'contents of all files known in advance; at most one winner per file; initial files unchanged; repetition succeeds'
REAL = ['sus-tool.py', 'argparse (private copy)', 'proofchains.*', 'proofmarshal.*', 'bitcoin.*', 'io buffering']
STUB = STUBS + ['scheduling of processes']
ASSUMPTIONS = ['a system call is atomic', 'after a power loss a file that was being written is missing or holds a prefix of '
               'what was written', 'asserts are enabled (no python -O)']


class Job:
    """One invocation: what it makes and what it was given"""

    def __init__(self, name, argv, makes=None, stdout=None, ok=True, reads=()):
        self.name, self.argv, self.makes, self.stdout, self.ok, self.reads = name, argv, makes or {}, stdout, ok, reads
        self.ex = None
        self.u = None

    def cmd(self):
        return ' '.join(a if len(a) < 24 else a[:10] + '..' for a in self.argv)


def closing(sim, seals, digest, meth):
    """A transaction that closes all of the seals"""
    tx = families.gen_tx(sim, must_spend=seals[0][0], outs={0: refs.closing_script(digest, meth)}, small=True)
    vin = list(tx[1])
    for s in seals[1:]:
        if s[0] not in [i[0] for i in vin]:
            vin.insert(sim.below(len(vin) + 1), (s[0], b'', 0xffffffff))
    return (tx[0], tuple(vin), tx[2], tx[3])


def witness_is(seal, tx):
    p = tool.is_witness(seal, tx)
    return p


def run(sim):
    fs = simfs.FS(sim)
    clock = Clock(sim)
    seals, names = tool.put_seals(sim, fs, sim.choice((1, 2, 3)))
    digest = sim.bytes(32)
    txs = []
    for _ in range(2):
        txs.append(closing(sim, seals, sim.choice((digest, refs.sha256(digest))), sim.choice(refs.METHS)))
    if sim.chance(30):
        fs.put('/w/a.seal', b'precious' if sim.chance(50) else refs.seal_ser(*tool.gen_seal(sim)))
    if sim.chance(20):
        fs.put('/w/%s.witness' % names[0], b'precious')
    before = fs.listing()
    jobs = []

    def mkseal():
        path = sim.choice(('a.seal', '/w/a.seal', 'b.seal', './a.seal'))
        o = families.gen_outpoint(sim)
        full = '/w/' + path.split('/')[-1]
        return Job('mkseal', ['mkseal', '%s:%d' % (tool.rhex(o[0]), o[1]), path], {full: tool.is_seal(o)})

    def mkwitness():
        ks = sim.shuffle(range(len(names)))[:sim.choice((len(names), 1, 2))]
        tx = sim.choice(txs)
        return Job('mkwitness', ['mkwitness', '--tx', refs.tx_ser(tx).hex()] + [names[k] for k in ks],
                   {'/w/%s.witness' % names[k]: tool.is_witness(seals[k], tx) for k in ks})

    def verify():
        k = sim.below(len(names))
        ws = [sim.choice(txs)]
        return Job('verifywitness', ['verifywitness', '--local', '--seal-file', names[k], names[k] + '.witness'],
                   reads=('/w/%s.witness' % names[k],))

    def closetx():
        p = sim.choice(('a.seal', 'b.seal'))
        return Job('mkclosetx', ['mkclosetx', digest.hex(), p], reads=('/w/' + p,))

    def info():
        p = sim.choice(('a.seal', 'b.seal', names[0] + '.witness'))
        return Job('info', ['sealinfo' if p.endswith('seal') else 'witnessinfo', p], reads=('/w/' + p,))
    focus = sim.choice((mkseal, mkwitness))
    for j in range(sim.choice((2, 2, 3, 4))):
        f = focus if j == 0 else sim.weighted((5, focus), (1, mkseal), (1, mkwitness), (2, verify), (1, closetx), (2, info))
        jobs.append(f())
    # faults
    kill = power = None
    what = sim.weighted((4, 'none'), (4, 'kill'), (3, 'power'), (2, 'disk'))
    soft = sim.chance(50)
    if what == 'kill':
        kill = (sim.below(len(jobs)), sim.choice((0, 1, 2, 3, 4, 5, 6, 8, 10)), sim.choice((0, 1, 20, 52, 60, 150)))
    elif what == 'power':
        power = sim.choice((1, 2, 3, 5, 8, 13, 21, 34, 55))
    counts = {}
    state = {'n': 0, 'off': False}
    diskjob = sim.below(len(jobs))
    diskop = sim.choice(('write', 'close', 'read')) if what == 'disk' else None
    procs = {}
    hard = set()

    def inject(proc, op, path, n):
        state['n'] += 1
        c = counts[proc.name] = counts.get(proc.name, 0) + 1
        if state['off'] or (power is not None and state['n'] == power):
            if not state['off']:
                sim.fault('power loss')
            state['off'] = True
            for u in procs.values():
                u.proc.dead = True
            return ('crash', 0) if op != 'write' else ('crash', min(n, sim.choice((0, 1, 30, 100))))
        if kill is not None and proc.name == 'j%d' % kill[0] and c == kill[1] + 1:
            sim.fault('kill')
            return ('crash', min(n, kill[2]))
        if op == diskop and proc.name == 'j%d' % diskjob:
            sim.fault('disk error')
            hard.add(diskjob)
            return ('errno', errno.EIO if op == 'read' else errno.ENOSPC) if op != 'write' or n < 2 else (
                'torn', sim.below(n), errno.ENOSPC)
        if soft and op == 'write' and n > 1 and path.startswith('/w'):
            sim.fault('short write')
            return ('short', sim.choice((1, n // 2, n - 1)))
        return None
    sched = Scheduler(sim, 'coop', gaps=(1, 2, 3, 4, 6, 9, 0))
    fs.inject = inject
    fs.yield_point = sched.yield_point

    def body(k, job):
        def go():
            u = procs[k] = job.u = world(sim, 'j%d' % k, fs=fs, clock=clock)
            if state['off']:
                job.ex = None
                return
            job.ex = u.run_main(sim.repo + '/sus-tool.py', ['sus-tool.py'] + job.argv)
        return go
    for k, job in enumerate(jobs):
        sim.log('j%d: %s', k, job.cmd())
        sched.spawn('j%d' % k, body(k, job))
    sched.run()
    for th in sched.threads:
        if th.exc is not None:
            raise th.exc
    fs.inject = fs.yield_point = None
    crashed = [j for j in jobs if j.ex is None or j.ex.how == 'crash']
    sim.nontrivial = sched.switches > len(jobs) or bool(crashed)
    st = [None if j in crashed else j.ex.status for j in jobs]
    sim.log('statuses %r', st)
    sim.state(tuple(j.name for j in jobs), what, tuple(st), min(12, sched.switches))
    if state['off']:
        # what was not synced is cut short or gone
        for p, ino in sorted(fs.names.items()):
            now = bytes(ino.data)
            if ino.synced != now:
                r = sim.choice((0, 1, 2, 3))
                n = (0, len(ino.synced), sim.below(len(now) + 1), len(now))[r]
                if not ino.synced and r == 1:
                    del fs.names[p]
                else:
                    ino.data[:] = now[:max(n, len(ino.synced) if now.startswith(ino.synced) else 0)]
                sim.log('after power loss: %s %d of %d', p, len(ino.data), len(now))
    after = fs.listing()
    # 1. whatever existed is untouched
    for p, b in before.items():
        sim.check(after.get(p) == b, 'overwritten', '%s existed and was changed by one of %s', p, [j.cmd() for j in jobs])
    # 2. at most one winner per file, with its own content
    winners = {}
    for j in jobs:
        if j in crashed or j.ex.status != 0:
            continue
        for p, pred in sorted(j.makes.items()):
            sim.check(p not in before, 'overwritten', '%s exits with 0 although %s existed', j.cmd(), p)
            sim.check(p not in winners, 'two winners', 'both %s and %s made %s', j.cmd(), p in winners and winners[p].cmd(), p)
            winners[p] = j
            if not state['off']:
                r = 'does not exist' if p not in after else pred(after[p])
                sim.check(r is None, 'mixed up', '%s exits with 0 but %s: %s', j.cmd(), p, r)
    if what == 'none':
        # without crashes and errors exactly one invocation makes a seal
        for p in ('/w/a.seal', '/w/b.seal'):
            if p not in before and any(p in j.makes for j in jobs):
                sim.check(p in winners, 'no winner', 'none of %s made %s', [j.cmd() for j in jobs], p)
        owners = {p: [j for j in jobs if p in j.makes] for p in ('/w/%s.witness' % n for n in names)}
        for p, os_ in owners.items():
            if len(os_) == 1 and p not in before and all(len(owners[q]) == 1 and q not in before for q in os_[0].makes):
                sim.check(p in winners, 'no winner', '%s did not make %s', os_[0].cmd(), p)
    # 3. nonces of seals are their own
    nonces = [after[p][-16:] for p in winners if p.endswith('.seal') and p in after and not state['off']]
    sim.check(len(set(nonces)) == len(nonces), 'nonce', 'two seals have the same nonce')
    # 4. readers that succeed have seen a whole file
    for j in jobs:
        if j.reads and j not in crashed and j.ex.status == 0 and not state['off']:
            b = after.get(j.reads[0])
            sim.check(b is not None, 'half trusted', '%s succeeds without its file', j.cmd())
            try:
                if j.reads[0].endswith('.witness'):
                    w = refs.witness_parse(b)
                    whole = j.name == 'info' or refs.witness_valid(w)
                    want = '%s:%d\n' % (tool.rhex(w[1][0][0]), w[1][0][1])
                else:
                    s = refs.seal_parse(b)
                    whole, want = True, '%s:%d\n' % (tool.rhex(s[0][0]), s[0][1])
                    if j.name == 'mkclosetx':
                        r = tool.is_closetx([s], digest, 'op_return')(j.u.out_text())
                        sim.check(r is None, 'half trusted', '%s: %s', j.cmd(), r)
            except (refs.Short, refs.Bad):
                whole = False
            sim.check(whole, 'half trusted', '%s succeeds with a file that is not complete', j.cmd())
            if j.name == 'info':
                sim.check(want in j.u.out_text(), 'half trusted', '%s tells something else than the file', j.cmd())
    # 5. files that were cut short are refused by everything that reads them
    torn = []
    for p, b in after.items():
        if p in before:
            continue
        parse = refs.seal_parse if p.endswith('.seal') else refs.witness_parse if p.endswith('.witness') else None
        if parse is None:
            continue
        try:
            parse(b)
        except (refs.Short, refs.Bad):
            torn.append(p)
    sim.probe('torn file', len(torn))
    for p in torn[:3]:
        for argv in readers(sim, p, digest, txs[0]):
            u = world(sim, 'r', fs=fs, clock=clock)
            ex = u.run_main(sim.repo + '/sus-tool.py', ['sus-tool.py'] + argv)
            sim.check(ex.status != 0, 'torn file trusted', 'sus-tool %s accepts a file that was cut short to %d bytes',
                      ' '.join(argv), len(after[p]))
            sim.check(fs.get(p) == after[p], 'overwritten', 'sus-tool %s changed %s', ' '.join(argv), p)
            fs.names.pop(p + '.witness', None) if p + '.witness' not in after else None
    # 6. repeat what was interrupted
    again = [j for j in jobs if (j in crashed or jobs.index(j) in hard) and j.makes and not any(
        p in before for p in j.makes)]
    if state['off']:
        again = [j for j in jobs if j.makes and not any(p in before for p in j.makes)]
    if again:
        j = sim.choice(again)
        for p in list(fs.names):
            if p not in before and (p in j.makes or p not in winners):
                del fs.names[p]
        rest = fs.listing()
        u = world(sim, 'again', fs=fs, clock=clock)
        ex = u.run_main(sim.repo + '/sus-tool.py', ['sus-tool.py'] + j.argv)
        sim.log('again: %s -> %r', j.cmd(), ex)
        sim.check(ex.status == 0, 'stuck', 'repeating %s exits with %s: %s', j.cmd(), ex.status, u.err_text()[-200:])
        for p, pred in sorted(j.makes.items()):
            r = 'does not exist' if fs.get(p) is None else pred(fs.get(p))
            sim.check(r is None, 'incomplete', 'repeated %s exits with 0 but %s: %s', j.cmd(), p, r)
        for p, b in rest.items():
            sim.check(fs.get(p) == b, 'overwritten', 'repeating %s changed %s', j.cmd(), p)


def readers(sim, p, digest, tx):
    if p.endswith('.seal'):
        return [['sealinfo', p], ['mkclosetx', digest.hex(), p], ['mkwitness', '--tx', refs.tx_ser(tx).hex(), p]]
    s = p[:-len('.witness')]
    return [['witnessinfo', p], ['verifywitness', '-l', p], ['verifywitness', '--local', '--seal-file', s, p]]
