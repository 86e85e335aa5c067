"""M05: threads that share a proof all get the right answers, and none is forgotten"""

from .. import families
from ..engine import Violation
from ..sched import Interrupted, Scheduler
from .common import world, show, MARSHAL_REAL, STUBS

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('One run: 2 to 4 threads ask questions of one shared (pruned or loaded) proof, a seeded scheduler switches between '
        'them at lines, calls or bytecodes of the code under test and at lock operations; afterwards the shared view is '
        'stored and a new process has to answer all questions again.  Non-trivial: 2 or more preemptions.')
STATE = 'distinct (structure, number of threads, granularity, number of switches up to 20) tuples'
SEARCH = 'thread interleavings at lines and bytecodes'
ORACLE = 'plain model of the contents; stored view must answer all questions of all threads'
REAL = MARSHAL_REAL + ['proofmarshal.merbinnertree', 'proofmarshal.mmr', 'proofchains.core.bitcoin',
                       'proofchains.core.uniquebits.singleuseseal', 'proofchains.core.uniquebits.gumap', 'bitcoin.core']
STUB = STUBS + ['thread scheduling', 'locks (simulated, same semantics)']
ASSUMPTIONS = ['one bytecode is atomic (as under the GIL)', 'threads are switched inside of code of the repository only']


def run(sim):
    fam = families.pick(sim, ('struct', 'map', 'list', 'struct', 'witness', 'gumap', 'struct', 'map', 'list', 'witness', 'gumap', 'txpart'))
    mode = sim.choice(('line', 'opcode', 'line'))
    u = world(sim, 'p0')
    model = fam.gen(sim)
    root = fam.root(model)
    obj = fam.build(u, model)
    src = sim.choice(('pruned', 'pruned', 'loaded', 'full'))
    if src == 'loaded':
        obj = fam.load(u, obj.serialize()).prune()
    shared = obj if src == 'full' else obj.prune()
    nthreads = sim.choice((2, 2, 3, 4))
    work = []
    common = [fam.op(sim, model) for _ in range(2)]
    for t in range(nthreads):
        ops = []
        for _ in range(sim.choice((1, 2, 3))):
            r = sim.below(10)
            if r < 5:
                ops.append(sim.choice(common))      # on the same attributes
            elif r < 9:
                ops.append(fam.op(sim, model))
            else:
                ops.append(('SERIALIZE',))
        work.append(ops)
    sim.log('%s, %s, %s, threads %s', fam.describe(), src, mode, show(work))
    gaps = (0, 1, 2, 3, 5, 8, 13, 21, 34, 60, 120, 400) if mode == 'line' else \
        (0, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 700)
    sched = Scheduler(sim, mode, sim.repo.rstrip('/') + '/', gaps)
    u.sched = sched
    # what lazily imported helpers would do once is not of interest
    results = [[] for _ in work]

    def body(t):
        def go():
            for op in work[t]:
                try:
                    if op[0] == 'SERIALIZE':
                        results[t].append(('bytes', shared.serialize()))
                    else:
                        results[t].append(fam.do(u, shared, op))
                except Interrupted:
                    results[t].append(None)
                    sim.fault('interrupt')
                    sched.resume()
        return go
    threads = [sched.spawn('t%d' % t, body(t)) for t in range(nthreads)]
    if sim.chance(25):
        # one of them runs out of memory at some call
        sim.choice(threads).interrupt = sim.between(1, sim.choice((6, 25, 100)))
    sched.run()
    u.sched = None
    sim.fault('preemption', max(0, sched.switches - nthreads))
    sim.nontrivial = sched.switches > nthreads + 1
    sim.state(fam.name, nthreads, mode, min(20, sched.switches))
    for t, th in enumerate(threads):
        if th.exc is not None:
            if isinstance(th.exc, Violation):
                raise th.exc
            sim.fail('exception', '%s, %s: thread %d asking %s ended with %s: %s', fam.describe(), src, t, show(work[t]),
                     type(th.exc).__name__, th.exc)
    for t, ops in enumerate(work):
        for i, (op, got) in enumerate(zip(ops, results[t])):
            if got is None:
                continue
            if op[0] == 'SERIALIZE':
                w = world(sim, 'v%d' % t)
                o2 = fam.load(w, got[1])
                sim.check(o2.hash == root, 'root', '%s: stored while others read, it has another root',
                          fam.describe())
                # what the thread had asked before is in there
                for k, op in enumerate(ops[:i]):
                    if op[0] != 'SERIALIZE' and results[t][k] is not None:
                        want, got = fam.expect(model, op), fam.do(w, o2, op)
                        sim.check(got == want, 'forgotten', '%s, %s: stored after %s by thread %d, gives %s, expected %s', fam.describe(),
                                  src, show(op), t, show(got), show(want))
                continue
            want = fam.expect(model, op)
            sim.check(got == want, 'wrong-answer', '%s, %s: %s in thread %d gives %s, expected %s', fam.describe(), src,
                      show(op), t, show(got), show(want))
    sim.check(shared.hash == root, 'root', '%s has another root after being shared', fam.describe())
    stored = shared.serialize()
    v = world(sim, 'p1')
    o2 = fam.load(v, stored)
    sim.check(o2.hash == root, 'root', '%s has another root after being shared', fam.describe())
    for op in [op for ops, rs in zip(work, results) for op, r in zip(ops, rs) if op[0] != 'SERIALIZE' and r is not None]:
        want, got = fam.expect(model, op), fam.do(v, o2, op)
        sim.check(got == want, 'forgotten', '%s, %s: %s after a restart gives %s, expected %s', fam.describe(), src, show(op),
                  show(got), show(want))
