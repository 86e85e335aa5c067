"""V01: block time checks follow the clock"""

from .. import refs, validity, wire
from ..families import gen_tx
from ..universe import Clock
from .common import world

RUNS = {'quick': 3000, 'thorough': 80000}
RULE = ('One run: one to three nodes, each with its own clock (skewed, jumping, stopped, passing while blocks are checked), get blocks and headers from miners over '
        'a while, with times around their limits and at the ends of the range; nodes retry what was too early, and restart.  Non-trivial: a refusal '
        'for the time and an acceptance by one node.')
STATE = 'distinct (what is checked, how the time is given, distance to the limit, verdict, event before) tuples'
SEARCH = 'histories of clocks (skew, jumps, speed), block times, retries and restarts'
ORACLE = 'the two hour rule over the simulated clock of the node'
REAL = ['bitcoin.core', 'bitcoin.core.serialize', 'bitcoin.core.script', 'bitcoin']
STUB = ['clocks', 'peers']
ASSUMPTIONS = ['blocks are valid apart from their time', 'the clock may be read at any moment while a block is checked']

HOUR = 3600


class NodeClock(Clock):
    """The clock of one node: its own speed, skew and jumps; can pass while it is read"""

    def __init__(self, sim, start):
        super().__init__(sim, start)
        self.step = 0.0
        self.seen = []

    def time(self):
        t = self.now + self.skew
        self.seen.append(t)
        if self.step:
            self.advance(self.step)
        return t


class Node:
    def __init__(self, sim, k, start):
        self.sim = sim
        self.name = 'n%d' % k
        self.clock = NodeClock(sim, start)
        self.clock.skew = sim.choice((0, 0, 0.25, -0.25, 1, -1, 59.5, -HOUR, HOUR, -2 * HOUR, 2 * HOUR, 86400, -86400 * 400, 86400 * 400))
        self.boots = 0
        self.boot()
        self.early = []     # (what, plain) that were refused
        self.verdicts = set()
        self.event = 'start'

    def boot(self):
        self.boots += 1
        self.u = world(self.sim, '%s.%d' % (self.name, self.boots), clock=self.clock)
        self.network = 'regtest'
        if self.sim.chance(80):
            self.u('bitcoin').SelectParams('regtest')
        else:
            self.network = 'mainnet'

    def check(self, what, block, retry=False):
        """Has the code check something; compares with the rule"""
        sim = self.sim
        core = self.u('bitcoin.core')
        h = block[0]
        if what == 'header':
            obj = core.CBlockHeader.deserialize(refs.header_ser(h))
            f = core.CheckBlockHeader
        else:
            obj = core.CBlock.deserialize(refs.block_ser(*block))
            f = core.CheckBlock
        with_pow = self.network == 'regtest'
        how = sim.choice(('clock', 'clock', 'clock', 'given')) if not retry else 'clock'
        self.clock.seen = []
        self.clock.step = sim.choice((0, 0, 0, 0.25, 0.5, 1.0, 7.0))
        lo = self.clock.now + self.clock.skew
        kw = {} if with_pow else {'fCheckPoW': False}
        if how == 'given':
            lo = sim.choice((0, h[3] - 7200, h[3] - 7201, h[3] - 7200.5, h[3] - 7199.5, h[3], 0.0, int(lo), -1, h[3] + 10 ** 6))
            kw['cur_time'] = lo
        try:
            f(obj, **kw)
            ok = True
        except core.ValidationError as exc:
            ok = False
            sim.check(isinstance(exc, core.CheckBlockHeaderError), 'wrong error', '%s: %s', type(exc).__name__, exc)
        hi = lo if how == 'given' else self.clock.now + self.clock.skew
        self.clock.step = 0.0
        want = {h[3] <= lo + 7200, h[3] <= hi + 7200}
        d = h[3] - 7200 - lo
        sim.log('%s checks %s of %d at %r (%s): %s', self.name, what, h[3], lo, how, ok)
        sim.state(what, how, max(-3, min(3, d)) if abs(d) < 4 else (d > 0) * 10, ok, self.event, self.network)
        if ok not in want:
            sim.fail('early block accepted' if ok else 'refused', 'a %s of time %d is %s at %r (%s, after %s)%s', what, h[3],
                     'accepted' if ok else 'refused', lo, 'clock' if how == 'clock' else 'given time', self.event,
                     ', although it was early before and is not any more' if retry else '')
        if len(want) > 1:
            sim.probe('the clock passes the limit during the check')
        if how == 'clock':
            self.verdicts.add(ok)
        return ok, lo


def make_block(sim, t, prev):
    coin = (1, ((validity.NULL, refs.push(sim.below(1 << 16).to_bytes(3, 'little')), 0xffffffff),), ((5000000000, b'\x51'),), 0)
    txs = (coin,) + tuple((1, ((((sim.bytes(31) + bytes([i])), i), b'', 0),), ((1000, b'\x51'),), 0) for i in range(sim.below(3)))
    h = validity.mine((2, prev, refs.merkle_root([refs.txid(x) for x in txs]), t, 0x207fffff, 0))
    return (h, txs)


def run(sim):
    start = sim.choice((1441843200.0, 1441843200.75, 0.0, 2.0 ** 31 - 3, 2.0 ** 32 - 7203, 2.0 ** 32 + 100, 1231006505.0, 7200.0))
    nodes = [Node(sim, k, start) for k in range(sim.choice((1, 2, 3)))]
    sim.log('clocks: %s', [n.clock.skew for n in nodes])
    prev = b'\x00' * 32
    for _ in range(sim.choice((3, 6, 12))):
        ev = sim.weighted((6, 'block'), (2, 'pass'), (2, 'jump'), (1, 'restart'), (3, 'retry'), (1, 'drift'))
        n = sim.choice(nodes)
        if ev == 'block':
            # the time of the block is that of its miner, or near the limit of some node
            k = n.clock.now + n.clock.skew
            t = sim.choice((k + 7200, k + 7201, k + 7199, k + 7202, k, k + 7200.5, k - 100000, k + 100000, 0, 0xffffffff, k + 3600, k + 7230, k + 14400, 2 ** 31))
            t = max(0, min(0xffffffff, int(t)))
            b = make_block(sim, t, prev)
            prev = refs.dsha(refs.header_ser(b[0]))
            for m in nodes:
                what = sim.choice(('block', 'header'))
                ok, _ = m.check(what, b)
                if not ok:
                    m.early.append((what, b))
        elif ev == 'pass':
            dt = sim.choice((0.25, 1, 30, 600, 3599.75, 7200, 90000))
            for m in nodes:
                m.clock.advance(dt)
                m.event = 'pass'
        elif ev == 'jump':
            n.clock.skew += sim.choice((1, -1, 3600, -3600, -7200, 7200, 0.5, 86400 * 30, -86400 * 30))
            n.event = 'jump'
            sim.fault('clock jump')
        elif ev == 'drift':
            n.clock.advance(sim.choice((0.25, 5, 100)))     # this one runs fast
            n.event = 'drift'
            sim.fault('clock drift')
        elif ev == 'restart':
            n.boot()
            n.event = 'restart'
            sim.fault('restart')
        elif n.early:
            # wait until the block is not early any more: it has to be accepted
            what, b = n.early.pop(0)
            wait = b[0][3] - 7200 - (n.clock.now + n.clock.skew)
            if wait > 0 and sim.chance(40):
                # a moment before
                n.clock.advance(max(0.0, wait - 1))
                ok, _ = n.check(what, b, True)
                wait = b[0][3] - 7200 - (n.clock.now + n.clock.skew)
            if wait > 0:
                n.clock.advance(wait)
            n.event = 'wait'
            ok, at = n.check(what, b, True)
            sim.check(ok, 'refused', 'a block of time %d is still refused at %r', b[0][3], at)
            sim.probe('accepted after waiting')
    sim.nontrivial = any(len(n.verdicts) > 1 for n in nodes)
