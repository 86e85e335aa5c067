"""C05: closing seals end to end, with failing nodes, disks and processes"""

import errno

from .. import engine, refs, simfs, tool
from ..node import Node
from .common import world, show
from .c03 import plan as disk_plan
from .rpcworld import World

RUNS = {'quick': 1800, 'thorough': 60000}
RULE = ('One run: one to four seals (some of the same outpoint) are made, closed and witnessed by sus-tool processes and a wallet '
        'process, step by step, through a simulated node.  Steps are hit by connection, node and disk failures and are killed, '
        'and repeated after removing what they left; the transaction may be unknown, unconfirmed, confirmed, or reorganized away when witnesses are asked '
        'for.  The last attempt of each step is free of faults and has to succeed.  Non-trivial: a fault fired or the transaction was unknown at some point.')
STATE = 'distinct (step, faults, exit status, attempt, number of files, height of the chain) tuples'
SEARCH = 'sequences of node, connection, disk and process failures during all steps'
ORACLE = 'each step\'s expected effect computed independently; state of the simulated chain; success of the first fault-free attempt'
REAL = ['sus-tool.py', 'argparse (private copy)', 'bitcoin.rpc', 'http.client (private copy)', 'proofchains.*', 'proofmarshal.*', 'bitcoin.*']
STUB = ['bitcoind (simulated node)', 'TCP (simulated)', 'operating system', 'wallet user']
ASSUMPTIONS = ['the node does not lie about the contents of a transaction', 'files that were completely written stay on the disk',
               'asserts are enabled (no python -O)']

NAMES = ('s0', 'a.seal', '/w/b.seal', './c', 'x y', 'é.seal', '-' * 3 + 'z', 'd.witness')


class Steps:
    def __init__(self, sim):
        self.sim = sim
        self.network = sim.choice(('mainnet', 'testnet'))
        port = refs.NETWORKS[self.network][1]
        conf = ['rpcuser=user', 'rpcpassword=pass']
        if sim.chance(25):
            port = 7777
            conf.append('rpcport=7777')
        tls = sim.chance(15)
        if tls:
            conf.append('rpcssl=1')
        self.w = World(sim, self.network, tls=tls, port=port)
        self.fs, self.clock, self.node, self.chain = self.w.fs, self.w.clock, self.w.node, self.w.node.chain
        self.decoys = [Node(sim, self.w.net, self.network, port=p) for p in (8332, 18332) if p != port]
        self.w.conf('\n'.join(conf) + '\n')
        self.opts = sim.choice(([], [], [], ['-q'], ['-v'], ['-vv'], ['-qq'], ['-n']))
        if self.network == 'testnet':
            self.opts = sim.shuffle(self.opts + ['-t'])
        self.n = 0

    def tool(self, argv, fault=None):
        """(exit, universe, faults that fired)"""
        sim = self.sim
        self.n += 1
        fired = []
        if fault == 'disk':
            self.fs.inject, fired = disk_plan(sim, 1)
        elif fault == 'kill':
            at, part, cnt = sim.choice((0, 1, 2, 3, 4, 6, 9)), sim.choice((0, 1, 30, 70)), [0]

            def inject(proc, op, path, n):
                cnt[0] += 1
                if cnt[0] == at + 1:
                    sim.fault('kill')
                    fired.append(('kill', ('kill',), path))
                    return ('crash', min(n, part))
            self.fs.inject = inject
        self.w.healthy()
        self.w.fired = []
        planned = None
        if fault == 'rpc':
            planned = self.w.random_fault()
        u = world(sim, 'tool%d' % self.n, fs=self.fs, net=self.w.net, clock=self.clock)
        ex = u.run_main(sim.repo + '/sus-tool.py', ['sus-tool.py'] + self.opts + argv)
        self.fs.inject = None
        self.w.healthy()
        hard = [f for f in fired if f[1][0] != 'short']
        if planned and planned not in ('close', 'framing', 'duplicate'):
            hard.append((planned,))
        return ex, u, hard

    def step(self, name, argv, makes, stdout=None, faults=('disk', 'kill'), tries=None):
        """Repeat until it works"""
        sim = self.sim
        before = self.fs.listing()
        k = sim.choice((0, 0, 1, 1, 2, 3)) if tries is None else tries
        for a in range(k + 1):
            fault = sim.choice(faults) if a < k else None
            ex, u, hard = self.tool(argv, fault)
            sim.log('%s %s -> %r %s', name, fault, ex, [h[0] for h in hard])
            sim.state(name, fault, tuple(h[0] for h in hard), ex.status, a, len(before), self.chain.tip.height)
            if hard:
                sim.nontrivial = True
            if ex.status == 0 and not ex.how == 'crash':
                for p, pred in sorted(makes.items()):
                    r = 'does not exist' if self.fs.get(p) is None else pred(self.fs.get(p))
                    sim.check(r is None, 'incomplete', '%s exits with 0 but %s: %s', name, p, r)
                if stdout is not None:
                    r = stdout(u.out_text())
                    sim.check(r is None, 'incomplete', '%s exits with 0 but %s', name, r)
                self.unchanged(name, before)
                return u.out_text()
            sim.check(bool(hard), 'stuck', '%s exits with %s without any fault: %s', name, ex.status, u.err_text()[-300:])
            self.unchanged(name, before)
            for p in list(self.fs.names):
                if p not in before:
                    del self.fs.names[p]
        raise AssertionError

    def unchanged(self, name, before):
        for p, b in before.items():
            self.sim.check(self.fs.get(p) == b, 'overwritten', '%s changed %s', name, p)

    def refused(self, name, argv, makes):
        """As long as the node says that the transaction is unknown"""
        sim = self.sim
        before = self.fs.listing()
        fault = sim.choice((None, None, 'rpc', 'kill'))
        ex, u, hard = self.tool(argv, fault)
        sim.nontrivial = True
        sim.log('%s of an unknown transaction, %s -> %r', name, fault, ex)
        sim.state(name, 'unknown', fault, ex.status)
        sim.check(ex.status != 0, 'unknown transaction', '%s exits with 0 although the node does not know the transaction', name)
        sim.check(self.fs.listing() == before, 'unknown transaction', '%s leaves files although the node does not know the transaction: %s',
                  name, sorted(set(self.fs.names) - set(before)))

    # -- the wallet's part -------------------------------------------------

    def rpc(self, name, fn):
        """Call until it works; a node that already has the transaction is fine"""
        sim = self.sim
        k = sim.choice((0, 0, 1, 2))
        u = world(sim, 'wallet%d' % self.n, fs=self.fs, net=self.w.net, clock=self.clock)
        self.n += 1
        if self.network != 'mainnet':
            u('bitcoin').SelectParams(self.network)
        m = u('bitcoin.rpc')
        p = m.Proxy()
        junk = False
        for a in range(k + 2):
            self.w.healthy()
            f = self.w.random_fault() if a < k else None
            self.w.fired = []
            try:
                r = fn(u, p)
                sim.log('%s %s -> ok', name, f)
                return r
            except m.JSONRPCException as exc:
                sim.log('%s %s -> error %s', name, f, exc.error['code'])
                if exc.error['code'] == -27:
                    return None
            except (Exception, engine.SimInterrupt) as exc:
                sim.log('%s %s -> %s', name, f, type(exc).__name__)
            # the call after the last fault may hit a connection that died unnoticed
            sim.check(f is not None or junk or a == k, 'stuck', '%s fails without any fault', name)
            junk = f is not None
        sim.fail('stuck', '%s fails with a healthy node', name)


def run(sim):
    st = Steps(sim)
    chain, node = st.chain, st.node
    fund = chain.coin([b'\x51'] * 6, value=100000)
    chain.mine([fund])
    # make seals
    names = sim.shuffle(NAMES)[:sim.choice((1, 1, 2, 2, 3, 4))]
    coins = sim.shuffle(range(5))
    digest = sim.bytes(32)
    seals = []
    for k, name in enumerate(names):
        o = (refs.txid(fund), coins[k])
        if seals and sim.chance(25):
            o = seals[0][0]
        path = '/w/' + name.split('/')[-1]
        st.step('mkseal', ['mkseal', '--', '%s:%d' % (tool.rhex(o[0]), o[1]), name], {path: tool.is_seal(o)})
        seals.append(refs.seal_parse(st.fs.get(path)))
    sim.check(len(set(seals)) == len(seals), 'same seal', 'two seals are the same')
    paths = ['/w/' + n.split('/')[-1] for n in names]
    # closing transaction
    meth = sim.choice(refs.METHS)
    out = st.step('mkclosetx', ['mkclosetx'] + [tool.METHOPT[meth]] * (meth != 'op_return') + ['--', digest.hex()] + names, {},
                  tool.is_closetx(seals, digest, meth))
    tx = refs.tx_parse(bytes.fromhex(out.strip()))
    # the wallet adds inputs, change, and signatures
    vin, vout = list(tx[1]), list(tx[2])
    if sim.chance(60):
        vin.insert(sim.below(len(vin) + 1), ((refs.txid(fund), 5), b'', 0xffffffff))
    if sim.chance(6):
        # a wallet with many small coins
        n = sim.choice((16, 40, 252, 300))
        sim.probe('many inputs')
        more = chain.coin([b'\x51'] * n, value=5000)
        chain.mine([more])
        front = sim.choice((0, 50, 100))
        for k in range(n):
            vin.insert(0 if sim.chance(front) else len(vin), ((refs.txid(more), k), b'', 0xffffffff))
    for _ in range(sim.choice((0, 0, 1, 2)) if sim.chance(97) else 253):
        vout.append((sim.below(50000), sim.choice((b'\x51', b'\x6a' + bytes(sim.choice((20000, 70000))) if sim.chance(3) else b'', refs.closing_script(refs.sha256(digest), meth)))))
    tx = (tx[0], tuple(vin), tuple(vout), tx[3])
    raw = refs.tx_ser(tx)

    def sign(u, p):
        return p.signrawtransaction(u('bitcoin.core').CTransaction.deserialize(raw))['tx'].serialize()
    raw = st.rpc('sign', sign)
    tx = refs.tx_parse(raw)
    sim.check(tx[2] == tuple(vout) and [i[0] for i in tx[1]] == [i[0] for i in vin], 'signed', 'signing changed the transaction')
    txid = refs.txid(tx)

    def send(u, p):
        return p.sendrawtransaction(u('bitcoin.core').CTransaction.deserialize(raw))
    makes = {p + '.witness': tool.is_witness(s, tx) for p, s in zip(paths, seals)}
    by_id = ['mkwitness', '--txid', tool.rhex(txid), '--'] + names
    if sim.chance(40):
        st.refused('mkwitness', by_id, makes)
    t = st.rpc('send', send)
    sim.check(t in (None, txid), 'sent', 'another transaction was sent')
    sim.check(node.find_tx(txid) == tx, 'sent', 'the node does not have the transaction that was sent')
    where = sim.choice(('pool', 'confirmed', 'confirmed', 'reorg', 'restart'))
    if where != 'pool':
        chain.mine_mempool()
        for _ in range(sim.below(3)):
            chain.mine([chain.coin()])
    if where == 'reorg':
        # another branch without it
        path = chain.path()
        i = [k for k, b in enumerate(path) if tx in b.txs][0]
        p = path[i - 1]
        for _ in range(len(path) - i + 1):
            p = chain.mine([chain.coin()], p)
        chain.mempool = []
        sim.check(node.find_tx(txid) is None, 'harness', 'reorg failed')
        st.refused('mkwitness', by_id, makes)
        st.rpc('send', send)
        if sim.chance(50):
            chain.mine_mempool()
    elif where == 'restart':
        st.w.net.drop_idle(node, 'reset')
    # witnesses, all at once or one at a time, by id or bytes
    for group in ([list(range(len(names)))] if sim.chance(60) else [[k] for k in sim.shuffle(range(len(names)))]):
        if sim.chance(70):
            args, faults = ['--txid', tool.rhex(txid)], ('rpc', 'rpc', 'rpc', 'disk', 'kill')
        else:
            args, faults = ['--tx', raw.hex()], ('disk', 'kill')
        st.step('mkwitness', ['mkwitness'] + args + ['--'] + [names[k] for k in group], {paths[k] + '.witness': makes[paths[k] + '.witness'] for k in group},
                faults=faults)
    for name, path, s in zip(names, paths, seals):
        w = refs.witness_parse(st.fs.get(path + '.witness'))
        sim.check(refs.witness_closes(w, digest), 'not closed', 'the witness of %s does not show the digest', name)
        args = ['verifywitness', '--local', '-d', digest.hex(), '--seal-id', refs.seal_hash(*s).hex()]
        if not name.startswith('-'):
            args += ['--seal-file', name]
        st.step('verifywitness', args + ['--', name + '.witness'], {}, faults=('disk', 'kill'))
    for d in st.decoys:
        sim.check(not d.seen and not d.unauthorized, 'wrong node', 'a node of another network was asked')
