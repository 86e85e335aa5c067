"""C01: a single use seal closes over one digest only, whatever happens on the chain"""

from .. import families, refs
from ..chain import Chain
from .common import world, show, MARSHAL_REAL, STUBS

RUNS = {'quick': 3500, 'thorough': 100000}
RULE = ('One run is one history of a simulated block chain: owners close seals, adversaries double spend, put several '
        'commitments into one transaction, reorganize the chain, and offer every witness they can construct to a verifier '
        'that has a node.  Non-trivial: at least one closing transaction was confirmed and a dishonest witness was offered.')
STATE = 'distinct (adversary strategy, closing method, confirmed or not, accepted or not) tuples'
SEARCH = 'histories of a block chain with adversaries'
ORACLE = 'sequential model of the chain; independent parser and verifier of witnesses decides what must be accepted; at most one digest per seal'
REAL = MARSHAL_REAL + ['proofchains.core.bitcoin', 'proofchains.core.uniquebits.singleuseseal',
                       'proofchains.uniquebits.singleuseseal', 'bitcoin.core', 'bitcoin.core.script']
STUB = STUBS + ['Bitcoin network and node (simulated chain with reorganizations)']
ASSUMPTIONS = ['SHA256 and HASH160 have no collisions among the values tried',
               'the active chain never spends an output twice',
               'a witness counts only while its transaction is in the active chain of the verifier\'s node']


class World:
    def __init__(self, sim):
        self.sim = sim
        self.chain = Chain(sim)
        self.u = world(sim, 'owner')
        self.v = world(sim, 'verifier')
        self.seals = []         # (outpoint, nonce)
        self.digests = []
        self.closings = []      # (tx, digest, meth, seals)
        self.offered = []       # (seal, bytes)
        self.wf = families.WitnessFamily()
        self.dishonest = 0
        self.by_output = sim.chance(50)

    def new_seal(self):
        sim = self.sim
        _, utxo = self.chain.view()
        outs = sorted(utxo)
        if self.seals and sim.chance(25):
            # an outpoint that another seal uses already, or its neighbour
            o = sim.choice(self.seals)[0]
            if sim.chance(40):
                o = (o[0], o[1] ^ 1)
        else:
            o = sim.choice(outs)
        self.seals.append((o, sim.bytes(16)))

    def digest(self):
        sim = self.sim
        if self.digests and sim.chance(40):
            return sim.choice(self.digests)
        d = sim.bytes(32)
        if d not in self.digests:
            self.digests.append(d)
        return d

    def template(self, seals, digest, meth):
        """What the library proposes to sign and broadcast"""
        u = self.u
        m = u('proofchains.uniquebits.singleuseseal')
        objs = [self.wf.make_seal(u, s) for s in seals]
        return families.plain_tx(m.make_close_seal_tx_template(digest, *objs, meth=meth))

    def witness(self, seal, i, tx1, j, tx2, meth=None):
        u = self.u
        m = u('proofchains.core.uniquebits.singleuseseal')
        p = u('proofchains.core.bitcoin')
        return m.BitcoinSealWitness(
            seal=self.wf.make_seal(u, seal),
            txinproof=p.TxInProof(i=i, txproof=p.TxProof(tx=families.make_tx(u, tx1))),
            txoutproof=p.TxOutProof(i=j, txproof=p.TxProof(tx=families.make_tx(u, tx2))))

    def accepts(self, seal, b, digest):
        """What a verifier does that knows the seal and has a node"""
        v = self.v
        m = v('proofchains.core.uniquebits.singleuseseal')
        try:
            w = m.BitcoinSealWitness.deserialize(b)
            if w.seal != self.wf.make_seal(v, seal) or w.seal.hash != refs.seal_hash(*seal):
                return False
            w.verify()
            w.verify_hash(digest)
            # both are of the same transaction, so it doesn't matter which one is looked up
            txid = (w.txoutproof if self.by_output else w.txinproof).txproof.txhash
        except Exception:
            return False
        return self.chain.active(txid)


def multi_script(sim, w):
    """One script that might pass for a commitment to several digests"""
    ds = [w.digest() for _ in range(sim.choice((2, 3)))]
    how = sim.choice(('pushes', 'concat', 'scripts', 'drop', 'hashes'))
    if how == 'pushes':
        return b'\x6a' + b''.join(refs.push(d) for d in ds)
    if how == 'concat':
        return b'\x6a' + refs.push(b''.join(ds)[:75])
    if how == 'scripts':
        return b''.join(refs.closing_script(d, sim.choice(refs.METHS)) for d in ds)
    if how == 'drop':
        return b''.join(refs.push(d) + b'\x75' for d in ds) + refs.closing_script(ds[0], sim.choice(refs.METHS))
    return b''.join(refs.push(refs.hash160(d)) for d in ds) + refs.closing_script(ds[0], sim.choice(refs.METHS))


def spending(chain, outpoint):
    """Position of the input of the active chain that spends an outpoint"""
    for tx in chain.view()[0].values():
        for i, x in enumerate(tx[1]):
            if x[0] == outpoint:
                return tx, i
    return None, None


def run(sim):
    w = World(sim)
    chain = w.chain
    for _ in range(sim.choice((1, 2, 3))):
        chain.mine([chain.coin([b'\x51'] * sim.choice((2, 1, 3, 5))) for _ in range(sim.choice((1, 2)))])
    for _ in range(sim.choice((2, 1, 3, 5))):
        w.new_seal()
    for step in range(sim.choice((8, 4, 14, 22))):
        what = sim.weighted((5, 'close'), (4, 'mine'), (3, 'spend'), (2, 'reorg'), (6, 'forge'), (1, 'seal'), (1, 'restart'))
        if what == 'seal':
            w.new_seal()
        elif what == 'restart':
            w.v = world(sim, 'verifier%d' % step)
            w.u = world(sim, 'owner%d' % step)
        elif what == 'close':
            seals = sim.sample(w.seals, sim.choice((1, 1, 2, 3)))
            d, meth = w.digest(), sim.choice(refs.METHS)
            tx = w.template(seals, d, meth)
            # funded, signed and with change added by a wallet
            if sim.chance(50):
                tx = (tx[0], tuple((o, sim.bytes(sim.choice((0, 107))), q) for o, _, q in tx[1]),
                      tx[2] + ((1000, b'\x51'),) * sim.choice((0, 1, 2)), tx[3])
            ok = chain.submit(tx)
            w.closings.append((tx, d, meth, seals))
            sim.log('%d: close %d seals over %s by %s: %s', step, len(seals), d.hex()[:6], meth, ok)
        elif what == 'spend':
            # An adversary spends an outpoint in another way, perhaps with several commitments
            o = sim.choice(w.seals)[0]
            outs = []
            for _ in range(sim.choice((1, 2, 3))):
                if sim.chance(60):
                    outs.append((sim.choice((0, 600)), refs.closing_script(w.digest(), sim.choice(refs.METHS))))
                elif sim.chance(60):
                    outs.append((0, multi_script(sim, w)))
                else:
                    outs.append((1, sim.choice((b'\x51', b'', b'\x6a', b'\x6a\x4c\x20' + w.digest()))))
            ins = [(o, b'', 0xffffffff)]
            if sim.chance(40):
                o2 = sim.choice(w.seals)[0]
                if o2 != o:
                    ins.insert(sim.below(2), (o2, b'', 0))
            tx = (1, tuple(ins), tuple(outs), sim.below(3))
            ok = chain.submit(tx)
            chain.known[refs.txid(tx)] = tx
            sim.fault('double-spend' if not ok else 'adversarial-spend')
        elif what == 'mine':
            b = chain.mine_mempool(keep=sim.subset(chain.mempool, 15))
            sim.log('%d: block %d with %d transactions', step, b.height, len(b.txs))
        elif what == 'reorg':
            path = chain.path()
            depth = sim.choice((1, 2, 3))
            if len(path) <= depth + 1:
                continue
            fork = path[-1 - depth]
            lost = [t for b in path[-depth:] for t in b.txs]
            pool = sim.shuffle([t for t in list(chain.known.values()) if not chain.is_coin(t) and t not in lost])
            pool += [t for t in lost if chain.is_coin(t) or sim.chance(50)]
            if sim.chance(50):
                pool = pool[::-1]
            b = fork
            for k in range(depth + 1):
                b = chain.mine(pool if k == 0 else [], b)
            chain.mempool = [t for t in chain.mempool if refs.txid(t) not in chain.view()[0]]
            sim.fault('reorganization')
            sim.log('%d: reorganization of depth %d', step, depth)
        else:
            forge(sim, w)
        audit(sim, w, False)
    chain.mine_mempool()
    for _ in range(3):
        forge(sim, w)
    audit(sim, w, True)
    honest(sim, w)
    sim.nontrivial = w.dishonest > 0 and any(chain.active(refs.txid(c[0])) for c in w.closings)


def offer(sim, w, seal, b, strategy):
    w.offered.append((seal, b, strategy))
    if strategy != 'honest':
        w.dishonest += 1
        sim.fault('witness:' + strategy)


def forge(sim, w):
    """Offer a witness for some seal"""
    chain = w.chain
    seal = sim.choice(w.seals)
    tx, i = spending(chain, seal[0])
    cands = [t for t in chain.known.values() if not chain.is_coin(t)]
    if tx is None or sim.chance(15):
        spends = [t for t in cands if any(x[0] == seal[0] for x in t[1])]
        if not spends:
            return
        tx = sim.choice(spends)
        i = [x[0] for x in tx[1]].index(seal[0])
    strategy = sim.choice(('output', 'other-tx', 'input', 'output', 'other-tx-mix', 'pruned', 'forged-tx', 'seal', 'graft'))
    tx1 = tx2 = tx
    j = 0
    if strategy == 'output':
        j = sim.choice((1, 2, 0, 3, 0xffffffff, 256))
    elif strategy == 'other-tx':
        tx2 = sim.choice(cands)
        j = sim.choice((0, 1))
    elif strategy == 'other-tx-mix':
        tx1 = tx2 = sim.choice(cands)
        i = sim.choice((i, 0, 1))
    elif strategy == 'input':
        i = sim.choice((0, 1, i + 1, 0xffffffff))
    elif strategy == 'forged-tx':
        # the closing the adversary would have liked to see mined
        d = w.digest()
        tx2 = (tx[0], tx[1], ((0, refs.closing_script(d, sim.choice(refs.METHS))),) + tx[2][1:], tx[3])
        if sim.chance(50):
            tx1 = tx2
    elif strategy == 'seal':
        other = sim.choice(w.seals)
        t2, i2 = spending(chain, other[0])
        if t2 is not None:
            tx1 = tx2 = t2
            i = i2
    try:
        obj = w.witness(seal, i, tx1, j, tx2)
        b = obj.serialize()
        if strategy == 'pruned' or sim.chance(20):
            view = obj.prune()
            for f in sim.subset((lambda: view.seal.outpoint, lambda: view.txinproof.txin, lambda: view.txoutproof.txout,
                                 lambda: view.txoutproof.i, lambda: view.txinproof.i, lambda: view.seal.nonce), 60):
                f()
            b = view.serialize()
    except Exception as exc:
        sim.log('can not build %s: %s', strategy, type(exc).__name__)
        return
    if strategy == 'graft':
        # show the real transaction on one side and only claim it on the other
        claim = b'\xff' + refs.txid(tx)
        full = refs.txproof_ser(tx)
        t2 = sim.choice(cands)
        side = sim.choice((0, 1, 2))
        a, c = (full, claim) if side == 0 else (claim, full) if side == 1 else (b'\xff' + refs.txid(t2), refs.txproof_ser(t2))
        b = b'\x00' + refs.seal_ser(*seal) + b'\x00' + refs.varuint(i) + a + b'\x00' + refs.varuint(j) + c
    if sim.chance(10):
        k = sim.below(len(b))
        b = b[:k] + bytes([b[k] ^ (1 << sim.below(8))]) + b[k + 1:]
        strategy += '+bitflip'
    offer(sim, w, seal, b, strategy)


def audit(sim, w, final):
    """No seal is closed over two digests in the eyes of a verifier"""
    todo = w.offered if final else w.offered[-1:]
    accepted = {}
    for seal, b, strategy in todo:
        for d in w.digests:
            ok = w.accepts(seal, b, d)
            if final:
                sim.state(strategy, ok)
            if ok:
                sim.probe('accepted:' + strategy)
                accepted.setdefault(seal, {}).setdefault(d, strategy)
                tx, i = spending(w.chain, seal[0])
                sim.check(tx is not None, 'unspent', 'a witness (%s) closes a seal whose outpoint is unspent', strategy)
    for seal, ds in accepted.items():
        # the digests other witnesses of the same seal are accepted for
        if len(ds) > 1:
            sim.fail('two-digests', 'one seal is closed over %d digests: %s', len(ds),
                     sorted((d.hex()[:8], s) for d, s in ds.items()))
        if not final:
            for s2, b, strategy in w.offered:
                if s2 == seal:
                    for d in w.digests:
                        if d not in ds and w.accepts(seal, b, d):
                            sim.fail('two-digests', 'one seal is closed over two digests (%s, %s)', list(ds.values())[0],
                                     strategy)


def honest(sim, w):
    """Owners who closed a seal can prove it, and nobody can prove anything else"""
    for tx, d, meth, seals in w.closings:
        confirmed = w.chain.active(refs.txid(tx))
        for seal in seals:
            i = [x[0] for x in tx[1]].index(seal[0])
            b = w.witness(seal, i, tx, 0, tx).serialize()
            got = w.accepts(seal, b, d)
            sim.state('honest', meth, confirmed, got)
            sim.check(got == confirmed, 'honest', 'closing by %s, confirmed: %s, its witness is accepted: %s', meth, confirmed,
                      got)
            for d2 in w.digests:
                if d2 != d:
                    sim.check(not w.accepts(seal, b, d2), 'two-digests', 'honest witness is accepted for another digest')
            for seal2, b2, strategy in w.offered:
                if seal2 == seal and confirmed:
                    for d2 in w.digests:
                        if d2 != d:
                            sim.check(not w.accepts(seal, b2, d2), 'two-digests', 'honestly closed seal, yet a witness (%s) '
                                      'for another digest is accepted', strategy)
