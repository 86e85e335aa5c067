"""M07: a proof never changes once it is made or loaded"""

from .. import families
from .common import world, show, MARSHAL_REAL, STUBS

RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('One run: a process makes proofs from objects that it keeps changing, derives others, asks questions, tries to change the proofs and whatever they return, '
        'prunes, stores and loads them in any order.  Non-trivial: something a proof was made from was changed, or a change was tried.')
STATE = 'distinct (kind of proof, step, part, whether the hash was known before) tuples'
SEARCH = 'histories of making, deriving, changing originals, tampering, asking, storing'
ORACLE = 'plain model of the contents when the proof was made, independent hashes'
REAL = MARSHAL_REAL + ['proofmarshal.merbinnertree', 'proofmarshal.mmr', 'proofchains.core.bitcoin',
                       'proofchains.core.uniquebits.singleuseseal', 'proofchains.core.uniquebits.gumap', 'bitcoin.core']
STUB = STUBS
ASSUMPTIONS = ['nobody goes behind the interface (object.__setattr__, private attributes)',
               'outpoints and scripts are made from bytes (bitcoinlib does not look at the type)']


class MutableWitnesses(families.WitnessFamily):
    """Made from mutable transactions and outpoints, which are kept"""

    def __init__(self, sim):
        self.sim = sim
        self.originals = []

    def keep(self, o):
        self.originals.append(o)
        return o

    def outpoint(self, u, o):
        return self.keep(u('bitcoin.core').CMutableOutPoint(o[0], o[1]))

    def tx(self, u, tx):
        c = u('bitcoin.core')
        S = u('bitcoin.core.script').CScript
        if self.sim.chance(30):
            return self.keep(c.CMutableTransaction.from_tx(families.make_tx(u, tx)))
        ins = [c.CMutableTxIn(self.outpoint(u, o), S(s), q) for o, s, q in tx[1]]
        outs = [c.CMutableTxOut(v, S(s)) for v, s in tx[2]]
        if self.sim.chance(30):
            # parts that are mutable, the whole isn't
            for x in ins + outs:
                self.keep(x)
            return c.CTransaction(ins, outs, tx[3], tx[0])
        m = self.keep(c.CMutableTransaction(ins, outs, tx[3], tx[0]))
        if self.sim.chance(25):
            m.vin = tuple(m.vin)
        if self.sim.chance(25):
            m.vout = tuple(m.vout)
        return m

    def make_seal(self, u, seal):
        return u('proofchains.core.uniquebits.singleuseseal').BitcoinSingleUseSeal(outpoint=self.outpoint(u, seal[0]), nonce=seal[1])

    def build(self, u, model, j=0, tx2=None):
        m, p = u('proofchains.core.uniquebits.singleuseseal'), u('proofchains.core.bitcoin')
        seal, i, tx, digest, meth = model
        t1 = p.TxProof(tx=self.tx(u, tx))
        t2 = p.TxProof(tx=self.tx(u, tx2 if tx2 is not None else tx)) if self.sim.chance(50) or tx2 is not None else t1
        return m.BitcoinSealWitness(seal=self.make_seal(u, seal), txinproof=p.TxInProof(i=i, txproof=t1), txoutproof=p.TxOutProof(i=j, txproof=t2))


class MutableParts(families.TxPartFamily):
    """Of mutable transactions"""

    def __init__(self, sim, kind):
        super().__init__(kind)
        self.m = MutableWitnesses(sim)

    @property
    def originals(self):
        return self.m.originals

    def make_tx(self, u, tx):
        return self.m.tx(u, tx)


def build(sim, fam, u, model, originals):
    """Make a proof; what it's made from is kept in originals"""
    if fam.name == 'map':
        pairs = [(fam.mk(u, k), fam.vk.make(u, v)) for k, v in model.items()]
        how = sim.choice(('dict', 'list', 'iter'))
        src = dict(pairs) if how == 'dict' else list(pairs)
        originals.append(src)
        return fam.cls(u)(iter(src) if how == 'iter' else src)
    if fam.name == 'list':
        src = [fam.vk.make(u, v) for v in model]
        originals.append(src)
        return fam.cls(u)(src)
    return fam.build(u, model)


def change(sim, u, o):
    """Change an object that the user may change"""
    if isinstance(o, dict):
        if o and sim.chance(50):
            o.pop(next(iter(o)))
        else:
            o.clear()
        return 'dict'
    if isinstance(o, list):
        if sim.chance(50):
            o.reverse()
        else:
            del o[:]
        return 'list'
    c = u('bitcoin.core')
    S = u('bitcoin.core.script').CScript
    n = sim.below(6)
    if isinstance(o, c.CMutableTransaction):
        if n == 0:
            o.nLockTime ^= 1
        elif n == 1:
            o.vin = list(o.vin) + [c.CMutableTxIn()] if isinstance(o.vin, tuple) else o.vin.append(c.CMutableTxIn()) or o.vin
        elif n == 2 and o.vout:
            o.vout[0].scriptPubKey = S(b'\x6a')
        elif n == 3 and o.vin:
            o.vin[0].prevout.n ^= 1
        elif n == 4:
            if isinstance(o.vout, tuple):
                o.vout = ()
            else:
                o.vout[:] = []
        else:
            o.nVersion = 7
        return 'tx'
    if isinstance(o, c.CMutableTxIn):
        if n < 2:
            o.prevout.n ^= 1
        elif n < 4:
            o.scriptSig = S(b'\x51')
        else:
            o.nSequence ^= 1
        return 'txin'
    if isinstance(o, c.CMutableTxOut):
        o.nValue ^= 1
        return 'txout'
    if n < 3:
        o.n ^= 1
    else:
        o.hash = b'\x77' * 32
    return 'outpoint'


def parts(obj, P, depth=0):
    """A proof and what it consists of"""
    yield obj
    if depth > 3:
        return
    for name, _ in obj.SERIALIZED_ATTRS:
        try:
            v = getattr(obj, name)
        except P.PrunedError:
            continue
        if isinstance(v, P.Proof):
            yield from parts(v, P, depth + 1)
        else:
            yield v


def tamper(sim, u, o):
    """Try to change something that can't be changed"""
    P = u('proofmarshal.proof')
    if isinstance(o, P.Proof):
        names = [n for n, _ in o.SERIALIZED_ATTRS] + ['hash', 'data_hash', 'is_pruned', 'is_fully_pruned', 'nothing', 'HASHTAG']
        name = sim.choice(names)
        k = sim.choice(('set', 'del', 'item', 'delitem', 'set'))
        try:
            if k == 'set':
                setattr(o, name, sim.choice((0, b'\x00' * 32, None, True, o)))
            elif k == 'del':
                delattr(o, name)
            elif k == 'item':
                o[0] = 1
            else:
                del o[0]
        except (TypeError, AttributeError):
            return True
        sim.fail('mutable', '%s: %s of %s is accepted', type(o).__name__, k, name)
    c = u('bitcoin.core')
    if isinstance(o, c.CTransaction):
        k = sim.below(6)
        try:
            if k == 0:
                o.nLockTime = 3
            elif k == 1:
                o.vin[0] = c.CTxIn()
            elif k == 2:
                o.vout.append(c.CTxOut())
            elif k == 3:
                o.vin[0].nSequence = 5
            elif k == 4:
                o.vin[0].prevout.n = 1
            else:
                o.vout[0].nValue = 1
        except (TypeError, AttributeError, IndexError):
            return True
        sim.fail('mutable', 'the transaction of a proof can be changed (%d)', k)
    if isinstance(o, c.COutPoint):
        try:
            o.n = 1
        except AttributeError:
            return True
        sim.fail('mutable', 'the outpoint of a proof can be changed')
    return False


class Entry:
    """A proof and what is known about it"""

    def __init__(self, fam, model, obj, full):
        self.fam, self.model, self.obj, self.full = fam, model, obj, full
        self.root = fam.root(model)
        self.stored = None
        self.pyhash = None
        self.tag = object()


def check(sim, e, u, what):
    if sim.chance(70):
        sim.check(e.obj.hash == e.root and e.obj.get_hash() == e.root, 'changed', '%s has another hash than when it was made (%s)', e.fam.describe(), what)
    if e.full and sim.chance(70):
        b = e.obj.serialize()
        if e.stored is None:
            e.stored = b
            w = world(sim, 'reader')
            sim.check(e.fam.load(w, b).hash == e.root, 'changed', '%s is stored as something else (%s)', e.fam.describe(), what)
        sim.check(b == e.stored, 'changed', '%s is stored differently (%s)', e.fam.describe(), what)
    if sim.chance(50):
        h = hash(e.obj)
        if e.pyhash is None:
            e.pyhash = h
        sim.check(h == e.pyhash, 'changed', 'hash() of a %s changed (%s)', e.fam.describe(), what)


def lent(sim, u):
    """Bytes that can be changed: refused, or taken as they are"""
    S = u('proofchains.core.uniquebits.singleuseseal')
    kind = sim.choice(('nonce', 'digest', 'list', 'key', 'value', 'note'))
    buf = bytearray(sim.bytes(16 if kind == 'nonce' else 32))
    if sim.chance(30):
        buf2, buf = buf, memoryview(buf)
    else:
        buf2 = buf
    sim.log('lent %s %s', kind, type(buf).__name__)
    try:
        if kind == 'nonce':
            o = S.BitcoinSingleUseSeal(outpoint=families.make_outpoint(u, families.gen_outpoint(sim)), nonce=buf)
        elif kind == 'digest':
            o = S.FakeSingleUseSeal(committed_hash=buf)
        elif kind == 'list':
            o = families.ListFamily(families.DigestKind()).cls(u)([buf])
        elif kind == 'key':
            o = families.MapFamily(32, families.DigestKind()).cls(u)([(buf, bytes(32))])
        elif kind == 'value':
            o = families.MapFamily(32, families.DigestKind()).cls(u)([(bytes(32), buf)])
        else:
            o = families.CellKind().ser_cls(u)(n=1, note=buf)
        before = o.hash if sim.chance(50) else None
        stored = o.serialize()
    except (TypeError, ValueError, AttributeError):
        return
    buf2[sim.below(len(buf2))] ^= 1
    sim.fault('original changed')
    sim.check(o.serialize() == stored and (before is None or o.hash == before), 'changed', 'a proof made from %s as %s changes with it', type(buf).__name__, kind)


def kinds(sim, u):
    """Proofs of different kinds that contain the same"""
    C = u('proofchains.core.bitcoin')
    k = sim.choice(('parts', 'parts', 'map', 'list'))
    if k == 'parts':
        t = C.TxProof(tx=families.make_tx(u, families.gen_tx(sim, small=True)))
        i = sim.below(2)
        a, b = C.TxInProof(i=i, txproof=t), C.TxOutProof(i=i, txproof=t)
        if sim.chance(30):
            b = C.OutPointProof(txproof=t, n=i)
    else:
        fam = families.pick_map(sim) if k == 'map' else families.ListFamily(sim.choice(families.VALUE_KINDS))
        model = fam.gen(sim)
        cls = fam.cls(u)
        if k == 'map':
            src = [(fam.mk(u, x), fam.vk.make(u, y)) for x, y in model.items()]
        else:
            src = [fam.vk.make(u, y) for y in model]
        a, b = cls(src), families.twin(u, cls)(src)

    def form(o):
        how = sim.choice(('as made', 'pruned', 'pruned', 'known', 'partial', 'loaded', 'loaded pruned'))
        h = o.hash if sim.chance(50) else None
        if how in ('known', 'partial', 'loaded', 'pruned', 'loaded pruned') and how != 'loaded':
            o = o.prune()
        if how == 'known':
            o.hash, o.data_hash
        if how == 'partial':
            for name in ('i', 'n', 'left', 'value', 'key'):
                getattr(o, name, None)
        if how.startswith('loaded'):
            o = type(o).deserialize(o.serialize())
        return how, o, h
    (ha, x, _), (hb, y, _) = form(a), form(b)
    (hc, z, _) = form(a)
    sim.log('kinds: %s, %s %s %s', k, ha, hb, hc)
    sim.check((x == y) is False and (y == x) is False and (x != y) is True and (y != x) is True, 'equality', '%s of different kinds with the same contents (%s, %s)', k, ha, hb)
    sim.check((x == z) is True and (z == x) is True and (x != z) is False and hash(x) == hash(z), 'equality', '%s and itself (%s, %s)', k, ha, hc)
    sim.check(y not in {x: 1, z: 2} and z in {x} and len({x, y, z, a, b}) == 2, 'equality', '%s of different kinds in a set (%s, %s, %s)', k, ha, hb, hc)
    sim.state('kinds', k, ha, hb)


def run(sim):
    if sim.chance(4):
        return kinds(sim, world(sim, 'p0'))
    u = world(sim, 'p0')
    P = u('proofmarshal.proof')
    fams = []
    for _ in range(sim.choice((1, 1, 2))):
        fam = families.pick(sim, ('witness', 'gumap', 'map', 'list', 'struct', 'witness', 'txpart'))
        if fam.name == 'witness':
            fam = MutableWitnesses(sim)
        elif fam.name == 'txpart':
            fam = MutableParts(sim, fam.kind)
        elif fam.name == 'gumap':
            fam.wf = MutableWitnesses(sim)
        fams.append(fam)
    entries, index = [], {}
    originals = []
    for fam in fams:
        for _ in range(sim.choice((1, 1, 2))):
            model = fam.gen(sim)
            e = Entry(fam, model, build(sim, fam, u, model, originals), True)
            entries.append(e)
        m = fam if fam.name in ('witness', 'txpart') else getattr(fam, 'wf', None)
        if m is not None:
            originals += m.originals
    for e in entries:
        if sim.chance(30):
            check(sim, e, u, 'new')
        if sim.chance(30):
            index[e.obj] = e.tag
    for step in range(sim.choice((3, 6, 12))):
        e = sim.choice(entries)
        what = sim.weighted((5 if originals else 0, 'change'), (4, 'tamper'), (4, 'ask'), (2, 'prune'), (2, 'derive'), (1, 'reload'), (2, 'compare'), (1, 'index'), (1, 'lent'))
        part = ''
        if what == 'change':
            # what was made is in all of its originals, so the others may notice as well
            part = change(sim, u, sim.choice(originals))
            sim.fault('original changed')
            sim.nontrivial = True
        elif what == 'tamper':
            ps = list(parts(e.obj, P)) if e.full else [e.obj]
            for _ in range(3):
                o = sim.choice(ps)
                if tamper(sim, u, o):
                    part = type(o).__name__
                    sim.fault('tampering')
                    sim.nontrivial = True
        elif what == 'ask':
            op = e.fam.op(sim, e.model)
            want, got = e.fam.expect(e.model, op), e.fam.do(u, e.obj, op)
            part = op[0]
            sim.check(got == want, 'changed', '%s: %s gives %s, expected %s', e.fam.describe(), show(op), show(got), show(want))
        elif what == 'prune':
            entries.append(Entry(e.fam, e.model, e.obj.prune(), False))
        elif what == 'derive':
            fam = e.fam
            if fam.name == 'map':
                k, v = fam.any_key(sim, e.model), fam.vk.gen(sim, step)
                entries.append(Entry(fam, {**e.model, k: v}, e.obj.put(fam.mk(u, k), fam.vk.make(u, v)), e.full))
            elif fam.name == 'list':
                v = fam.vk.gen(sim, step)
                if sim.chance(50) and e.model:
                    n = sim.below(len(e.model) + 1)
                    entries.append(Entry(fam, e.model[:n], e.obj[:n], e.full))
                else:
                    entries.append(Entry(fam, e.model + (v,), e.obj.append(fam.vk.make(u, v)), e.full))
            else:
                list(parts(e.obj, P))
        elif what == 'reload':
            # not by the same process
            if e.full:
                w = world(sim, 'other')
                e2 = e.fam.load(w, e.obj.serialize())
                sim.check(e2.hash == e.root, 'changed', '%s is stored as something else', e.fam.describe())
                op = e.fam.op(sim, e.model)
                sim.check(e.fam.do(w, e2, op) == e.fam.expect(e.model, op), 'changed', '%s: %s after a restart', e.fam.describe(), show(op))
        elif what == 'lent':
            lent(sim, u)
        elif what == 'compare':
            o = sim.choice(entries)
            same = o.root == e.root
            sim.check((e.obj == o.obj) is same and (e.obj != o.obj) is not same, 'equality', '%s and %s', e.fam.describe(), o.fam.describe())
            if sim.chance(30):
                # nothing but a proof is equal to one, whatever it looks like
                for x in (e.root, u('bitcoin.core').COutPoint(e.root, 0), None, 5):
                    sim.check((e.obj == x) is False and (e.obj != x) is True and (x == e.obj) is False, 'equality', '%s and a %s', e.fam.describe(), type(x).__name__)
            sim.check(not same or hash(e.obj) == hash(o.obj), 'equality', 'equal proofs have different hash()')
        else:
            if e.obj not in index and not any(x.root == e.root for x in entries if x.tag in index.values()):
                index[e.obj] = e.tag
        sim.log('%d: %s %s %s', step, what, e.fam.name, part)
        sim.state(e.fam.name, what, part, e.pyhash is not None, e.full)
        check(sim, sim.choice(entries), u, what)
    for o, t in index.items():
        sim.check(index.get(o) is t, 'lost', 'a proof is not found any more among the keys of a dict')
    for e in entries:
        check(sim, e, u, 'at the end')
        for _ in range(2):
            op = e.fam.op(sim, e.model)
            want, got = e.fam.expect(e.model, op), e.fam.do(u, e.obj, op)
            sim.check(got == want, 'changed', '%s: %s gives %s at the end, expected %s', e.fam.describe(), show(op), show(got), show(want))
