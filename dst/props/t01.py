"""T01: immutable transactions never change; copies of mutable ones are independent"""

import struct
from fractions import Fraction

from .. import refs, script_ref, wire
from ..engine import Violation
from ..families import make_tx, plain_tx
from ..sched import Scheduler
from .common import world, show

RUNS = {'quick': 3000, 'thorough': 80000}
RULE = ('One run: a wallet and its threads make, freeze, copy, share, change, sign, store and load transactions and their parts (and blocks) in 10 to 60 steps; after every step '
        'everything that was ever made is compared with a model that has the same sharing.  Some steps are taken by several threads at once.  '
        'Non-trivial: a part that is shared or was copied is changed.')
STATE = 'distinct (operation, kinds of operands, sharing) tuples'
SEARCH = 'histories of constructions, copies and changes, also by concurrent threads'
ORACLE = 'model of plain values with the sharing that Python prescribes; independent encoder and ids'
REAL = ['bitcoin.core', 'bitcoin.core.serialize', 'bitcoin.core.script']
STUB = ['thread scheduling', 'operating system']
ASSUMPTIONS = ['objects are changed through their attributes, not behind the back of Python (object.__setattr__)', 'one bytecode is atomic (as under the GIL)']


# -- models: frozen ones are tuples, mutable ones have the sharing of the objects

class MOut:
    """Outpoint"""

    def __init__(self, h, n):
        self.hash, self.n = h, n


class MIn:
    def __init__(self, prevout, script, seq):
        self.prevout, self.script, self.seq = prevout, script, seq


class MTxOut:
    def __init__(self, value, script):
        self.value, self.script = value, script


class MTx:
    def __init__(self, vin, vout, lock, version):
        self.vin, self.vout, self.lock, self.version = vin, vout, lock, version


def f_op(m):
    return m if isinstance(m, tuple) else (m.hash, m.n)


def f_in(m):
    return m if isinstance(m, tuple) else (f_op(m.prevout), m.script, m.seq)


def f_out(m):
    return m if isinstance(m, tuple) else (m.value, m.script)


def f_tx(m):
    return m if isinstance(m, tuple) else (m.version, tuple(f_in(i) for i in m.vin), tuple(f_out(o) for o in m.vout), m.lock)


FREEZE = {'op': f_op, 'in': f_in, 'out': f_out, 'tx': f_tx, 'block': lambda b: b, 'header': lambda b: b}
SER = {'op': refs.outpoint_ser, 'in': lambda i: refs.outpoint_ser(i[0]) + refs.var_bytes(i[1]) + struct.pack('<I', i[2]),
       'out': lambda o: struct.pack('<q', o[0]) + refs.var_bytes(o[1]), 'tx': refs.tx_ser, 'block': lambda b: refs.block_ser(*b), 'header': refs.header_ser}
IMMUTABLE = {'op': 'COutPoint', 'in': 'CTxIn', 'out': 'CTxOut', 'tx': 'CTransaction', 'block': 'CBlock', 'header': 'CBlockHeader'}
MUTABLE = {'op': 'CMutableOutPoint', 'in': 'CMutableTxIn', 'out': 'CMutableTxOut', 'tx': 'CMutableTransaction'}
FROM = {'op': 'from_outpoint', 'in': 'from_txin', 'out': 'from_txout', 'tx': 'from_tx'}
FIELDS = {'op': ('hash', 'n'), 'in': ('prevout', 'scriptSig', 'nSequence'), 'out': ('nValue', 'scriptPubKey'), 'tx': ('vin', 'vout', 'nLockTime', 'nVersion'),
          'header': ('nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce'),
          'block': ('vtx', 'hashPrevBlock', 'nTime', 'hashMerkleRoot', 'vMerkleTree')}


def parses(script):
    p = 0
    while p < len(script):
        op = script_ref.next_op(script, p)
        if op is None:
            return False
        p = op[2]
    return True


def unfreeze(kind, v):
    """Model of a fully mutable copy"""
    if kind == 'op':
        return MOut(*v)
    if kind == 'in':
        return MIn(MOut(*v[0]), v[1], v[2])
    if kind == 'out':
        return MTxOut(*v)
    return MTx([unfreeze('in', i) for i in v[1]], [unfreeze('out', o) for o in v[2]], v[3], v[0])


class Thing:
    def __init__(self, kind, mutable, obj, model):
        self.kind, self.mutable, self.obj, self.model = kind, mutable, obj, model

    def value(self):
        return FREEZE[self.kind](self.model)

    def cls(self):
        return (MUTABLE if self.mutable else IMMUTABLE)[self.kind]


class History:
    def __init__(self, sim):
        self.sim = sim
        self.u = world(sim, 'p0')
        self.boots = 0
        self.things = []

    def core(self, name):
        return getattr(self.u('bitcoin.core'), name)

    def script(self):
        return self.sim.bytes(self.sim.choice((0, 1, 25, 80, 253)))

    def S(self, b):
        return self.u('bitcoin.core.script').CScript(b)

    def add(self, *a):
        t = Thing(*a)
        self.things.append(t)
        if len(self.things) > 24:
            self.things.pop(self.sim.below(12))
        return t

    def pick(self, kind, mutable=None):
        c = [t for t in self.things if t.kind == kind and (mutable is None or t.mutable == mutable)]
        return self.sim.choice(c) if c else None

    def rand_op(self):
        return (self.sim.bytes(32), self.sim.choice((0, 1, 0xffffffff, 77)))

    # -- construction ----------------------------------------------------

    def new(self):
        sim = self.sim
        kind = sim.choice(('op', 'in', 'out', 'tx', 'tx'))
        mut = sim.chance(50)
        if kind == 'op':
            h, n = self.rand_op()
            if sim.chance(10):
                h, n = b'\x00' * 32, 0xffffffff
                o = self.core((MUTABLE if mut else IMMUTABLE)['op'])()
            else:
                o = self.core((MUTABLE if mut else IMMUTABLE)['op'])(h, n)
            return self.add('op', mut, o, MOut(h, n) if mut else (h, n))
        if kind == 'out':
            v, s = sim.choice((0, 1, 5 * 10 ** 9, -1, 21 * 10 ** 14, 21 * 10 ** 14 + 1)), self.script()
            o = self.core((MUTABLE if mut else IMMUTABLE)['out'])(v, self.S(s))
            return self.add('out', mut, o, MTxOut(v, s) if mut else (v, s))
        if kind == 'in':
            p = self.pick('op')
            s, q = self.script(), sim.choice((0, 0xffffffff, 5))
            if p is None:
                # defaults
                if mut:
                    return self.add('in', True, self.core('CMutableTxIn')(scriptSig=self.S(s), nSequence=q), MIn(MOut(b'\x00' * 32, 0xffffffff), s, q))
                return self.add('in', False, self.core('CTxIn')(scriptSig=self.S(s), nSequence=q), ((b'\x00' * 32, 0xffffffff), s, q))
            if mut:
                return self.add('in', True, self.core('CMutableTxIn')(p.obj, self.S(s), q), MIn(p.model, s, q))
            return self.add('in', False, self.core('CTxIn')(p.obj, self.S(s), q), (f_op(p.model), s, q))
        return self.new_tx(mut)

    def new_tx(self, mut):
        sim = self.sim
        ins = [x for x in (self.pick('in') for _ in range(sim.choice((0, 1, 2, 3)))) if x]
        outs = [x for x in (self.pick('out') for _ in range(sim.choice((0, 1, 2)))) if x]
        lock, ver = sim.choice((0, 7, 0xffffffff)), sim.choice((1, 2, -1))
        kw = {'nLockTime': lock, 'nVersion': ver}
        if sim.chance(15):
            # left at the defaults
            lock, ver, kw = 0, 1, {}
        elif sim.chance(15):
            ver, kw = 1, {'nLockTime': lock}
        vin, vout = [x.obj for x in ins], [x.obj for x in outs]
        if mut:
            if not vin and not vout and sim.chance(70):
                # nothing may be shared with other empty transactions
                return self.add('tx', True, self.core('CMutableTransaction')(**kw), MTx([], [], lock, ver))
            return self.add('tx', True, self.core('CMutableTransaction')(vin, vout, **kw), MTx([x.model for x in ins], [x.model for x in outs], lock, ver))
        how = sim.choice(('list', 'tuple', 'iter'))
        a, b = (vin, vout) if how == 'list' else (tuple(vin), tuple(vout)) if how == 'tuple' else (iter(vin), iter(vout))
        t = self.core('CTransaction')(a, b, **kw)
        if how == 'list':
            # the lists belong to the caller
            vin.clear()
            vout.append(None)
        return self.add('tx', False, t, (ver, tuple(f_in(x.model) for x in ins), tuple(f_out(x.model) for x in outs), lock))

    def block(self):
        txs = [x for x in (self.pick('tx') for _ in range(self.sim.choice((0, 1, 2, 3)))) if x]
        vtx = [x.obj for x in txs]
        vals = tuple(x.value() for x in txs)
        root = refs.merkle_root([refs.txid(v) for v in vals]) if vals else b'\x00' * 32
        sim = self.sim
        bits = sim.choice((0x207fffff, 0x1d00ffff, 0x1b0404cb, 0x1c05a3f4, 0x1e00ffff, 0x04123456, 0x22000001, 0x1d000001))
        h = (sim.choice((2, 1, 3, -1)), sim.bytes(32), root, sim.choice((1441843200, 0, 0xffffffff)), bits, sim.choice((sim.below(100), 0xffffffff)))
        if sim.chance(25):
            # some of it is left at the defaults
            full = dict(zip(FIELDS['header'], h))
            kw = {k: v for k, v in full.items() if k == 'nBits' or sim.chance(50)}
            h = tuple(kw.get(k, d) for k, d in zip(FIELDS['header'], (2, b'\x00' * 32, b'\x00' * 32, 0, 0, 0)))
            if sim.chance(30):
                return self.add('header', False, self.core('CBlockHeader')(**kw), h)
            if not vtx and sim.chance(50):
                return self.add('block', False, self.core('CBlock')(**kw), (h, ()))
            b = self.core('CBlock')(vtx=vtx, **kw)
        else:
            b = self.core('CBlock')(h[0], h[1], h[2], h[3], h[4], h[5], vtx)
        vtx.clear()
        t = self.add('block', False, b, (h, vals))
        if sim.chance(30):
            self.add('header', False, b.get_header(), h)
        return t

    # -- copies ----------------------------------------------------------

    def copy(self):
        sim = self.sim
        t = sim.choice([t for t in self.things if t.kind not in ('block', 'header')] or [self.new()])
        to_mut = sim.chance(60)
        c = self.core((MUTABLE if to_mut else IMMUTABLE)[t.kind])
        o = getattr(c, FROM[t.kind])(t.obj)
        v = t.value()
        sim.check(type(o) is c, 'wrong class', '%s of a %s is a %s', FROM[t.kind], t.cls(), type(o).__name__)
        if t.mutable or to_mut:
            sim.check(o is not t.obj, 'not a copy', 'a %s made from a %s is the same object', c.__name__, t.cls())
        sim.nontrivial = True
        return self.add(t.kind, to_mut, o, unfreeze(t.kind, v) if to_mut else v)

    def reload(self):
        """Another process gets the bytes"""
        sim = self.sim
        t = sim.choice(self.things or [self.new()])
        raw = t.obj.serialize()
        sim.check(raw == SER[t.kind](t.value()), 'wrong bytes', 'a %s', t.cls())
        mut = t.mutable and t.kind != 'tx' and t.kind != 'in'
        c = self.core(IMMUTABLE[t.kind])
        o = c.deserialize(raw)
        return self.add(t.kind, False, o, t.value())

    # -- change ----------------------------------------------------------

    def part(self):
        """Take a part of something; it's the same object"""
        t = self.sim.choice([t for t in self.things if t.kind in ('in', 'tx', 'block')] or [self.new()])
        if t.kind == 'in':
            return self.add('op', t.mutable and isinstance(t.model.prevout, MOut), t.obj.prevout, t.model.prevout if t.mutable else t.model[0])
        if t.kind == 'block':
            if t.model[1]:
                i = self.sim.below(len(t.model[1]))
                return self.add('tx', False, t.obj.vtx[i], t.model[1][i])
            return None
        if t.kind != 'tx':
            return None
        which = self.sim.choice(('in', 'out'))
        objs = t.obj.vin if which == 'in' else t.obj.vout
        mods = (t.model.vin if which == 'in' else t.model.vout) if t.mutable else t.model[1 if which == 'in' else 2]
        if len(mods):
            i = self.sim.below(len(mods))
            return self.add(which, not isinstance(mods[i], tuple), objs[i], mods[i])

    def change(self):
        sim = self.sim
        c = [t for t in self.things if t.mutable]
        if not c:
            return self.copy()
        t = sim.choice(c)
        m, o = t.model, t.obj
        sim.nontrivial = True
        if t.kind == 'op':
            if sim.chance(50):
                o.n = m.n = sim.choice((0, 1, 2, 0xffffffff, 5))
            else:
                o.hash = m.hash = sim.bytes(32)
        elif t.kind == 'in':
            k = sim.below(4)
            if k == 0:
                m.script = self.script()
                o.scriptSig = self.S(m.script)
            elif k == 1:
                o.nSequence = m.seq = sim.choice((0, 1, 0xffffffff))
            elif k == 2:
                p = self.pick('op')
                if p:
                    o.prevout, m.prevout = p.obj, p.model
            elif isinstance(m.prevout, MOut):
                o.prevout.n = m.prevout.n = sim.choice((3, 4, 5))
        elif t.kind == 'out':
            if sim.chance(50):
                o.nValue = m.value = sim.choice((0, 1, 2, 10 ** 8))
            else:
                m.script = self.script()
                o.scriptPubKey = self.S(m.script)
        else:
            k = sim.below(9)
            if k in (2, 4) and isinstance(m.vin, tuple) or k in (3, 5) and isinstance(m.vout, tuple):
                o.vin, m.vin, o.vout, m.vout = list(o.vin), list(m.vin), list(o.vout), list(m.vout)
            if k == 0:
                o.nLockTime = m.lock = sim.choice((0, 1, 9))
            elif k == 1:
                o.nVersion = m.version = sim.choice((1, 2, 3))
            elif k in (2, 3):
                x = self.pick('in' if k == 2 else 'out')
                if x:
                    (o.vin if k == 2 else o.vout).append(x.obj)
                    (m.vin if k == 2 else m.vout).append(x.model)
            elif k == 4 and m.vin:
                i = sim.below(len(m.vin))
                del o.vin[i]
                del m.vin[i]
            elif k == 5 and m.vout:
                i = sim.below(len(m.vout))
                del o.vout[i]
                del m.vout[i]
            elif k == 6 and m.vin:
                i = sim.below(len(m.vin))
                if isinstance(m.vin[i], MIn):
                    o.vin[i].nSequence = m.vin[i].seq = sim.choice((1, 2, 3))
                    if isinstance(m.vin[i].prevout, MOut):
                        o.vin[i].prevout.hash = m.vin[i].prevout.hash = sim.bytes(32)
            elif k == 7 and m.vout:
                i = sim.below(len(m.vout))
                if isinstance(m.vout[i], MTxOut):
                    o.vout[i].nValue = m.vout[i].value = sim.choice((5, 6, 7))
            elif k == 8:
                o.vin, m.vin = list(o.vin), list(m.vin)
                if sim.chance(40):
                    # sequences of other types that somebody else has as well
                    shape = sim.choice((tuple, list))
                    o.vin, m.vin = shape(o.vin), shape(m.vin)
                    o.vout, m.vout = tuple(o.vout), tuple(m.vout)

    def attack(self):
        """Immutable things refuse changes"""
        sim = self.sim
        c = [t for t in self.things if not t.mutable]
        if not c:
            return
        t = sim.choice(c)
        for f in FIELDS[t.kind]:
            for what in ('set', 'del'):
                try:
                    if what == 'set':
                        setattr(t.obj, f, getattr(t.obj, f))
                    else:
                        delattr(t.obj, f)
                except (AttributeError, TypeError):
                    continue
                sim.fail('mutable', 'attribute %s of a %s can be %s', f, t.cls(), what)
        for f in {'tx': ('vin', 'vout'), 'block': ('vtx', 'vMerkleTree')}.get(t.kind, ()):
            c = getattr(t.obj, f)
            for what in ('append', 'assignment', 'deletion', 'extension'):
                try:
                    if what == 'append':
                        c.append(None)
                    elif what == 'extension':
                        c.extend((None,))
                    elif not len(c):
                        continue
                    elif what == 'assignment':
                        c[0] = c[-1]
                    else:
                        del c[0]
                except (AttributeError, TypeError):
                    continue
                sim.fail('mutable', '%s of a %s: %s', f, t.cls(), what)

    def malformed(self):
        """Nothing is made of impossible values, and no bytes of a mutable thing that has one"""
        sim = self.sim
        what = sim.choice(('short hash', 'long hash', 'n', 'sequence', 'lock time', 'value', 'header'))
        bad_n = sim.choice((-1, 2 ** 32, 2 ** 32 + 1, 2 ** 64))
        bad_hash = sim.bytes(sim.choice((0, 20, 31)) if what == 'short hash' else sim.choice((33, 64)))
        bad_value = sim.choice((2 ** 63, -2 ** 63 - 1, 2 ** 64))
        mut = sim.chance(50)
        sim.fault('impossible value')
        if what == 'header':
            c = sim.choice((self.core('CBlock'), self.core('CBlockHeader')))
            try:
                c(**{sim.choice(('hashPrevBlock', 'hashMerkleRoot')): bad_hash})
            except (AssertionError, ValueError):
                return
            sim.fail('malformed accepted', 'a %s with a hash of %d bytes', c.__name__, len(bad_hash))
        if sim.chance(50) and what != 'value':
            t = MUTABLE if mut else IMMUTABLE
            try:
                if what == 'sequence':
                    p = self.pick('op')
                    o = self.core(t['in'])(p.obj, self.S(b''), bad_n) if p else self.core(t['in'])(nSequence=bad_n)
                elif what == 'lock time':
                    o = self.core(t['tx'])([], [], bad_n)
                elif what == 'n':
                    o = self.core(t['op'])(sim.bytes(32), bad_n)
                else:
                    o = self.core(t['op'])(bad_hash, 0)
            except (ValueError, TypeError):
                return
            sim.fail('malformed accepted', 'a %s with an impossible %s was made', type(o).__name__, what)
        kind, field, bad = {'n': ('op', 'n', bad_n), 'sequence': ('in', 'nSequence', bad_n), 'lock time': ('tx', 'nLockTime', bad_n), 'value': ('out', 'nValue', bad_value)}.get(what, ('op', 'hash', bad_hash))
        t = self.pick(kind, True)
        if t is None:
            return
        good = getattr(t.obj, field)
        whole = [x for x in self.things if x.kind == 'tx' and x.mutable and any(y is t.obj for y in list(x.obj.vin) + list(x.obj.vout))]
        setattr(t.obj, field, bad)
        try:
            for x in [t] + whole[:1]:
                try:
                    x.obj.serialize()
                except (AssertionError, ValueError, OverflowError, struct.error):
                    continue
                sim.fail('malformed accepted', 'bytes of a %s with an impossible %s', x.cls(), what)
        finally:
            setattr(t.obj, field, good)

    def sign(self):
        """Computing signature hashes changes nothing"""
        t = self.pick('tx')
        if t is None or not t.value()[1]:
            return
        v = t.value()
        i = self.sim.below(len(v[1]))
        S = self.u('bitcoin.core.script')
        ht = self.sim.choice((1, 2, 3, 0x81, 0x82, 0x83))
        a = S.RawSignatureHash(self.S(b'\x76\xa9\xac'), t.obj, i, ht)
        b = S.RawSignatureHash(self.S(b'\x76\xa9\xac'), make_tx(self.u, v), i, ht)
        self.sim.check(a == b, 'wrong hash', 'the signature hash of a %s is not that of an equal transaction', t.cls())

    # -- oracles ---------------------------------------------------------

    def id(self, t):
        v = t.value()
        return refs.dsha(refs.header_ser(v[0]) if t.kind == 'block' else SER[t.kind](v))

    def look(self, t):
        """All about one thing"""
        sim = self.sim
        v = t.value()
        raw = SER[t.kind](v)
        h = self.id(t)
        sim.check(t.obj.serialize() == raw, 'changed', 'a %s does not have the bytes it should have', t.cls())
        sim.check(t.obj.GetHash() == h, 'wrong id', 'GetHash() of a %s', t.cls())
        if t.kind == 'block':
            sim.check(wire.plain_block(t.obj) == v, 'changed', 'a block')
            sim.check(not v[1] or t.obj.calc_merkle_root() == refs.merkle_root([refs.txid(x) for x in v[1]]) == t.obj.vMerkleTree[-1], 'changed', 'merkle root of a block')
            sim.check(v[1] or t.obj.vMerkleTree == (), 'changed', 'merkle tree of an empty block')
        if t.kind in ('block', 'header'):
            bits = (v[0] if t.kind == 'block' else v)[4]
            want = Fraction(0xffff * 256 ** 26, (bits & 0xffffff)) / Fraction(256) ** ((bits >> 24) - 3)
            sim.check(abs(Fraction(t.obj.difficulty) - want) <= want / 10 ** 12, 'wrong answer', 'difficulty for %08x', bits)
        if t.kind == 'tx':
            sim.check(plain_tx(t.obj) == v, 'changed', 'contents of a %s', t.cls())
            coin = len(v[1]) == 1 and v[1][0][0] == (b'\x00' * 32, 0xffffffff)
            sim.check(t.obj.is_coinbase() == coin, 'wrong answer', 'is_coinbase')
        if t.kind == 'in':
            sim.check(t.obj.is_final() == (v[2] == 0xffffffff), 'wrong answer', 'is_final')
        if t.kind == 'out':
            sim.check(t.obj.is_valid() is (0 <= v[0] <= 21 * 10 ** 14 and parses(v[1])), 'wrong answer', 'is_valid of an output of %d', v[0])
        if t.kind == 'op':
            sim.check(t.obj.is_null() == (v == (b'\x00' * 32, 0xffffffff)), 'wrong answer', 'is_null')
        return raw

    def pair(self, a, b):
        sim = self.sim
        if a.kind != b.kind:
            sim.check(a.obj != b.obj, 'wrong equality', 'a %s equals a %s', a.cls(), b.cls())
            return
        eq = SER[a.kind](a.value()) == SER[b.kind](b.value())
        sim.check((a.obj == b.obj) is eq and (a.obj != b.obj) is (not eq), 'wrong equality', '%s and %s of %s bytes', a.cls(), b.cls(), 'equal' if eq else 'other')
        if eq:
            sim.check(hash(a.obj) == hash(b.obj), 'wrong equality', 'hashes of equal %s and %s differ', a.cls(), b.cls())

    def threads(self):
        """Several threads use the same things at once, each changes only a copy of its own"""
        sim = self.sim
        u = self.u
        if not self.things:
            return
        mode = sim.choice(('line', 'opcode'))
        sched = Scheduler(sim, mode, sim.repo.rstrip('/') + '/')
        u.sched = sched
        shared = [sim.choice(self.things) for _ in range(2)]
        if sim.chance(50):
            # not asked for anything yet
            shared = [Thing(t.kind, t.mutable, t.obj if t.mutable else self.core(IMMUTABLE[t.kind]).deserialize(t.obj.serialize()), t.model) for t in shared]
        got = []

        def body(k, work):
            def go():
                for t, op in work:
                    if op == 'hash':
                        got.append((t, op, t.obj.GetHash()))
                    elif op == 'bytes':
                        got.append((t, op, t.obj.serialize()))
                    elif op == 'eq':
                        got.append((t, op, t.obj == t.obj and hash(t.obj) == hash(t.obj)))
                    elif t.kind not in ('block', 'header'):
                        c = getattr(self.core(MUTABLE[t.kind]), FROM[t.kind])(t.obj)
                        if t.kind == 'tx':
                            c.nLockTime = 1000 + k
                            c.vin.append(self.core('CMutableTxIn')())
                            v = t.value()
                            want = (v[0], v[1] + (((b'\x00' * 32, 0xffffffff), b'', 0xffffffff),), v[2], 1000 + k)
                            got.append((t, 'copy', (c.GetHash(), refs.txid(want))))
            return go
        n = sim.choice((2, 3))
        for k in range(n):
            sched.spawn('t%d' % k, body(k, [(sim.choice(shared), sim.choice(('hash', 'bytes', 'eq', 'copy'))) for _ in range(sim.choice((1, 2, 3)))]))
        sched.run()
        u.sched = None
        sim.fault('preemption', max(0, sched.switches - n))
        for th in sched.threads:
            if th.exc is not None:
                if isinstance(th.exc, Violation):
                    raise th.exc
                sim.fail('exception', 'a thread ended with %s: %s', type(th.exc).__name__, th.exc)
        for t, op, r in got:
            v = t.value()
            if op == 'hash':
                sim.check(r == self.id(t), 'wrong id', 'in a thread')
            elif op == 'bytes':
                sim.check(r == SER[t.kind](v), 'wrong bytes', 'in a thread')
            elif op == 'eq':
                sim.check(r is True, 'wrong equality', 'in a thread')
            else:
                sim.check(r[0] == r[1], 'not independent', 'a copy made and changed in a thread is not what it should be')


def run(sim):
    h = History(sim)
    for _ in range(sim.choice((10, 20, 40, 60) if sim.tier == 'thorough' else (10, 20, 40))):
        op = sim.weighted((4, 'new'), (4, 'copy'), (6, 'change'), (2, 'part'), (1, 'attack'), (1, 'malformed'), (1, 'sign'), (1, 'reload'), (1, 'block'), (1, 'threads'), (2, 'ask'))
        if op == 'ask' and h.things:
            # ids may have been asked for before something changes
            t = sim.choice(h.things)
            t.obj.GetHash()
            hash(t.obj)
        elif op != 'ask':
            if not (op == 'threads' and not sim.chance(50)):
                getattr(h, op)()
        sim.state(op, sorted(set((t.kind, t.mutable) for t in h.things)))
        for t in h.things:
            raw = t.obj.serialize()
            sim.check(raw == SER[t.kind](t.value()), 'changed', 'after %s a %s does not have the bytes it should have', op, t.cls())
        if h.things:
            a, b = sim.choice(h.things), sim.choice(h.things)
            sim.log('%s: %d things, %s', op, len(h.things), refs.sha256(h.look(a)).hex()[:8])
            h.pair(a, b)
    for t in h.things:
        h.look(t)
