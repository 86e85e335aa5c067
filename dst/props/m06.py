"""M06: stored proofs and values come back exactly, damage is noticed"""

import errno

from .. import families, refs, simfs
from .common import world, show, damage, MARSHAL_REAL, STUBS

RUNS = {'quick': 10000, 'thorough': 200000}
RULE = ('One run: a process encodes a sequence of values and (pruned) proofs into a file or into bytes; the disk runs full, '
        'fails, the process is killed while writing, reads are short, or the stored bytes are damaged; another process '
        'reads them back.  Non-trivial: at least one fault or damage was injected.')
STATE = 'distinct (kind of value, kind of fault or damage, outcome) triples'
SEARCH = 'values, I/O faults, crash points and damage'
ORACLE = 'independent encoder and canonical decoder of every type'
REAL = MARSHAL_REAL + ['proofmarshal.merbinnertree', 'proofmarshal.mmr', 'proofchains.core.bitcoin',
                       'proofchains.core.uniquebits.singleuseseal', 'proofchains.core.uniquebits.gumap', 'bitcoin.core']
STUB = STUBS
ASSUMPTIONS = ['damage that produces the exact encoding of another value can only be noticed by hashes (see M02)']


class Value:
    """A plain value under its serializer"""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v
        self.name = kind.name

    def write(self, u, ctx):
        cls = self.kind.ser_cls(u)
        obj = self.kind.make(u, self.v)
        if len(repr(self.v)) % 3 == 0:
            ctx.write_obj(obj, cls)
        elif self.kind.hashing:
            obj.ctx_serialize(ctx)
        else:
            cls.ctx_serialize(obj, ctx)

    def encode(self, u):
        cls = self.kind.ser_cls(u)
        obj = self.kind.make(u, self.v)
        return obj.serialize() if self.kind.hashing else cls.serialize(obj)

    def decode(self, u, b):
        return self.kind.ser_cls(u).deserialize(b)

    def read(self, u, ctx):
        if len(repr(self.v)) % 2:
            return ctx.read_obj(self.kind.ser_cls(u))
        return self.kind.ser_cls(u).ctx_deserialize(ctx)

    def again(self, u, obj):
        return obj.serialize() if self.kind.hashing else self.kind.ser_cls(u).serialize(obj)

    def same(self, u, obj):
        return self.kind.plain(u, obj) == self.v

    def reference(self):
        return self.kind.ser(self.v)

    def beyond(self, sim):
        """What looks like the encoding of a value that the type doesn't have"""
        k = self.kind
        if isinstance(k, families.UIntKind):
            return refs.varuint((1 << k.bits) + sim.choice((0, 1, (1 << k.bits) - 1, 1 << k.bits, 1 << 16, 1 << 63, 1 << 70)))
        if isinstance(k, families.VarKind):
            n = sim.choice((k.hi + 1, k.hi + 2, k.hi + 128, 2 * k.hi) + ((k.lo - 1, 0) if k.lo else ()))
            return refs.varuint(n) + sim.bytes(n)
        if isinstance(k, families.BoolKind):
            return bytes([sim.between(1, 254)])
        return None


def long_size(n, ln):
    return {3: b'\xfd', 5: b'\xfe', 9: b'\xff'}[ln] + n.to_bytes(ln - 1, 'little')


def other_tx_ser(sim, tx):
    """Bytes that peers of the Bitcoin network read as that transaction as well"""
    sizes = [len(tx[1]), len(tx[2])] + [len(x[1]) for x in tx[1]] + [len(x[1]) for x in tx[2]]
    w = sim.below(len(sizes))
    out = []

    def size(k):
        n = sizes[k]
        b = refs.compact_size(n)
        if k != w:
            return b
        return long_size(n, sim.choice([x for x in (3, 5, 9) if x > len(b)] or (9,)))
    out.append((tx[0] & 0xffffffff).to_bytes(4, 'little') + size(0))
    for k, (o, s, q) in enumerate(tx[1]):
        out.append(refs.outpoint_ser(o) + size(2 + k) + s + q.to_bytes(4, 'little'))
    out.append(size(1))
    for k, (v, s) in enumerate(tx[2]):
        out.append((v & (1 << 64) - 1).to_bytes(8, 'little') + size(2 + len(tx[1]) + k) + s)
    out.append(tx[3].to_bytes(4, 'little'))
    return b''.join(out)


class TxValue(Value):
    name = 'transaction'

    def beyond(self, sim):
        b = refs.tx_ser(self.v)
        k = sim.choice(('size', 'size', 'long', 'short'))
        c = other_tx_ser(sim, self.v) if k == 'size' else b + b'\x00' if k == 'long' else b[:-1]
        if k == 'short':
            return refs.varuint(len(c)) + b
        return refs.varuint(len(c)) + c

    def __init__(self, tx):
        self.v = tx

    def cls(self, u):
        return u('proofchains.core.bitcoin').CTransactionSerializer

    def write(self, u, ctx):
        self.cls(u).ctx_serialize(families.make_tx(u, self.v), ctx)

    def encode(self, u):
        return self.cls(u).serialize(families.make_tx(u, self.v))

    def decode(self, u, b):
        return self.cls(u).deserialize(b)

    def read(self, u, ctx):
        return self.cls(u).ctx_deserialize(ctx)

    def again(self, u, obj):
        return self.cls(u).serialize(obj)

    def same(self, u, obj):
        return families.plain_tx(obj) == self.v

    def reference(self):
        b = refs.tx_ser(self.v)
        return refs.varuint(len(b)) + b


class OutpointValue(TxValue):
    name = 'outpoint'

    def cls(self, u):
        return u('proofchains.core.bitcoin').COutPointSerializer

    def beyond(self, sim):
        b = refs.outpoint_ser(self.v)
        c = sim.choice((b + b'\x00', b[:-1], b'', b + b))
        return refs.varuint(len(c)) + c

    def write(self, u, ctx):
        self.cls(u).ctx_serialize(families.make_outpoint(u, self.v), ctx)

    def encode(self, u):
        return self.cls(u).serialize(families.make_outpoint(u, self.v))

    def same(self, u, obj):
        return (obj.hash, obj.n) == self.v

    def reference(self):
        return refs.outpoint_field(self.v)


class ProofValue:
    """A proof of a family, after some questions"""

    def beyond(self, sim):
        b = self.reference()
        if b is None:
            return None
        c = refs.tx_ser(self.model[2])
        d = other_tx_ser(sim, self.model[2])
        return b.replace(refs.varuint(len(c)) + c, refs.varuint(len(d)) + d, sim.choice((1, 2)))

    def __init__(self, fam, model, ops):
        self.fam, self.model, self.ops = fam, model, ops
        self.name = fam.name + ('-pruned' if ops is not None else '')

    def obj(self, u):
        o = self.fam.build(u, self.model)
        if self.ops is not None:
            o = o.prune()
            for op in self.ops:
                self.fam.do(u, o, op)
        return o

    def write(self, u, ctx):
        o = self.obj(u)
        k = len(repr(self.model)) % 3
        if k == 0:
            o.ctx_serialize(ctx)
        elif k == 1:
            ctx.write_obj(o)
        else:
            ctx.write_obj(o, self._cls(u))

    def encode(self, u):
        return self.obj(u).serialize()

    def _cls(self, u):
        f = self.fam
        if f.name == 'witness':
            return u('proofchains.core.uniquebits.singleuseseal').BitcoinSealWitness
        if f.name == 'struct':
            return f.classes(u)['Top']
        return f.cls(u)

    def decode(self, u, b):
        return self._cls(u).deserialize(b)

    def read(self, u, ctx):
        if len(repr(self.model)) % 2:
            return ctx.read_obj(self._cls(u))
        return self._cls(u).ctx_deserialize(ctx)

    def again(self, u, obj):
        return obj.serialize()

    def same(self, u, obj):
        return obj.hash == self.fam.root(self.model)

    def reference(self):
        if self.fam.name == 'witness' and self.ops is None:
            seal, i, tx, _, _ = self.model
            return refs.witness_ser(seal, i, tx)
        if self.fam.name == 'txpart' and self.ops is None:
            return refs.txpart_ser(*self.model)
        return None


def gen_item(sim):
    w = sim.weighted((6, 'value'), (2, 'tx'), (1, 'outpoint'), (6, 'proof'))
    if w == 'value':
        k = sim.choice(families.KINDS)
        return Value(k, k.gen(sim))
    if w == 'tx':
        tx = families.gen_tx(sim, small=sim.chance(85))
        if sim.chance(3):                               # as large as what fits a block
            n = sim.choice((0x3ff0, 0x4000, 0xfff0, 0x10000, 0x10001, 70000, 140000))
            k = sim.below(len(tx[2]))
            s = b'\x6a' + sim.bytes(16) * (n // 16) + sim.bytes(n % 16)
            tx = (tx[0], tx[1], tx[2][:k] + ((tx[2][k][0], s),) + tx[2][k + 1:], tx[3])
        return TxValue(tx)
    if w == 'outpoint':
        return OutpointValue(families.gen_outpoint(sim))
    fam = families.pick(sim)
    model = fam.gen(sim)
    ops = [fam.op(sim, model) for _ in range(sim.choice((0, 1, 2, 4)))] if sim.chance(60) else None
    return ProofValue(fam, model, ops)


def refusals(u):
    """How decoders say no"""
    S = u('proofmarshal.serialize')
    C = u('bitcoin.core.serialize')
    return (S.DeserializationError, C.SerializationError, S.SerializerTypeError, S.SerializerValueError)


def run(sim):
    how = sim.weighted((10, 'damage'), (8, 'stream'), (4, 'clean'), (3, 'refuse'))
    if how == 'stream':
        return stream(sim)
    if how == 'refuse':
        return refuse(sim)
    u = world(sim, 'writer')
    item = gen_item(sim)
    b = item.encode(u)
    sim.log('%s: %d bytes %s', item.name, len(b), refs.sha256(b).hex()[:8])
    ref = item.reference()
    if ref is not None:
        sim.check(b == ref, 'encoding', '%s: encoding differs from the format', item.name)
    v = world(sim, 'reader')
    obj = item.decode(v, b)
    sim.check(item.same(v, obj), 'roundtrip', '%s comes back different', item.name)
    sim.check(item.again(v, obj) == b, 'roundtrip', '%s is encoded differently after a round trip', item.name)
    if how == 'clean':
        return
    no = refusals(v)
    for _ in range(sim.choice((2, 4, 8))):
        bad = item.beyond(sim) if sim.chance(25) else None
        if bad is not None:
            kind = 'out-of-range'
        else:
            kind, bad = damage(sim, b)
        if kind != 'out-of-range' and sim.chance(10):
            kind2, bad = damage(sim, bad)
            kind += '+' + kind2
        if bad == b:
            continue
        sim.fault(kind.split('+')[0])
        sim.nontrivial = True
        try:
            obj = item.decode(v, bad)
            again = item.again(v, obj)
        except no:
            sim.log('%s: refused', kind)
            sim.state(item.name, kind, 'refused')
            continue
        except (ValueError, AssertionError, OverflowError) as exc:
            sim.log('%s: refused (%s)', kind, type(exc).__name__)
            sim.state(item.name, kind, 'refused')
            continue
        sim.log('%s: read', kind)
        sim.state(item.name, kind, 'read')
        sim.check(kind != 'out-of-range', 'range', '%s: %s is loaded', item.name, show(bad))
        sim.check(again == bad, 'not-canonical', '%s: two encodings (%s) decode to the same value', item.name, kind)
        sim.check(not bad.startswith(b) and not b.startswith(bad), 'truncation', '%s: a prefix or extension (%s) is accepted',
                  item.name, kind)


class _Direct:
    def __init__(self, ser, v):
        self.ser, self.v = ser, v

    def serialize(self):
        return self.ser.serialize(self.v)


def refuse(sim):
    """Values outside of their range are not stored in the first place"""
    u = world(sim, 'writer')
    S, P = u('proofmarshal.serialize'), u('proofmarshal.proof')
    what = sim.choice(('kind', 'kind', 'kind', 'part', 'bitcoin'))
    if what == 'kind':
        k = sim.choice([x for x in families.KINDS if not x.hashing])
        name = k.name
        ser = k.ser_cls(u)

        class Holder(P.Proof):
            HASHTAG = S.HashTag('00000000-2f83-44b0-8a1a-54bbd2a1f3de')
            __slots__ = ['x']
            SERIALIZED_ATTRS = [('x', ser)]
        if isinstance(k, families.UIntKind):
            bad = sim.choice((-1, 1 << k.bits, (1 << k.bits) + 1, '1', None, 1.0, b'\x01', -(1 << k.bits), True, False))
        elif isinstance(k, families.BoolKind):
            bad = sim.choice((0, 1, None, b'\xff', 'True'))
        elif isinstance(k, families.BitsKind):
            bad = sim.choice((None, '0101', (0, 1), [], b'\x01', 1, True))
        elif isinstance(k, families.VarKind):
            bad = sim.choice((b'\x00' * (k.hi + 1), bytearray(k.lo), 'x' * k.lo, None) + ((b'\x00' * (k.lo - 1),) if k.lo else ()))
        else:
            bad = sim.choice((b'\x00' * (k.n + 1), '0' * k.n, None, bytearray(k.n)) + ((b'\x00' * (k.n - 1),) if k.n else ()))
        label = show(bad)
        direct = isinstance(k, families.BoolKind) and sim.chance(50)
        raw = None
        if isinstance(k, families.BitsKind) and sim.chance(50):
            # bits of bytes
            buf = sim.bytes(sim.choice((0, 1, 2, 33)))
            raw = sim.choice(((buf, 8 * len(buf) + sim.choice((1, 2, 8))), (buf, -1), (buf, -8 * len(buf) - 1), (bytearray(buf), None), ('0' * len(buf), None), (None, 0),
                              (buf, float(8 * len(buf))), (buf, '0')))
            label = show(raw)

        def make():
            if raw is not None:
                return Holder(x=u('proofmarshal.bits').Bits.from_bytes(*raw))
            if direct:
                return _Direct(ser, bad)
            return Holder(x=bad)
    elif what == 'part':
        # a part of the wrong class
        fam = families.StructFamily()
        t = sim.choice(('Top', 'Bar', 'Box', 'Nest'))
        model = fam.gen(sim, t)
        parts = [(n, k) for n, k in fam.SCHEMA[t] if not isinstance(k, families.Kind)]
        attr, k = sim.choice(parts)
        names = {'Shape': set(fam.VARIANTS)}.get(k, set(k) if isinstance(k, tuple) else {k})
        other = sim.choice([n for n in ('Foo', 'Bar', 'Circle', 'Nil', 'Top') if n not in names] + ['hash', 'none', 'class', 'bytes'])
        name = '%s.%s' % (t, attr)
        label = other

        def make():
            kw = {n: (x.make(u, model[1][n]) if isinstance(x, families.Kind) else fam.build(u, model[1][n])) for n, x in fam.SCHEMA[t]}
            good = kw[attr]
            kw[attr] = (good.hash if other == 'hash' else None if other == 'none' else type(good) if other == 'class' else good.serialize() if other == 'bytes'
                        else fam.build(u, bad))
            return fam.classes(u)[t](**kw)
        bad = fam.gen(sim, other) if other in fam.SCHEMA else None
    else:
        b, w = u('proofchains.core.bitcoin'), u('proofchains.core.uniquebits.singleuseseal')
        wf = families.WitnessFamily()
        model = wf.gen(sim)
        name = sim.choice(('tx', 'outpoint', 'seal', 'txinproof', 'txoutproof', 'txproof'))
        label = sim.choice(('none', 'bytes', 'other', 'hash'))

        def make():
            good = wf.build(u, model)
            tx, o = families.make_tx(u, model[2]), families.make_outpoint(u, model[0][0])
            bad = {'none': None, 'bytes': good.serialize(), 'hash': good.hash}
            if name == 'tx':
                return b.TxProof(tx=bad.get(label, tx.vin[0]))
            if name == 'outpoint':
                return w.BitcoinSingleUseSeal(outpoint=bad.get(label, model[0][0]), nonce=b'\x00' * 16)
            if name == 'txproof':
                return b.TxInProof(i=0, txproof=bad.get(label, tx))
            kw = dict(seal=good.seal, txinproof=good.txinproof, txoutproof=good.txoutproof)
            kw[name] = bad.get(label, {'seal': w.FakeSingleUseSeal(committed_hash=b'\x00' * 32), 'txinproof': good.txoutproof, 'txoutproof': good.txinproof}[name])
            return w.BitcoinSealWitness(**kw)
    sim.fault('bad-value')
    sim.nontrivial = True
    sim.state('refuse', name, label[:12])
    sim.log('refuse %s %s', name, label)
    try:
        b = make().serialize()
    except (TypeError, ValueError):
        return
    sim.fail('stored', '%s: %s is stored as %s', name, label, show(b))


def stream(sim):
    """A file of consecutive items, its writer may die or run out of space"""
    fs = simfs.FS(sim)
    fs.trace = False
    u = world(sim, 'writer', fs=fs)
    items = [gen_item(sim) for _ in range(sim.choice((2, 1, 3, 5)))]
    encoded = [it.encode(u) for it in items]
    total = sum(len(b) for b in encoded)
    sim.log('%s', [(it.name, len(b), refs.sha256(b).hex()[:8]) for it, b in zip(items, encoded)])
    fault = sim.weighted((3, None), (3, 'crash'), (2, 'enospc'), (1, 'eio'), (1, 'short'))
    buffering = sim.choice((-1, 16, 64, 0))
    nth = sim.below(8)
    limit = sim.between(0, total)
    seen = [0, 0]

    def inject(proc, op, path, n):
        if op == 'read':
            if sim.chance(30):
                sim.fault('short-read')
                return ('short', sim.choice((1, 2, 7)))
            return None
        if op != 'write' or fault is None:
            return None
        seen[0] += 1
        if fault == 'short':
            if n > 1 and sim.chance(50):
                sim.fault('short-write')
                return ('short', sim.between(1, n - 1))
            return None
        if fault == 'eio':
            if seen[0] - 1 == nth:
                sim.fault('eio')
                return ('errno', errno.EIO)
            return None
        # the disk is full, or the process dies, after so many bytes
        if seen[1] + n > limit:
            k = limit - seen[1]
            seen[1] += k
            sim.fault(fault)
            if fault == 'crash':
                return ('crash', k)
            return ('torn', k, errno.ENOSPC)
        seen[1] += n
        return None

    fs.inject = inject
    S = u('proofmarshal.serialize')
    done = False
    try:
        with u.open('/w/proofs', 'wb', buffering) as fd:
            ctx = S.StreamSerializationContext(fd)
            for it in items:
                it.write(u, ctx)
        done = True
    except simfs.SimCrash:
        sim.log('writer died')
    except OSError as exc:
        sim.log('writer noticed %s', exc.errno)
        sim.check(fault in ('enospc', 'eio'), 'stream', 'OSError without a fault')
    u.kill()
    if fault:
        sim.nontrivial = True
    data = fs.get('/w/proofs') or b''
    if fault == 'crash' and done:
        done = True
    want = b''.join(encoded)
    if done:
        sim.check(data == want, 'stream', 'writer of %d bytes was told nothing, but %d bytes are there', total, len(data))
    v = world(sim, 'reader', fs=fs)
    S = v('proofmarshal.serialize')
    fd = v.open('/w/proofs', 'rb', sim.choice((-1, 16, 0)))
    ctx = S.StreamDeserializationContext(fd)
    pos = 0
    for it, b in zip(items, encoded):
        intact = len(data) >= pos + len(b) and data[:pos + len(b)] == want[:pos + len(b)]
        try:
            obj = it.read(v, ctx)
        except refusals(v) as exc:
            sim.check(not intact, 'stream', '%s is not read back: %s', it.name, type(exc).__name__)
            sim.log('%s: refused', it.name)
            sim.state(it.name, fault, 'refused')
            break
        except (ValueError, AssertionError, OverflowError, MemoryError):
            sim.check(not intact, 'stream', '%s is not read back', it.name)
            break
        if fault == 'eio' and not intact:
            # what follows a hole may look like anything
            break
        sim.check(intact, 'stream', '%s is read from %d of %d bytes', it.name, max(0, len(data) - pos), len(b))
        sim.check(it.again(v, obj) == b, 'stream', '%s comes back different', it.name)
        sim.check(it.same(v, obj), 'stream', '%s comes back different', it.name)
        pos += len(b)
        sim.state(it.name, fault, 'read')
    else:
        sim.check(fd.read(1) == b'', 'stream', 'more bytes than written')
