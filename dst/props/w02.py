"""W02: transactions, blocks and messages survive the wire"""

import struct

from .. import families, refs, wire
from ..simnet import Net, SimSocket
from ..universe import Clock
from .common import world, show, damage
from .wirenet import Peer, Counting, cut, stream_file, MAGIC, REAL, STUB

RUNS = {'quick': 4500, 'thorough': 120000}
RULE = ('One run: a process makes one to four values of wire types (transactions and their parts, headers, blocks, alerts, inventories, locators, '
        'addresses, messages) and writes them to a stream; another one reads them from the stream, which arrives in pieces, or from bytes '
        'that were damaged or made by an adversary (huge counts, cut, junk).  Non-trivial: several pieces, short reads, or damage.')
STATE = 'distinct (type, way of reading, damage, outcome, size class) tuples'
SEARCH = 'values, segmentations of streams, short reads, damage and hostile bytes'
ORACLE = 'independent encoder and decoder of the wire formats; amounts of data asked for'
ASSUMPTIONS = ['lengths that are not minimally encoded may be accepted', 'asserts are enabled (no python -O)']

PARAMS = {'mainnet': 'MainParams', 'testnet': 'TestNetParams', 'regtest': 'RegTestParams'}


class T:
    """A wire type: generator, independent encoder and decoder, and the class of the code"""

    def __init__(self, gen, ser, read, make, plain, cls, ident=None):
        self.gen, self.ser, self.read, self.make, self.plain, self.cls, self.ident = gen, ser, read, make, plain, cls, ident


def block_hash(b):
    return refs.dsha(refs.header_ser(b[0]))


def in_read(r):
    return ((r.read(32), r.u('I')), r.vb(), r.u('I'))


def _in(u, i):
    return u('bitcoin.core').CTxIn(families.make_outpoint(u, i[0]), u('bitcoin.core.script').CScript(i[1]), i[2])


def _header(u, h):
    return u('bitcoin.core').CBlockHeader(*h)


def gen_locator(sim):
    return wire.gen_fields(sim, 'getblocks')[:2]


def make_locator(u, f):
    c = u('bitcoin.net').CBlockLocator()
    wire.fill(c, nVersion=(f[0], wire.PROTO), vHave=(list(f[1]), None))
    return c


def make_inv(u, f):
    c = u('bitcoin.net').CInv()
    wire.fill(c, type=(f[0], 0), hash=(f[1], None))
    return c


def big_tx(sim):
    if sim.chance(5):
        # sizes that need a long length
        n = sim.choice((65535, 65536, 70000))
        t = families.gen_tx(sim, small=True)
        return (t[0], t[1], ((1, b'\x6a' * n),) + t[2], t[3])
    return families.gen_tx(sim, small=sim.chance(70))


TYPES = {
    'tx': T(big_tx, refs.tx_ser, refs.tx_read, families.make_tx, families.plain_tx, 'bitcoin.core.CTransaction', refs.txid),
    'mtx': T(big_tx, refs.tx_ser, refs.tx_read,
             lambda u, t: u('bitcoin.core').CMutableTransaction.from_tx(families.make_tx(u, t)), families.plain_tx,
             'bitcoin.core.CTransaction', refs.txid),
    'outpoint': T(families.gen_outpoint, refs.outpoint_ser, lambda r: (r.read(32), r.u('I')), families.make_outpoint,
                  lambda o: (o.hash, o.n), 'bitcoin.core.COutPoint'),
    'txin': T(lambda sim: families.gen_tx(sim, small=True)[1][0],
              lambda i: refs.outpoint_ser(i[0]) + refs.var_bytes(i[1]) + struct.pack('<I', i[2]), in_read, _in,
              lambda i: ((i.prevout.hash, i.prevout.n), bytes(i.scriptSig), i.nSequence), 'bitcoin.core.CTxIn'),
    'txout': T(lambda sim: (sim.choice(wire.I64), families.gen_script(sim)), lambda o: struct.pack('<q', o[0]) + refs.var_bytes(o[1]),
               lambda r: (r.u('q'), r.vb()), lambda u, o: u('bitcoin.core').CTxOut(o[0], u('bitcoin.core.script').CScript(o[1])),
               lambda o: (o.nValue, bytes(o.scriptPubKey)), 'bitcoin.core.CTxOut'),
    'header': T(wire.gen_header, refs.header_ser, wire.header_read, _header, wire.plain_header, 'bitcoin.core.CBlockHeader',
                lambda h: refs.dsha(refs.header_ser(h))),
    'block': T(lambda sim: wire.gen_block(sim, sim.choice((0, 1, 2, 5, 9))), lambda b: refs.block_ser(*b), wire.block_read, wire.make_block,
               wire.plain_block, 'bitcoin.core.CBlock', block_hash),
    'addr': T(wire.gen_addr, wire.addr_ser, wire.addr_read, wire.make_addr, wire.plain_addr, 'bitcoin.net.CAddress'),
    'inv': T(lambda sim: (sim.choice(wire.I32), sim.bytes(32)), lambda f: struct.pack('<i', f[0]) + f[1], lambda r: (r.u('i'), r.read(32)), make_inv,
             lambda o: (o.type, o.hash), 'bitcoin.net.CInv'),
    'locator': T(gen_locator, lambda f: wire.payload('getblocks', f + (b'',)),
                 lambda r: (r.u('i'), tuple(r.read(32) for _ in range(r.cs()))), make_locator,
                 lambda o: (o.nVersion, tuple(o.vHave)), 'bitcoin.net.CBlockLocator'),
    'alert': T(wire.gen_alert, wire.alert_ser, wire.alert_read, wire.make_alert, wire.plain_alert, 'bitcoin.net.CUnsignedAlert'),
    'signedalert': T(lambda sim: (wire.gen_str(sim), wire.gen_str(sim)), lambda f: refs.var_bytes(f[0]) + refs.var_bytes(f[1]),
                     lambda r: (r.vb(), r.vb()), lambda u, f: _signed(u, f), lambda o: (o.vchMsg, o.vchSig), 'bitcoin.net.CAlert'),
}
NAMES = sorted(TYPES)


def _signed(u, f):
    c = u('bitcoin.net').CAlert()
    c.vchMsg, c.vchSig = f
    return c


def cls_of(u, name):
    mod, _, c = name.rpartition('.')
    return getattr(u(mod), c)


def hostile(sim, b):
    """Bytes that an adversary made out of an encoding"""
    k = sim.choice(('damage', 'damage', 'count', 'cut', 'junk', 'noise', 'stretch'))
    if k == 'damage':
        return damage(sim, b)
    if k == 'count':
        # a huge count or length somewhere
        n = sim.choice((b'\xff' * 9, b'\xfe\x00\x00\x00\x02', b'\xfe\x01\x00\x00\x02', b'\xfe\xff\xff\xff\xff', b'\xff\x00\x00\x00\x00\x00\x00\x00\x80',
                        b'\xfd\xff\xff'))
        i = sim.choice((4, 0, 36, 80, 8)) if sim.chance(60) else sim.below(len(b) + 1)
        return k, b[:i] + n + b[i + 1:]
    if k == 'cut':
        return k, b[:sim.below(len(b) + 1)]
    if k == 'junk':
        return k, b + sim.bytes(5)
    if k == 'stretch':
        # a length that is not minimally encoded
        i = sim.choice((4, 0, 36, 80, 8, 41)) if sim.chance(60) else sim.below(len(b) + 1)
        c = b[i:i + 1] or b'\x00'
        return k, b[:i] + sim.choice((b'\xfd' + c + b'\x00', b'\xfe' + c + b'\x00\x00\x00', b'\xff' + c + b'\x00' * 7)) + b[i + 1:]
    return k, sim.bytes(sim.choice((1, 32, 33))) * sim.choice((1, 3, 9))


def same(sim, u, t, name, obj, want, what):
    sim.check(t.plain(obj) == want, 'wrong value', 'a %s is received with other contents (%s)', name, what)
    sim.check(obj.serialize() == t.ser(want), 'wrong value', 'a received %s is sent on changed (%s)', name, what)
    if t.ident:
        sim.check(obj.GetHash() == t.ident(want), 'wrong id', 'a received %s has another id (%s)', name, what)
    if name == 'block' and want[1]:
        root = refs.merkle_root([refs.txid(x) for x in want[1]])
        sim.check(obj.calc_merkle_root() == root and obj.vMerkleTree[-1] == root, 'wrong id', 'merkle root of a received block')
        sim.check([x.GetHash() for x in obj.vtx] == [refs.txid(x) for x in want[1]], 'wrong id', 'transactions of a received block')
        sim.check(obj.get_header().serialize() == refs.header_ser(want[0]), 'wrong value', 'header of a received block')


def messages(sim, clock):
    """Whole messages, end to end"""
    net = Net(sim, clock)
    a, b = world(sim, 'a', clock=clock, net=net), world(sim, 'b', clock=clock, net=net)
    network = sim.choice(sorted(PARAMS))
    out, back = Peer(), Peer()
    net.listen('out', 1, out)
    sent = []
    f = SimSocket(net, net.connect('out', 1, 30.0), 30.0).makefile('wb')
    for _ in range(sim.choice((1, 2, 4))):
        kind = sim.choice(wire.KINDS)
        fields = wire.gen_fields(sim, kind)
        if kind == 'version' and sim.chance(30):
            v1, v2 = a('bitcoin.messages').msg_version(), a('bitcoin.messages').msg_version()
            sim.check(v1.nTime == int(clock.time()), 'wrong value', 'a version message of another time: %s', v1.nTime)
            sim.check(v1.nNonce != v2.nNonce, 'wrong value', 'version messages with the same nonce')
            sim.check(v1.serialize() != b'' and type(v1.serialize()) is bytes, 'wrong value', 'version message')
        m = wire.make(a, kind, fields)
        f.write(m.to_bytes(params=getattr(a('bitcoin'), PARAMS[network])())) if network != 'mainnet' else m.stream_serialize(f)
        sim.log('send %s %s', kind, show(fields))
        sent.append((kind, fields))
    f.flush()
    data = out.got
    sim.check(data == b''.join(wire.frame(MAGIC[network], k.encode(), wire.payload(k, x)) for k, x in sent), 'wrong bytes',
              '%s are sent wrong', [k for k, _ in sent])
    pieces = cut(sim, data)
    sim.nontrivial = len(pieces) > 1
    sim.log('deliver in %s', [len(x) for x in pieces[:20]])
    back.chunks = [(0.01, p) for p in pieces] + [(0.0, None)]
    net.listen('back', 1, back)
    g = stream_file(sim, SimSocket(net, net.connect('back', 1, 30.0), 30.0))
    M = b('bitcoin.messages')
    for kind, fields in sent:
        if network == 'mainnet' and sim.chance(30):
            raw = wire.frame(MAGIC[network], kind.encode(), wire.payload(kind, fields))
            o = M.MsgSerializable.from_bytes(raw)
            M.MsgSerializable.stream_deserialize(g)
        else:
            o = M.MsgSerializable.stream_deserialize(g, params=getattr(b('bitcoin'), PARAMS[network])())
        sim.state('message', kind, network, min(len(pieces), 4))
        sim.check(o is not None and o.command == kind.encode(), 'wrong kind', '%s is received as %s', kind, type(o).__name__)
        sim.check(wire.plain(kind, o) == fields, 'wrong value', '%s is received with other contents', kind)
        mine = wire.make(b, kind, fields)
        sim.check(mine == o and not mine != o, 'not equal', 'a received %s does not equal the one that was sent', kind)
        sim.check(o.to_bytes() == wire.frame(MAGIC['mainnet'], kind.encode(), wire.payload(kind, fields)), 'wrong bytes', 'a received %s is sent on changed', kind)
        if kind in ('tx', 'block'):
            same(sim, b, TYPES[kind], kind, getattr(o, kind), fields, 'message')
        if kind == 'headers':
            for h, x in zip(o.headers, fields):
                sim.check(h.GetHash() == block_hash(x), 'wrong id', 'a received header has another id')


def impossible(sim, u, S):
    """Nothing is sent of a value that has no encoding"""
    S = u('bitcoin.core.serialize')
    k = sim.choice(('locator', 'locator', 'count', 'number'))
    if k == 'locator':
        o = make_locator(u, gen_locator(sim))
        o.vHave = list(o.vHave)
        h = sim.bytes(sim.choice((0, 1, 31, 33, 64, 20)))
        o.vHave.insert(sim.below(len(o.vHave) + 1), h)
        f, what = o.serialize, 'a locator with a hash of %d bytes' % len(h)
    elif k == 'count':
        n = sim.choice((-1, -2 ** 63, 2 ** 64, 2 ** 70, -252))
        f, what = lambda: S.VarIntSerializer.serialize(n), 'the count %d' % n
    else:
        n = sim.choice((2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 64))
        f, what = lambda: S.intVectorSerialzer.serialize([1, n, 2]), 'the number %d' % n
    sim.fault('impossible:' + k)
    try:
        r = f()
    except (AssertionError, ValueError, struct.error, OverflowError, S.SerializationError):
        return
    sim.fail('impossible value sent', '%s is sent as %s', what, r.hex()[:60])


class Zeros(Counting):
    """A stream of some bytes and very many zeros"""

    def __init__(self, sim, head, n, tail=b''):
        super().__init__(sim, b'')
        self.head, self.n, self.tail = head, n, tail
        self.size = len(head) + n + len(tail)

    def read(self, n=-1):
        n = self.size - self.p if n is None or n < 0 else n
        self.largest = max(self.largest, n)
        self.calls += 1
        h = self.head[self.p:self.p + n]
        self.p += len(h)
        n -= len(h)
        z = min(n, max(0, len(self.head) + self.n - self.p))
        self.p += z
        n -= z
        i = self.p - len(self.head) - self.n
        t = self.tail[i:i + n] if i >= 0 else b''
        self.p += len(t)
        return h + b'\x00' * z + t


_SUMS = {}


def limits(sim, clock, kinds=('list', 'list', 'list', 'bytes', 'message')):
    """Sizes at the limit, and long lists"""
    u = world(sim, 'a', clock=clock)
    S = u('bitcoin.core.serialize')
    sim.nontrivial = True
    k = sim.choice(kinds)
    if k == 'list':
        n = sim.choice((50001, 65534, 65535, 65536, 66000))
        name = sim.choice(('locator', 'alert', 'inv', 'tx'))
        sim.log('list of %d in %s', n, name)
        sim.state('limit', name, n)
        if name == 'tx':
            n = min(n, 60000) if sim.chance(50) else n
            t = TYPES['tx']
            v = (1, (((b'\x01' * 32, 0), b'', 0),), ((sim.below(9), b''), (1, b'\x51')) * (n // 2) + ((3, b''),) * (n % 2), 0)
        elif name == 'locator':
            t, v = TYPES['locator'], (1, tuple(refs.sha256(b'%d' % (i % 7)) for i in range(n)))
        elif name == 'alert':
            t = TYPES['alert']
            v = list(t.gen(sim))
            v[5] = tuple(range(n))
            v = tuple(v)
        else:
            raw = wire.frame(MAGIC['mainnet'], b'inv', wire.payload('inv', ((1, b'\x07' * 32),) * n))
            o = u('bitcoin.messages').MsgSerializable.stream_deserialize(Counting(sim, raw, short=False))
            sim.check(len(o.inv) == n and all(i.type == 1 and i.hash == b'\x07' * 32 for i in o.inv) and o.to_bytes() == raw,
                      'wrong value', 'a list of %d is received wrong', n)
            return
        raw = t.ser(v)
        try:
            obj = cls_of(u, t.cls).stream_deserialize(Counting(sim, raw, short=False))
        except (S.SerializationError, ValueError) as exc:
            sim.fail('refused', '%s of %d items is refused: %s', name, n, exc)
        sim.check(t.plain(obj) == v and obj.serialize() == raw, 'wrong value', '%s of %d items is received wrong', name, n)
        return
    n = wire.MAX_SIZE + sim.choice((0, 0, 1, -1, 2))
    sim.log('%s of %d bytes', k, n)
    sim.state('limit', k, n)
    tail = b'next'
    if k == 'bytes':
        f = Zeros(sim, refs.compact_size(n), n, tail)
        what = lambda: S.BytesSerializer.stream_deserialize(f)
        ok = lambda r: len(r) == n and r.count(b'\x00') == n
    else:
        if n not in _SUMS:
            _SUMS[n] = refs.dsha(b'\x00' * n)[:4]
        f = Zeros(sim, MAGIC['mainnet'] + b'tx2' + b'\x00' * 9 + struct.pack('<I', n) + _SUMS[n], n, tail)
        what = lambda: u('bitcoin.messages').MsgSerializable.stream_deserialize(f)
        ok = lambda r: r is None
    try:
        r = what()
    except (S.SerializationError, ValueError) as exc:
        sim.check(n > wire.MAX_SIZE, 'refused', '%d bytes are refused: %s', n, exc)
    else:
        sim.check(n <= wire.MAX_SIZE, 'accepted', '%d bytes are accepted', n)
        sim.check(ok(r), 'wrong value', '%d bytes are received wrong', n)
        sim.check(f.read(9) == tail, 'wrong position', 'after %d bytes the stream is elsewhere', n)
    sim.check(f.largest <= wire.MAX_SIZE, 'read too much', 'asks for %d bytes at once', f.largest)


def run(sim):
    clock = Clock(sim)
    if sim.below(150) == 149:
        return limits(sim, clock)
    if sim.chance(30):
        return messages(sim, clock)
    net = Net(sim, clock)
    a, b = world(sim, 'a', clock=clock, net=net), world(sim, 'b', clock=clock, net=net)
    S = b('bitcoin.core.serialize')
    vals = []
    for _ in range(sim.choice((1, 2, 4))):
        name = sim.choice(NAMES)
        t = TYPES[name]
        v = t.gen(sim)
        obj = t.make(a, v)
        raw = obj.serialize()
        sim.check(raw == t.ser(v), 'wrong bytes', 'a %s is sent wrong', name)
        sim.check(t.plain(obj) == v, 'wrong value', 'sending changes a %s', name)
        if t.ident:
            sim.check(obj.GetHash() == t.ident(v), 'wrong id', 'a %s has another id', name)
        sim.log('value %s of %d bytes %s', name, len(raw), refs.dsha(raw).hex()[:8])
        vals.append((name, t, v, raw))
    if sim.chance(10):
        impossible(sim, a, S)
    way = sim.choice(('stream', 'hostile', 'hostile', 'messages'))
    if way == 'stream':
        data = b''.join(x[3] for x in vals)
        tail = sim.choice((b'', b'\x00', b'tail'))
        if sim.chance(50):
            p = Peer()
            pieces = cut(sim, data + tail)
            sim.nontrivial = len(pieces) > 1
            sim.log('deliver in %s', [len(x) for x in pieces[:20]])
            p.chunks = [(0.01, x) for x in pieces] + [(0.0, None)]
            net.listen('p', 1, p)
            f = stream_file(sim, SimSocket(net, net.connect('p', 1, 30.0), 30.0))
        else:
            f = Counting(sim, data + tail)
            sim.nontrivial = True
        for name, t, v, raw in vals:
            obj = cls_of(b, t.cls).stream_deserialize(f)
            sim.state(name, way, len(raw).bit_length())
            same(sim, b, t, name, obj, v, 'stream')
            mine = t.make(b, v)
            sim.check(obj == mine and not obj != mine, 'not equal', 'a received %s does not equal the one that was sent', name)
            sim.check(hash(obj) == hash(obj.__class__.deserialize(raw)), 'not equal', 'hashes of equal %s', name)
        rest = b''
        while len(rest) < len(tail):
            x = f.read(len(tail) - len(rest))
            if not x:
                break
            rest += x
        sim.check(rest == tail, 'wrong position', 'after reading %s the stream is not where the last one ends', [x[0] for x in vals])
        return
    for name, t, v, raw in vals:
        kind, bad = hostile(sim, raw)
        sim.fault('hostile:' + kind)
        sim.nontrivial = True
        if way == 'messages':
            hostile_message(sim, b, S)
            continue
        r = refs.Reader(bad)
        try:
            want = t.read(r)
        except refs.Short:
            want = None
        cls = cls_of(b, t.cls)
        f = Counting(sim, bad)
        try:
            obj = cls.stream_deserialize(f)
        except (S.SerializationError, ValueError) as exc:
            sim.check(want is None, 'refused', 'a %s that is well formed is refused (%s): %s', name, kind, exc)
            obj = None
        else:
            sim.check(want is not None, 'accepted', 'a %s that ends too early is accepted (%s)', name, kind)
            sim.check(f.p == r.p, 'wrong position', 'a %s of %d bytes is read as %d bytes', name, r.p, f.p)
            same(sim, b, t, name, obj, want, 'hostile ' + kind)
        sim.state(name, way, kind, want is None, len(bad).bit_length())
        sim.check(f.largest <= wire.MAX_SIZE, 'read too much', 'reading a %s asks for %d bytes', name, f.largest)
        sim.check(f.calls <= 3 * len(bad) + 50, 'read too much', 'reading a %s of %d bytes takes %d reads', name, len(bad), f.calls)
        # the same bytes at once
        try:
            whole = ('ok', cls.deserialize(bad))
        except S.DeserializationExtraDataError as exc:
            whole = ('extra', exc.padding)
            sim.check(t.plain(exc.obj) == want, 'wrong value', 'the value before extra data')
        except (S.SerializationError, ValueError):
            whole = ('refused',)
        sim.log('%s of %s bytes: %s after %d', name, kind, whole[0], f.p)
        expect = 'refused' if want is None else 'ok' if r.end() else 'extra'
        sim.check(whole[0] == expect, 'accepted', '%s.deserialize() of %s bytes: %s, expected %s', name, kind, whole[0], expect)
        if expect == 'extra':
            sim.check(whole[1] == bad[r.p:], 'wrong value', 'the extra data reported')
            sim.check(t.plain(cls.deserialize(bad, allow_padding=True)) == want, 'wrong value', 'a value with padding')


def hostile_message(sim, u, S):
    """A well framed message with a hostile payload"""
    M = u('bitcoin.messages')
    kind = sim.choice(wire.KINDS + ('version',) * 3)
    body = wire.payload(kind, wire.gen_fields(sim, kind))
    how, bad = hostile(sim, body)
    if kind == 'version' and sim.chance(60):
        if sim.chance(50):
            # nothing else is wrong with it
            bad = body
        bad = struct.pack('<i', sim.choice((10300, 105, 105, 106, 208, 208, 209, -1, 300))) + bad[4:]
    raw = wire.frame(MAGIC['mainnet'], kind.encode(), bad)
    f = Counting(sim, raw + b'next')
    try:
        want = wire.fields_read(kind, refs.Reader(bad))
    except refs.Short:
        want = None
    try:
        o = M.MsgSerializable.stream_deserialize(f)
    except (S.SerializationError, ValueError):
        sim.check(want is None, 'refused', 'a well formed %s is refused (%s)', kind, how)
    else:
        sim.check(want is not None, 'accepted', 'a %s that ends too early is accepted (%s)', kind, how)
        sim.check(wire.plain(kind, o) == want, 'wrong value', 'a %s is received with other contents (%s)', kind, how)
    sim.check(f.data[f.p:] == b'next' and f.largest <= wire.MAX_SIZE, 'read too much', 'reading a %s leaves the stream at %d of %d', kind, f.p, len(raw))
    sim.log('message %s %s: %s', kind, how, want is None)
    sim.state('message', kind, how, want is None)
