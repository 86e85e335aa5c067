"""V02: a block from any peer is accepted exactly if the context-free rules hold"""

import struct

from .. import refs, validity, wire
from ..families import gen_tx, gen_script, plain_tx
from ..simnet import Net, SimSocket
from ..universe import Clock
from ..validity import NULL, MAX_MONEY, MAX_BLOCK_SIZE
from .common import world, damage
from .wirenet import Peer, cut, stream_file, MAGIC

RUNS = {'quick': 3000, 'thorough': 80000}
RULE = ('One run: an honest or malicious peer mines a block (or makes a transaction, or a header) of one of the networks, breaks one to three rules or just reaches '
        'their limits, and sends it in a message over a stream that may damage it; the node reads it and checks it.  '
        'Non-trivial: a rule is broken, a limit is reached exactly, or the bytes are damaged.')
STATE = 'distinct (network, changes, verdict, way of checking) tuples'
SEARCH = 'blocks, changes by malicious peers (also cooperating ones), damage of the stream, networks, clocks'
ORACLE = 'independent implementation of the context-free rules of Bitcoin Core 0.10'
REAL = ['bitcoin.core', 'bitcoin.core.serialize', 'bitcoin.core.script', 'bitcoin.messages', 'bitcoin']
STUB = ['TCP (simulated)', 'clock', 'peers and miners']
ASSUMPTIONS = ['asserts are enabled (no python -O)']

NOW = 1441843200.0
SIGS = (b'\xac', b'\xad', b'\xae', b'\xaf')


def tx_of(sim, n, spend=None):
    """A valid transaction; n makes it unique"""
    vin = []
    for k in range(sim.choice((1, 1, 2, 3))):
        o = (refs.sha256(b'in%d/%d' % (n, k)), sim.choice((0, 1, 0xfffffffe, 0xffffffff)))
        vin.append((o, gen_script(sim), sim.choice((0xffffffff, 0))))
    vout = [(sim.choice((0, 1, 5000000000)), gen_script(sim)) for _ in range(sim.choice((1, 1, 2, 3)))]
    return (sim.choice((1, 2, -1)), tuple(vin), tuple(vout), sim.choice((0, 0xffffffff)))


def coinbase(sim, script=None):
    s = script if script is not None else sim.bytes(sim.choice((2, 4, 99, 100)))
    return (1, ((NULL, s, 0xffffffff),), ((2500000000, gen_script(sim)),) * sim.choice((1, 2)), 0)


def set_in(tx, i, outpoint=None, script=None):
    o, s, q = tx[1][i]
    v = list(tx[1])
    v[i] = (outpoint if outpoint is not None else o, script if script is not None else s, q)
    return (tx[0], tuple(v), tx[2], tx[3])


def set_out(tx, i, value=None, script=None):
    a, s = tx[2][i]
    v = list(tx[2])
    v[i] = (value if value is not None else a, script if script is not None else s)
    return (tx[0], tx[1], tuple(v), tx[3])


def change_tx(sim, t):
    """(what, transaction)"""
    k = sim.choice(('dup in', 'dup in', 'near dup in', 'null in', 'nearly null in', 'no in', 'no out', 'negative', 'negative', 'max', 'over max', 'sum max', 'sum over',
                    'coinbase in', 'same outs', 'wrap'))
    n, m = len(t[1]), len(t[2])
    if k == 'dup in':
        i = sim.below(n)
        o, s, q = t[1][i]
        v = list(t[1])
        # not necessarily next to each other, script and sequence may differ
        v.insert(sim.below(n + 1), (o, sim.choice((s, b'', b'\x51')), sim.choice((q, 7))))
        return k, (t[0], tuple(v), t[2], t[3])
    if k == 'near dup in':
        (h, i), s, q = t[1][sim.below(n)]
        v = t[1] + sim.choice(((((h, i ^ 1), s, q),), (((h[:31] + bytes([h[31] ^ 1]), i), s, q),), (((bytes([h[0] ^ 128]) + h[1:], i), s, q),)))
        return k, (t[0], v, t[2], t[3])
    if k == 'null in':
        return k, set_in(t if n > 1 else (t[0], t[1] + (((b'\x05' * 32, 1), b'', 0),), t[2], t[3]), sim.below(n), NULL)
    if k == 'nearly null in':
        return k, set_in(t, sim.below(n), sim.choice(((b'\x00' * 32, 0), (b'\x00' * 31 + b'\x01', 0xffffffff), (b'\x00' * 32, 0xfffffffe))))
    if k == 'coinbase in':
        return k, (t[0], ((NULL, sim.choice((b'', b'\x01', b'\x01\x02', b'\x07' * 100, b'\x07' * 101)), 0xffffffff),), t[2], t[3])
    if k == 'no in':
        return k, (t[0], (), t[2], t[3])
    if k == 'no out':
        return k, (t[0], t[1], (), t[3])
    if k == 'same outs':
        return k, (t[0], t[1], t[2] * 2, t[3])
    i = sim.below(m)
    if k == 'negative':
        t = set_out(t, i, sim.choice((-1, -2 ** 63, -MAX_MONEY, -5000000000)))
        # often the sum is in range all the time
        return k, (t[0], t[1], sim.choice(((), ((5000000000, b''),), ((MAX_MONEY, b''),))) + t[2], t[3])
    if k in ('max', 'over max'):
        t = (t[0], t[1], tuple((0, s) for _, s in t[2]), t[3])
        return k, set_out(t, i, sim.choice((MAX_MONEY + 1, 2 ** 63 - 1)) if k == 'over max' else MAX_MONEY)
    # the sum is at the limit, beyond, or would wrap around 64 bits
    a = sim.choice((1, MAX_MONEY // 2, MAX_MONEY, MAX_MONEY - 1))
    if k == 'wrap':
        return k, (t[0], t[1], t[2] + ((2 ** 63 - 1, b''), (2 ** 63 - 1, b''), (2, b'')), t[3])
    t = (t[0], t[1], ((a, b''), (MAX_MONEY - a + (k == 'sum over'), b'\x51')), t[3])
    return k, t


def sig_script(sim, n):
    """A script with n signature operations, in ways that are easily miscounted"""
    r = b''
    while n >= 20 and sim.chance(50):
        k = min(n // 20, 1 << sim.below(10))
        r += sim.choice((b'', b'\x51', b'\x60')) + sim.choice((b'\xae', b'\xaf')) * k
        n -= 20 * k
    r += sim.choice((b'\xac', b'\xad')) * n
    return sim.choice((b'', b'\x02\xac\xac', b'\x4c\x01\xae')) + r + sim.choice((b'', b'\x05\xac\xac', b'\x4d\xff\xff\xac', b'\x4c', b'\xff\xba'))


def change_block(sim, network, b):
    """(what, block, how it's finished)"""
    h, txs = b
    txs = list(txs)
    k = sim.choice(('tx', 'tx', 'tx', 'no coinbase', 'late coinbase', 'two coinbases', 'coinbase script', 'dup tx', 'merkle twin', 'no txs', 'root', 'swap',
                    'sigops', 'size', 'bits', 'nonce', 'time', 'version', 'same id', 'tx size'))
    fin = 'mine'
    if k == 'tx':
        i = sim.below(len(txs))
        what, txs[i] = change_tx(sim, txs[i])
        k = 'tx: ' + what
    elif k == 'no coinbase':
        txs = txs[1:] or [tx_of(sim, 99)]
    elif k == 'late coinbase':
        txs = txs[1:] + txs[:1]
    elif k == 'two coinbases':
        txs.insert(sim.below(len(txs)) + 1, coinbase(sim))
    elif k == 'coinbase script':
        txs[0] = set_in(txs[0], 0, script=sim.bytes(sim.choice((0, 1, 2, 100, 101, 200))))
    elif k == 'dup tx':
        i = sim.below(len(txs))
        txs.insert(sim.below(len(txs)) + 1, txs[i])
    elif k == 'merkle twin':
        # the same root with transactions doubled
        if len(txs) & 1 and sim.chance(50):
            txs.append(txs[-1])
        else:
            n = sim.choice((1, 2, 3, 4))
            txs += txs[-n:]
        if sim.chance(50):
            fin = 'keep root'
    elif k == 'no txs':
        txs = []
    elif k == 'root':
        fin = 'bad root'
    elif k == 'swap':
        fin = 'keep root'
        if len(txs) > 2:
            i = sim.between(1, len(txs) - 2)
            txs[i], txs[i + 1] = txs[i + 1], txs[i]
    elif k in ('sigops', 'size', 'tx size'):
        n = sum(validity.tx_sigops(t) for t in txs)
        if k == 'sigops':
            over = sim.choice((0, 0, 1, -1, 20))
            # an earlier change may have left no room
            total = max(0, validity.MAX_SIGOPS - n + over)
            parts = [total] if sim.chance(50) or total < 3 else [total // 3, total - total // 3]
            for p in parts:
                s = sig_script(sim, p)
                i = sim.below(len(txs))
                left = p - validity.sigops(s)
                if left:
                    raise ValueError('sigops')
                if sim.chance(50) and i:
                    o, _, q = txs[i][1][0]
                    txs[i] = (txs[i][0], txs[i][1] + (((refs.sha256(s[:99] + o[0]), 5), s, q),), txs[i][2], txs[i][3])
                else:
                    txs[i] = (txs[i][0], txs[i][1], txs[i][2] + ((0, s),), txs[i][3])
            k += ' %+d' % over
        else:
            over = sim.choice((0, 1, -1, 1000))
            i = sim.below(len(txs))
            t = (txs[i][0], txs[i][1], txs[i][2] + ((0, b'\x00' * 70000),), txs[i][3])
            rest = txs[:i] + [t] + txs[i + 1:]
            room = MAX_BLOCK_SIZE - (len(refs.tx_ser(t)) if k == 'tx size' else len(refs.block_ser(h, rest))) + over
            t = set_out(t, len(t[2]) - 1, script=b'\x00' * max(0, 70000 + room))
            txs[i] = t
            k += ' %+d' % over
    elif k == 'bits':
        lim = validity.compact(validity.LIMITS[network])
        bits = sim.choice((0, lim + 1, lim + 0x01000000, lim & 0xff000000, lim | 0x00800000, 0x01003456, 0x02008000, 0x01123456, 0x04800001, 0xff123456,
                           0x05009234, 0x2100ffff, 0x22000001, 0x20800000, 0x1d010000, 0x1d00ffff, lim - 1, 0x03000000, 0x01fedcba, 0x207fffff, 0x217fffff,
                           0x1f7fffff, 0xffffffff, 0x23000001))
        h = h[:4] + (bits,) + h[5:]
        fin = sim.choice(('mine', 'no mine'))
        k += ' %08x' % bits
    elif k == 'nonce':
        fin = 'no pow'
    elif k == 'time':
        h = h[:3] + (sim.choice((0, int(NOW) + 7200, int(NOW) + 7201, 0xffffffff, int(NOW))),) + h[4:]
    elif k == 'version':
        h = (sim.choice((0, 1, 3, -1, 2 ** 31 - 1)),) + h[1:]
    elif k == 'same id':
        # inputs of different transactions are no business of these rules
        i = sim.below(len(txs))
        txs.append(tx_of(sim, 7))
        txs.append(set_in(tx_of(sim, 8), 0, txs[-1][1][0][0]))
    return k, (h, tuple(txs)), fin


def finish(sim, b, fin):
    h, txs = b
    if fin != 'keep root' and txs:
        root = refs.merkle_root([refs.txid(t) for t in txs])
        if fin == 'bad root':
            i = sim.below(32)
            root = sim.choice((root[:i] + bytes([root[i] ^ (1 << sim.below(8))]) + root[i + 1:], root[::-1], b'\x00' * 32, refs.txid(txs[0])[::-1]))
        h = h[:2] + (root,) + h[3:]
    if fin != 'no mine':
        h = validity.mine(h, fin != 'no pow') or h
    return (h, txs)


def verdict(sim, core, f, *a, **k):
    try:
        f(*a, **k)
        return None
    except core.ValidationError as exc:
        return str(exc) or 'refused'


def compare(sim, what, got, want, changes):
    if want is None:
        sim.check(got is None, 'refused', '%s that keeps all rules is refused: %s (%s)', what, got, changes)
    else:
        sim.check(got is not None, 'accepted', '%s that breaks a rule (%s) is accepted (%s)', what, want, changes)


def pow_direct(sim, u, network):
    """The proof of work rule at its very boundary"""
    core = u('bitcoin.core')
    v = None
    for _ in range(sim.choice((2, 5))):
        bits = sim.choice((validity.compact(validity.LIMITS[network]), 0x1d00ffff, 0x1b0404cb, 0x207fffff, 0x03123456, 0x01010000, 0x02000100, 0x20800001,
                           validity.compact(validity.LIMITS[network]) + 1, sim.below(1 << 32), 0x1c7fffff, 0x00000001))
        t = validity.target(bits) or 0
        if v is None or sim.chance(60):
            v = sim.choice((t, t + 1, t - 1, 0, t >> 1, t << 1, (1 << 256) - 1, int.from_bytes(sim.bytes(32), 'big'))) % (1 << 256)
        h = v.to_bytes(32, 'little')
        got = verdict(sim, core, core.CheckProofOfWork, h, bits)
        want = validity.check_pow(h, bits, network)
        sim.log('pow %s %08x: %s', network, bits, want)
        sim.state('pow', network, bits, want)
        compare(sim, 'a hash of %064x for %08x (%s)' % (v, bits, network), got, want, 'proof of work')


def relatives(sim, core, b, network, now, kw, changes):
    """Other blocks with the header or the transactions of one that the node has checked"""
    for _ in range(sim.choice((1, 1, 2))):
        h, txs = b
        k = sim.choice(('transactions', 'transactions', 'tail', 'none', 'header', 'version', 'inputs only', 'spread'))
        if k == 'transactions' and txs and all(t[1] and t[2] for t in txs):
            what, (_, txs), _ = change_block(sim, network, b)
            k += ': ' + what
        elif k == 'tail':
            txs = txs[:-1] if sim.chance(50) else txs + txs[-1:]
        elif k == 'none':
            txs = ()
        elif k == 'version':
            h = (h[0] ^ 1,) + h[1:]
        elif k == 'inputs only' and txs:
            # outputs that create money, on inputs that were fine
            i = sim.below(len(txs))
            txs = txs[:i] + ((txs[i][0], txs[i][1], sim.choice(((), ((-1, b''),), ((MAX_MONEY + 1, b''),), ((MAX_MONEY, b''), (1, b'')))), txs[i][3]),) + txs[i + 1:]
        elif k == 'spread' and len(txs) > 1:
            txs = txs[:1] + txs[:0:-1]
        else:
            i = sim.choice((3, 4, 5))
            h = h[:i] + (sim.choice((h[i] + 1, h[i] - 1, h[i] ^ 0x100)) % (1 << 32),) + h[i + 1:]
        o = core.CBlock.deserialize(refs.block_ser(h, txs))
        want = validity.check_block((h, txs), network, now, 'fCheckPoW' not in kw, 'fCheckMerkleRoot' not in kw)
        sim.fault('related block')
        sim.state('related', k, want)
        sim.log('related block (%s): %s', k, want)
        compare(sim, 'a related block on ' + network, verdict(sim, core, core.CheckBlock, o, **kw), want, '%s, %s' % (changes, k))


def run(sim):
    clock = Clock(sim, NOW)
    net = Net(sim, clock)
    u = world(sim, 'node', clock=clock, net=net)
    network = sim.choice(('regtest', 'regtest', 'regtest', 'mainnet', 'testnet'))
    for n in sim.choice(((network,), (network,), ('testnet', network), ('regtest', 'mainnet', network))):
        u('bitcoin').SelectParams(n)
    if sim.chance(10):
        sim.nontrivial = True
        return pow_direct(sim, u, network)
    core = u('bitcoin.core')
    changes = []
    if sim.chance(25):
        # a transaction on its own
        t = tx_of(sim, 0) if sim.chance(80) else coinbase(sim)
        for _ in range(sim.choice((0, 1, 1, 2))):
            if t[1] and t[2]:
                what, t = change_tx(sim, t)
                changes.append(what)
        kind, plain = 'tx', t
    else:
        txs = (coinbase(sim),) + tuple(tx_of(sim, k) for k in range(sim.choice((0, 1, 2, 3, 4, 6))))
        if sim.chance(2):
            # a busy network
            n = sim.choice((255, 256, 257, 511, 513, 700, 1025, 2051))
            txs += tuple((1, (((refs.sha256(b'busy%d' % k), 0), b'', 0),), ((k, b''),), 0) for k in range(n - len(txs)))
            sim.probe('busy')
        start = validity.LIMITS[network]
        bits = 0x207fffff if network == 'regtest' or sim.chance(40) else 0x1d00ffff
        if network != 'regtest' and sim.chance(40):
            b = validity.GENESIS[network if sim.chance(80) else 'regtest']
            fin = None
            if sim.chance(50):
                what, b, _ = change_block(sim, network, b)
                changes.append('genesis, ' + what)
        else:
            b = ((2, sim.bytes(32), b'\x00' * 32, int(NOW) - 600, bits, 0), txs)
            b = finish(sim, b, 'mine')
            fin = 'mine'
            for _ in range(sim.choice((0, 1, 1, 1, 1, 2, 3))):
                if b[1] and all(t[1] and t[2] for t in b[1]):
                    what, b, f = change_block(sim, network, b)
                    changes.append(what)
                    fin = f if f != 'mine' else fin
            if changes:
                b = finish(sim, b, fin)
        kind, plain = 'block', b
    payload = wire.payload(kind, plain)
    if sim.chance(15) and len(payload) < 50000:
        what, payload = damage(sim, payload)
        sim.fault('damage:' + what)
        changes.append(what)
    for c in changes:
        sim.fault('change:' + c.split(' ')[0].rstrip(':'))
    sim.nontrivial = bool(changes)
    p = Peer()
    raw = wire.frame(MAGIC['mainnet'], kind.encode(), payload)
    p.chunks = [(0.0, x) for x in (cut(sim, raw) if len(raw) < 50000 else [raw])] + [(0.0, None)]
    net.listen('p', 1, p)
    f = stream_file(sim, SimSocket(net, net.connect('p', 1, 30.0), 30.0))
    try:
        want_plain = wire.fields_read(kind, refs.Reader(payload))
    except refs.Short:
        want_plain = None
    S = u('bitcoin.core.serialize')
    try:
        msg = u('bitcoin.messages').MsgSerializable.stream_deserialize(f, params=u('bitcoin').MainParams())
    except (S.SerializationError, ValueError) as exc:
        sim.check(want_plain is None, 'refused', 'a %s is not read: %s', kind, exc)
        sim.log('unreadable')
        return
    sim.check(want_plain is not None, 'accepted', 'a %s is read from damaged bytes', kind)
    obj = getattr(msg, kind)
    clock.skew = sim.choice((0, 0, 0, 3600.5, -7200, 86400))
    now = clock.time()
    if kind == 'tx':
        want = validity.check_tx(want_plain)
        got = verdict(sim, core, core.CheckTransaction, obj)
        sim.log('tx %s on %s: %s', changes, network, want)
        sim.state('tx', changes, want)
        compare(sim, 'a transaction', got, want, changes)
        m = core.CMutableTransaction.from_tx(obj)
        compare(sim, 'a mutable transaction', verdict(sim, core, core.CheckTransaction, m), want, changes)
        sim.check(core.GetLegacySigOpCount(obj) == validity.tx_sigops(want_plain), 'sigops', 'signature operations of %s', changes)
        return
    pw, root = sim.choice(((True, True), (True, True), (False, True), (True, False), (False, False)))
    want = validity.check_block(want_plain, network, now, pw, root)
    kw = {}
    if not pw:
        kw['fCheckPoW'] = False
    if not root:
        kw['fCheckMerkleRoot'] = False
    got = verdict(sim, core, core.CheckBlock, obj, **kw)
    sim.log('block %s of %s on %s, pow %s, root %s: %s', refs.dsha(payload).hex()[:8], changes, network, pw, root, want)
    sim.state('block', network, changes, want, pw, root)
    compare(sim, 'a block on ' + network, got, want, '%s%s' % (changes, '' if pw and root else ', pow %s, root %s' % (pw, root)))
    # headers on their own
    h = want_plain[0]
    # what the header demands, in any of the compact forms
    S = u('bitcoin.core.serialize')
    for bits in (h[4], sim.choice((0, 1, 2, 3, 4, 5, 32, 33, 34, 255)) << 24 | sim.choice((0, 1, 0x7fffff, 0x800000, 0x800001, 0x00ffff, 0x123456, 0xffffff))):
        t = validity.target(bits & 0xff7fffff, False)
        sim.check(S.uint256_from_compact(bits) == (-t if bits & 0x800000 else t), 'target', 'target of %08x', bits)
    hid = refs.dsha(refs.header_ser(h))
    sim.check(S.uint256_from_str(hid) == int.from_bytes(hid, 'little'), 'target', 'hash %s as a number', hid.hex())
    sim.check(S.uint256_to_shortstr(S.uint256_from_str(hid)) == hid[::-1].hex()[:16], 'target', 'short form of hash %s', hid.hex())
    hw = (validity.check_pow(refs.dsha(refs.header_ser(h)), h[4], network) if pw else None) or ('time' if h[3] > now + 7200 else None)
    compare(sim, 'a header on ' + network, verdict(sim, core, core.CheckBlockHeader, obj.get_header(), **({} if pw else {'fCheckPoW': False})), hw, changes)
    for t, x in zip(want_plain[1], obj.vtx):
        if len(changes) < 2:
            compare(sim, 'a transaction of a block', verdict(sim, core, core.CheckTransaction, x), validity.check_tx(t), changes)
    if len(want_plain[1]) < 20 and len(payload) < 50000 and sim.chance(50):
        relatives(sim, core, want_plain, network, now, kw, changes)
    # once more, what was checked has no memory
    compare(sim, 'a block on %s (again)' % network, verdict(sim, core, core.CheckBlock, obj, **kw), want, changes)
