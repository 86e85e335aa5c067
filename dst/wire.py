"""Messages of the Bitcoin network: independent encoder, decoder and generator

A message is (kind, fields); fields are nested tuples of plain values.
"""

import struct

from . import refs
from .families import gen_tx, make_tx, plain_tx, gen_script

MAX_SIZE = 0x02000000
PROTO = 60002
EMPTY = ('verack', 'getaddr', 'mempool')
KINDS = ('version', 'verack', 'addr', 'alert', 'inv', 'getdata', 'getblocks', 'getheaders', 'headers', 'tx', 'block', 'getaddr',
         'ping', 'pong', 'mempool')

cs, vb = refs.compact_size, refs.var_bytes


# -- encode ----------------------------------------------------------------

def addr_ser(a, with_time=True):
    t, services, reserved, ip, port = a
    return (struct.pack('<I', t) if with_time else b'') + struct.pack('<Q', services) + reserved + ip + struct.pack('>H', port)


def payload(kind, f):
    if kind == 'version':
        ver, services, t, to, frm, nonce, sub, height = f
        return (struct.pack('<iQq', ver, services, t) + addr_ser(to, False) + addr_ser(frm, False) + struct.pack('<Q', nonce) + vb(sub) +
                struct.pack('<i', height))
    if kind in EMPTY:
        return b''
    if kind == 'addr':
        return cs(len(f)) + b''.join(addr_ser(a) for a in f)
    if kind == 'alert':
        return vb(f[0]) + vb(f[1])
    if kind in ('inv', 'getdata'):
        return cs(len(f)) + b''.join(struct.pack('<i', t) + h for t, h in f)
    if kind in ('getblocks', 'getheaders'):
        ver, have, stop = f
        return struct.pack('<i', ver) + cs(len(have)) + b''.join(have) + stop
    if kind == 'headers':
        return cs(len(f)) + b''.join(refs.block_ser(h, txs) for h, txs in f)
    if kind == 'tx':
        return refs.tx_ser(f)
    if kind == 'block':
        return refs.block_ser(*f)
    return struct.pack('<Q', f)


def frame(magic, command, body, length=None, checksum=None):
    return (magic + command + b'\x00' * (12 - len(command)) + struct.pack('<I', len(body) if length is None else length) +
            (refs.dsha(body)[:4] if checksum is None else checksum) + body)


def alert_ser(a):
    """Unsigned part of an alert"""
    ver, relay, exp, ident, cancel, cancels, mn, mx, subs, prio, comment, status, reserved = a
    return (struct.pack('<iqqii', ver, relay, exp, ident, cancel) + cs(len(cancels)) + b''.join(struct.pack('<i', c) for c in cancels) +
            struct.pack('<ii', mn, mx) + cs(len(subs)) + b''.join(vb(s) for s in subs) + struct.pack('<i', prio) + vb(comment) + vb(status) +
            vb(reserved))


# -- decode ----------------------------------------------------------------

def addr_read(r, with_time=True):
    t = r.u('I') if with_time else 0
    s = r.u('Q')
    res = r.read(12)
    ip = r.read(4)
    return (t, s, res, ip, struct.unpack('>H', r.read(2))[0])


def header_read(r):
    return (r.u('i'), r.read(32), r.read(32), r.u('I'), r.u('I'), r.u('I'))


def block_read(r):
    h = header_read(r)
    return (h, tuple(refs.tx_read(r) for _ in range(r.cs())))


def alert_read(r):
    a = [r.u('i'), r.u('q'), r.u('q'), r.u('i'), r.u('i')]
    a.append(tuple(r.u('i') for _ in range(r.cs())))
    a += [r.u('i'), r.u('i')]
    a.append(tuple(r.vb() for _ in range(r.cs())))
    a.append(r.u('i'))
    return tuple(a + [r.vb(), r.vb(), r.vb()])


def fields_read(kind, r):
    """Raises refs.Short if the bytes end too early"""
    if kind == 'version':
        ver = r.u('i')
        if ver == 10300:
            ver = 300
        a = [ver, r.u('Q'), r.u('q'), addr_read(r, False)]
        if ver < 106:
            return tuple(a + [None] * 4)
        a += [addr_read(r, False), r.u('Q'), r.vb()]
        return tuple(a + [r.u('i') if ver >= 209 else None])
    if kind in EMPTY:
        return ()
    if kind == 'addr':
        return tuple(addr_read(r) for _ in range(r.cs()))
    if kind == 'alert':
        return (r.vb(), r.vb())
    if kind in ('inv', 'getdata'):
        return tuple((r.u('i'), r.read(32)) for _ in range(r.cs()))
    if kind in ('getblocks', 'getheaders'):
        return (r.u('i'), tuple(r.read(32) for _ in range(r.cs())), r.read(32))
    if kind == 'headers':
        return tuple(block_read(r) for _ in range(r.cs()))
    if kind == 'tx':
        return refs.tx_read(r)
    if kind == 'block':
        return block_read(r)
    return r.u('Q')


# -- generate --------------------------------------------------------------

U32 = (0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 1441843200)
U64 = (0, 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 0x0102030405060708)
I32 = (0, 1, -1, 2 ** 31 - 1, -2 ** 31, 70001)
I64 = (0, 1, -1, 2 ** 63 - 1, -2 ** 63, 1441843200)
IP4 = (b'\x0a\x00\x00\x01', b'\x7f\x00\x00\x01', b'\x00\x00\x00\x00', b'\xff\xff\xff\xff', b'\x01\x02\x03\x04')
V4MAPPED = b'\x00' * 10 + b'\xff' * 2


def gen_addr(sim, with_time=True):
    return (sim.choice(U32) if with_time else 0, sim.choice(U64 + (1,)), sim.choice((V4MAPPED, V4MAPPED, sim.bytes(12))), sim.choice(IP4),
            sim.choice((0, 8333, 18333, 65535, 256, 1)))


def gen_count(sim, big=253):
    if sim.chance(3):
        # as much as real nodes send at a time, and more
        return sim.choice((500, 501, 999, 1000, 1001, 2000, 2001))
    return sim.weighted((6, sim.below(4)), (2, 0), (1, big - 1), (1, big), (1, big + 3))


def gen_str(sim):
    n = sim.choice((0, 1, 5, 20, 252, 253, 300))
    return sim.bytes(min(n, 40)) * (n // 40 or 1) if n else b''


def gen_header(sim):
    return (sim.choice(I32), sim.bytes(32), sim.bytes(32), sim.choice(U32), sim.choice(U32), sim.choice(U32))


def gen_block(sim, maxtx=4):
    return (gen_header(sim), tuple(gen_tx(sim, small=True) for _ in range(sim.below(maxtx + 1))))


def gen_alert(sim):
    return (sim.choice(I32 + (1,)), sim.choice(I64), sim.choice(I64), sim.choice(I32), sim.choice(I32),
            tuple(sim.choice(I32) for _ in range(sim.below(4))), sim.choice(I32), sim.choice(I32),
            tuple(gen_str(sim) for _ in range(sim.below(3))), sim.choice(I32), gen_str(sim), gen_str(sim), gen_str(sim))


def gen_fields(sim, kind):
    if kind == 'version':
        return (sim.choice((PROTO, PROTO, 70001, 209, 106 + 200, 2 ** 31 - 1)), sim.choice(U64), sim.choice(I64), gen_addr(sim, False), gen_addr(sim, False),
                sim.choice(U64), gen_str(sim), sim.choice(I32))
    if kind in EMPTY:
        return ()
    if kind == 'addr':
        n = gen_count(sim)
        few = [gen_addr(sim) for _ in range(min(n, 3))]
        return tuple(few[i % 3] for i in range(n))
    if kind == 'alert':
        return (gen_str(sim), gen_str(sim))
    if kind in ('inv', 'getdata'):
        n = gen_count(sim)
        return tuple((sim.choice((0, 1, 2, 3, -1, 0x40000001)) if i < 3 else 1, sim.bytes(32) if i < 3 else refs.sha256(b'%d' % i)) for i in range(n))
    if kind in ('getblocks', 'getheaders'):
        n = gen_count(sim)
        return (sim.choice(I32 + (PROTO,)), tuple(sim.bytes(32) if i < 3 else refs.sha256(b'%d' % i) for i in range(n)), sim.choice((b'\x00' * 32, sim.bytes(32))))
    if kind == 'headers':
        n = gen_count(sim)
        few = [(gen_header(sim), ()) for _ in range(min(n, 3))]
        return tuple(few[i % 3] for i in range(n))
    if kind == 'tx':
        return gen_tx(sim, small=sim.chance(80))
    if kind == 'block':
        return gen_block(sim)
    return sim.choice(U64)


# -- objects of the code under test ------------------------------------------

def ip_text(b):
    return '%d.%d.%d.%d' % tuple(b)


def ip_bytes(s):
    return bytes(int(x) for x in s.split('.'))


def fill(o, **values):
    """Set attributes, but leave alone those that should have the value from the start; lists are filled in place"""
    for n, (v, default) in values.items():
        if isinstance(v, list):
            getattr(o, n).extend(v)
        elif v != default:
            setattr(o, n, v)


def fill_addr(c, a):
    fill(c, nTime=(a[0], 0), nServices=(a[1], 1), pchReserved=(a[2], V4MAPPED), ip=(ip_text(a[3]), '0.0.0.0'), port=(a[4], 0))
    return c


def make_addr(u, a):
    return fill_addr(u('bitcoin.net').CAddress(), a)


def make_block(u, b):
    h, txs = b
    return u('bitcoin.core').CBlock(h[0], h[1], h[2], h[3], h[4], h[5], [make_tx(u, t) for t in txs])


def make(u, kind, f):
    m = u('bitcoin.messages')
    net = u('bitcoin.net')
    o = getattr(m, 'msg_' + kind)()
    if kind == 'version':
        o.nTime, o.nNonce, o.strSubVer = f[2], f[5], f[6]
        fill(o, nVersion=(f[0], PROTO), nServices=(f[1], 1), nStartingHeight=(f[7], -1))
        fill_addr(o.addrTo, f[3])
        fill_addr(o.addrFrom, f[4])
    elif kind == 'addr':
        o.addrs.extend(make_addr(u, a) for a in f)
    elif kind == 'alert':
        fill(o.alert, vchMsg=(f[0], b''), vchSig=(f[1], b''))
    elif kind in ('inv', 'getdata'):
        for t, h in f:
            i = net.CInv()
            fill(i, type=(t, 0), hash=(h, None))
            o.inv.append(i)
    elif kind in ('getblocks', 'getheaders'):
        fill(o.locator, nVersion=(f[0], PROTO), vHave=(list(f[1]), None))
        fill(o, hashstop=(f[2], b'\x00' * 32))
    elif kind == 'headers':
        o.headers += [make_block(u, b) for b in f]
    elif kind == 'tx':
        o.tx = make_tx(u, f)
    elif kind == 'block':
        o.block = make_block(u, f)
    elif kind in ('ping', 'pong'):
        fill(o, nonce=(f, 0))
    return o


def plain_addr(a, with_time=True):
    return (a.nTime if with_time else 0, a.nServices, a.pchReserved, ip_bytes(a.ip), a.port)


def plain_header(b):
    return (b.nVersion, b.hashPrevBlock, b.hashMerkleRoot, b.nTime, b.nBits, b.nNonce)


def plain_block(b):
    return (plain_header(b), tuple(plain_tx(t) for t in b.vtx))


def plain(kind, o):
    """Fields of an object"""
    if kind == 'version':
        return (o.nVersion, o.nServices, o.nTime, plain_addr(o.addrTo, False), o.addrFrom and plain_addr(o.addrFrom, False), o.nNonce,
                o.strSubVer, o.nStartingHeight)
    if kind in EMPTY:
        return ()
    if kind == 'addr':
        return tuple(plain_addr(a) for a in o.addrs)
    if kind == 'alert':
        return (o.alert.vchMsg, o.alert.vchSig)
    if kind in ('inv', 'getdata'):
        return tuple((i.type, i.hash) for i in o.inv)
    if kind in ('getblocks', 'getheaders'):
        return (o.locator.nVersion, tuple(o.locator.vHave), o.hashstop)
    if kind == 'headers':
        return tuple(plain_block(b) for b in o.headers)
    if kind == 'tx':
        return plain_tx(o.tx)
    if kind == 'block':
        return plain_block(o.block)
    return o.nonce


ALERT = ('nVersion', 'nRelayUntil', 'nExpiration', 'nID', 'nCancel', 'setCancel', 'nMinVer', 'nMaxVer', 'setSubVer', 'nPriority',
         'strComment', 'strStatusBar', 'strReserved')


def make_alert(u, a):
    c = u('bitcoin.net').CUnsignedAlert()
    for n, v in zip(ALERT, a):
        fill(c, **{n: (list(v) if isinstance(v, tuple) else v, b'' if n.startswith('str') else 1 if n == 'nVersion' else 0)})
    return c


def plain_alert(c):
    return tuple(tuple(getattr(c, n)) if n.startswith('set') else getattr(c, n) for n in ALERT)
