"""W01: network messages are framed right on any stream"""

import struct

from .. import refs, simfs, wire
from ..simnet import Net, SimSocket
from ..universe import Clock
from .common import world, show
from .w02 import limits
from .wirenet import Peer, cut, stream_file, MAGIC, REAL, STUB

RUNS = {'quick': 3500, 'thorough': 100000}
RULE = ('One run: one to three peers send one to eight messages each, some unknown, damaged, of another network or cut off, over '
        'streams that arrive in pieces, stall, end or are reset at chosen bytes; one process reads them alternately.  '
        'Non-trivial: more than one piece, or damage.')
STATE = 'distinct (kinds of the messages, damage, pieces, outcomes) tuples'
SEARCH = 'sequences of messages, segmentations of streams, damage and connection failures'
ORACLE = 'independent parser of the same bytes'
ASSUMPTIONS = ['a header whose command has junk after its end may be refused or taken for that command',
               'payloads may be followed by junk within the message', 'after a wrong magic, an oversized message or an end the connection is given up']

UNKNOWN = (b'reject', b'sendheaders', b'filterload', b'merkleblock', b'', b'\xff\xfe\x80', b'tx2', b'TX', b't', b'versions', b'pin',
           b'abcdefghijkl', b'blocks', b'getdatum')


def gen(sim, u, network):
    """(bytes, description)"""
    magic = MAGIC[network]
    r = sim.below(100)
    if r < 15:
        cmd = sim.choice(UNKNOWN)
        return wire.frame(magic, cmd, sim.choice((b'', sim.bytes(9), b'\x00' * 300, magic * 3))), 'unknown'
    kind = sim.choice(wire.KINDS)
    f = wire.gen_fields(sim, kind)
    params = getattr(u('bitcoin'), {'mainnet': 'MainParams', 'testnet': 'TestNetParams', 'regtest': 'RegTestParams'}[network])()
    msg = wire.make(u, kind, f)
    b = msg.to_bytes() if network == 'mainnet' and sim.chance(50) else msg.to_bytes(params=params)
    sim.check(b == wire.frame(magic, kind.encode(), wire.payload(kind, f)), 'wrong frame', '%s of %s is sent wrong', kind, network)
    if r < 25:
        body = wire.payload(kind, f)
        if kind in wire.EMPTY or sim.chance(40):
            return wire.frame(magic, kind.encode(), body + sim.bytes(3)), kind + '+'
        if kind != 'tx' and body:
            return wire.frame(magic, kind.encode(), body[:sim.below(len(body))]), kind + '-'
    return b, kind


def hurt(sim, b, network):
    """A damaged frame"""
    k = sim.choice(('magic', 'othernet', 'command', 'length', 'checksum', 'body', 'bit', 'huge', 'lenbit'))
    if k == 'magic':
        i = sim.below(4)
        b = b[:i] + bytes([b[i] ^ (1 << sim.below(8))]) + b[i + 1:]
    elif k == 'othernet':
        b = sim.choice([m for n, m in sorted(MAGIC.items()) if n != network]) + b[4:]
    elif k == 'command':
        i = 4 + sim.below(12)
        b = b[:i] + bytes([b[i] ^ (1 << sim.below(8))]) + b[i + 1:]
    elif k == 'length':
        n = struct.unpack('<I', b[16:20])[0]
        b = b[:16] + struct.pack('<I', sim.choice((n + 1, max(0, n - 1), n + 24, n * 2, 0))) + b[20:]
    elif k == 'lenbit':
        i = 16 + sim.below(4)
        b = b[:i] + bytes([b[i] ^ (1 << sim.below(8))]) + b[i + 1:]
    elif k == 'huge':
        b = b[:16] + struct.pack('<I', sim.choice((0x80000000, 0xffffffff, wire.MAX_SIZE + 1, wire.MAX_SIZE))) + b[20:]
    elif k == 'checksum':
        if sim.chance(40):
            body = b[24:]
            other = sim.choice((b'\x00' * 4, b'\xff' * 4, refs.sha256(body)[:4], refs.dsha(b'')[:4], refs.dsha(body)[4:8], refs.dsha(body)[3::-1], refs.dsha(b)[:4]))
            if other != b[20:24]:
                return b[:20] + other + b[24:], k
        i = 20 + sim.below(4)
        b = b[:i] + bytes([b[i] ^ (1 << sim.below(8))]) + b[i + 1:]
    elif k == 'body' and len(b) > 24:
        i = 24 + sim.below(len(b) - 24)
        b = b[:i] + bytes([b[i] ^ (1 << sim.below(8))]) + b[i + 1:]
    else:
        i = sim.below(len(b))
        b = b[:i] + bytes([b[i] ^ (1 << sim.below(8))]) + b[i + 1:]
    return b, k


class Oracle:
    """What has to come of reading a stream of which `data` arrives"""

    def __init__(self, data, magic):
        self.d, self.p, self.magic = data, 0, magic

    def next(self):
        """('end',) | ('msg', kind, fields, maybe) | ('none',) | ('bad', go on?)"""
        h = self.d[self.p:self.p + 24]
        if len(h) < 24:
            return ('end',)
        self.p += 24
        if h[:4] != self.magic:
            return ('bad', False, 'magic')
        n = struct.unpack('<I', h[16:20])[0]
        if n > wire.MAX_SIZE:
            return ('bad', False, 'size')
        body = self.d[self.p:self.p + n]
        if len(body) < n:
            return ('end',)
        self.p += n
        if refs.dsha(body)[:4] != h[20:24]:
            return ('bad', True, 'checksum')
        cmd, _, rest = h[4:16].partition(b'\x00')
        maybe = rest.strip(b'\x00') != b''
        try:
            kind = cmd.decode('ascii')
        except UnicodeDecodeError:
            kind = None
        if kind not in wire.KINDS:
            return ('none', maybe)
        try:
            return ('msg', kind, wire.fields_read(kind, refs.Reader(body)), maybe)
        except refs.Short:
            return ('bad', True, 'payload')


class Link:
    def __init__(self, sim, net, sender, network, port):
        self.sim, self.network = sim, network
        self.peer = Peer()
        net.listen('peer', port, self.peer)
        data, self.kinds = b'', []
        for _ in range(sim.choice((1, 2, 3, 5, 8))):
            b, k = gen(sim, sender, network)
            if sim.chance(25):
                b, how = hurt(sim, b, network)
                sim.fault('damage:' + how)
                k += '!' + how
                sim.nontrivial = True
            data += b
            self.kinds.append(k)
        # how it ends
        end = sim.choice(('close', 'close', 'reset', 'cut', 'cutreset', 'stall', 'silence'))
        if end in ('cut', 'cutreset', 'stall') and data:
            data_ok = data[:sim.below(len(data))]
            sim.fault('stream:' + end)
            sim.nontrivial = True
        else:
            data_ok = data
        self.end = end
        pieces = cut(sim, data_ok)
        if len(pieces) > 1:
            sim.nontrivial = True
        self.peer.chunks = [(sim.choice((0.0, 0.0, 0.01, 3.0)) if i < 20 else 0.0, b) for i, b in enumerate(pieces)]
        if end in ('close', 'cut'):
            self.peer.chunks.append((0.0, None))
        elif end in ('reset', 'cutreset'):
            self.peer.chunks.append((0.0, 'reset'))
        elif end == 'stall':
            # long after everybody else has given up
            self.peer.chunks += [(1e6, data[len(data_ok):] or b'x'), (0.0, None)]
        self.oracle = Oracle(data_ok, MAGIC[network])
        s = SimSocket(net, net.connect('peer', port, 30.0), 30.0)
        self.sock = s
        self.file = stream_file(sim, s)
        self.open = True
        self.outcomes = []


def run(sim):
    clock = Clock(sim)
    if sim.below(200) == 199:
        return limits(sim, clock, ('message',))
    net = Net(sim, clock)
    sender = world(sim, 'sender', clock=clock)
    receiver = world(sim, 'receiver', clock=clock, net=net)
    m = receiver('bitcoin.messages')
    S = receiver('bitcoin.core.serialize')
    B = receiver('bitcoin')
    links = [Link(sim, net, sender, sim.choice(('mainnet', 'mainnet', 'testnet', 'regtest')), 1000 + k) for k in range(sim.choice((1, 1, 2, 3)))]
    for k, l in enumerate(links):
        sim.log('link %d %s: %s, %s in %d pieces', k, l.network, l.kinds, l.end, len(l.peer.chunks))
    while any(l.open for l in links):
        l = sim.choice([x for x in links if x.open])
        k = links.index(l)
        want = l.oracle.next()
        params = {'mainnet': B.MainParams, 'testnet': B.TestNetParams, 'regtest': B.RegTestParams}[l.network]()
        try:
            if l.network == 'mainnet' and sim.chance(50):
                msg = m.MsgSerializable.stream_deserialize(l.file)
            else:
                cls = sim.choice((m.MsgSerializable, m.MsgSerializable, m.msg_tx, m.msg_version))
                msg = cls.stream_deserialize(l.file, params=params)
            got = ('msg', msg) if msg is not None else ('none',)
        except (S.SerializationError, ValueError) as exc:
            got = ('refused', type(exc).__name__)
        except OSError as exc:
            got = ('io', type(exc).__name__)
        shown = '%s %s' % (got[0], got[1] if len(got) > 1 and isinstance(got[1], str) else type(got[-1]).__name__)
        sim.log('link %d: %s, expected %s', k, shown, show(want))
        l.outcomes.append(got[0])
        if want[0] == 'end':
            sim.check(got[0] in ('refused', 'io'), 'half delivered', 'the stream ended within a message, but it is delivered: %s', shown)
            if got[0] == 'io':
                sim.check(l.end in ('reset', 'cutreset', 'stall', 'silence'), 'spurious error', 'reading fails with %s although the stream just ended', got[1])
            l.open = False
        elif want[0] == 'bad':
            sim.check(got[0] == 'refused', 'not refused', 'a message with wrong %s is delivered or fails badly: %s', want[2], shown)
            if not want[1]:
                l.open = False
        elif want[0] == 'none':
            sim.check(got[0] == 'none' or want[1] and got[0] == 'refused', 'unknown', 'an unknown command gives %s', shown)
        else:
            if want[3] and got[0] == 'refused':
                continue
            sim.check(got[0] == 'msg', 'lost', 'a good %s is not delivered: %s', want[1], shown)
            sim.check(type(msg) is getattr(m, 'msg_' + want[1]), 'wrong kind', '%s is delivered as %s', want[1], type(msg).__name__)
            sim.check(wire.plain(want[1], msg) == want[2], 'wrong message', '%s is delivered with other contents', want[1])
    for l in links:
        sim.state(tuple(l.kinds)[:4], l.end, min(len(l.peer.chunks), 8), tuple(l.outcomes)[:5])
