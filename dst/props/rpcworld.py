"""A client of the RPC interface, a simulated node, and what goes wrong between them"""

from .. import refs, simfs
from ..engine import HarnessError
from ..node import Node
from ..simnet import Net
from ..universe import Clock
from .common import world

REAL = ['bitcoin.rpc', 'http.client (private copy)', 'bitcoin.core', 'bitcoin.wallet', 'json']
STUB = ['TCP and TLS (simulated, with clock)', 'bitcoind (simulated node with chain, mempool and wallet)', 'operating system']

RPCIDS = (0, 1, 2, 3, 5, 7, 1000, None, '1', 'x', True, 1.5)


def body_fault(sim, honest):
    """A function that spoils a JSON-RPC answer, and what the client may make of it"""
    import json
    k = sim.choice(('wrongid', 'noid', 'noresult', 'noerror', 'notjson', 'cutjson', 'list', 'null', 'empty', 'utf8', 'nullid',
                    'string', 'flip', 'falsyerror', 'badbyte'))
    bad = sim.choice((b'\xff', b'\xc3', b'\x80', b'\xed\xa0\x80')) if k == 'badbyte' else None
    falsy = sim.choice((b'{}', b'""', b'0', b'false', b'[]')) if k == 'falsyerror' else None

    def f(body):
        if k in ('wrongid', 'noid', 'noresult', 'noerror', 'nullid'):
            # keep all other bytes: numbers must stay what they are
            d = json.loads(body.decode(), parse_float=lambda s: s, parse_int=int)
            if not isinstance(d, dict):
                return b'{}'
            ident = d.get('id')
            i = body.rfind(b'"id"')
            if k == 'wrongid':
                new = [x for x in (0, 1, 2, 3, 7, None) if x != ident or isinstance(x, bool)]
                return body[:i] + b'"id":' + json.dumps(new[(ident or 0) % len(new) if isinstance(ident, int) else 0]).encode() + b'}'
            if k == 'noid':
                return body[:i].rstrip(b', ') + b'}'
            if k == 'nullid':
                return body[:i] + b'"id":null}'
            d.pop('result' if k == 'noresult' else 'error', None)
            return json.dumps(d).encode()
        if k == 'badbyte':
            # within a string, where it's the encoding alone that tells
            i = body.find(b'"', body.find(b':') + 1)
            return body[:i + 1] + bad + body[i + 1:] if i >= 0 else bad + body
        if k == 'falsyerror':
            # an error, even if it says nothing
            d = json.loads(body.decode())
            return b'{"result":null,"error":%s,"id":%s}' % (falsy, json.dumps(d.get('id') if isinstance(d, dict) else None).encode())
        return {'notjson': b'<html>busy</html>', 'cutjson': body[:len(body) // 2], 'list': b'[]', 'null': b'null', 'empty': b'',
                'utf8': b'\xff\xfe' + body, 'string': b'"ok"', 'flip': body[:-1] + b'\x00'}[k]
    return k, f


def request_fault(sim, timeout=30):
    r = sim.weighted((2, 'drop-before'), (3, 'drop-after'), (2, 'http-error'), (2, 'stall'), (1, 'stall-before'), (5, 'bad'), (2, 'duplicate'),
                     (3, 'truncate'), (2, 'garbage'), (3, 'delay'), (2, 'pieces'), (2, 'close'), (2, 'framing'), (2, 'stale'), (2, 'interrupt'))
    if r in ('drop-before', 'drop-after'):
        return (r, sim.choice((None, 'reset')))
    if r == 'http-error':
        return (r, sim.choice((500, 503, 401, 404, 403, 302, 502, 204)), sim.choice((b'<html>no</html>', b'', b'Work queue depth exceeded')))
    if r == 'bad':
        k, f = body_fault(sim, None)
        return (r, f, sim.choice((0, 500, 200)), k)
    if r == 'interrupt':
        return (r, sim.choice((0, 0, 9, 100, 200, 250)))
    if r == 'truncate':
        return (r, sim.choice((0, 1, 9, 30, 100, 150, 200, 250, 1000)), sim.choice((None, 'reset')))
    if r == 'garbage':
        return (r, sim.choice((b'\x00\xff' * 20, b'HTTP/1.1 \r\n\r\n', b'SSH-2.0-OpenSSH_6.9\r\n', b'HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n{}',
                               b'HTTP/1.1 abc OK\r\n\r\n', b'\r\n', b'HTTP/2.0 200 OK\r\n\r\n{}')))
    if r == 'delay':
        return (r, sim.choice((0.5, timeout - 1, timeout + 1, timeout * 3)))
    if r == 'pieces':
        return (r, sim.choice((2, 7, 50)), sim.choice((0.0, 0.01, timeout * 0.4)))
    if r == 'close':
        return (r, {'close': True})
    if r == 'framing':
        return (r, sim.choice(({'framing': 'chunked'}, {'framing': 'eof'}, {'framing': 'eof', 'version': '1.0'}, {'version': '1.0'},
                               {'framing': 'eof', 'close': True})))
    if r == 'stale':
        return (r, sim.choice((0, 0, 1, 2, 3, 5, 6, 7, 9, 11, 13)))
    return (r,)


# Faults after which the client may still get the right answer
HARMLESS = ('pieces', 'close', 'framing', 'delay')


class World:
    def __init__(self, sim, network='mainnet', tls=False, user='user', password='pass', port=None, fs=None, chain=None):
        self.sim = sim
        self.clock = Clock(sim)
        self.fs = fs or simfs.FS(sim)
        self.fs.trace = False
        self.net = Net(sim, self.clock)
        self.network = network
        self.node = Node(sim, self.net, network, user, password, port, tls, chain)
        self.plan = []          # faults of the exchanges to come; None: healthy
        self.connect_plan = []
        self.send_plan = []
        self.fired = []
        self.node.fault = self._fault
        self.nu = 0
        self.system = 'Linux'

    def _fault(self, event, conn):
        plan = {'connect': self.connect_plan, 'request': self.plan, 'send': self.send_plan}[event]
        if not plan:
            return None
        f = plan.pop(0)
        if f is not None:
            self.fired.append((event, f[0]) + ((f[3],) if f[0] == 'bad' else ()))
        return f

    def conf(self, text):
        self.fs.dirs |= {'/home/user/Library', '/home/user/Library/Application Support', '/home/user/Library/Application Support/Bitcoin', '/appdata', '/appdata/Bitcoin'}
        self.fs.put({'Linux': '/home/user/.bitcoin/bitcoin.conf', 'Darwin': '/home/user/Library/Application Support/Bitcoin/bitcoin.conf',
                     'Windows': '/appdata/Bitcoin/bitcoin.conf'}[self.system], text.encode('utf8'))

    def client(self, name='client', **kw):
        self.nu += 1
        u = world(self.sim, '%s%d' % (name, self.nu), fs=self.fs, net=self.net, clock=self.clock)
        u.system = self.system
        if self.system == 'Windows':
            u.env['APPDATA'] = '/appdata'
        if self.network != 'mainnet':
            u('bitcoin').SelectParams(self.network)
        return u

    def healthy(self):
        self.plan, self.connect_plan, self.send_plan = [], [], []
        self.node.up = True
        self.node.warming = False

    def random_fault(self, timeout=30):
        """Plan something for the next call; returns a short description"""
        sim = self.sim
        k = sim.weighted((10, 'request'), (2, 'connect'), (2, 'send'), (2, 'down'), (2, 'warming'), (2, 'idle'))
        if k == 'request':
            f = request_fault(sim, timeout)
            self.plan = [f]
            return f[0] + (':' + f[3] if f[0] == 'bad' else '')
        if k == 'connect':
            self.connect_plan = [(sim.choice(('refuse', 'timeout', 'unreachable')),)]
            self.net.drop_idle(self.node)
            return k
        if k == 'send':
            n = sim.choice((0, 1, 40, 100000))
            self.send_plan = [None] * sim.below(2) + [sim.choice((('cut', n), ('lost', n, sim.choice((None, 'reset'))), ('timeout', n), ('interrupt', n)))]
            return k
        if k == 'down':
            self.node.up = False
            self.net.drop_idle(self.node, sim.choice((None, 'reset')))
            sim.fault('node down')
            return k
        if k == 'warming':
            self.node.warming = True
            sim.fault('node warming up')
            return k
        if self.net.drop_idle(self.node, sim.choice((None, 'reset'))):
            sim.fault('idle connection dropped')
        return k
