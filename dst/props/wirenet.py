"""Peers that send bytes over simulated streams"""

import io

from .. import refs, simfs, wire
from ..simnet import Net, Service, SimSocket
from ..universe import Clock
from .common import world

REAL = ['bitcoin.messages', 'bitcoin.net', 'bitcoin.core', 'bitcoin.core.serialize', 'bitcoin.core.script']
STUB = ['TCP (simulated, with clock)', 'operating system', 'entropy']
MAGIC = {n: v[0] for n, v in refs.NETWORKS.items()}


class Peer(Service):
    """Sends `data` in pieces as soon as somebody connects; keeps what it gets"""

    def __init__(self):
        super().__init__()
        self.chunks = []        # (delay, bytes | None | 'reset')
        self.got = b''

    def on_connect(self, conn):
        t = 0.0
        for dt, b in self.chunks:
            t += dt
            conn.deliver(b, t)

    def on_data(self, conn, data):
        self.got += data


def cut(sim, data):
    """Pieces of a stream"""
    how = sim.choice(('whole', 'few', 'tiny', 'headers', 'one'))
    if how == 'whole' or not data:
        return [data] if data else []
    if how == 'one' and len(data) < 3000:
        return [data[i:i + 1] for i in range(len(data))]
    if how == 'tiny':
        n = sim.choice((3, 5, 7, 23, 25))
        return [data[i:i + n] for i in range(0, len(data), n)] if len(data) < 20000 else [data]
    if how == 'headers':
        # so that pieces end within headers
        n = sim.choice((4, 16, 20, 24, 28))
        return [data[:n]] + ([data[n:]] if len(data) > n else [])
    ps = sorted(set(sim.below(len(data)) + 1 for _ in range(sim.between(1, 6))) | {len(data)})
    r, a = [], 0
    for p in ps:
        r.append(data[a:p])
        a = p
    return [x for x in r if x]


def stream_file(sim, sock):
    b = sim.choice((-1, -1, 1, 16, 64, 0))
    return sock.makefile('rb', buffering=b)


class Counting(io.RawIOBase):
    """A stream over bytes that returns short reads and knows what was asked for"""

    def __init__(self, sim, data, short=True):
        self.sim, self.data, self.p, self.short = sim, data, 0, short
        self.largest = 0
        self.calls = 0

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.p
        self.largest = max(self.largest, n)
        self.calls += 1
        k = min(n, len(self.data) - self.p)
        if self.short and k > 1 and self.sim.chance(30):
            k = self.sim.between(1, k)
            self.sim.fault('short read')
        r = self.data[self.p:self.p + k]
        self.p += k
        return r
