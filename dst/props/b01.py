"""B01: a bloom filter matches everything that was ever inserted, wherever it is loaded"""

import math
import struct

from .. import refs
from ..families import gen_outpoint, make_outpoint
from ..sched import Scheduler
from .common import world, damage
from .wirenet import Counting

RUNS = {'quick': 3000, 'thorough': 80000}
RULE = ('One run: a wallet makes filters, inserts items of all sizes, sends the filters over streams with short reads to other processes (again and again) that ask them, insert more '
        'and pass them on; bytes get damaged, adversaries make filters up; several threads ask while one inserts.  Non-trivial: a filter that was loaded is used.')
STATE = 'distinct (size, hash functions, how loaded, items) tuples'
SEARCH = 'histories of insertions, transfers, loads and questions, damage, short reads, thread interleavings'
ORACLE = 'independent murmur3 and filter over integers'
REAL = ['bitcoin.bloom', 'bitcoin.core', 'bitcoin.core.serialize']
STUB = ['streams between processes', 'thread scheduling']
ASSUMPTIONS = ['one thread at a time inserts (filters have no locks)', 'tweaks and flags fit their fields']


def murmur3(seed, b):
    m = 0xffffffff

    def rot(x, r):
        return (x << r | x >> (32 - r)) & m

    def mix(k):
        return rot(k * 0xcc9e2d51 & m, 15) * 0x1b873593 & m
    h = seed
    n = len(b) // 4
    for k in struct.unpack('<%dI' % n, b[:4 * n]):
        h = (rot(h ^ mix(k), 13) * 5 + 0xe6546b64) & m
    h ^= mix(int.from_bytes(b[4 * n:], 'little')) if len(b) % 4 else 0
    h ^= len(b)
    h = (h ^ h >> 16) * 0x85ebca6b & m
    h = (h ^ h >> 13) * 0xc2b2ae35 & m
    return h ^ h >> 16


class Model:
    def __init__(self, size, funcs, tweak, flags, bits=0):
        self.size, self.funcs, self.tweak, self.flags, self.bits = size, funcs, tweak, flags, bits

    def places(self, item):
        return [murmur3((i * 0xfba4c795 + self.tweak) & 0xffffffff, item) % (self.size * 8) for i in range(min(self.funcs, 100))] if self.size else []

    def insert(self, item):
        for p in self.places(item):
            self.bits |= 1 << p

    def contains(self, item):
        return all(self.bits >> p & 1 for p in self.places(item))

    def ser(self):
        return refs.var_bytes(self.bits.to_bytes(self.size, 'little')) + struct.pack('<IIB', self.funcs, self.tweak, self.flags)


def parse(b):
    """(Model, how many bytes), Short or Bad"""
    r = refs.Reader(b)
    data = r.vb()
    funcs, tweak, flags = struct.unpack('<IIB', r.read(9))
    return Model(len(data), funcs, tweak, flags, int.from_bytes(data, 'little')), r.p


class Thing:
    def __init__(self, u, obj, model, items, how):
        self.u, self.obj, self.model, self.items, self.how = u, obj, model, items, how


class History:
    def __init__(self, sim):
        self.sim = sim
        self.boots = 0
        self.u = self.boot()
        self.things = []
        self.said = []

    def boot(self):
        self.boots += 1
        self.u = world(self.sim, 'p%d' % self.boots)
        return self.u

    def item(self):
        """(as given to the code, bytes)"""
        it = self._item()
        self.said = (self.said + [it])[-8:]
        return it

    def _item(self):
        sim = self.sim
        if self.said and sim.chance(20):
            # nearly the same as another one
            kind, o, b = sim.choice(self.said)
            if kind == 'op':
                o = sim.choice(((o[0], (o[1] + 1) % (1 << 32)), (o[0], o[1] ^ 0x80000000), (o[0][::-1], o[1]), (bytes([o[0][0] ^ 1]) + o[0][1:], o[1])))
                return (kind, o, refs.outpoint_ser(o))
            b = sim.choice((b + b'\x00', b[:-1], b[:-1] + bytes([sim.below(256)]), bytes([sim.below(256)]) + b[1:], b[::-1], b * 2))[:600]
            return (kind, b, b)
        if sim.chance(25):
            o = gen_outpoint(sim)
            return ('op', o, refs.outpoint_ser(o))
        n = sim.choice((0, 1, 2, 3, 4, 5, 7, 8, 20, 31, 32, 33, 36, 65, 520))
        b = sim.bytes(n)
        return ('bytearray' if sim.chance(10) else 'bytes', b, b)

    def give(self, u, it):
        return make_outpoint(u, it[1]) if it[0] == 'op' else bytearray(it[1]) if it[0] == 'bytearray' else it[1]

    def new(self):
        sim = self.sim
        n = sim.choice((1, 2, 3, 5, 10, 100, 1000, 20000, 10 ** 6))
        rate = sim.choice((0.9, 0.5, 0.1, 0.01, 0.001, 1e-6, 1e-12, 1e-30))
        tweak = sim.choice((0, 1, 2147483649, 0xffffffff, sim.below(1 << 32)))
        flags = sim.choice((0, 1, 2))
        B = self.u('bitcoin.bloom')
        f = B.CBloomFilter(n, rate, tweak, flags)
        m, _ = parse(f.serialize())
        want = min(-n * math.log(rate) / math.log(2) ** 2, 36000 * 8) / 8
        sim.check(abs(m.size - want) <= 1 and abs(m.funcs - min(m.size * 8 / n * math.log(2), 50)) <= 1, 'wrong size', '%d items, rate %g: %d bytes, %d functions', n, rate, m.size, m.funcs)
        sim.check(m.tweak == tweak and m.flags == flags and m.bits == 0 and f.IsWithinSizeConstraints(), 'wrong filter', 'a new filter')
        sim.log('new filter %d %g: %d bytes, %d functions', n, rate, m.size, m.funcs)
        t = Thing(self.u, f, m, [], 'made')
        self.things.append(t)
        if 10 <= n <= 100 and rate < 0.2 and sim.chance(20):
            self.rate(t, n, rate)
        return t

    def rate(self, t, n, rate):
        """Filled with as many items as it was made for, not much more matches than promised"""
        sim = self.sim
        base = sim.bytes(8)
        B = self.u('bitcoin.bloom')
        f = B.CBloomFilter(n, rate, t.model.tweak, 0)
        for i in range(n):
            f.insert(base + b'in' + struct.pack('<I', i))
        tries = 100
        hits = sum(f.contains(base + b'out' + struct.pack('<I', i)) for i in range(tries))
        bits = t.model.size * 8
        expect = (1 - (1 - 1 / bits) ** (t.model.funcs * n)) ** t.model.funcs
        sim.check(expect < rate * 4 + 0.05 and hits <= tries * expect * 2 + 15, 'too many matches', '%d of %d for a rate of %g', hits, tries, rate)

    def insert(self):
        sim = self.sim
        t = sim.choice(self.things or [self.new()])
        for _ in range(sim.choice((1, 1, 2, 5))):
            it = self.item() if sim.chance(90) or not t.items else sim.choice(t.items)
            if sim.chance(5):
                # fill it up
                for i in range(min(60, t.model.size * 2)):
                    x = ('bytes', struct.pack('<I', i), struct.pack('<I', i))
                    t.obj.insert(x[1])
                    t.model.insert(x[2])
            t.obj.insert(self.give(t.u, it))
            t.model.insert(it[2])
            t.items.append(it)

    def check(self, t):
        sim = self.sim
        for it in t.items[-12:]:
            sim.check(t.obj.contains(self.give(t.u, it)) is True, 'lost', '%s of %d bytes isn\'t found in a filter that was %s', it[0], len(it[2]), t.how)
        for _ in range(3):
            it = self.item()
            sim.check(t.obj.contains(self.give(t.u, it)) is t.model.contains(it[2]), 'wrong answer', 'about something that wasn\'t inserted')
        sim.check(t.obj.serialize() == t.model.ser(), 'wrong bits', 'a filter that was %s', t.how)
        sim.check(t.obj.IsWithinSizeConstraints() is (t.model.size <= 36000 and t.model.funcs <= 50), 'wrong answer', 'about the size')

    def send(self):
        sim = self.sim
        t = sim.choice(self.things or [self.new()])
        raw = t.obj.serialize()
        if sim.chance(60):
            self.boot()
            sim.fault('restart')
        B = self.u('bitcoin.bloom')
        sim.nontrivial = True
        if sim.chance(50):
            more = sim.choice((b'', b'', b'\x01\x02'))
            f = Counting(sim, raw + more)
            o = B.CBloomFilter.stream_deserialize(f)
            sim.check(f.p == len(raw), 'wrong bytes', 'reads %d of %d bytes', f.p, len(raw))
        else:
            o = B.CBloomFilter.deserialize(raw)
        sim.check(isinstance(o, B.CBloomFilter) and (t.u is not self.u or (o == t.obj) is True), 'wrong filter', 'a loaded filter is not equal')
        n = Thing(self.u, o, Model(t.model.size, t.model.funcs, t.model.tweak, t.model.flags, t.model.bits), list(t.items), 'loaded')
        self.things.append(n)
        if len(self.things) > 6:
            self.things.pop(0)

    def attack(self):
        """Bytes that aren't what was sent"""
        sim = self.sim
        t = sim.choice(self.things or [self.new()])
        B = self.u('bitcoin.bloom')
        E = self.u('bitcoin.core.serialize')
        if sim.chance(60):
            kind, raw = damage(sim, t.obj.serialize())
            sim.fault('damage:' + kind)
        else:
            sim.fault('adversary')
            size = sim.choice((0, 0, 1, 2, 36000, 36001))
            fill = sim.choice((b'\x00', b'\xff', b'\x55'))
            raw = refs.var_bytes(fill * size) + struct.pack('<IIB', sim.choice((0, 1, 50, 51)), sim.below(1 << 32), sim.choice((0, 1, 2, 3, 255)))
        try:
            m, used = parse(raw)
        except (refs.Short, refs.Bad):
            m = None
        try:
            o = B.CBloomFilter.deserialize(raw)
        except (E.SerializationError, ValueError):
            sim.check(m is None or used != len(raw) or m.size > 0x2000000, 'refused', 'bytes of a filter')
            return
        sim.check(m is not None and used == len(raw), 'accepted', 'bytes that aren\'t a filter')
        if m.funcs > 100:
            # takes its time, which callers avoid by IsWithinSizeConstraints
            sim.check(not o.IsWithinSizeConstraints(), 'wrong answer', 'about the size')
            return
        sim.nontrivial = True
        self.check(Thing(self.u, o, m, [], 'damaged'))
        it = self.item()
        o.insert(self.give(self.u, it))
        m.insert(it[2])
        self.check(Thing(self.u, o, m, [it], 'damaged'))

    def threads(self):
        sim = self.sim
        c = [t for t in self.things if t.u is self.u and t.model.funcs <= 10]
        if not c:
            return
        t = sim.choice(c)
        sched = Scheduler(sim, sim.choice(('line', 'opcode')), sim.repo.rstrip('/') + '/')
        self.u.sched = sched
        done = list(t.items)
        new = [self.item() for _ in range(sim.choice((1, 2, 3)))]
        new = [x for x in new if len(x[2]) < 40]
        asks = [[self.item() for _ in range(2)] for _ in range(sim.choice((1, 2)))]
        bad = []

        def writer():
            for it in new:
                t.obj.insert(self.give(t.u, it))
                done.append(it)

        def reader(mine):
            def go():
                for it in mine:
                    known = list(done)[-3:]
                    raw = t.obj.serialize()
                    for k in known:
                        if not t.obj.contains(self.give(t.u, k)):
                            bad.append('asked')
                        m, _ = parse(raw)
                        if not m.contains(k[2]):
                            bad.append('copied')
                    t.obj.contains(self.give(t.u, it))
            return go
        sched.spawn('writer', writer)
        for k, mine in enumerate(asks):
            sched.spawn('reader%d' % k, reader(mine))
        sched.run()
        self.u.sched = None
        sim.fault('preemption', max(0, sched.switches - 1 - len(asks)))
        for th in sched.threads:
            if th.exc is not None:
                raise th.exc
        for it in new:
            t.model.insert(it[2])
            t.items.append(it)
        sim.check(not bad, 'lost', 'an item while another is inserted (%s)', bad)


def run(sim):
    h = History(sim)
    for _ in range(sim.choice((5, 12, 25) if sim.tier == 'quick' else (10, 25, 50))):
        op = sim.weighted((2, 'new'), (6, 'insert'), (4, 'send'), (2, 'attack'), (1, 'threads'))
        if op == 'new' and len(h.things) > 4:
            op = 'insert'
        getattr(h, op)()
        if h.things:
            t = sim.choice(h.things)
            h.check(t)
            sim.state(t.model.size, t.model.funcs, t.how, min(len(t.items), 5))
            sim.log('%s: %s', op, refs.sha256(t.obj.serialize()).hex()[:8])
    for t in h.things:
        h.check(t)
