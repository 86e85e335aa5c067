"""Proof families: what users of proofmarshal build, with reference models

A family knows how to build proof objects inside of a universe from a plain
model, how to ask them things (ops) and what the answers have to be.  Ops are
plain tuples and answers are ('ok', plain) or ('exc', name).
"""

from . import refs
from .refs import sha256, tag, derive, tagged, varuint


def cached(u, key, make):
    c = u.__dict__.setdefault('_families', {})
    if key not in c:
        c[key] = make()
    return c[key]


def twin(u, cls):
    """Another type with the same contents, and other hashes"""
    def make():
        S = u('proofmarshal.serialize')
        isl = cls.__base__ is u('proofmarshal.mmr').MerkleMountainRange
        d = {k: cls.__dict__[k] for k in ('__slots__', 'KEY_SERIALIZER', 'VALUE_SERIALIZER', 'key2prefix') if k in cls.__dict__}
        d['HASHTAG'] = S.HashTag(TWIN_TAG)
        t = type(cls)('Twin' + cls.__name__, (cls.__base__,), d)
        return (u('proofmarshal.mmr').make_mmr_subclass if isl else u('proofmarshal.merbinnertree').make_MerbinnerTree_subclass)(t)
    return cached(u, ('twin', cls), make)


def outcome(u, func):
    """Run an op on the code under test and normalize the result"""
    try:
        return ('ok', func())
    except u('proofmarshal.proof').PrunedError:
        return ('exc', 'PrunedError')
    except (KeyError, IndexError) as exc:
        return ('exc', type(exc).__name__)
    except AssertionError:
        return ('exc', 'reject')


# -- value kinds -----------------------------------------------------------

class Kind:
    hashing = False

    def make(self, u, v):
        return v

    def plain(self, u, obj):
        return obj

    def enc(self, v):
        """What goes into hashes"""
        return self.ser(v)


INTS = (0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3fff, 0x4000, 0x4001, 0xffff, 0x10000, 0x1fffff, 0x200000,
        0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff)


class UIntKind(Kind):
    def __init__(self, bits):
        self.bits = bits
        self.name = 'UInt%d' % bits

    def ser_cls(self, u):
        return getattr(u('proofmarshal.serialize'), self.name)

    def gen(self, sim, uniq=None):
        if uniq is not None and self.bits == 64:
            return (uniq * 0x9e3779b97f4a7c15 + sim.below(1 << 16)) % (1 << 64)
        if sim.chance(50):
            return sim.choice([i for i in INTS if i < 1 << self.bits])
        return sim.below(1 << self.bits)

    def ser(self, v):
        return varuint(v)


class FixedKind(Kind):
    def __init__(self, n):
        self.n = n
        self.name = 'FixedBytes(%d)' % n

    def ser_cls(self, u):
        return cached(u, self.name, lambda: u('proofmarshal.serialize').FixedBytes(self.n))

    def gen(self, sim, uniq=None):
        return sim.bytes(self.n)

    def ser(self, v):
        return v


class DigestKind(FixedKind):
    def __init__(self):
        self.n = 32
        self.name = 'Digest'

    def ser_cls(self, u):
        return u('proofmarshal.serialize').Digest


class VarKind(Kind):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.name = 'VarBytes(%d,%d)' % (lo, hi)

    def ser_cls(self, u):
        return cached(u, self.name, lambda: u('proofmarshal.serialize').VarBytes(self.lo, self.hi))

    def gen(self, sim, uniq=None):
        n = sim.choice([x for x in (self.lo, self.lo + 1, 5, 31, 32, 33, 127, 128, 129, self.hi) if self.lo <= x <= self.hi])
        return sim.bytes(n)

    def ser(self, v):
        return varuint(len(v)) + v


class BoolKind(Kind):
    name = 'SerBool'

    def ser_cls(self, u):
        return u('proofmarshal.serialize').SerBool

    def gen(self, sim, uniq=None):
        return sim.chance(50)

    def ser(self, v):
        return b'\xff' if v else b'\x00'


class BitsKind(Kind):
    name = 'Bits'

    def ser_cls(self, u):
        return u('proofmarshal.bits').BitsSerializer

    def gen(self, sim, uniq=None):
        n = sim.choice((0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 255, 256, 127, 128, 129, 1023, 1024))
        return refs.to_bits(sim.bytes((n + 7) // 8))[:n]

    def make(self, u, v):
        B = u('proofmarshal.bits').Bits
        n = len(v)
        if n % 4 == 1:
            # whatever is true is a one
            return B((3, 'x', 255, True, 1)[i % 5] if c == '1' else ('', 0, False, None)[i % 4] for i, c in enumerate(v))
        if n % 4 == 2:
            # parts of a larger buffer, with other bits behind it
            return B.from_bytes(int(v + '1' * (-n % 8 + 8), 2).to_bytes((n + -n % 8 + 8) // 8, 'big'), n)
        if n % 4 == 3:
            return B(B([c == '1' for c in v]))
        return B([c == '1' for c in v])

    def plain(self, u, obj):
        return ''.join('1' if b else '0' for b in obj)

    def ser(self, v):
        return refs.bits_ser(v)


CELL_TAG = '0a3c1d52-55f4-4ea4-96f1-2a1f6d5be1a7'


class CellKind(Kind):
    """A proof used as a value"""
    name = 'Cell'
    hashing = True

    def ser_cls(self, u):
        def make():
            P, S = u('proofmarshal.proof'), u('proofmarshal.serialize')

            class Cell(P.Proof):
                HASHTAG = S.HashTag(CELL_TAG)
                __slots__ = ['n', 'note']
                SERIALIZED_ATTRS = [('n', S.UInt32), ('note', S.VarBytes(200))]
            return Cell
        return cached(u, 'Cell', make)

    def gen(self, sim, uniq=None):
        return (sim.below(1 << 32), sim.bytes(sim.choice((0, 1, 40, 127, 128, 200))))

    def make(self, u, v):
        return self.ser_cls(u)(n=v[0], note=v[1])

    def plain(self, u, obj):
        return (obj.n, obj.note)

    def enc(self, v):
        return tagged(tag(CELL_TAG), sha256(varuint(v[0]) + varuint(len(v[1])) + v[1]))

    def ser(self, v):
        return b'\x00' + varuint(v[0]) + varuint(len(v[1])) + v[1]


KINDS = [UIntKind(64), UIntKind(8), UIntKind(16), UIntKind(32), DigestKind(), FixedKind(0), FixedKind(5),
         VarKind(0, 300), VarKind(3, 129), BoolKind(), CellKind(), BitsKind()]
VALUE_KINDS = [UIntKind(64), DigestKind(), VarKind(0, 300), CellKind(), UIntKind(8)]


# -- key:value maps --------------------------------------------------------

MAP_TAG = '6b7a0c30-4c38-4be3-a9a3-70f0b76bd7c1'


class MapFamily:
    name = 'map'

    def __init__(self, keylen, vk):
        self.keylen, self.vk = keylen, vk
        self.ref = refs.Merbinner(tag(MAP_TAG), lambda k: k, vk.enc, refs.to_bits)
        self._roots = {}

    def describe(self):
        return 'map of %d byte keys to %s' % (self.keylen, self.vk.name)

    def cls(self, u):
        def make():
            M, S, B = u('proofmarshal.merbinnertree'), u('proofmarshal.serialize'), u('proofmarshal.bits')
            fam = self

            @M.make_MerbinnerTree_subclass
            class SimMap(M.MerbinnerTree):
                __slots__ = []
                HASHTAG = S.HashTag(MAP_TAG)
                KEY_SERIALIZER = S.Digest if fam.keylen == 32 else S.FixedBytes(fam.keylen)
                VALUE_SERIALIZER = fam.vk.ser_cls(u)

                @staticmethod
                def key2prefix(key):
                    return B.Bits.from_bytes(key)
            return SimMap
        return cached(u, ('map', self.keylen, self.vk.name), make)

    def gen_keys(self, sim, n):
        """Keys that share long prefixes"""
        bits = self.keylen * 8
        keys = []
        for _ in range(n):
            if keys and sim.chance(70):
                k = int.from_bytes(sim.choice(keys), 'big')
                pos = sim.choice([p for p in (0, 1, 6, 7, 8, 9, 15, 16, 31, bits // 2, bits - 9, bits - 8, bits - 2,
                                              bits - 1) if 0 <= p < bits])
                k ^= 1 << (bits - 1 - pos)
                k = k.to_bytes(self.keylen, 'big')
            else:
                k = sim.bytes(self.keylen)
            if k not in keys:
                keys.append(k)
        return keys

    def gen(self, sim):
        n = sim.choice((3, 0, 1, 2, 2, 4, 5, 8, 12, 20))
        keys = self.gen_keys(sim, n)
        self.spare = [k for k in self.gen_keys(sim, 3) if k not in keys] or [b'\xee' * self.keylen]
        return {k: self.vk.gen(sim, i + 1) for i, k in enumerate(keys)}

    def build(self, u, model):
        return self.cls(u)([(self.mk(u, k), self.vk.make(u, v)) for k, v in model.items()])

    def load(self, u, b):
        return self.cls(u).deserialize(b)

    def root(self, model):
        key = tuple(sorted(model.items()))
        r = self._roots.get(key)
        if r is None:
            r = self._roots[key] = self.ref.hash(model)
        return r

    def near(self, sim, k):
        """A key that differs in one bit"""
        k = int.from_bytes(k, 'big') ^ (1 << sim.below(8 * self.keylen))
        return k.to_bytes(self.keylen, 'big')

    def any_key(self, sim, model, absent=40):
        if not model or sim.chance(absent):
            k = sim.choice(self.spare)
            if model and sim.chance(50):
                k = self.near(sim, sim.choice(list(model)))
            return k
        return sim.choice(list(model))

    # keys are what they are
    def mk(self, u, k):
        return k

    def pk(self, u, obj):
        return obj

    def prefix(self, k):
        return refs.to_bits(k)

    def op(self, sim, model):
        what = sim.weighted((6, 'get'), (3, 'in'), (1, 'len'), (1, 'items'), (3, 'put'), (2, 'remove'), (1, 'hash'),
                            (1, 'keys'), (1, 'iter'))
        if what in ('get', 'in'):
            return (what, self.any_key(sim, model))
        if what == 'remove':
            return (what, self.any_key(sim, model, 20))
        if what == 'put':
            return (what, self.any_key(sim, model, 60), self.vk.gen(sim, 77))
        return (what,)

    def expect(self, model, op):
        w = op[0]
        if w == 'get':
            return ('ok', model[op[1]]) if op[1] in model else ('exc', 'KeyError')
        if w == 'in':
            return ('ok', op[1] in model)
        if w == 'len':
            return ('ok', len(model))
        if w == 'items':
            return ('ok', sorted(model.items()))
        if w in ('keys', 'iter'):
            return ('ok', sorted(model))
        if w == 'put':
            return ('ok', self.root({**model, op[1]: op[2]}))
        if w == 'remove':
            if op[1] not in model:
                return ('exc', 'KeyError')
            m = dict(model)
            del m[op[1]]
            return ('ok', self.root(m))
        if w == 'hash':
            return ('ok', self.root(model))
        raise AssertionError(w)

    def do(self, u, obj, op):
        vk = self.vk
        w = op[0]
        if w == 'get':
            return outcome(u, lambda: vk.plain(u, obj[self.mk(u, op[1])]))
        if w == 'in':
            return outcome(u, lambda: self.mk(u, op[1]) in obj)
        if w == 'len':
            return outcome(u, lambda: len(obj))
        if w == 'items':
            return outcome(u, lambda: sorted((self.pk(u, k), vk.plain(u, v)) for k, v in obj.items()))
        if w == 'keys':
            return outcome(u, lambda: sorted(self.pk(u, k) for k in obj.keys()))
        if w == 'iter':
            return outcome(u, lambda: sorted(self.pk(u, k) for k in obj))
        if w == 'put':
            return outcome(u, lambda: obj.put(self.mk(u, op[1]), vk.make(u, op[2])).hash)
        if w == 'remove':
            return outcome(u, lambda: obj.remove(self.mk(u, op[1])).hash)
        if w == 'hash':
            return outcome(u, lambda: obj.hash)
        raise AssertionError(w)

    # values that the ops don't touch stay hidden
    def untouched(self, model, ops):
        if self.vk.name not in ('Digest', 'Cell'):
            return []
        seen = set()
        for op in ops:
            if op[0] in ('get', 'in'):
                # the descent ends in the leaf of the key or the closest one
                seen.add(op[1])
                if op[1] not in model:
                    return []
            elif op[0] in ('hash',):
                pass
            else:
                return []
        r = []
        for k, v in model.items():
            b = v if self.vk.name == 'Digest' else v[1]
            if k not in seen and len(b) >= 32 and len(set(b)) > 8 and \
                    not any(b == (model[s] if self.vk.name == 'Digest' else model[s][1]) for s in seen):
                r.append(b)
        return r


class CellMapFamily(MapFamily):
    """Maps whose keys are proofs, in the order of their hashes"""

    def __init__(self, vk):
        self.kk, self.vk = CellKind(), vk
        self.ref = refs.Merbinner(tag(MAP_TAG), self.kk.enc, vk.enc, self.prefix)
        self._roots = {}

    def describe(self):
        return 'map of proofs to %s' % self.vk.name

    def cls(self, u):
        def make():
            M, S, B = u('proofmarshal.merbinnertree'), u('proofmarshal.serialize'), u('proofmarshal.bits')
            fam = self

            @M.make_MerbinnerTree_subclass
            class SimCellMap(M.MerbinnerTree):
                __slots__ = []
                HASHTAG = S.HashTag(MAP_TAG)
                KEY_SERIALIZER = fam.kk.ser_cls(u)
                VALUE_SERIALIZER = fam.vk.ser_cls(u)

                @staticmethod
                def key2prefix(key):
                    return B.Bits.from_bytes(key.hash)
            return SimCellMap
        return cached(u, ('cellmap', self.vk.name), make)

    def gen_keys(self, sim, n):
        r = []
        while len(r) < n:
            k = (sim.below(1 << 32), sim.bytes(sim.choice((0, 1, 40))))
            if k not in r:
                r.append(k)
        return r

    def gen(self, sim):
        keys = self.gen_keys(sim, sim.choice((3, 0, 1, 2, 2, 4, 5, 8, 12)) + 3)
        self.spare = keys[:3]
        return {k: self.vk.gen(sim, i + 1) for i, k in enumerate(keys[3:])}

    def near(self, sim, k):
        return (k[0] ^ 1 << sim.below(32), k[1])

    def mk(self, u, k):
        return self.kk.make(u, k)

    def pk(self, u, obj):
        return self.kk.plain(u, obj)

    def prefix(self, k):
        return refs.to_bits(self.kk.enc(k))


def pick_map(sim):
    vk = sim.choice(VALUE_KINDS)
    keylen = sim.choice((32, 2, 1, 4, 20, None))
    return MapFamily(keylen, vk) if keylen is not None else CellMapFamily(vk)


# -- append only lists -----------------------------------------------------

TWIN_TAG = '9c3a5b0e-61d7-4c1e-a3a8-2f0c94f1b7d2'
LIST_TAG = '1d0c3df4-8a3c-4b6a-8f7e-8a5b1cc0a6f2'


class ListFamily:
    name = 'list'

    def __init__(self, vk, sizes=(5, 0, 1, 2, 3, 4, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33)):
        self.vk = vk
        self.sizes = sizes
        self.ref = refs.MMR(tag(LIST_TAG), vk.enc)

    def describe(self):
        return 'list of %s' % self.vk.name

    def cls(self, u):
        def make():
            M, S = u('proofmarshal.mmr'), u('proofmarshal.serialize')
            fam = self

            @M.make_mmr_subclass
            class SimList(M.MerkleMountainRange):
                __slots__ = []
                HASHTAG = S.HashTag(LIST_TAG)
                VALUE_SERIALIZER = fam.vk.ser_cls(u)
            return SimList
        return cached(u, ('list', self.vk.name), make)

    def gen(self, sim):
        n = sim.choice(self.sizes)
        return tuple(self.vk.gen(sim, i + 1) for i in range(n))

    def build(self, u, model):
        return self.cls(u)([self.vk.make(u, v) for v in model])

    def load(self, u, b):
        return self.cls(u).deserialize(b)

    def root(self, model):
        return self.ref.hash(model)

    def index(self, sim, n):
        if sim.chance(15):
            return sim.choice((n, n + 1, -n - 1, 1 << 64, -(1 << 70), 2 * n))
        if n == 0:
            return sim.choice((0, -1))
        return sim.between(-n, n - 1)

    def bound(self, sim, n):
        if sim.chance(20):
            return None
        return self.index(sim, n)

    def op(self, sim, model):
        n = len(model)
        what = sim.weighted((6, 'idx'), (4, 'slice'), (2, 'len'), (1, 'iter'), (1, 'rev'), (2, 'append'), (1, 'hash'),
                            (1, 'slicehash'))
        if what == 'idx':
            return (what, self.index(sim, n))
        if what in ('slice', 'slicehash'):
            return (what, self.bound(sim, n), self.bound(sim, n))
        if what == 'append':
            return (what, tuple(self.vk.gen(sim, 500 + i) for i in range(sim.choice((1, 2, 3, 8)))))
        return (what,)

    def expect(self, model, op):
        w = op[0]
        if w == 'idx':
            try:
                return ('ok', model[op[1]])
            except IndexError:
                return ('exc', 'IndexError')
        if w == 'slice':
            return ('ok', list(model[op[1]:op[2]]))
        if w == 'slicehash':
            return ('ok', self.root(model[op[1]:op[2]]))
        if w == 'len':
            return ('ok', len(model))
        if w == 'iter':
            return ('ok', list(model))
        if w == 'rev':
            return ('ok', list(model)[::-1])
        if w == 'append':
            return ('ok', self.root(model + op[1]))
        if w == 'hash':
            return ('ok', self.root(model))
        raise AssertionError(w)

    def do(self, u, obj, op):
        vk = self.vk
        w = op[0]
        if w == 'idx':
            return outcome(u, lambda: vk.plain(u, obj[op[1]]))
        if w == 'slice':
            return outcome(u, lambda: [vk.plain(u, v) for v in obj[op[1]:op[2]]])
        if w == 'slicehash':
            return outcome(u, lambda: obj[op[1]:op[2]].hash)
        if w == 'len':
            return outcome(u, lambda: len(obj))
        if w == 'iter':
            return outcome(u, lambda: [vk.plain(u, v) for v in obj])
        if w == 'rev':
            return outcome(u, lambda: [vk.plain(u, v) for v in reversed(obj)])
        if w == 'append':
            if len(op[1]) == 1:
                return outcome(u, lambda: obj.append(vk.make(u, op[1][0])).hash)
            return outcome(u, lambda: obj.extend([vk.make(u, v) for v in op[1]]).hash)
        if w == 'hash':
            return outcome(u, lambda: obj.hash)
        raise AssertionError(w)

    def untouched(self, model, ops):
        if self.vk.name not in ('Digest', 'Cell'):
            return []
        seen = set()
        n = len(model)
        for op in ops:
            if op[0] == 'idx':
                i = op[1] + n if op[1] < 0 else op[1]
                if not 0 <= i < n:
                    continue
                seen.add(i)
                # finding out about a sibling leaf means looking at it
                seen.add(i ^ 1)
                seen.add(n - 1)
            elif op[0] != 'hash' and op[0] != 'len':
                return []
        if n < 4:
            return []
        r = []
        for i, v in enumerate(model):
            b = v if self.vk.name == 'Digest' else v[1]
            if i not in seen and len(b) >= 32 and len(set(b)) > 8 and \
                    not any(b == (model[s] if self.vk.name == 'Digest' else model[s][1]) for s in seen if s < n):
                r.append(b)
        return r


# -- composite structures --------------------------------------------------

T_FOO, T_BAR, T_SHAPE = ('a3b7cf04-8b20-4c86-bb4a-d0e1bf4b7f0c', 'b8e6b1c9-2f83-44b0-8a1a-54bbd2a1f3de',
                         'c4bbd8b0-0f0c-4d2c-9ddc-6f5bf41f3a75')
T_TOP = 'd97c3d7a-4a4e-41a3-8b0c-1c8bfb0a9c11'
T_CIRCLE, T_BOX, T_NEST = ('e1111111-4c4e-41a3-8b0c-1c8bfb0a9c11', 'e2222222-4c4e-41a3-8b0c-1c8bfb0a9c11',
                           'e3333333-4c4e-41a3-8b0c-1c8bfb0a9c11')
T_NIL = 'e4444444-4c4e-41a3-8b0c-1c8bfb0a9c11'


class StructFamily:
    """Structures of proofs with nesting, unions and variants

    model: (type name, {attr: plain or model})
    """
    name = 'struct'
    SCHEMA = {
        'Foo': [('n', UIntKind(8)), ('data', VarKind(0, 300))],
        'Bar': [('left', 'Foo'), ('right', 'Foo'), ('num', UIntKind(64)), ('flag', BoolKind())],
        'Circle': [('r', UIntKind(16))],
        'Box': [('a', 'Foo'), ('b', UIntKind(32)), ('path', BitsKind())],
        'Nest': [('inner', 'Shape'), ('note', DigestKind())],
        'Nil': [],
        'Top': [('bar', 'Bar'), ('shape', 'Shape'), ('either', ('Foo', 'Bar')), ('path', BitsKind()),
                ('more', ('Shape', 'Nilable'))],
    }
    SCHEMA['Top'] = SCHEMA['Top'][:4] + [('foo', 'Foo')]
    VARIANTS = ['Circle', 'Box', 'Nest', 'Nil']
    TAGS = {'Foo': T_FOO, 'Bar': T_BAR, 'Top': T_TOP}
    SUB = {'Circle': T_CIRCLE, 'Box': T_BOX, 'Nest': T_NEST, 'Nil': T_NIL}

    def describe(self):
        return 'structure'

    def classes(self, u):
        def make():
            P, S, B = u('proofmarshal.proof'), u('proofmarshal.serialize'), u('proofmarshal.bits')
            c = {}

            class Foo(P.Proof):
                HASHTAG = S.HashTag(T_FOO)
                __slots__ = ['n', 'data']
                SERIALIZED_ATTRS = [('n', S.UInt8), ('data', S.VarBytes(300))]

            class Bar(P.Proof):
                HASHTAG = S.HashTag(T_BAR)
                __slots__ = ['left', 'right', 'num', 'flag']
                SERIALIZED_ATTRS = [('left', Foo), ('right', Foo), ('num', S.UInt64), ('flag', S.SerBool)]

            class Shape(P.VarProof):
                HASHTAG = S.HashTag(T_SHAPE)
                __slots__ = []

            @Shape.declare_variant
            class Circle(Shape):
                SUB_HASHTAG = S.HashTag(T_CIRCLE)
                __slots__ = ['r']
                SERIALIZED_ATTRS = [('r', S.UInt16)]

            @Shape.declare_variant
            class Box(Shape):
                SUB_HASHTAG = S.HashTag(T_BOX)
                __slots__ = ['a', 'b', 'path']
                SERIALIZED_ATTRS = [('a', Foo), ('b', S.UInt32), ('path', B.BitsSerializer)]

            @Shape.declare_variant
            class Nest(Shape):
                SUB_HASHTAG = S.HashTag(T_NEST)
                __slots__ = ['inner', 'note']
                SERIALIZED_ATTRS = [('inner', Shape), ('note', S.Digest)]

            @Shape.declare_variant
            class Nil(Shape):
                SUB_HASHTAG = S.HashTag(T_NIL)
                __slots__ = []
                SERIALIZED_ATTRS = []

            class Top(P.Proof):
                HASHTAG = S.HashTag(T_TOP)
                __slots__ = ['bar', 'shape', 'either', 'path', 'foo']
                SERIALIZED_ATTRS = [('bar', Bar), ('shape', Shape), ('either', P.ProofUnion(Foo, Bar)),
                                    ('path', B.BitsSerializer), ('foo', Foo)]
            c.update(Foo=Foo, Bar=Bar, Shape=Shape, Circle=Circle, Box=Box, Nest=Nest, Nil=Nil, Top=Top)
            return c
        return cached(u, 'struct', make)

    def gen(self, sim, t='Top', depth=0):
        if t == 'Shape':
            t = sim.choice(['Circle', 'Box', 'Nil'] + (['Nest', 'Nest'] if depth < 4 else []))
        elif isinstance(t, tuple):
            t = sim.choice(t)
        d = {}
        for name, k in self.SCHEMA[t]:
            d[name] = k.gen(sim) if isinstance(k, Kind) else self.gen(sim, k, depth + 1)
        return (t, d)

    def build(self, u, model):
        t, d = model
        kw = {}
        for name, k in self.SCHEMA[t]:
            kw[name] = k.make(u, d[name]) if isinstance(k, Kind) else self.build(u, d[name])
        return self.classes(u)[t](**kw)

    def load(self, u, b):
        return self.classes(u)['Top'].deserialize(b)

    def tag_of(self, t):
        if t in self.SUB:
            return derive(tag(T_SHAPE), tag(self.SUB[t]))
        return tag(self.TAGS[t])

    def root(self, model):
        t, d = model
        s = b''
        for name, k in self.SCHEMA[t]:
            s += k.enc(d[name]) if isinstance(k, Kind) else self.root(d[name])
        return tagged(self.tag_of(t), sha256(s))

    def paths(self, model, prefix=()):
        t, d = model
        for name, k in self.SCHEMA[t]:
            yield prefix + (name,), not isinstance(k, Kind)
            if not isinstance(k, Kind):
                yield from self.paths(d[name], prefix + (name,))

    def op(self, sim, model):
        ps = list(self.paths(model))
        p, is_proof = sim.choice(ps)
        if is_proof:
            return (sim.choice(('hash', 'kind', 'eq')), p)
        if sim.chance(5):
            return ('hash', ())
        return ('attr', p)

    def at(self, model, path):
        for name in path:
            model = model[1][name]
        return model

    def kind_at(self, model, path):
        k = None
        for name in path:
            k = dict(self.SCHEMA[model[0]])[name]
            model = model[1][name]
        return k

    def expect(self, model, op):
        m = self.at(model, op[1])
        if op[0] == 'attr':
            return ('ok', m)
        if op[0] == 'hash':
            return ('ok', self.root(m))
        if op[0] == 'kind':
            return ('ok', m[0])
        return ('ok', True)

    def do(self, u, obj, op, model=None):
        def go():
            o = obj
            for name in op[1]:
                o = getattr(o, name)
            if op[0] == 'attr':
                return o if not hasattr(o, 'common_prefix') else ''.join('1' if b else '0' for b in o)
            if op[0] == 'hash':
                return o.hash
            if op[0] == 'kind':
                return o.__class__.__name__
            o2 = obj
            for name in op[1]:
                o2 = getattr(o2, name)
            return o == o2 and hash(o) == hash(o2)
        return outcome(u, go)

    def untouched(self, model, ops):
        return []


# -- transactions and witnesses --------------------------------------------

def gen_script(sim):
    n = sim.choice((0, 1, 4, 25, 75, 76, 107, 252, 253, 254, 520))
    return sim.bytes(n)


def gen_outpoint(sim):
    return (sim.bytes(32), sim.choice((0, 1, 2, 0xfd, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe)))


def gen_tx(sim, must_spend=None, outs=None, small=False):
    nin = sim.choice((1, 2, 3, 5)) if small else sim.choice((1, 1, 2, 3, 5, 130, 254, 300))
    vin = []
    for i in range(nin):
        o = gen_outpoint(sim) if i < 5 else (sim.bytes(32), i)
        vin.append((o, gen_script(sim) if i < 5 else b'', sim.choice((0xffffffff, 0, 0xfffffffe, 0x80000000))))
    if must_spend is not None:
        pos = sim.below(nin) if sim.chance(60) else nin - 1
        vin[pos] = (must_spend, vin[pos][1], vin[pos][2])
    nout = sim.choice((1, 1, 2, 3, 4)) if small else sim.choice((1, 1, 2, 3, 4, 253))
    vout = [(sim.choice((0, 1, 600, 5000000000, 2100000000000000)), gen_script(sim) if i < 4 else b'\x51')
            for i in range(nout)]
    if outs:
        for i, s in outs.items():
            while len(vout) <= i:
                vout.append((600, b'\x51'))
            vout[i] = (vout[i][0], s)
    if not small and sim.chance(4):
        vout.append((0, b'\x6a' + sim.bytes(16) * sim.choice((1100, 2100, 4200))))
    return (sim.choice((1, 2, -1, 0, 0x7fffffff)), tuple(vin), tuple(vout), sim.choice((0, 500000, 0xffffffff)))


def make_outpoint(u, o):
    return u('bitcoin.core').COutPoint(o[0], o[1])


def make_tx(u, tx):
    c = u('bitcoin.core')
    S = u('bitcoin.core.script').CScript
    return c.CTransaction([c.CTxIn(make_outpoint(u, o), S(s), q) for o, s, q in tx[1]],
                          [c.CTxOut(v, S(s)) for v, s in tx[2]], tx[3], tx[0])


def plain_tx(tx):
    return (tx.nVersion, tuple(((i.prevout.hash, i.prevout.n), bytes(i.scriptSig), i.nSequence) for i in tx.vin),
            tuple((o.nValue, bytes(o.scriptPubKey)) for o in tx.vout), tx.nLockTime)


class WitnessFamily:
    """Witnesses of closed seals; model: (seal, i, tx, digest, meth)"""
    name = 'witness'

    def describe(self):
        return 'seal witness'

    def gen(self, sim):
        digest = sim.bytes(32)
        seal = (gen_outpoint(sim), sim.bytes(16))
        meth = sim.choice(refs.METHS)
        tx = gen_tx(sim, must_spend=seal[0], outs={0: refs.closing_script(digest, meth)}, small=sim.chance(80))
        i = [x[0] for x in tx[1]].index(seal[0])
        return (seal, i, tx, digest, meth)

    def make_seal(self, u, seal):
        m = u('proofchains.core.uniquebits.singleuseseal')
        return m.BitcoinSingleUseSeal(outpoint=make_outpoint(u, seal[0]), nonce=seal[1])

    def build(self, u, model, j=0, tx2=None):
        m = u('proofchains.core.uniquebits.singleuseseal')
        p = u('proofchains.core.bitcoin')
        seal, i, tx, digest, meth = model
        t1 = p.TxProof(tx=make_tx(u, tx))
        t2 = p.TxProof(tx=make_tx(u, tx2 if tx2 is not None else tx))
        return m.BitcoinSealWitness(seal=self.make_seal(u, seal), txinproof=p.TxInProof(i=i, txproof=t1),
                                    txoutproof=p.TxOutProof(i=j, txproof=t2))

    def load(self, u, b):
        return u('proofchains.core.uniquebits.singleuseseal').BitcoinSealWitness.deserialize(b)

    def root(self, model):
        return refs.witness_hash(model[0], model[1], refs.txid(model[2]))

    OPS = ('verify', 'digest', 'wrong', 'outpoint', 'nonce', 'txid', 'outtxid', 'seal', 'txin', 'txout', 'hash', 'tx',
           'index', 'outindex')

    def op(self, sim, model):
        w = sim.choice(self.OPS)
        if w == 'wrong':
            return (w, sim.bytes(32))
        return (w, model[3])

    def expect(self, model, op):
        seal, i, tx, digest, meth = model
        w = op[0]
        if w == 'verify':
            return ('ok', None)
        if w == 'digest' or w == 'wrong':
            return ('ok', None) if op[1] == digest else ('exc', 'reject')
        if w == 'outpoint':
            return ('ok', seal[0])
        if w == 'nonce':
            return ('ok', seal[1])
        if w in ('txid', 'outtxid'):
            return ('ok', refs.txid(tx))
        if w == 'seal':
            return ('ok', refs.seal_hash(*seal))
        if w == 'txin':
            return ('ok', tx[1][i])
        if w == 'txout':
            return ('ok', tx[2][0])
        if w == 'hash':
            return ('ok', self.root(model))
        if w == 'tx':
            return ('ok', tx)
        if w == 'index':
            return ('ok', i)
        return ('ok', 0)

    def do(self, u, obj, op):
        w = op[0]

        def go():
            if w == 'verify':
                return obj.verify()
            if w in ('digest', 'wrong'):
                return obj.verify_hash(op[1])
            if w == 'outpoint':
                return (obj.seal.outpoint.hash, obj.seal.outpoint.n)
            if w == 'nonce':
                return obj.seal.nonce
            if w == 'txid':
                return obj.txinproof.txproof.txhash
            if w == 'outtxid':
                return obj.txoutproof.txproof.txhash
            if w == 'seal':
                return obj.seal.hash
            if w == 'txin':
                t = obj.txinproof.txin
                return ((t.prevout.hash, t.prevout.n), bytes(t.scriptSig), t.nSequence)
            if w == 'txout':
                t = obj.txoutproof.txout
                return (t.nValue, bytes(t.scriptPubKey))
            if w == 'hash':
                return obj.hash
            if w == 'tx':
                return plain_tx(obj.txinproof.txproof.tx)
            if w == 'index':
                return obj.txinproof.i
            return obj.txoutproof.i
        return outcome(u, go)

    def untouched(self, model, ops):
        asked = {op[0] for op in ops}
        r = []
        if not asked & {'verify', 'digest', 'wrong', 'txin', 'txout', 'tx'}:
            r.append(refs.tx_ser(model[2]))
        if not asked & {'verify', 'outpoint', 'nonce'}:
            r.append(model[0][1])       # the nonce
        return r


class TxPartFamily:
    """Proofs of transactions and of their parts; model: (kind, n, tx)"""
    name = 'txpart'
    CLASSES = {'tx': 'TxProof', 'in': 'TxInProof', 'out': 'TxOutProof', 'op': 'OutPointProof'}

    def __init__(self, kind):
        self.kind = kind

    def describe(self):
        return self.CLASSES[self.kind]

    def cls(self, u):
        return getattr(u('proofchains.core.bitcoin'), self.CLASSES[self.kind])

    def gen(self, sim):
        tx = gen_tx(sim, small=sim.chance(80))
        if sim.chance(10):
            # nobody has signed for it yet, or nobody gets anything
            k = sim.choice((1, 2))
            tx = tx[:k] + ((),) + tx[k + 1:]
        size = len(tx[1] if self.kind == 'in' else tx[2])
        return (self.kind, sim.below(size) if size and sim.chance(70) else sim.choice((size, size + 1, size + 256, 0xffffffff, 0x80000000, 0)), tx)

    def make_tx(self, u, tx):
        return make_tx(u, tx)

    def build(self, u, model):
        kind, n, tx = model
        t = u('proofchains.core.bitcoin').TxProof(tx=self.make_tx(u, tx))
        if kind == 'tx':
            return t
        if kind == 'op':
            return self.cls(u)(txproof=t, n=n)
        return self.cls(u)(txproof=t, i=n)

    def load(self, u, b):
        return self.cls(u).deserialize(b)

    def root(self, model):
        kind, n, tx = model
        return refs.txpart_hash(kind, n, refs.txid(tx))

    OPS = {'tx': ('hash', 'txid', 'tx', 'txid'), 'op': ('hash', 'txid', 'tx', 'index', 'eq'),
           'in': ('hash', 'txid', 'tx', 'index', 'item', 'verify'), 'out': ('hash', 'txid', 'tx', 'index', 'item', 'verify')}

    def op(self, sim, model):
        return (sim.choice(self.OPS[self.kind]),)

    def expect(self, model, op):
        kind, n, tx = model
        w = op[0]
        if w == 'hash':
            return ('ok', self.root(model))
        if w == 'txid':
            return ('ok', refs.txid(tx))
        if w == 'tx':
            return ('ok', tx)
        if w == 'index':
            return ('ok', n)
        if w == 'eq':
            return ('ok', True)
        items = tx[1] if kind == 'in' else tx[2]
        if w == 'verify':
            return ('ok', None) if n < len(items) else ('exc', 'reject')
        return ('ok', items[n]) if n < len(items) else ('exc', 'IndexError')

    def do(self, u, obj, op):
        w = op[0]

        def go():
            t = obj if self.kind == 'tx' else obj.txproof
            if w == 'hash':
                return obj.hash
            if w == 'txid':
                return t.txhash
            if w == 'tx':
                return plain_tx(t.tx)
            if w == 'index':
                return obj.n if self.kind == 'op' else obj.i
            if w == 'eq':
                return t == t.prune() and not t == obj
            if w == 'verify':
                return obj.verify()
            if self.kind == 'in':
                x = obj.txin
                return ((x.prevout.hash, x.prevout.n), bytes(x.scriptSig), x.nSequence)
            x = obj.txout
            return (x.nValue, bytes(x.scriptPubKey))
        return outcome(u, go)

    def untouched(self, model, ops):
        if any(op[0] not in ('hash', 'txid', 'index', 'eq') for op in ops):
            return []
        return [refs.tx_ser(model[2])]


# -- globally unique maps --------------------------------------------------

GUMAP_TAG = 'f3fa3f3c-47f4-4e4e-bd1c-33a0d9f2c1b7'
GU_SUB = {'unused': tag('dae47bef-d9a3-4971-a6a4-1c67c5f02c11'), 'leaf': tag('0c60f344-9109-4930-aec1-432c5750fcba'),
          'inner': tag('6893cac7-e834-49cd-8e95-77707b0499b5')}
GU_TAG = {k: derive(tag(GUMAP_TAG), v) for k, v in GU_SUB.items()}
GU_CONTENTS = {'leaf': derive(GU_TAG['leaf'], tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b')),
               'inner': derive(GU_TAG['inner'], tag('b925044d-320e-4c1f-9ef8-20614d260676'))}


class GuMapFamily:
    """Prefixes of globally unique maps

    model: ('unused', prefix, seal)
           ('leaf', witness, key, value)
           ('inner', prefix, witness, left, right)
    seal: ('fake', hash) or ('btc', outpoint, nonce)
    witness: ('fake', hash) or ('btc', witness model, j)
    """
    name = 'gumap'

    def __init__(self, vk, kk=None):
        self.vk = vk
        self.kk = kk or DigestKind()
        self.wf = WitnessFamily()

    def describe(self):
        return 'globally unique map of %s to %s' % (self.kk.name, self.vk.name)

    def cls(self, u):
        def make():
            G, S, B = u('proofchains.core.uniquebits.gumap'), u('proofmarshal.serialize'), u('proofmarshal.bits')
            W = u('proofchains.core.uniquebits.singleuseseal')
            fam = self

            @G.make_GuMap_subclass
            class SimGuMap(G.GuMap):
                __slots__ = []
                HASHTAG = S.HashTag(GUMAP_TAG)
                KEY_SERIALIZER = fam.kk.ser_cls(u)
                VALUE_SERIALIZER = fam.vk.ser_cls(u)
                SEAL_CLASS = W.BitcoinSingleUseSeal
                WITNESS_CLASS = W.BitcoinSealWitness

                @staticmethod
                def key2prefix(key):
                    return B.Bits.from_bytes(key.hash if fam.kk.hashing else key)
            return SimGuMap
        return cached(u, ('gumap', self.kk.name, self.vk.name), make)

    # hashes
    def seal_hash(self, s):
        if s[0] == 'fake':
            return tagged(refs.FAKE_SEAL_TAG, sha256(s[1]))
        return refs.seal_hash(s[1], s[2])

    def witness_seal(self, w):
        if w[0] == 'fake':
            return ('fake', w[1])
        return ('btc',) + w[1][0]

    def witness_hash(self, w):
        if w[0] == 'fake':
            return tagged(refs.FAKE_WITNESS_TAG, sha256(self.seal_hash(('fake', w[1]))))
        return refs.witness_hash(w[1][0], w[1][1], refs.txid(w[1][2]), w[2],
                                 refs.txid(w[3]) if len(w) > 3 and w[3] is not None else None)

    def seal_of(self, m):
        if m[0] == 'unused':
            return m[2]
        return self.witness_seal(m[1] if m[0] == 'leaf' else m[2])

    def leaf_digest(self, key, value):
        return tagged(GU_CONTENTS['leaf'], self.kk.enc(key) + self.vk.enc(value))

    def inner_digest(self, left, right):
        return tagged(GU_CONTENTS['inner'], self.seal_hash(self.seal_of(left)) + self.seal_hash(self.seal_of(right)))

    def contents(self, m):
        if m[0] == 'leaf':
            return self.leaf_digest(m[2], m[3])
        return self.inner_digest(m[3], m[4])

    def root(self, m):
        if m[0] == 'unused':
            s = refs.bits_ser(m[1]) + self.seal_hash(m[2])
        elif m[0] == 'leaf':
            s = self.witness_hash(m[1]) + self.kk.enc(m[2]) + self.vk.enc(m[3])
        else:
            s = refs.bits_ser(m[1]) + self.witness_hash(m[2]) + self.root(m[3]) + self.root(m[4])
        return tagged(GU_TAG[m[0]], sha256(s))

    # generation
    def gen_seal(self, sim):
        if sim.chance(15):
            return ('fake', sim.bytes(32))
        return ('btc', gen_outpoint(sim), sim.bytes(16))

    def close(self, sim, seal, digest):
        """A valid witness to seal being closed over digest"""
        if seal[0] == 'fake':
            return ('fake', digest)
        meth = sim.choice(refs.METHS)
        tx = gen_tx(sim, must_spend=seal[1], outs={0: refs.closing_script(digest, meth)}, small=True)
        i = [x[0] for x in tx[1]].index(seal[1])
        return ('btc', ((seal[1], seal[2]), i, tx, digest, meth), 0)

    def gen(self, sim, prefix='', depth=0):
        if sim.chance(12) and len(prefix) < 200:
            # a part of the map where all keys have this in common
            n = sim.choice((1, 7, 8, 9, 31, 64, 127, 128, 200, 250)) - len(prefix)
            prefix += ''.join(sim.choice('01') for _ in range(max(0, n)))
        kind = sim.weighted((3, 'leaf'), (2 if depth < 3 else 0, 'inner'), (2 if depth else 1, 'unused'))
        if kind == 'unused':
            return ('unused', prefix, self.gen_seal(sim))
        if kind == 'leaf':
            if self.kk.hashing:
                key = self.kk.gen(sim)
            else:
                key = int(prefix.ljust(256, '0'), 2) | (int.from_bytes(sim.bytes(32), 'big') >> len(prefix))
                key = key.to_bytes(32, 'big')
            value = self.vk.gen(sim)
            seal = self.gen_seal(sim)
            d = self.leaf_digest(key, value)
            return ('leaf', self.close(sim, seal, d), key, value)
        left = self.gen(sim, prefix + '0', depth + 1)
        right = self.gen(sim, prefix + '1', depth + 1)
        d = self.inner_digest(left, right)
        seal = ('fake', d) if sim.chance(30) else self.gen_seal(sim)
        return ('inner', prefix, self.close(sim, seal, d), left, right)

    # objects
    def make_seal(self, u, s):
        if s[0] == 'fake':
            return u('proofchains.core.uniquebits.singleuseseal').FakeSingleUseSeal(committed_hash=s[1])
        return self.wf.make_seal(u, s[1:])

    def make_witness(self, u, w):
        if w[0] == 'fake':
            return u('proofchains.core.uniquebits.singleuseseal').FakeSealWitness.from_hash(w[1])
        return self.wf.build(u, w[1], w[2], w[3] if len(w) > 3 else None)

    def build(self, u, m):
        cls = self.cls(u)
        B = u('proofmarshal.bits').Bits
        if m[0] == 'unused':
            return cls.UnusedPrefix(prefix=B([c == '1' for c in m[1]]), seal=self.make_seal(u, m[2]))
        if m[0] == 'leaf':
            return cls.LeafPrefix(witness=self.make_witness(u, m[1]), key=self.kk.make(u, m[2]), value=self.vk.make(u, m[3]))
        return cls.InnerPrefix(prefix=B([c == '1' for c in m[1]]), witness=self.make_witness(u, m[2]),
                               left=self.build(u, m[3]), right=self.build(u, m[4]))

    def load(self, u, b):
        return self.cls(u).deserialize(b)

    def prefix_of(self, m):
        return refs.to_bits(self.kk.enc(m[2])) if m[0] == 'leaf' else m[1]

    # ops
    def op(self, sim, m):
        path = ()
        node = m
        while node[0] == 'inner' and sim.chance(60):
            side = sim.choice(('left', 'right'))
            path += (side,)
            node = node[3 if side == 'left' else 4]
        ops = ['verify', 'seal', 'prefix', 'hash', 'kind']
        if node[0] == 'leaf':
            ops += ['key', 'value', 'entry']
        return (sim.choice(ops), path)

    def at(self, m, path):
        for side in path:
            m = m[3 if side == 'left' else 4]
        return m

    def valid(self, m):
        """Does the node's own witness close its seal over its contents?"""
        if m[0] == 'unused':
            return True
        w = m[1] if m[0] == 'leaf' else m[2]
        d = self.contents(m)
        if w[0] == 'fake':
            return w[1] == d
        seal, i, tx, _, _ = w[1]
        tx2 = w[3] if len(w) > 3 and w[3] is not None else tx
        parsed = ('w', seal, ('i', i, ('tx', tx)), ('i', w[2], ('tx', tx2)))
        return refs.witness_valid(parsed) and refs.witness_closes(parsed, d)

    def expect(self, model, op):
        m = self.at(model, op[1])
        w = op[0]
        if w == 'verify':
            return ('ok', None) if self.valid(m) else ('exc', 'reject')
        if w == 'seal':
            return ('ok', self.seal_hash(self.seal_of(m)))
        if w == 'prefix':
            return ('ok', self.prefix_of(m))
        if w == 'hash':
            return ('ok', self.root(m))
        if w == 'kind':
            return ('ok', {'unused': 'UnusedPrefix', 'leaf': 'LeafPrefix', 'inner': 'InnerPrefix'}[m[0]])
        if w == 'key':
            return ('ok', m[2])
        if w == 'value':
            return ('ok', m[3])
        return ('ok', (m[2], m[3]))

    def do(self, u, obj, op):
        w = op[0]

        def go():
            o = obj
            for side in op[1]:
                o = getattr(o, side)
            if w == 'verify':
                return o.verify()
            if w == 'seal':
                return o.seal.hash
            if w == 'prefix':
                return ''.join('1' if b else '0' for b in o.prefix)
            if w == 'hash':
                return o.hash
            if w == 'kind':
                return o.__class__.__name__
            if w == 'key':
                return self.kk.plain(u, o.key)
            if w == 'value':
                return self.vk.plain(u, o.value)
            o.verify()
            return (self.kk.plain(u, o.key), self.vk.plain(u, o.value))
        return outcome(u, go)

    def untouched(self, model, ops):
        seen = set()
        for op in ops:
            seen |= {op[1][:k] for k in range(len(op[1]) + 1)}
            if op[0] == 'verify':
                seen |= {op[1] + ('left',), op[1] + ('right',)}

        def walk(m, path):
            if m[0] == 'inner':
                return walk(m[3], path + ('left',)) + walk(m[4], path + ('right',))
            return [self.kk.enc(m[2])] if m[0] == 'leaf' and path not in seen and not self.kk.hashing else []

        def longest(m):
            return 0 if m[0] == 'leaf' else len(m[1]) if m[0] == 'unused' else max(len(m[1]), longest(m[3]), longest(m[4]))
        if longest(model) > 190:
            # the prefixes say all about the keys
            return []
        return walk(model, ())


def pick_gumap(sim):
    return GuMapFamily(sim.choice((UIntKind(64), DigestKind(), CellKind(), VarKind(0, 300))), sim.choice((DigestKind(), DigestKind(), CellKind())))


def pick(sim, names=('map', 'list', 'struct', 'witness', 'gumap', 'map', 'list', 'struct', 'witness', 'gumap', 'txpart')):
    n = sim.choice(names)
    if n == 'map':
        return pick_map(sim)
    if n == 'list':
        return ListFamily(sim.choice(VALUE_KINDS))
    if n == 'struct':
        return StructFamily()
    if n == 'witness':
        return WitnessFamily()
    if n == 'txpart':
        return TxPartFamily(sim.choice(('in', 'out', 'op', 'tx')))
    return pick_gumap(sim)
