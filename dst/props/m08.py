"""M08: bit arrays are sequences of bits, whatever storage they share"""

from .. import families, refs
from .common import world, show, damage, STUBS

RUNS = {'quick': 9000, 'thorough': 150000}
RULE = ('One run is one history of bit arrays: made of bits, bytes with other bits behind, parts, joins, inversions and common prefixes of others, '
        'with restarts that reload some from their stored form, and damage to it.  Non-trivial: something was made from an array that was made from another.')
STATE = 'distinct (operation, lengths modulo 8 and size class of its operands, where they come from) tuples'
SEARCH = 'histories of operations on bit arrays that share storage, restarts, damage to stored arrays'
ORACLE = 'strings of 0 and 1 with the same history; independent encoding'
REAL = ['proofmarshal.bits', 'proofmarshal.serialize']
STUB = STUBS
ASSUMPTIONS = ['the order of arrays of different lengths is not specified (it is not lexicographic)']

SIZES = (0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 255, 256, 257)


def bits_of(sim):
    n = sim.choice(SIZES) if not sim.chance(1) else sim.choice((1023, 2049, 8192, 8201, 16390, 65535, 65537))
    k = sim.below(5)
    if k == 0:
        return sim.choice('01') * n
    s = refs.to_bits(sim.bytes((n + 7) // 8))[:n]
    if k == 1 and n:
        # all the same but for one
        i = sim.below(n)
        c = sim.choice('01')
        return c * i + '10'[int(c)] + c * (n - i - 1)
    return s


def read(b):
    return ''.join('1' if x else '0' for x in b)


class Entry:
    def __init__(self, model, obj, origin, depth):
        self.model, self.obj, self.origin, self.depth = model, obj, origin, depth


def make(sim, u, s):
    B = u('proofmarshal.bits').Bits
    how = sim.choice(('bits', 'bytes', 'junk', 'iter', 'truth'))
    n = len(s)
    if how == 'bits':
        return how, B([c == '1' for c in s])
    if how == 'iter':
        return how, B(int(c) for c in s)
    if how == 'truth':
        return how, B([sim.choice((1, 2, 3, 'x', 255, True)) if c == '1' else sim.choice((0, '', None, False)) for c in s])
    size = (n + 7) // 8
    tail = size * 8 - n
    junk = ''.join(sim.choice('01') for _ in range(tail)) if how == 'junk' else '0' * tail
    b = int(s + junk, 2).to_bytes(size, 'big') if size else b''
    if how == 'junk':
        b += sim.bytes(sim.choice((0, 1, 2, 9)))
    if len(b) * 8 == n and sim.chance(50):
        return how, B.from_bytes(b)
    return how, B.from_bytes(b, n)


def check(sim, u, e, what):
    sim.check(read(e.obj) == e.model, 'bits', '%s: is %s, expected %s', what, show(read(e.obj)), show(e.model))
    sim.check(len(e.obj) == len(e.model), 'length', '%s: length is %d, expected %d', what, len(e.obj), len(e.model))


def index(sim, n):
    return sim.choice((0, -1, 1, n - 1, n, -n, -n - 1, n // 2, 7, 8, 9, sim.below(n + 1), -sim.below(n + 1) - 1))


def attempt(func, errors):
    try:
        return ('ok', func())
    except errors as exc:
        return ('exc', type(exc).__name__)


def run(sim):
    u = world(sim, 'p0')
    B = u('proofmarshal.bits')
    es = []
    for _ in range(sim.choice((2, 1, 3))):
        s = bits_of(sim)
        how, o = make(sim, u, s)
        es.append(Entry(s, o, how, 0))
    restarts = 0
    for step in range(sim.choice((6, 12, 3, 25))):
        e, f = sim.choice(es), sim.choice(es)
        if sim.chance(15):
            # nearly the same
            s = e.model
            if s and sim.chance(60):
                i = sim.choice((sim.below(len(s)), len(s) - 1, 0))
                s = s[:i] + '10'[int(s[i])] + s[i + 1:]
            elif sim.chance(50):
                s += sim.choice('01')
            else:
                s = s[:-1]
            how, o = make(sim, u, s)
            f = Entry(s, o, how, 0)
            es.append(f)
        n = len(e.model)
        what = sim.weighted((3, 'new'), (6, 'slice'), (5, 'add'), (3, 'invert'), (4, 'common'), (4, 'startswith'), (4, 'equal'), (3, 'order'), (3, 'index'), (3, 'store'), (1, 'restart'),
                            (1, 'wrong'), (1, 'again'))
        new = None
        sim.log('%d: %s %s %s', step, what, show(e.model), show(f.model))
        if what == 'new':
            s = bits_of(sim)
            how, o = make(sim, u, s)
            new = Entry(s, o, how, 0)
        elif what == 'again':
            new = Entry(e.model, B.Bits(e.obj), e.origin, e.depth)
        elif what == 'slice':
            k = sim.below(10)
            if k < 5:
                sl = slice(None, sim.choice((index(sim, n), index(sim, n), None)))
            elif k < 8:
                sl = slice(index(sim, n), index(sim, n))
            else:
                sl = slice(sim.choice((None, index(sim, n))), sim.choice((None, index(sim, n))), sim.choice((1, 2, -1, 3, -2, 8)))
            new = Entry(e.model[sl], e.obj[sl], 'slice', e.depth + 1)
        elif what == 'add':
            if len(e.model) + len(f.model) > (4000 if max(len(e.model), len(f.model)) <= 4000 else 70000):
                continue
            new = Entry(e.model + f.model, e.obj + f.obj, 'add', max(e.depth, f.depth) + 1)
        elif what == 'invert':
            new = Entry(e.model.translate({48: 49, 49: 48}), ~e.obj, 'invert', e.depth + 1)
        elif what == 'common':
            k = 0
            while k < min(n, len(f.model)) and e.model[k] == f.model[k]:
                k += 1
            new = Entry(e.model[:k], e.obj.common_prefix(f.obj), 'common', max(e.depth, f.depth) + 1)
            if k in (n, len(f.model)):
                sim.probe('one is a prefix')
        elif what == 'startswith':
            if f.model and sim.chance(40):
                k = sim.below(n + 1)
                f = Entry(e.model[:k], make(sim, u, e.model[:k])[1], 'prefix', 1)
            got = e.obj.startswith(f.obj)
            sim.check(got is e.model.startswith(f.model), 'startswith', '%s startswith %s gives %s', show(e.model), show(f.model), got)
        elif what == 'equal':
            if sim.chance(50):
                f = Entry(e.model, make(sim, u, e.model)[1], 'copy', 0)
            same = e.model == f.model
            sim.probe('equal-%s' % same)
            sim.check((e.obj == f.obj) is same and (e.obj != f.obj) is not same and (f.obj == e.obj) is same, 'equal', '%s == %s is not %s', show(e.model), show(f.model), same)
        elif what == 'order':
            if len(f.model) != n:
                s = ''.join(sim.choice('01') if sim.chance(10) else c for c in e.model)
                f = Entry(s, make(sim, u, s)[1], 'near', 0)
            a, b = e.model, f.model
            got = (e.obj < f.obj, e.obj <= f.obj, e.obj > f.obj, e.obj >= f.obj)
            sim.check(got == (a < b, a <= b, a > b, a >= b), 'order', '%s and %s: (<, <=, >, >=) is %s', show(a), show(b), got)
        elif what == 'index':
            i = index(sim, n)
            want = attempt(lambda: int(e.model[i]), IndexError)
            got = attempt(lambda: e.obj[i], IndexError)
            sim.check(got == want, 'index', '[%d] of %d bits gives %s, expected %s', i, n, got, want)
        elif what == 'store':
            ser = B.BitsSerializer
            b = ser.serialize(e.obj)
            sim.check(b == refs.bits_ser(e.model), 'stored', '%s is stored as %s', show(e.model), show(b))
            v = world(sim, 'reader')
            r = v('proofmarshal.bits').BitsSerializer
            sim.check(read(r.deserialize(b)) == e.model, 'stored', '%s comes back different', show(e.model))
            kind, bad = damage(sim, b)
            if bad != b:
                sim.fault(kind)
                try:
                    o = r.deserialize(bad)
                except (v('proofmarshal.serialize').DeserializationError, ValueError, OverflowError, MemoryError):
                    pass
                else:
                    sim.check(refs.bits_ser(read(o)) == bad, 'stored', '%s: %s is read as %s', kind, show(bad), show(read(o)))
        elif what == 'restart':
            restarts += 1
            kept = sim.sample(es, sim.choice((1, 2, 4)))
            stored = [(x.model, B.BitsSerializer.serialize(x.obj), x.depth) for x in kept]
            u = world(sim, 'p%d' % restarts)
            B = u('proofmarshal.bits')
            es = [Entry(m, B.BitsSerializer.deserialize(b), 'loaded', d) for m, b, d in stored]
            sim.fault('restart')
            continue
        else:
            o = sim.choice((e.model, None, 5, [1, 0], b'\x01', True))
            op = sim.choice(('from', 'add', 'startswith', 'common', 'eq', 'lt', 'set', 'del', 'attr', 'key'))
            buf = sim.bytes(sim.choice((0, 1, 2, 33)))
            args = sim.choice(((buf, 8 * len(buf) + sim.choice((1, 2, 8))), (buf, -1), (bytearray(buf), None), (None, 0), (buf, 8.0), (buf, '0')))
            sim.check({'from': lambda: attempt(lambda: B.Bits.from_bytes(*args), (TypeError, ValueError))[0] == 'exc',
                       'add': lambda: attempt(lambda: e.obj + o, TypeError)[0] == 'exc',
                       'startswith': lambda: attempt(lambda: e.obj.startswith(o), TypeError)[0] == 'exc',
                       'common': lambda: attempt(lambda: e.obj.common_prefix(o), TypeError)[0] == 'exc',
                       'eq': lambda: (e.obj == o) is False and (e.obj != o) is True,
                       'lt': lambda: attempt(lambda: e.obj < o, TypeError)[0] == 'exc',
                       'set': lambda: attempt(lambda: e.obj.__setitem__(0, 1), (TypeError, AttributeError))[0] == 'exc',
                       'del': lambda: attempt(lambda: e.obj.__delitem__(0), (TypeError, AttributeError))[0] == 'exc',
                       'attr': lambda: attempt(lambda: setattr(e.obj, 'other', 1), (TypeError, AttributeError))[0] == 'exc',
                       'key': lambda: attempt(lambda: e.obj[sim.choice((None, '0', 1.0))], TypeError)[0] == 'exc'}[op](), 'refusal', '%s with %s', op, show(o))
        sim.state(what, n % 8, min(n // 8, 3), len(f.model) % 8, e.origin, f.origin)
        if new is not None:
            check(sim, u, new, what)
            if new.depth > 1:
                sim.nontrivial = True
            es.append(new)
        if sim.chance(30):
            x = sim.choice(es)
            check(sim, u, x, 'after %s' % what)
    # nothing was changed by what was made from it
    for x in es:
        check(sim, u, x, 'at the end')
        if sim.chance(30):
            sim.check(B.BitsSerializer.serialize(x.obj) == refs.bits_ser(x.model), 'stored', '%s is stored as something else at the end', show(x.model))
            o = make(sim, u, x.model)[1]
            sim.check(x.obj == o and o == x.obj, 'equal', '%s is not equal to itself', show(x.model))
