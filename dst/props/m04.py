"""M04: a committed list is an append only list, whatever its history"""

from .. import families, refs
from .common import world, show, MARSHAL_REAL, STUBS, frozen

RUNS = {'quick': 9000, 'thorough': 150000}
RULE = ('One run is one history of a list: appends, extends, slices and reads against any version made so far, with '
        'restarts that reload versions from their serialized form.  Non-trivial: the history changed a list of 2 or '
        'more items.')
STATE = 'distinct (length, length of the version worked on, kind of step) triples'
SEARCH = 'histories of operations on versions of a list, with restarts'
ORACLE = 'list per version and independent root computation'
REAL = MARSHAL_REAL + ['proofmarshal.mmr']
STUB = STUBS
ASSUMPTIONS = ['slices with a step other than 1 may be refused (they are documented as not implemented)']


def full_check(sim, fam, u, obj, model, what):
    vk = fam.vk
    got = [vk.plain(u, v) for v in obj]
    sim.check(got == list(model), 'contents', '%s: items are %s, expected %s', what, show(got), show(model))
    sim.check([vk.plain(u, v) for v in reversed(obj)] == list(model)[::-1], 'reversed', '%s: reversed order', what)
    n = len(model)
    sim.check(len(obj) == n, 'len', '%s: len is %d, expected %d', what, len(obj), n)
    sim.check(obj.hash == fam.root(model), 'root', '%s of %d items: root differs from that of its contents', what, n)
    for i in sim.sample(range(n), 6):
        sim.check(vk.plain(u, obj[i]) == model[i] and vk.plain(u, obj[i - n]) == model[i], 'index', '%s: item %d of %d',
                  what, i, n)
    sim.check(obj.is_perfect_tree() == (n > 0 and n & (n - 1) == 0), 'perfect', '%s: %d items', what, n)
    for i in (n, n + 1, -n - 1):
        sim.check(fam.do(u, obj, ('idx', i)) == ('exc', 'IndexError'), 'bounds', '%s: index %d of %d items', what, i, n)


class _Huge:
    """2**log items, of which the first ones are repeated, and some more"""

    def __init__(self, fam, base, log, tail=()):
        self.fam, self.base, self.log, self.tail = fam, base, log, tail
        self.half = 1 << log
        self.n = self.half + len(tail)
        self.roots = {}

    def __getitem__(self, i):
        return self.base[i % len(self.base)] if i < self.half else self.tail[i - self.half]

    def root(self, lo=0, n=None):
        n = self.n if n is None else n
        if n and lo + n <= self.half and n & (n - 1) == 0 and lo % n == 0:
            lo %= max(n, len(self.base))
        if n <= 64:
            return self.fam.root(tuple(self[i] for i in range(lo, lo + n)))
        r = self.roots.get((lo, n))
        if r is None:
            k = refs.mmr_split(n)
            r = self.roots[lo, n] = refs.tagged(self.fam.ref.tags['inner'], refs.sha256(
                self.root(lo, n - k) + self.root(lo + n - k, k) + refs.varuint(n)))
        return r


def huge(sim):
    """Lists that are too long to write down, but not too long to commit to"""
    vk = sim.choice(families.VALUE_KINDS)
    fam = families.ListFamily(vk)
    u = world(sim, 'p0')
    cls = fam.cls(u)
    base = tuple(vk.gen(sim, i) for i in range(1 << sim.below(4)))
    log = sim.choice((12, 15, 16, 17, 31, 32, 33, 40, 61, 62))
    obj = fam.build(u, base)
    try:
        join = cls.InnerNodeClass
        while len(obj) < 1 << log:
            obj = join(obj, obj)
    except (AttributeError, TypeError):
        return
    sim.nontrivial = True
    m = _Huge(fam, base, log)
    sim.log('%s of 2**%d items', fam.describe(), log)
    stored = None
    for step in range(sim.choice((3, 6, 10))):
        n = m.n
        what = sim.weighted((4, 'append'), (4, 'idx'), (2, 'slice'), (1, 'restart'))
        sim.state('huge', log, n - m.half, what)
        if what == 'append' and n < (1 << 62) + 5000:
            more = tuple(vk.gen(sim, 100 + step * 10 + i) for i in range(sim.choice((1, 1, 2, 3, 8))))
            obj = obj.append(vk.make(u, more[0])) if len(more) == 1 else obj.extend([vk.make(u, v) for v in more])
            m = _Huge(fam, base, log, m.tail + more)
            sim.log('append %d', len(more))
        elif what == 'idx':
            i = sim.choice((0, 1, m.half - 1, m.half, n - 1, n, n + 1, sim.below(n), sim.below(n), m.half // 2))
            neg = sim.chance(40)
            got = fam.do(u, obj, ('idx', i - n if neg else i))
            want = ('ok', m[i]) if i < n else ('exc', 'IndexError') if not neg else ('ok', m[i - n])
            sim.check(got == want, 'index', '%d of %d items: got %s, expected %s', i - n if neg else i, n, show(got), show(want))
        elif what == 'slice':
            # short, or beginning where a tree begins
            a, b = sim.choice(((m.half, n), (0, m.half), (m.half, None), (None, n), (n, None), (m.half + 1, n - 1), (m.half // 2, m.half), (5, 5)))
            part = obj[a:b]
            lo, hi, _ = slice(a, b).indices(n)
            k = max(0, hi - lo)
            sim.check(len(part) == k, 'len', 'slice %s:%s of %d items: %d items', a, b, n, len(part))
            sim.check(part.hash == m.root(lo, k), 'root', 'slice %s:%s of %d items', a, b, n)
        elif what == 'restart' and n < 1 << 13:
            u = world(sim, 'p%d' % (step + 1))
            cls = fam.cls(u)
            obj = fam.load(u, obj.serialize())
            sim.fault('restart')
        elif what == 'restart':
            # what was looked at is enough
            view = obj.prune()
            ops = [('idx', sim.choice((0, n - 1, sim.below(n)))) for _ in range(2)]
            for op in ops:
                fam.do(u, view, op)
            w = world(sim, 'q%d' % step)
            o2 = fam.load(w, view.serialize())
            sim.fault('restart')
            sim.check(len(o2) == n, 'len', 'len of %d items after a restart', n)
            sim.check(o2.hash == m.root(), 'root', 'root of %d items after a restart', n)
            for op in ops:
                got = fam.do(w, o2, op)
                sim.check(got == ('ok', m[op[1]]), 'index', '%d of %d items after a restart: got %s', op[1], n, show(got))
        sim.check(len(obj) == m.n, 'len', 'len is %d, expected %d', len(obj), m.n)
        sim.check(obj.hash == m.root(), 'root', 'a list of %d items has a different root than its contents', m.n)
        sim.check(bool(obj.is_perfect_tree()) == (m.n & (m.n - 1) == 0), 'perfect', '%d items', m.n)


def run(sim):
    if sim.chance(12):
        return huge(sim)
    vk = sim.choice(families.VALUE_KINDS)
    fam = families.ListFamily(vk)
    u = world(sim, 'p0')
    cls = fam.cls(u)
    if sim.chance(30):
        # Another list type in use by the same process
        families.ListFamily(sim.choice(families.VALUE_KINDS)).cls(u)()
        sim.probe('two types')
    n0 = sim.weighted((60, None), (30, 1), (6, 2), (2, 3))
    if n0 is None:
        n0 = sim.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9))
    elif n0 == 1:
        n0 = sim.between(10, 70)
    elif n0 == 2:
        n0 = sim.choice((126, 127, 128, 129, 130, 254, 255, 256, 257))
    else:
        n0 = sim.choice((300, 511, 512, 513, 700, 1023, 1025))
    counter = [0]

    def values(n):
        r = []
        for _ in range(n):
            counter[0] += 1
            if r and sim.chance(8):
                r.append(r[-1])         # duplicates are fine
            elif n > 70:
                r.append(vk.gen(_Cheap(counter[0]), counter[0]))
            else:
                r.append(vk.gen(sim, counter[0]))
        return r

    first = tuple(values(n0))
    if n0 > 1 and sim.chance(12):
        # the same over and over
        k = sim.choice((1, 2, 2, 4, 4, 8, 3))
        first = tuple(first[i % k] for i in range(n0))
        sim.probe('repeating')
    versions = [(first, fam.build(u, first))]
    partial = set()
    sim.log('%s, %d items', fam.describe(), n0)
    restarts = 0
    for step in range(sim.choice((6, 2, 10, 16))):
        base = len(versions) - 1 if sim.chance(60) else sim.below(len(versions))
        model, obj = versions[base]
        n = len(model)
        what = sim.weighted((5, 'append'), (3, 'extend'), (5, 'slice'), (4, 'idx'), (1, 'restart'), (1, 'prune'), (1, 'check'),
                            (1, 'rebuild'), (1, 'immutable'))
        sim.state(n, step and len(versions[-1][0]), what)
        new = None
        if what == 'append':
            m2 = model + tuple(values(1))
            new = obj.append(vk.make(u, m2[-1]))
            sim.log('%d: append to version %d (%d items)', step, base, n)
        elif what == 'extend':
            more = values(sim.choice((2, 0, 1, 3, 4, 5, 8, 16, 30)))
            other = sim.below(len(versions))
            src = sim.choice(('list', 'iter', 'list of same kind', 'list of other kind', 'version'))
            if src == 'version' and len(versions[other][0]) + n > 300:
                src = 'list'
            if src == 'version':
                # possibly the very same
                more = list(versions[other][0])
            m2 = model + tuple(more)
            objs = [vk.make(u, v) for v in more]
            if src == 'version':
                objs = versions[other][1]
                if other in partial:
                    partial.add(len(versions))
            elif src == 'list of same kind':
                objs = cls(objs)
            elif src == 'list of other kind':
                objs = families.twin(u, cls)(objs)
                sim.check(objs.hash != fam.root(tuple(more)), 'root', 'lists of different kinds have the same root')
                if sim.chance(30):
                    objs = objs.prune()
                    partial.add(len(versions))
            if not n and sim.chance(50):
                new = cls(objs)
            else:
                new = obj.extend(iter(objs) if src == 'iter' else objs)
            sim.check(isinstance(new, cls), 'kind', 'extended by a %s: a %s', src, type(new))
            sim.log('%d: extend version %d (%d items) by %d', step, base, n, len(more))
        elif what == 'slice':
            a, b = fam.bound(sim, n), fam.bound(sim, n)
            m2 = model[a:b]
            new = obj[a:b]
            sim.log('%d: slice %s:%s of version %d (%d items)', step, a, b, base, n)
        elif what == 'idx':
            op = ('idx', fam.index(sim, n))
            got = fam.do(u, obj, op)
            sim.log('%d: %s of %d -> %s', step, op, n, show(got))
            sim.check(got == fam.expect(model, op), 'index', '%s of %d items: got %s, expected %s', op, n, show(got),
                      show(fam.expect(model, op)))
            if sim.chance(30):
                # with a step: what it should be, or refused
                idx = slice(fam.bound(sim, n), fam.bound(sim, n), sim.choice((2, 3, -1, -2, None, 1, n or 1)))
                try:
                    got = [vk.plain(u, v) for v in obj[idx]]
                except NotImplementedError:
                    sim.check(idx.step not in (None, 1), 'slice', '%r refused', idx)
                else:
                    sim.check(got == list(model[idx]), 'slice', '%r of %d items: %s', idx, n, show(got))
            if sim.chance(10):
                junk = sim.choice(('x', None, 0.0, 1.5, b'\x00', (0,), (0, 1), slice('a', None), slice(None, 1.5)))
                try:
                    got = obj[junk]
                except TypeError:
                    pass
                else:
                    sim.check(False, 'index', '%r of %d items: %r', junk, n, got)
        elif what == 'restart':
            kept = sim.sample([i for i in range(len(versions)) if i not in partial], sim.choice((1, 2, 4)))
            stored = [(versions[i][0], versions[i][1].serialize()) for i in sorted(kept)]
            restarts += 1
            u = world(sim, 'p%d' % restarts)
            cls = fam.cls(u)
            versions = [(m, fam.load(u, b)) for m, b in stored]
            partial = set()
            sim.fault('restart')
        elif what == 'prune':
            versions.append((model, obj.prune()))
            partial.add(len(versions) - 1)
        elif what == 'check':
            full_check(sim, fam, u, obj, model, 'version %d' % base)
        elif what == 'rebuild':
            cut = sim.between(0, n)
            objs = [vk.make(u, v) for v in model]
            o2 = cls(objs[:cut]).extend(objs[cut:])
            sim.check(o2.hash == obj.hash and o2 == obj, 'history', 'lists with the same %d items differ', n)
            if n:
                sim.check(cls(objs[:-1]).hash != obj.hash, 'history', 'a list equals its prefix')
        else:
            for f in (lambda: obj.__setitem__(0, vk.make(u, vk.gen(sim))), lambda: obj.__delitem__(0)):
                try:
                    f()
                except TypeError:
                    continue
                sim.fail('mutable', 'an item can be changed in place')
        if new is not None:
            if n >= 2 and m2 != model:
                sim.nontrivial = True
            sim.check(new.hash == fam.root(m2), 'root', '%s of %d items to %d gives a different root than its contents',
                      what, n, len(m2))
            sim.check(len(new) == len(m2), 'len', '%s of %d items: len %d, expected %d', what, n, len(new), len(m2))
            if base in partial:
                partial.add(len(versions))
            versions.append((m2, new))
    for i in [len(versions) - 1] + sim.sample(range(len(versions)), 2):
        model, obj = versions[i]
        full_check(sim, fam, u, obj, model, 'version %d at the end' % i)
        if sim.chance(10):
            frozen(sim, u, obj, ('left', 'right', 'value', 'length', 'hash'))


class _Cheap:
    """Values for long lists without a choice each"""

    def __init__(self, i):
        self.i = i

    def below(self, n):
        return (self.i * 2654435761) % n

    def chance(self, a, b=100):
        return False

    def choice(self, seq):
        return seq[self.i % len(seq)]

    def bytes(self, n):
        return (self.i.to_bytes(4, 'big') * (n // 4 + 1))[:n]
