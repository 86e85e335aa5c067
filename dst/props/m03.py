"""M03: a committed map is a map, whatever its history"""

from .. import families
from .common import world, show, MARSHAL_REAL, STUBS, frozen

RUNS = {'quick': 12000, 'thorough': 150000}
RULE = ('One run is one history of a map: puts, overwrites, removals and lookups against any version made so far, with '
        'restarts that reload a version from its serialized form.  Non-trivial: at least one version with 2 or more '
        'keys was changed afterwards.')
STATE = 'distinct (set of keys by first bytes, values) contents reached'
SEARCH = 'histories of operations on versions of a map, with restarts'
ORACLE = 'dictionary per version and independent root computation'
REAL = MARSHAL_REAL + ['proofmarshal.merbinnertree']
STUB = STUBS
ASSUMPTIONS = ['key prefixes are a user supplied injective function (first variant: the key bytes themselves)']


def full_check(sim, fam, u, obj, model, what):
    vk = fam.vk
    items = sorted((fam.pk(u, k), vk.plain(u, v)) for k, v in obj.items())
    sim.check(items == sorted(model.items()), 'contents', '%s: items are %s, expected %s', what, show(items),
              show(sorted(model.items())))
    sim.check(len(obj) == len(model), 'len', '%s: len is %d, expected %d', what, len(obj), len(model))
    sim.check(obj.hash == fam.root(model), 'root', '%s: root differs from that of its contents', what)
    ks = [fam.pk(u, k) for k in obj.keys()]
    sim.check([fam.pk(u, k) for k in obj] == ks, 'iter', '%s: iteration and keys differ', what)
    vals = [vk.plain(u, v) for v in obj.values()]
    sim.check([(k, model.get(k)) for k in ks] == list(zip(ks, vals)) and len(ks) == len(model) == len(vals), 'values',
              '%s: keys and values don\'t match', what)
    sim.check(ks == sorted(ks, key=fam.prefix), 'order', '%s: keys are not in the order of their prefixes', what)
    for k in model:
        sim.check(fam.mk(u, k) in obj and vk.plain(u, obj[fam.mk(u, k)]) == model[k], 'get', '%s: lookup of %s', what, show(k))
    for k in fam.spare:
        if k not in model:
            sim.check(fam.mk(u, k) not in obj, 'absent', '%s: absent key is found', what)


def run(sim):
    fam = families.pick_map(sim)
    vk = fam.vk
    u = world(sim, 'p0')
    target = fam.gen(sim)
    large = sim.below(200) == 0
    if large:
        for i, k in enumerate(fam.gen_keys(sim, sim.choice((255, 256, 257, 300, 600, 1100)))):
            target.setdefault(k, vk.gen(sim, 100 + i))
        sim.probe('large')
    keys = list(target) + list(fam.spare)
    cls = fam.cls(u)
    if sim.chance(30):
        # Another map type in use by the same process
        f2 = families.pick_map(sim)
        f2.cls(u)()
        sim.probe('two types')
    versions = []
    start = {}
    if large or sim.chance(40):
        start = {k: target[k] for k in sim.subset(list(target), 99 if large else 60)}
    pairs = [(fam.mk(u, k), vk.make(u, v)) for k, v in start.items()]
    how = sim.choice(('pairs', 'dict', 'iter'))
    obj = cls(dict(pairs) if how == 'dict' else iter(pairs) if how == 'iter' else pairs) if pairs or sim.chance(50) else cls()
    versions.append((dict(start), obj))
    partial = set()     # ids of versions made from a pruned view: storing those stores only what was looked at
    sim.log('%s, %d keys to begin with', fam.describe(), len(start))
    restarts = 0
    steps = sim.choice((8, 3, 15, 25)) if not large else 4
    for step in range(steps):
        base = len(versions) - 1 if sim.chance(70) else sim.below(len(versions))
        model, obj = versions[base]
        what = sim.weighted((8, 'put'), (5, 'remove'), (3, 'get'), (1, 'restart'), (1, 'prune'), (2, 'subset'), (1, 'check'),
                            (1, 'rebuild'))
        if what == 'put':
            k = sim.choice(keys)
            v = vk.gen(sim, 1000 + step)
            if k in model:
                sim.probe('overwrite')
                if sim.chance(15):
                    v = model[k]
            new = obj.put(fam.mk(u, k), vk.make(u, v))
            m2 = {**model, k: v}
            sim.log('%d: put %s in version %d', step, show(k), base)
            if len(model) >= 2:
                sim.nontrivial = True
            sim.check(new.hash == fam.root(m2), 'root', 'put of %s in %d keys gives a different root than its contents',
                      show(k), len(model))
            versions.append((m2, new))
            if base in partial:
                partial.add(len(versions) - 1)
        elif what == 'remove':
            k = sim.choice(list(model)) if model and sim.chance(80) else sim.choice(keys)
            sim.log('%d: remove %s from version %d', step, show(k), base)
            try:
                new = obj.remove(fam.mk(u, k))
            except KeyError:
                sim.check(k not in model, 'remove', 'key %s can not be removed', show(k))
                continue
            sim.check(k in model, 'remove', 'absent key %s was removed', show(k))
            m2 = dict(model)
            del m2[k]
            if len(model) >= 2:
                sim.nontrivial = True
            sim.check(new.hash == fam.root(m2), 'root', 'removal of %s from %d keys gives a different root than its contents',
                      show(k), len(model))
            versions.append((m2, new))
            if base in partial:
                partial.add(len(versions) - 1)
        elif what == 'get':
            op = (sim.choice(('get', 'in')), fam.any_key(sim, model))
            got = fam.do(u, obj, op)
            sim.log('%d: %s -> %s', step, show(op), show(got))
            sim.check(got == fam.expect(model, op), 'get', '%s: got %s, expected %s', show(op), show(got),
                      show(fam.expect(model, op)))
        elif what == 'restart':
            # Only what has been stored survives
            kept = sim.sample([i for i in range(len(versions)) if i not in partial], sim.choice((1, 2, 4)))
            stored = [(versions[i][0], versions[i][1].serialize()) for i in sorted(kept)]
            restarts += 1
            u = world(sim, 'p%d' % restarts)
            cls = fam.cls(u)
            versions = [(m, fam.load(u, b)) for m, b in stored]
            partial = set()
            sim.fault('restart')
            sim.log('%d: restart with %d versions', step, len(versions))
        elif what == 'prune':
            # a pruned view is as good as the original
            versions.append((model, obj.prune()))
            partial.add(len(versions) - 1)
            sim.log('%d: prune version %d', step, base)
        elif what == 'subset':
            m2, o2 = versions[sim.below(len(versions))]
            if sim.chance(50):
                # a real or nearly real subset
                m2 = {k: m2[k] for k in sim.subset(list(m2), 60)}
                if m2 and sim.chance(30):
                    m2[sim.choice(list(m2))] = vk.gen(sim, 5000 + step)
                o2 = fam.build(u, m2)
            want = all(k in model and model[k] == v for k, v in m2.items())
            got = o2.issubset(obj)
            sim.log('%d: subset -> %s', step, got)
            sim.probe('subset-%s' % want)
            if sim.chance(10):
                # only maps of the same kind can be compared
                junk = sim.choice((None, dict(m2), 5, b'', u('proofmarshal.bits').Bits()))
                try:
                    sim.check(False, 'issubset', 'of %r: %r', junk, o2.issubset(junk))
                except TypeError:
                    pass
            sim.check(bool(got) == want, 'issubset', 'issubset is %s for %d of %d keys', got, len(m2), len(model))
        elif what == 'check':
            full_check(sim, fam, u, obj, model, 'version %d' % base)
        else:
            # Same contents, other history
            o2 = fam.build(u, {k: model[k] for k in sim.shuffle(list(model))})
            if sim.chance(30):
                # from a map of the same or another kind
                o3 = obj if sim.chance(30) else families.twin(u, cls)(o2 if sim.chance(30) else [(fam.mk(u, k), vk.make(u, v)) for k, v in model.items()])
                if not isinstance(o3, cls):
                    sim.check(o3.hash != obj.hash and o3 != obj, 'root', 'maps of different kinds have the same root')
                    try:
                        o3.issubset(obj)
                    except TypeError:
                        pass
                    else:
                        sim.check(False, 'issubset', 'of a map of another kind')
                if sim.chance(30):
                    o3 = o3.prune()
                o2 = cls(o3)
                sim.check(isinstance(o2, cls), 'kind', 'made of another map: a %s', type(o2))
            extra = [k for k in keys if k not in model]
            if extra:
                k = sim.choice(extra)
                o2 = o2.put(fam.mk(u, k), vk.make(u, vk.gen(sim, 7000))).remove(fam.mk(u, k))
            sim.log('%d: rebuild version %d', step, base)
            sim.check(o2.hash == obj.hash and o2 == obj, 'history', 'maps with the same %d keys differ', len(model))
        sim.state('large', len(versions[-1][0]), what) if large else sim.state(tuple(sorted((k[:4], repr(v)[:8]) for k, v in versions[-1][0].items())))
    # No version was changed by what was made from it
    for i in [len(versions) - 1] + sim.sample(range(len(versions)), 3):
        model, obj = versions[i]
        full_check(sim, fam, u, obj, model, 'version %d at the end' % i)
        if sim.chance(10):
            frozen(sim, u, obj, ('key', 'left', 'value', 'hash', 'prefix'))
