"""C06: entries of globally unique maps"""

from .. import families, refs
from .common import interrupted, world, show, damage, MARSHAL_REAL, STUBS

RUNS = {'quick': 6000, 'thorough': 120000}
RULE = ('One run: an owner grows a globally unique map from unused prefixes (honest closings) or an adversary assembles one '
        '(wrong digest, wrong seal, wrong input or output, swapped or exchanged children, changed key or value); every prefix '
        'is verified, the path to an entry is stored pruned, verified by new processes for several generations, damaged and '
        'tampered with.  Non-trivial: an adversarial map, a damaged proof that loads, or two or more generations.')
STATE = 'distinct (shape, sabotage, depth, verdicts on a path, damage) tuples'
SEARCH = 'growth histories, sabotage, pruning generations and damage to stored maps'
ORACLE = 'independent model of what each witness shows and what each prefix commits to'
REAL = MARSHAL_REAL + ['proofchains.core.uniquebits.gumap', 'proofchains.core.uniquebits.singleuseseal',
                       'proofchains.core.bitcoin', 'bitcoin.core']
STUB = STUBS + ['adversary']
ASSUMPTIONS = ['SHA256 has no collisions among the values tried', 'asserts are enabled (no python -O)',
               'a verifier calls verify() on every prefix from the root to the entry']


def nodes(m, path=()):
    r = [(path, m)]
    if m[0] == 'inner':
        r += nodes(m[3], path + ('left',)) + nodes(m[4], path + ('right',))
    return r


def replace(m, path, new):
    if not path:
        return new
    k = 3 if path[0] == 'left' else 4
    return m[:k] + (replace(m[k], path[1:], new),) + m[k + 1:]


def shape(m):
    return m[0][0] if m[0] != 'inner' else 'i(%s%s)' % (shape(m[3]), shape(m[4]))


def sabotage(sim, fam, m):
    """(what, map that differs in one node)"""
    path, n = sim.choice(nodes(m))
    what = sim.choice(('digest', 'seal', 'input', 'output', 'othertx', 'swap', 'key', 'value', 'child', 'childseal', 'script',
                       'prefix', 'retarget', 'raw'))
    new = None
    wpos = 1 if n[0] == 'leaf' else 2
    w = n[wpos] if n[0] != 'unused' else None
    btc = w is not None and w[0] == 'btc'
    if what == 'digest' and w is not None:
        d = fam.contents(n)
        d = sim.choice((refs.sha256(d), refs.flipped(sim, d), refs.flipped(sim, d), d[::-1]))
        new = n[:wpos] + (fam.close(sim, fam.witness_seal(w), d),) + n[wpos + 1:]
    elif what == 'raw' and n[0] == 'leaf':
        # closed over something that is nearly the commitment
        d = sim.choice((refs.sha256(fam.kk.enc(n[2]) + fam.vk.enc(n[3])), fam.root(n), fam.kk.enc(n[2]),
                        refs.tagged(families.GU_CONTENTS['inner'], fam.kk.enc(n[2]) + fam.vk.enc(n[3]))))
        new = n[:1] + (fam.close(sim, fam.witness_seal(w), d),) + n[2:]
    elif what == 'seal' and btc:
        seal = w[1][0]
        o = (seal[0][0], seal[0][1] ^ 1) if sim.chance(50) else families.gen_outpoint(sim)
        new = n[:wpos] + (('btc', ((o, seal[1]),) + w[1][1:], 0),) + n[wpos + 1:]
    elif what == 'retarget':
        # the seal of another prefix
        p2, n2 = sim.choice(nodes(m))
        if n2[0] != 'unused' and n[0] != 'unused' and n2 is not n:
            new = n[:wpos] + (n2[1 if n2[0] == 'leaf' else 2],) + n[wpos + 1:]
    elif what == 'input' and btc:
        new = n[:wpos] + (('btc', (w[1][0], sim.choice((w[1][1] + 1, 0, len(w[1][2][1])))) + w[1][2:], 0),) + n[wpos + 1:]
    elif what == 'output' and btc:
        new = n[:wpos] + (('btc', w[1], sim.choice((1, 2, 128))),) + n[wpos + 1:]
    elif what == 'othertx' and btc:
        tx = w[1][2]
        new = n[:wpos] + (('btc', w[1], 0, (tx[0], tx[1], tx[2], tx[3] ^ 1)),) + n[wpos + 1:]
    elif what == 'script' and btc:
        seal, i, tx, d, meth = w[1]
        s = sim.choice((b'\x6a\x4c\x20' + d, refs.closing_script(d, 'op_return') + b'\x51', b'\x6a\x20' + d[::-1], d,
                        b'\xa9\x14' + d[:20] + b'\x87'))
        tx = (tx[0], tx[1], ((0, s),) + tx[2][1:], tx[3])
        new = n[:wpos] + (('btc', (seal, i, tx, d, meth), 0),) + n[wpos + 1:]
    elif what == 'swap' and n[0] == 'inner':
        new = n[:3] + (n[4], n[3])
    elif what == 'key' and n[0] == 'leaf':
        if fam.kk.hashing:
            k = (n[2][0] ^ 1 << sim.below(32), n[2][1])
        else:
            k = bytearray(n[2])
            k[sim.below(32)] ^= 1 << sim.below(8)
            k = bytes(k)
        new = n[:2] + (k,) + n[3:]
    elif what == 'value' and n[0] == 'leaf':
        new = n[:3] + (fam.vk.gen(sim),)
    elif what == 'child' and n[0] == 'inner':
        k = sim.choice((3, 4))
        new = n[:k] + (fam.gen(sim, fam.prefix_of(n[k])[:len(n[1]) + 1], 3),) + n[k + 1:]
    elif what == 'childseal' and n[0] == 'inner':
        # other contents of a child under its own seal
        k = sim.choice((3, 4))
        seal = fam.seal_of(n[k])
        if seal[0] == 'btc':
            c = fam.gen(sim, '', 3)
            if c[0] == 'leaf':
                c = ('leaf', fam.close(sim, seal, fam.leaf_digest(c[2], c[3])), c[2], c[3])
            else:
                c = ('unused', c[1], seal)
            new = n[:k] + (c,) + n[k + 1:]
    elif what == 'prefix' and n[0] == 'inner':
        new = n[:1] + (n[1] + '1',) + n[2:]
    if new is None or new == n:
        return None, m
    return what, replace(m, path, new)


def grow(sim, fam, u, m):
    """The object of an honest map as its owner would make it"""
    cls = fam.cls(u)
    B = u('proofmarshal.bits').Bits
    if m[0] == 'unused':
        return fam.build(u, m)
    w = m[1] if m[0] == 'leaf' else m[2]
    want = fam.contents(m)
    asked = []

    def make_witness(seal, digest):
        asked.append((seal.hash, bytes(digest)))
        return fam.make_witness(u, w)
    prefix = m[1] if m[0] == 'inner' else fam.prefix_of(m)[:sim.below(9)]
    unused = cls.UnusedPrefix(prefix=B([c == '1' for c in prefix]), seal=fam.make_seal(u, fam.seal_of(m)))
    if m[0] == 'leaf':
        o = cls.LeafPrefix.from_unused_prefix(unused, fam.kk.make(u, m[2]), fam.vk.make(u, m[3]), make_witness)
    else:
        left, right = grow(sim, fam, u, m[3]), grow(sim, fam, u, m[4])
        if w[0] == 'fake' and sim.chance(50):
            o = cls.InnerPrefix.from_children(left, right)
            sim.check(o.witness.hash == fam.witness_hash(w) and o.seal.hash == fam.seal_hash(('fake', want)), 'growth',
                      'from_children() fakes the seal of something else')
            p = ''.join('1' if b else '0' for b in o.prefix)
            a, b = fam.prefix_of(m[3]), fam.prefix_of(m[4])
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]:
                k += 1
            sim.check(p == a[:k], 'growth', 'from_children() gives the prefix %r', p)
            if p != m[1]:
                o = cls.InnerPrefix(prefix=unused.prefix, witness=o.witness, left=left, right=right)
            return o
        o = cls.InnerPrefix.from_unused_prefix(unused, left, right, make_witness)
    sim.check(asked == [(fam.seal_hash(fam.seal_of(m)), want)], 'growth', 'the seal of %s is closed over something else', m[0])
    sim.check(o.seal.hash == fam.seal_hash(fam.seal_of(m)), 'growth', 'using a prefix changes its seal')
    return o


def verify(fam, u, obj, path):
    return fam.do(u, obj, ('verify', path))


def refused(v):
    return v[0] == 'exc'


def verdict(fam, u, obj, path):
    """verify() of one prefix: True, False or 'pruned'"""
    try:
        o = obj
        for s in path:
            o = getattr(o, s)
    except u('proofmarshal.proof').PrunedError:
        return 'pruned'
    except AttributeError:
        return 'missing'
    try:
        o.verify()
        return True
    except u('proofmarshal.proof').PrunedError:
        return 'pruned'
    except Exception:
        return False


def prefixes_to(path):
    return [path[:k] for k in range(len(path) + 1)]


def run(sim):
    fam = families.pick_gumap(sim)
    honest = fam.gen(sim)
    m = honest
    done = []
    if sim.chance(60):
        for _ in range(sim.choice((1, 1, 2))):
            what, m = sabotage(sim, fam, m)
            if what:
                done.append(what)
                sim.fault('sabotage:' + what)
    sim.log('%s %s sabotaged by %s', fam.describe(), shape(m), done)
    u = world(sim, 'owner')
    obj = grow(sim, fam, u, m) if not done and sim.chance(70) else fam.build(u, m)
    root = fam.root(m)
    sim.check(obj.hash == root, 'root', '%s %s has another root', fam.describe(), shape(m))
    ns = nodes(m)
    for path, n in ns:
        want = fam.valid(n)
        got = verdict(fam, u, obj, path)
        sim.check(got == want, 'unsound' if got else 'incomplete', 'verify() of prefix %s of %s, sabotaged by %s: %s, but its '
                  'witness is %s', path, shape(m), done, got, 'right' if want else 'wrong')
    if not done:
        sim.check(all(fam.valid(n) for _, n in ns), 'harness', 'honest map is not valid')
    leaves = [p for p, n in ns if n[0] == 'leaf'] or [ns[-1][0]]
    paths = sim.sample(leaves, sim.choice((1, 1, 2)))
    stored = obj.serialize()
    gens = sim.choice((1, 2, 1, 3))
    for g in range(gens):
        v = world(sim, 'verifier%d' % g)
        loaded = fam.load(v, stored)
        sim.check(loaded.hash == root, 'root', '%s changes its root when stored (generation %d)', fam.describe(), g)
        view = loaded.prune()
        for path in paths:
            for p in prefixes_to(path):
                n = fam.at(m, p)
                if sim.chance(5):
                    interrupted(sim, lambda: verdict(fam, v, view, p), 200)
                got = verdict(fam, v, view, p)
                sim.check(got == fam.valid(n), 'restart', 'verify() of prefix %s of %s gives %s after a restart (generation %d)',
                          p, shape(m), got, g)
            n = fam.at(m, path)
            if n[0] == 'leaf':
                for op in (('key', path), ('value', path), ('prefix', path), ('seal', path)):
                    want, got = fam.expect(m, op), fam.do(v, view, op)
                    sim.check(want == got, 'restart', '%s of the entry at %s is %s, expected %s', op[0], path, show(got), show(want))
        stored = view.serialize()
    sim.nontrivial = bool(done) or gens > 1
    sim.state(shape(m), tuple(done), max(len(p) for p, _ in ns), tuple(fam.valid(fam.at(m, p)) for p in prefixes_to(paths[0])))
    # what was not on the path is either right or hidden
    v = world(sim, 'last')
    loaded = fam.load(v, stored)
    sim.check(loaded.hash == root, 'root', 'root changes')
    for path, n in ns:
        got = verdict(fam, v, loaded, path)
        sim.check(got == fam.valid(n) or (got == 'pruned' and not any(path == p[:len(path)] for p in paths)), 'restart',
                  'verify() of prefix %s of a pruned map: %s', path, got)
    # damage, and forgeries under the same seal
    txids = {refs.txid((n[1] if n[0] == 'leaf' else n[2])[1][2]) for _, n in nodes(honest)
             if n[0] != 'unused' and (n[1] if n[0] == 'leaf' else n[2])[0] == 'btc'}
    path = sim.choice(paths)
    for _ in range(sim.choice((1, 2, 4))):
        r = sim.below(10)
        if r < 6:
            kind, bad = damage(sim, stored)
        else:
            k2, m2 = sabotage(sim, fam, honest)
            if k2 is None:
                continue
            kind, bad = 'forge:' + k2, fam.build(v, m2).serialize()
        if bad == stored:
            continue
        sim.fault(kind)
        try:
            o = fam.load(v, bad)
            h = o.hash
        except Exception:
            continue
        sim.nontrivial = True
        res = [verdict(fam, v, o, p) for p in prefixes_to(path)]
        e = entry(fam, v, o, path)
        sim.state('damage', kind, h == root, tuple(res))
        sim.log(' %s: root %s, path %r', kind, 'kept' if h == root else 'changed', res)
        if h == root:
            want = [fam.valid(fam.at(m, p)) for p in prefixes_to(path)]
            for a, b in zip(res, want):
                sim.check(a in (b, 'pruned'), 'tampered', '%s changes the verdict on %s from %s to %s under the same root', kind,
                          path, b, a)
            if e is not None and fam.at(m, path)[0] == 'leaf':
                sim.check(e == (fam.at(m, path)[2], fam.at(m, path)[3]), 'tampered', '%s changes the entry under the same root', kind)
        elif all(x is True for x in res) and e is not None and fam.at(honest, path)[0] == 'leaf' if exists(honest, path) else False:
            # A different map: fine, unless it claims another entry for the same seals closed by the same transactions
            try:
                same = o.seal.hash == fam.seal_hash(fam.seal_of(honest)) and all(t in txids for t in closings(fam, v, o, path))
            except Exception:
                same = False
            if same:
                sim.probe('second map under the same closings')
                want = fam.at(honest, path)
                sim.check(e == (want[2], want[3]), 'not unique', '%s: %s leads to two entries under the same seal and the same '
                          'closing transactions', kind, path)


def exists(m, path):
    for s in path:
        if m[0] != 'inner':
            return False
        m = m[3 if s == 'left' else 4]
    return True


def entry(fam, u, obj, path):
    try:
        o = obj
        for s in path:
            o = getattr(o, s)
        return (fam.kk.plain(u, o.key), fam.vk.plain(u, o.value))
    except Exception:
        return None


def closings(fam, u, obj, path):
    """Ids of the transactions that close the seals on the path"""
    r = []
    o = obj
    W = u('proofchains.core.uniquebits.singleuseseal')
    for s in path + (None,):
        w = o.witness
        if not isinstance(w, W.FakeSealWitness):
            r.append(w.txoutproof.txproof.txhash)
        if s is not None:
            o = getattr(o, s)
    return r
