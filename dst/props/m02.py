"""M02: whoever stores or sends a proof can't change what it says about its root"""

from .. import families
from .common import world, show, damage, MARSHAL_REAL, STUBS

RUNS = {'quick': 8000, 'thorough': 150000}
RULE = ('One run: an honest prover serializes a (pruned) proof under a root; an adversary damages bytes, splices in parts of '
        'other proofs, hides or forges nodes; a verifier that knows only the root loads the result and asks questions. '
        'Non-trivial: at least one tampered proof could be loaded.')
STATE = 'distinct (kind of structure, tampering, kept the root, outcome of a question) tuples'
SEARCH = 'tampering with stored proofs'
ORACLE = 'plain Python model of the original contents; answers of several disclosures of one root must agree'
REAL = MARSHAL_REAL + ['proofmarshal.merbinnertree', 'proofmarshal.mmr', 'proofchains.core.bitcoin',
                       'proofchains.core.uniquebits.singleuseseal', 'proofchains.core.uniquebits.gumap', 'bitcoin.core']
STUB = STUBS + ['adversary (byte level and structural tampering)']
ASSUMPTIONS = ['SHA256 has no collisions among the values tried',
               'the verifier compares the root of what it loaded with the one it trusts']


def answer(fam, u, obj, op):
    try:
        return fam.do(u, obj, op)
    except RecursionError:
        return ('exc', 'RecursionError')
    except Exception as exc:
        return ('exc', type(exc).__name__)


def hidden(sim, fam, u, obj, model):
    """An encoding of obj that shows only parts of it"""
    view = obj.prune()
    for _ in range(sim.choice((1, 0, 2, 4))):
        answer(fam, u, view, fam.op(sim, model))
    return view.serialize()


def splice(sim, a, b, chunk=None):
    """Replace a part of a by a part of b"""
    n = sim.choice((1, 16, 32, 33, 34, 36))
    i = sim.below(max(1, len(a)))
    j = sim.below(max(1, len(b)))
    return a[:i] + b[j:j + n] + a[i + n:]


def run(sim):
    fam = families.pick(sim)
    u = world(sim, 'prover')
    model = fam.gen(sim)
    root = fam.root(model)
    obj = fam.build(u, model)
    honest = obj.serialize() if sim.chance(40) else hidden(sim, fam, u, obj, model)
    other = None
    sim.log('%s: %d bytes of root %s', fam.describe(), len(honest), root.hex()[:8])
    v = world(sim, 'verifier')
    trusted = fam.load(v, honest)
    sim.check(trusted.hash == root, 'root', 'honest proof of a %s has another root', fam.describe())
    for attempt in range(sim.choice((3, 6, 10))):
        what = sim.weighted((6, 'damage'), (3, 'splice'), (3, 'hide'), (2, 'move'), (2, 'other'))
        if what == 'damage':
            kind, bad = damage(sim, honest)
        elif what == 'splice':
            if other is None:
                other = fam.build(u, fam.gen(sim)).serialize()
            bad = splice(sim, honest, other)
        elif what == 'other':
            # another proof about nearly the same thing
            m2 = mutate(sim, fam, model)
            if m2 is None:
                continue
            other = fam.build(u, m2).serialize()
            bad = other if sim.chance(70) else splice(sim, other, honest)
        elif what == 'move':
            bad = splice(sim, honest, honest)
        else:
            # Not all is shown; what is shown has to stay true
            bad = hidden(sim, fam, v, fam.load(v, honest), model)
            if sim.chance(40):
                kind, bad = damage(sim, bad, ('bitflip', 'byte', 'dup', 'swap'))
                what = 'hide+' + kind
        if bad == honest:
            continue
        sim.fault(what.split('+')[0])
        try:
            forged = fam.load(v, bad)
            h = forged.hash
        except RecursionError:
            continue
        except Exception as exc:
            sim.log(' %s: refused', what)
            sim.state(fam.name, what, 'refused')
            continue
        sim.nontrivial = True
        kept = h == root
        sim.log(' %s: loads, root %s', what, 'kept' if kept else 'changed')
        sim.check((forged == trusted) == kept, 'equality', 'equality of proofs and of their roots differ')
        if what == 'hide':
            sim.check(kept, 'root', '%s: hiding parts changes the root', fam.describe())
        if what == 'other' and bad is other:
            sim.check(not kept, 'collision', '%s: two different contents have the same root', fam.describe())
        for _ in range(4):
            op = fam.op(sim, model)
            got = answer(fam, v, forged, op)
            if kept:
                # Same root: same answers, or none
                want = fam.expect(model, op)
                sim.state(fam.name, what, kept, got[0], got[1] if got[0] == 'exc' else '')
                if got == ('exc', 'PrunedError'):
                    continue
                sim.check(got == want, 'forged', '%s: %s of a tampered proof (%s) under the same root gives %s, expected %s',
                          fam.describe(), show(op), what, show(got), show(want))
            elif op[0] not in ('eq', 'hash'):
                # A fake commitment: proofs of it that show different parts don't contradict each other
                try:
                    part = fam.load(v, hidden(sim, fam, v, forged, model))
                except Exception:
                    continue
                sim.probe('fake-commitment')
                sim.check(part.hash == h, 'root', '%s: hiding parts of a fake commitment changes its root', fam.describe())
                again = answer(fam, v, part, op)
                sim.state(fam.name, what, kept, got[0], again[0])
                if 'PrunedError' in (again[1], got[1]) or got[0] == again[0] == 'exc':
                    continue
                sim.check(got == again, 'contradiction', '%s: two proofs of a fake commitment answer %s with %s and %s',
                          fam.describe(), show(op), show(got), show(again))


def mutate(sim, fam, m):
    """Contents that differ in one place"""
    if fam.name == 'map':
        m2 = dict(m)
        k = fam.any_key(sim, m, 30)
        if k in m2 and sim.chance(50):
            del m2[k]
        else:
            m2[k] = fam.vk.gen(sim, 3)
        return m2 if m2 != m else None
    if fam.name == 'list':
        m2 = list(m)
        w = sim.choice(('set', 'drop', 'insert', 'swap'))
        if not m2:
            w = 'insert'
        i = sim.below(max(1, len(m2)))
        if w == 'set':
            m2[i] = fam.vk.gen(sim, 3)
        elif w == 'drop':
            del m2[i]
        elif w == 'insert':
            m2.insert(i, fam.vk.gen(sim, 3))
        else:
            j = sim.below(len(m2))
            m2[i], m2[j] = m2[j], m2[i]
        return tuple(m2) if tuple(m2) != m else None
    if fam.name == 'struct':
        return _mut_struct(sim, fam, m)
    if fam.name == 'witness':
        seal, i, tx, digest, meth = m
        w = sim.choice(('outpoint', 'nonce', 'tx', 'index'))
        if w == 'nonce':
            n = bytearray(seal[1])
            n[sim.below(16)] ^= 1 << sim.below(8)
            return ((seal[0], bytes(n)), i, tx, digest, meth)
        if w == 'outpoint':
            return (((seal[0][0], seal[0][1] ^ (1 << sim.below(32))), seal[1]), i, tx, digest, meth)
        if w == 'tx':
            return (seal, i, (tx[0], tx[1], tx[2], tx[3] ^ 1), digest, meth)
        return (seal, i + sim.choice((1, 128, 0x10000)), tx, digest, meth)
    if fam.name == 'txpart':
        kind, n, tx = m
        if kind == 'tx' or sim.chance(50):
            return (kind, n, (tx[0], tx[1], tx[2], tx[3] ^ 1 << sim.below(32)))
        return (kind, n ^ 1 << sim.below(32), tx)
    if fam.name == 'gumap':
        return _mut_gumap(sim, fam, m)
    return None


def _mut_gumap(sim, fam, m):
    def bit(b):
        i = sim.below(len(b))
        return b[:i] + bytes([b[i] ^ 1 << sim.below(8)]) + b[i + 1:]

    def seal(s):
        if s[0] == 'fake':
            return ('fake', bit(s[1]))
        if sim.chance(50):
            return ('btc', (s[1][0], s[1][1] ^ 1 << sim.below(32)), s[2])
        return ('btc', s[1], bit(s[2]))

    def witness(w):
        if w[0] == 'fake':
            return ('fake', bit(w[1]))
        return ('btc', mutate(sim, fam.wf, w[1])) + w[2:]

    def prefix(p):
        k = sim.choice(('flip', 'longer', 'shorter')) if p else 'longer'
        if k == 'longer':
            return p + sim.choice('01')
        if k == 'shorter':
            return p[:-1]
        i = sim.below(len(p))
        return p[:i] + ('1' if p[i] == '0' else '0') + p[i + 1:]
    m = list(m)
    if m[0] == 'unused':
        i = sim.choice((1, 2))
        m[i] = prefix(m[1]) if i == 1 else seal(m[2])
    elif m[0] == 'leaf':
        i = sim.choice((1, 2, 3))
        new = witness(m[1]) if i == 1 else (m[2][0] ^ 1, m[2][1]) if i == 2 and fam.kk.hashing else bit(m[2]) if i == 2 else fam.vk.gen(sim, 3)
        if new == m[i]:
            return None
        m[i] = new
    else:
        i = sim.choice((1, 2, 3, 4, 5))
        if i == 5:
            m[3], m[4] = m[4], m[3]
        elif i > 2:
            m[i] = _mut_gumap(sim, fam, m[i])
            if m[i] is None:
                return None
        else:
            m[i] = prefix(m[1]) if i == 1 else witness(m[2])
    return tuple(m)


def _mut_struct(sim, fam, m):
    t, d = m
    if not d:
        return None
    d = dict(d)
    name, k = sim.choice(fam.SCHEMA[t])
    if isinstance(k, families.Kind):
        v = k.gen(sim)
        if v == d[name]:
            return None
        d[name] = v
    else:
        sub = _mut_struct(sim, fam, d[name])
        if sub is None:
            return None
        d[name] = sub
    return (t, d)
