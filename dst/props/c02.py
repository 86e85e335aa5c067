"""C02: a witness is accepted exactly if it shows that its seal was closed"""

from .. import families, refs, simfs
from .common import interrupted, world, show, damage, MARSHAL_REAL, STUBS

RUNS = {'quick': 5000, 'thorough': 150000}
RULE = ('One run: a witness is made (honest, or built by an adversary from any mixture of transactions, indexes and hidden '
        'parts), stored, possibly damaged on disk or in transit, and verified by another process through the library and '
        'through sus-tool; an independent parser decides what has to be accepted.  Non-trivial: the stored bytes were '
        'tampered with or the witness is not honest.')
STATE = 'distinct (construction, damage, valid, closes, verdict) tuples'
SEARCH = 'adversarial witnesses and storage damage'
ORACLE = 'independent parser and verifier of witness bytes decides the verdict, both ways'
REAL = MARSHAL_REAL + ['proofchains.core.bitcoin', 'proofchains.core.uniquebits.singleuseseal', 'bitcoin.core',
                       'bitcoin.core.script', 'sus-tool.py']
STUB = STUBS
ASSUMPTIONS = ['SHA256 and HASH160 have no collisions among the values tried', 'asserts are enabled (no python -O)']


def near(sim, o):
    """An outpoint that is easily mistaken for o"""
    w = sim.below(5)
    if w == 0:
        return (o[0], o[1] ^ (1 << sim.below(32)))
    if w == 1:
        return (o[0][::-1], o[1])
    if w == 2:
        h = bytearray(o[0])
        h[sim.below(32)] ^= 1 << sim.below(8)
        return (bytes(h), o[1])
    if w == 3:
        return (o[0], 0xffffffff)
    return (o[0], 0)


def near_script(sim, digest):
    """A script that is easily mistaken for a commitment"""
    s = refs.closing_script(digest, sim.choice(refs.METHS))
    h = refs.hash160(digest)
    return sim.choice((
        s + b'\x51', s[:-1], b'\x51' + s, b'\x6a\x4c\x20' + digest, b'\x6a' + digest, b'\x6a\x20' + digest[::-1],
        b'\x6a\x20' + digest + b'\x20' + digest, b'\xa9\x4c\x14' + h + b'\x87', b'\xaa\x20' + digest + b'\x87', b'',
        b'\xa9\x14' + h[::-1] + b'\x87', b'\xa9\x14' + h + b'\x88', b'\x76\xa9\x14' + h + b'\x87\xac', b'\x20' + digest,
        b'\x76\xa9\x14' + h + b'\x88\xad', b'\x6a\x14' + h, b'\x6a\x20' + refs.sha256(digest), digest, h,
        refs.closing_script(refs.sha256(digest), sim.choice(refs.METHS))))


def gen(sim):
    """(witness bytes, digest it's about, seal)"""
    wf = families.WitnessFamily()
    seal, i, tx, digest, meth = wf.gen(sim)
    how = sim.weighted((5, 'honest'), (2, 'index'), (2, 'outindex'), (2, 'outpoint'), (2, 'script'), (2, 'othertx'),
                       (4, 'pruned'), (1, 'shared'))
    tx2, j = tx, 0
    if how == 'index':
        i = sim.choice((i + 1, 0, len(tx[1]), 0xffffffff, i + (1 << 16), len(tx[1]) - 1))
        i &= 0xffffffff
    elif how == 'outindex':
        j = sim.choice((1, 2, 128, 0xffffffff, 0))
        while len(tx[2]) <= j < 4:
            tx = (tx[0], tx[1], tx[2] + ((0, refs.closing_script(digest, sim.choice(refs.METHS))),), tx[3])
        tx2 = tx
    elif how == 'outpoint':
        seal = (near(sim, seal[0]), seal[1])
    elif how == 'script':
        tx = tx2 = (tx[0], tx[1], ((tx[2][0][0], near_script(sim, digest)),) + tx[2][1:], tx[3])
    elif how == 'othertx':
        tx2 = sim.choice(((tx[0] ^ 1, tx[1], tx[2], tx[3]), (tx[0], tx[1], tx[2], tx[3] ^ 1),
                          (tx[0], tx[1], tx[2] + ((0, b''),), tx[3]),
                          families.gen_tx(sim, must_spend=seal[0], outs={0: refs.closing_script(digest, meth)}, small=True)))
        if sim.chance(50):
            tx, tx2 = tx2, tx
            ins = [x[0] for x in tx[1]]
            i = ins.index(seal[0]) if seal[0] in ins else i
    elif how == 'shared':
        # several inputs and outputs look right
        tx = tx2 = (tx[0], tx[1] + (tx[1][i],), tx[2] + (tx[2][0],), tx[3])
        i = sim.choice((i, len(tx[1]) - 1))
    if how == 'pruned' or sim.chance(15):
        def part(ser, dh):
            return b'\xff' + dh if sim.chance(35) else ser
        s = part(refs.seal_ser(*seal), refs.sha256(refs.outpoint_field(seal[0]) + seal[1]))
        t1 = part(refs.txproof_ser(tx), refs.txid(tx))
        t2 = part(refs.txproof_ser(tx2), refs.txid(tx2))
        a = part(b'\x00' + refs.varuint(i) + t1, refs.sha256(refs.varuint(i) + refs.txproof_hash(refs.txid(tx))))
        c = part(b'\x00' + refs.varuint(j) + t2, refs.sha256(refs.varuint(j) + refs.txproof_hash(refs.txid(tx2))))
        b = b'\x00' + s + a + c
        if sim.chance(5):
            b = b'\xff' + sim.bytes(32)
    else:
        b = refs.witness_ser(seal, i, tx, j, tx2)
    return how, b, digest, seal


def reference(b):
    """The parsed witness or None, and whether it's valid"""
    try:
        w = refs.witness_parse(b)
    except (refs.Short, refs.Bad):
        return None, False
    return w, refs.witness_valid(w)


def run(sim):
    how, b, digest, seal = gen(sim)
    sim.log('%s witness, %d bytes %s', how, len(b), refs.sha256(b).hex()[:8])
    u = world(sim, 'verifier')
    m = u('proofchains.core.uniquebits.singleuseseal')
    damages = [None]
    for _ in range(sim.choice((2, 1, 3, 5))):
        damages.append(damage(sim, b))
    for dmg in damages:
        bad = b
        kind = 'none'
        if dmg is not None:
            kind, bad = dmg
            sim.fault(kind)
        if kind != 'none' or how != 'honest':
            sim.nontrivial = True
        w, valid = reference(bad)
        try:
            obj = m.BitcoinSealWitness.deserialize(bad)
            if sim.chance(8):
                interrupted(sim, obj.verify, 60)
            obj.verify()
            accepted = True
        except Exception as exc:
            accepted = False
            if dmg is None and valid:
                sim.fail('incomplete', 'valid %s witness is refused: %s: %s', how, type(exc).__name__, exc)
        sim.log(' %s: valid %s', kind, accepted)
        if w is not None and w[0] != 'pruned':
            parts(sim, obj, w, how, kind)
        sim.check(accepted == valid, 'unsound' if accepted else 'incomplete',
                  '%s witness, damage %s: accepted: %s, shows that its seal was closed: %s', how, kind, accepted, valid)
        digests = [digest, refs.sha256(digest), digest[::-1], digest[:31], digest + b'\x00', b'', refs.hash160(digest)]
        for d in [digest] + sim.sample(digests, 2):
            closes = w is not None and w[0] != 'pruned' and w[3][0] != 'pruned' and refs.witness_closes(w, d)
            try:
                obj.verify_hash(d)
                got = True
            except Exception:
                got = False
            if w is None:
                continue
            sim.state(how, kind, valid, closes, got)
            sim.check(got == closes, 'unsound' if got else 'incomplete',
                      '%s witness, damage %s: digest of %d bytes is accepted: %s, committed to: %s', how, kind, len(d), got, closes)
        if valid and accepted:
            # its public face
            sim.check((obj.seal.outpoint.hash, obj.seal.outpoint.n) == w[1][0] and obj.seal.nonce == w[1][1], 'seal',
                      'witness names another seal')
            sim.check(obj.seal.hash == refs.seal_hash(*w[1]), 'seal-id', 'witness names another seal')
            t = refs.txid(w[2][2][1])
            sim.check(obj.txinproof.txproof.txhash == t == obj.txoutproof.txproof.txhash, 'txid',
                      'witness names another transaction')
    if sim.chance(25):
        tool(sim, b if sim.chance(70) else damages[-1][1], digest, seal, how)


def parts(sim, obj, w, how, kind):
    """The proofs of input and output on their own"""
    for name, p, ref, k in (('input', obj.txinproof, w[2], 1), ('output', obj.txoutproof, w[3], 2)):
        if ref[0] == 'pruned' or ref[2][0] == 'pruned':
            want = False
        else:
            want = ref[1] < len(ref[2][1][k])
        try:
            p.verify()
            got = True
        except Exception:
            got = False
        sim.check(got == want, 'unsound' if got else 'incomplete', '%s witness, damage %s: the proof of its %s verifies: %s, the '
                  'transaction has it: %s', how, kind, name, got, want)


def tool(sim, b, digest, seal, how):
    """The same decision by the command line tool"""
    w, valid = reference(b)
    fs = simfs.FS(sim)
    fs.trace = False
    fs.put('/w/a.witness', b)
    args = ['sus-tool.py', 'verifywitness', '--local', 'a.witness']
    want = valid
    d = sim.choice((None, digest, refs.sha256(digest), digest[::-1]))
    if d is not None:
        args += ['-d', d.hex()]
        want = want and refs.witness_closes(w, d)
    other = sim.choice((None, seal, (near(sim, seal[0]), seal[1]), (seal[0], seal[1][::-1])))
    if other is not None and sim.chance(60):
        fs.put('/w/a.seal', refs.seal_ser(*other))
        args += ['--seal-file', 'a.seal']
        want = want and w[1] == other
    sid = sim.choice((None, seal, (seal[0], refs.sha256(seal[1])[:16])))
    if sid is not None and sim.chance(60):
        args += ['--seal-id', refs.seal_hash(*sid).hex()]
        want = want and w[1] == sid
    u = world(sim, 'tool', fs=fs)
    ex = u.run_main(sim.repo + '/sus-tool.py', args)
    sim.log('%s -> %r', args[1:], ex)
    sim.probe('tool')
    sim.check((ex.status == 0) == bool(want), 'tool-unsound' if ex.status == 0 else 'tool-incomplete',
              '%s of a %s witness exits with %s, expected %s', ' '.join(a[:20] for a in args[1:]), how, ex.status,
              'success' if want else 'failure')
