"""Invocations of sus-tool.py together with what they have to do"""

from . import families, refs
from .engine import HarnessError


def rhex(b):
    return b[::-1].hex()


class Case:
    """One invocation: arguments, input files, and the expected effect

    outputs: {path: predicate(bytes)} files that have to exist afterwards
    stdout:  predicate(text)
    ok:      whether it may succeed
    """

    def __init__(self, cmd, args, ok, outputs=None, stdout=None, why=''):
        self.cmd, self.args, self.ok, self.why = cmd, args, ok, why
        self.outputs = outputs or {}
        self.stdout = stdout

    def argv(self):
        return ['sus-tool.py'] + list(self.args)

    def judge(self, fs, out):
        """None, or what's missing of the effect that success promises"""
        if self.stdout is not None:
            r = self.stdout(out)
            if r:
                return r
        for path, pred in sorted(self.outputs.items()):
            data = fs.get(path)
            if data is None:
                return '%s does not exist' % path
            r = pred(data)
            if r:
                return '%s: %s' % (path, r)
        return None

    def describe(self):
        return ' '.join(a if len(a) < 30 else a[:12] + '..' for a in self.args)


def options(sim):
    r = []
    if sim.chance(20):
        r += [sim.choice(('-v', '-q', '-vv', '-n', '-t', '--verbose', '--quiet'))]
    return r


def gen_seal(sim):
    return (families.gen_outpoint(sim), sim.bytes(16))


def is_seal(outpoint):
    def pred(data):
        try:
            s = refs.seal_parse(data)
        except (refs.Short, refs.Bad):
            return 'is no seal'
        if s[0] != outpoint:
            return 'is a seal of another outpoint'
    return pred


def mkseal(sim, path='/w/new.seal', bad=None, name=None):
    o = families.gen_outpoint(sim)
    s = '%s:%d' % (rhex(o[0]), o[1])
    ok = True
    if bad:
        h = rhex(o[0])
        s = sim.choice(('%s:%d' % (h[:-2], o[1]), '%s:%d' % (h + '00', o[1]), '%s:%d' % (h[:-1], o[1]), h, '%s:%d:0' % (h, o[1]),
                        '%s:' % h, '%s:-1' % h, '%s:%d' % (h, 1 << 32), '%s:x' % h, ':%d' % o[1], '%sg:%d' % (h[:-1], o[1]), '',
                        '%s %d' % (h, o[1]), '%s:1.5' % h))
        if s.endswith(':-1'):
            ok = False
        ok = False
    return Case('mkseal', options(sim) + ['mkseal', '--', s, name or path] if s.startswith('-') else
                options(sim) + ['mkseal', s, name or path], ok, {path: is_seal(o)} if ok else {}, why='mkseal %s' % s)


METHOPT = {'op_return': '--op-return', 'p2sh': '--p2sh', 'p2pkh': '--p2pkh'}


def is_closetx(seals, digest, meth):
    def pred(out):
        lines = out.split('\n')
        if len(lines) != 2 or lines[1] != '':
            return 'output is not one line'
        try:
            tx = refs.tx_parse(bytes.fromhex(lines[0]))
        except (ValueError, refs.Short, refs.Bad):
            return 'output is no transaction'
        want = {s[0] for s in seals}
        got = [i[0] for i in tx[1]]
        if len(got) != len(set(got)):
            return 'transaction spends an output twice'
        if set(got) != want:
            return 'transaction does not spend the outpoints of exactly its seals'
        if not tx[2] or tx[2][0][1] != refs.closing_script(digest, meth):
            return 'transaction does not commit to the digest by %s' % meth
        if len(tx[2]) != 1:
            return 'transaction has unexpected outputs'
        if (tx[2][0][0] == 0) != (meth == 'op_return') or tx[2][0][0] < 0:
            return 'commitment has the value %d' % tx[2][0][0]
        return None
    return pred


NAMES = ('s%d', 's%d', '%d.seal', 's%d.seal', 'a b%d.seal', 'x.%d', 's%d.bak')


def put_seals(sim, fs, n, same=False):
    """(seals, names of their files)"""
    r = []
    form = sim.choice(NAMES)
    for k in range(n):
        s = gen_seal(sim)
        if r and (same or sim.chance(20)):
            s = (r[0][0], s[1])         # another seal of the same outpoint
        while s in r:
            s = (s[0], sim.bytes(15) + bytes([k + 1]))
        fs.put('/w/' + form % k, refs.seal_ser(*s))
        r.append(s)
    return r, [form % k for k in range(len(r))]


def mkclosetx(sim, fs, bad=None):
    seals, names = put_seals(sim, fs, sim.choice((1, 1, 2, 3)) if sim.chance(95) else sim.choice((5, 9, 17, 34)))
    digest = sim.bytes(32)
    meth = sim.choice(refs.METHS)
    hexd = digest.hex()
    ok = True
    why = 'mkclosetx'
    if bad:
        ok = False
        w = sim.choice(('digest', 'duplicate', 'damaged', 'missing', 'junk'))
        why += ' ' + w
        if w == 'digest':
            hexd = sim.choice((hexd[:-2], hexd + '00', hexd[:-1] + 'g', hexd[:-1]))
        elif w == 'duplicate':
            fs.put('/w/dup', refs.seal_ser(*sim.choice(seals)))
            names.insert(sim.below(len(names) + 1), 'dup')
        elif w == 'damaged':
            k = sim.below(len(names))
            b = fs.get('/w/' + names[k])
            fs.put('/w/' + names[k], b[:sim.below(len(b))])
        elif w == 'junk':
            fs.put('/w/' + sim.choice(names), sim.bytes(53)[:-1] + b'\x07' + b'x')
        else:
            names.append('nowhere')
    opt = [METHOPT[meth]] if meth != 'op_return' or sim.chance(50) else []
    pos = sim.chance(50)
    args = options(sim) + ['mkclosetx'] + (opt if pos else []) + [hexd] + names + ([] if pos else opt)
    return Case('mkclosetx', args, ok, {}, is_closetx(seals, digest, meth) if ok else None, why=why)


def is_witness(seal, tx):
    ins = [i[0] for i in tx[1]]

    def pred(data):
        try:
            w = refs.witness_parse(data)
        except (refs.Short, refs.Bad):
            return 'is no witness'
        if not refs.witness_valid(w):
            return 'is not valid'
        if w[1] != seal:
            return 'is for another seal'
        if w[2][2][1] != tx:
            return 'shows another transaction'
        if w[3][2][0] == 'pruned':
            return 'does not show the output that commits to the digest'
    return pred


def mkwitness(sim, fs, bad=None, suffix=''):
    seals, names = put_seals(sim, fs, sim.choice((1, 1, 2, 3)) if sim.chance(95) else sim.choice((5, 9, 17, 34)))
    digest = sim.bytes(32)
    tx = families.gen_tx(sim, must_spend=seals[0][0], outs={0: refs.closing_script(digest, sim.choice(refs.METHS))}, small=sim.chance(85))
    ins = [i[0] for i in tx[1]]
    vin = list(tx[1])
    for s in seals[1:]:
        if s[0] not in [i[0] for i in vin]:
            vin.insert(sim.below(len(vin) + 1), (s[0], b'', 0xffffffff))
    ok = True
    why = 'mkwitness'
    raw = None
    outs = {}
    if bad:
        ok = False
        w = sim.choice(('not-closed', 'damaged', 'tx', 'exists', 'missing'))
        why += ' ' + w
        if w == 'not-closed':
            s = sim.choice(seals)
            vin = [i for i in vin if i[0] != s[0]] or [(families.gen_outpoint(sim), b'', 0)]
            if s[0] in [i[0] for i in vin]:
                raise HarnessError('collision')
            if sim.chance(50):
                vin.append(((s[0][0], s[0][1] ^ 1), b'', 0))
        elif w == 'damaged':
            n = sim.choice(names)
            b = fs.get('/w/' + n)
            fs.put('/w/' + n, b[:sim.below(len(b))])
        elif w == 'tx':
            raw = refs.tx_ser((tx[0], tuple(vin), tx[2], tx[3])).hex()
            raw = sim.choice((raw[:-2], raw[:-1], raw[:len(raw) // 2 & ~1], raw + '00', 'zz' + raw))
        elif w == 'exists':
            fs.put('/w/' + sim.choice(names) + '.witness', b'precious')
        else:
            names.append('nowhere')
    tx = (tx[0], tuple(vin), tx[2], tx[3])
    if ok:
        outs = {'/w/%s.witness' % n: is_witness(s, tx) for n, s in zip(names, seals)}
    c = Case('mkwitness', options(sim) + ['mkwitness', '--tx', raw or refs.tx_ser(tx).hex()] + names, ok, outs, why=why)
    c.tx, c.seals, c.names, c.digest = tx, seals, names, digest
    return c


def info_lines(out, want):
    for line in want:
        if line not in out:
            return '%r is not told' % line
    return None


def sealinfo(sim, fs, bad=None):
    s = gen_seal(sim)
    b = refs.seal_ser(*s)
    if bad:
        b = sim.choice((b[:-1], b + b'\x00', b'', b'\x01' + b[1:], b[:1] + b'\x23' + b[2:], b[:20]))
    fs.put('/w/s', b)
    want = [refs.seal_hash(*s).hex(), '%s:%d\n' % (rhex(s[0][0]), s[0][1])]
    return Case('sealinfo', options(sim) + ['sealinfo', 's'], not bad, {}, lambda out: info_lines(out, want), why='sealinfo')


def witnessinfo(sim, fs, bad=None):
    seal, i, tx, digest, meth = families.WitnessFamily().gen(sim)
    b = refs.witness_ser(seal, i, tx)
    if bad:
        b = sim.choice((b[:-1], b + b'\x00', b'', b'\x01' + b[1:], b[:sim.below(len(b))]))
    fs.put('/w/w', b)
    want = [refs.witness_hash(seal, i, refs.txid(tx)).hex(), rhex(refs.txid(tx)), refs.seal_hash(*seal).hex(),
            '%s:%d\n' % (rhex(seal[0][0]), seal[0][1])]
    return Case('witnessinfo', options(sim) + ['witnessinfo', 'w'], not bad, {}, lambda out: info_lines(out, want),
                why='witnessinfo')


def verifywitness(sim, fs, bad=None):
    seal, i, tx, digest, meth = families.WitnessFamily().gen(sim)
    args = []
    why = 'verifywitness'
    d, sf, sid = digest, seal, seal
    use = [sim.chance(50), sim.chance(50), sim.chance(50)]
    b = refs.witness_ser(seal, i, tx)
    if bad:
        w = sim.choice(('digest', 'seal-file', 'seal-id', 'index', 'truncated', 'other-tx', 'outpoint', 'baddigest'))
        why += ' ' + w
        if w == 'digest':
            d = sim.choice((refs.sha256(d), d[::-1] if d[::-1] != d else refs.sha256(d)))
            use[0] = True
        elif w == 'baddigest':
            use[0] = True
            d = d[:-1]
        elif w == 'seal-file':
            sf = (seal[0], refs.sha256(seal[1])[:16])
            use[1] = True
        elif w == 'seal-id':
            sid = ((seal[0][0], seal[0][1] ^ 1), seal[1])
            use[2] = True
        elif w == 'index':
            b = refs.witness_ser(seal, i + 1 if i + 1 >= len(tx[1]) or tx[1][i + 1][0] != seal[0] else len(tx[1]), tx)
        elif w == 'truncated':
            b = b[:sim.below(len(b))]
        elif w == 'other-tx':
            b = refs.witness_ser(seal, i, tx, 0, (tx[0], tx[1], tx[2], tx[3] ^ 1))
        else:
            b = refs.witness_ser(((seal[0][0], seal[0][1] ^ 1), seal[1]), i, tx)
    fs.put('/w/w', b)
    fs.put('/w/s', refs.seal_ser(*sf))
    if use[0]:
        args += ['-d', d.hex()]
    if use[1]:
        args += ['--seal-file', 's']
    if use[2]:
        args += ['--seal-id', refs.seal_hash(*sid).hex()]
    local = sim.chance(85)
    if local:
        args += [sim.choice(('--local', '-l'))]
    pos = sim.chance(50)
    c = Case('verifywitness', options(sim) + ['verifywitness'] + (['w'] + args if pos else args + ['w']), not bad, why=why)
    c.local = local
    return c


OFFLINE = (mkseal, mkclosetx, mkwitness, sealinfo, witnessinfo, verifywitness)


def gen_case(sim, fs, bad=None):
    f = sim.choice(OFFLINE)
    if f is mkseal:
        if bad:
            if sim.chance(30):
                fs.put('/w/new.seal', b'precious')
                return Case('mkseal', mkseal(sim).args, False, why='mkseal exists')
        return mkseal(sim, bad=bad)
    return f(sim, fs, bad)


SUBCOMMANDS = ('mkseal', 'mkclosetx', 'mkwitness', 'verifywitness', 'sealinfo', 'witnessinfo')
