"""S01: parties that sign one transaction together agree with the reference client on which inputs may be spent"""

from .. import refs, script_ref as R, secp
from ..engine import Violation
from ..families import make_tx, plain_tx
from ..sched import Scheduler
from .common import world, damage
from .k01 import Entropy

RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('One run: two or three parties own outputs with locks of many kinds (keys, key hashes, m of n, escrow, hash locks, separators, programs; bare or behind a script hash) '
        'and build, sign and exchange a transaction that spends them, over a network that loses, repeats, reorders and damages messages, while parties restart '
        'and an adversary in between changes the transaction, the signatures and the scripts; everybody verifies everything that arrives, also in several threads.  '
        'Non-trivial: a signature is verified after something was changed, or a program is run.')
STATE = 'distinct (kind of lock, hash types, what was changed, verdict) tuples'
SEARCH = 'histories of signing and exchange, hash types, contracts, message loss, damage and adversarial changes, restarts, thread interleavings'
ORACLE = 'independent script interpreter, signature hash and ECDSA in Python'
REAL = ['bitcoin.core.script', 'bitcoin.core.scripteval', 'bitcoin.core._bignum', 'bitcoin.core.key', 'bitcoin.wallet', 'bitcoin.core', 'bitcoin.core.serialize', 'OpenSSL (libcrypto), except its entropy source']
STUB = ['network between the parties', 'adversary', 'thread scheduling', 'entropy (of OpenSSL too)']
ASSUMPTIONS = ['consensus rules up to BIP 16, signatures in strict DER (as OpenSSL requires it)', 'calls into OpenSSL are atomic (one simulated thread runs at a time)']

HASHTYPES = (1, 1, 1, 2, 3, 0x81, 0x82, 0x83)
ODD_HASHTYPES = (0, 4, 0x80, 0x41, 0x43, 0x1f, 0x22, 0xff, 0xc3)
_pubs = {}


def pub_of(secret, compressed):
    k = (secret, compressed)
    if k not in _pubs:
        _pubs[k] = secp.pubkey(secret, compressed)
    return _pubs[k]


def n_op(n):
    return b'\x00' if n == 0 else bytes([0x50 + n])


# -- locks -----------------------------------------------------------------

class Lock:
    """An output script; its unlocking script consists of parts, some of which are signatures"""

    def __init__(self, kind, script, parts):
        self.kind = kind
        self.inner = script
        self.script = script
        self.redeem = None
        self.parts = parts      # bytes to push as they are, or (key, code) for a signature, or int for OP_n

    def wrap(self):
        self.redeem = self.inner
        self.script = b'\xa9\x14' + refs.hash160(self.inner) + b'\x87'
        self.kind = 'p2sh ' + self.kind


class Key:
    def __init__(self, secret, compressed):
        self.secret, self.compressed = secret, compressed
        self.pub = pub_of(secret, compressed)


def gen_lock(sim, keys):
    """keys: of all parties"""
    P = refs.push
    k = [sim.choice(keys) for _ in range(4)]
    kind = sim.choice(('pk', 'pkh', 'pkh', 'multi', 'multi', 'escrow', 'hashlock', 'chain', 'separator', 'program', 'data', 'notif', 'self', 'bare', 'bare'))
    if kind == 'bare':
        # no signature: what counts is what is left on the stack
        s = sim.choice(BARE) if sim.chance(80) else limits(sim)[1]
        parts = [sim.choice((b'', b'\x00', b'\x80', b'\x00\x80', b'\x01', 1, 0)) for _ in range(sim.below(3))]
    elif kind == 'pk':
        s = P(k[0].pub) + b'\xac'
        parts = [(k[0], s)]
    elif kind == 'pkh':
        s = b'\x76\xa9' + P(refs.hash160(k[0].pub)) + b'\x88\xac'
        parts = [(k[0], s), k[0].pub]
    elif kind == 'multi':
        n = sim.choice((1, 2, 3, 3, 5, 16))
        m = min(n, sim.choice((1, 2, 2, 3, 0, 15)))
        ks = [sim.choice(keys) for _ in range(n)]
        verify = sim.chance(20)
        s = n_op(m) + b''.join(P(x.pub) for x in ks) + n_op(n) + (b'\xaf\x51' if verify else b'\xae')
        pos = sorted(sim.sample(range(n), m))
        parts = [b''] + [(ks[i], s) for i in pos]
    elif kind == 'escrow':
        # IF a and b ELSE c
        s = b'\x63\x52' + P(k[0].pub) + P(k[1].pub) + b'\x52\xae\x67' + P(k[2].pub) + b'\xac\x68'
        if sim.chance(50):
            parts = [b'', (k[0], s), (k[1], s), 1]
        else:
            parts = [(k[2], s), sim.choice((0, b'\x80', b'\x00'))]
    elif kind == 'hashlock':
        pre = sim.bytes(sim.choice((0, 1, 20, 32, 520)))
        op, h = sim.choice(((0xa6, 'ripemd160'), (0xa7, 'sha1'), (0xa8, 'sha256'), (0xa9, 'h160'), (0xaa, 'h256')))
        st = [pre]
        R.evaluate(st, bytes([op]), (1, (), (), 0), 0)
        s = bytes([op]) + P(st[0]) + b'\x88' + P(k[0].pub) + b'\xac'
        parts = [(k[0], s), pre]
    elif kind == 'chain':
        s = P(k[0].pub) + b'\xad' + P(k[1].pub) + b'\xac'
        parts = [(k[1], s), (k[0], s)]
    elif kind == 'separator':
        # each signature covers what follows the last separator
        tail = P(k[1].pub) + b'\xac'
        how = sim.below(4)
        if how == 0:
            s = P(k[0].pub) + b'\xad\xab' + tail
            parts = [(k[1], tail), (k[0], s)]
        elif how == 1:
            s = b'\xab' + P(k[0].pub) + b'\xad\xab' + tail
            parts = [(k[1], tail), (k[0], s[1:])]
        elif how == 2:
            s = b'\x00\x63\xab\x68' + P(k[0].pub) + b'\xad' + tail
            parts = [(k[1], s), (k[0], s)]
        else:
            s = b'\x75\xab' + b'\x51' + tail[:-1] + b'\x51\xae'
            parts = [b'', (k[1], s[2:]), b'\x01\xab']
    elif kind == 'program':
        body, start = program(sim)
        # the signature lies below what the program works on
        s = body + P(k[0].pub) + b'\xac'
        parts = [(k[0], s)] + start
    elif kind == 'data':
        # data pushed in all ways
        d = sim.bytes(sim.choice((1, 2, 75, 76, 255, 256, 520)))
        how = sim.choice((0x4c, 0x4d, 0x4e)) if len(d) < 256 else sim.choice((0x4d, 0x4e))
        w = 1 << (how - 0x4c)
        s = bytes([how]) + len(d).to_bytes(w, 'little') + d + b'\x75' + P(k[0].pub) + b'\xac'
        parts = [(k[0], s)]
    elif kind == 'notif':
        s = b'\x64' + P(k[0].pub) + b'\xac\x67\x82\x00\x9c\x69' + P(k[1].pub) + b'\x7c\x91\x69\xac\x68'
        parts = [(k[0], s), 0] if sim.chance(50) else [(k[1], s), b'', 1]
    else:
        # the script contains a signature of another transaction
        sig = secp.sign(k[1].secret, sim.bytes(32), 77) + b'\x01'
        s = P(sig) + b'\x75' + P(k[0].pub) + b'\xac'
        parts = [(k[0], s), sig] if sim.chance(20) else [(k[0], s)]
    lock = Lock(kind, s, parts)
    if len(s) <= 520 and sim.chance(35):
        lock.wrap()
    return lock


def whole(s):
    p = 0
    while p < len(s):
        r = R.next_op(s, p)
        if r is None:
            return False
        p = r[2]
    return True


# -- programs --------------------------------------------------------------

NUMS = (0, 1, 2, 3, 5, 16, 17, -1, -2, 127, 128, 129, 255, 256, -127, -128, -255, 32767, 32768, -32768, 65535, 65536, (1 << 31) - 1, 1 - (1 << 31), 8388607, 8388608)
DATA = (b'', b'\x00', b'\x80', b'\x00\x80', b'\x01\x00', b'\x00\x00', b'\x81', b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff', b'\x00\x00\x00\x80', b'\x01\x00\x00\x00\x00',
        b'\x00\x00\x00\x00\x80', b'\x01\x00\x80', b'\x10', b'\x05\x80')
BARE = (b'\x00', b'\x6a', b'\x00\x63', b'\x75', b'\x4c', b'\x51', b'', b'\x51\x75', b'\x7e\x51', b'\x01\x00', b'\x01\x80', b'\x02\x00\x80', b'\x02\x80\x00', b'\x4f', b'\x61',
        b'\x51\x61', b'\x73', b'\x74', b'\x76', b'\x91', b'\x63\x51\x67\x00\x68', b'\x51\x67\x68', b'\x51\x68', b'\x00\x00', b'\x51\x00', b'\x00\x51')
OPS = tuple(x for x in range(0x4f, 0xba) if x not in (0x65, 0x66) and x not in R.DISABLED and not 0xac <= x <= 0xaf)


def gen_push(sim):
    k = sim.below(5)
    if k == 0:
        return n_op(sim.below(17))
    if k == 1:
        return refs.push(R.enc(sim.choice(NUMS)))
    if k == 2:
        return refs.push(sim.choice(DATA))
    if k == 3:
        d = sim.choice(DATA + (sim.bytes(20),))
        how = sim.choice((0x4c, 0x4d, 0x4e))
        return bytes([how]) + len(d).to_bytes(1 << (how - 0x4c), 'little') + d
    return refs.push(sim.bytes(sim.choice((1, 2, 3, 4, 5, 20, 32, 33))))


def program(sim):
    """Operations that don't fail (mostly), and what has to be on the stack before"""
    start = [R.enc(sim.choice(NUMS)) if sim.chance(60) else sim.choice(DATA) for _ in range(sim.below(4))]
    body = b''
    for _ in range(sim.choice((3, 8, 15, 30))):
        op = gen_push(sim) if sim.chance(30) else bytes([sim.choice(OPS)]) if sim.chance(65) else snippet(sim)
        if runs(start, body + op) or sim.chance(2):
            body += op
    # close conditionals
    for _ in range(4):
        try:
            R.evaluate(list(start), body, (1, (), (), 0), 0)
            break
        except R.Fail as f:
            if str(f) != 'conditional':
                break
            body += b'\x68'
    return body, start


def number(sim):
    return refs.push(R.enc(sim.choice(NUMS)))


def snippet(sim):
    """Operations that go together"""
    k = sim.below(12)
    a = gen_push(sim)
    if k == 0:
        return n_op(sim.below(5)) + sim.choice((b'\x79', b'\x7a'))
    if k == 1:
        return a + a + b'\x88'
    if k == 2:
        return a + b'\x6b' + gen_push(sim) + b'\x6c'
    if k == 3:
        return a + sim.choice((b'\x63', b'\x64')) + gen_push(sim) + sim.choice((b'', b'\x67' + gen_push(sim), b'\x67\x67' + gen_push(sim))) + b'\x68'
    if k == 4:
        n = sim.choice(NUMS)
        return refs.push(R.enc(n)) + refs.push(R.enc(n + sim.choice((-1, 0, 1)))) + refs.push(R.enc(n + sim.choice((-1, 0, 1)))) + b'\xa5'
    if k == 5:
        n = sim.choice(NUMS)
        return refs.push(R.enc(n)) + refs.push(R.enc(n + sim.choice((0, 0, 1, -1)))) + bytes([sim.choice((0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0x93, 0x94, 0x9a, 0x9b))])
    if k == 6:
        return number(sim) + bytes([sim.choice((0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92))])
    if k == 7:
        return refs.push(sim.choice(DATA)) + bytes([sim.choice((0x73, 0x69, 0x8b, 0x91, 0x92, 0x82, 0x8f, 0x90, 0x63, 0x64))])
    if k == 8:
        return sim.choice((b'\x6b', b'\x6c'))
    if k == 9:
        return a + bytes([sim.choice((0xa6, 0xa7, 0xa8, 0xa9, 0xaa))])
    if k == 10:
        # unlike numbers that are equal
        return sim.choice((b'\x01\x00', b'\x00', b'\x01\x80', b'\x02\x00\x00')) + sim.choice((b'\x01\x00', b'\x00', b'\x01\x80')) + sim.choice((b'\x9c', b'\x87', b'\x9a', b'\x9b'))
    return sim.choice((b'\x74', b'\x76\x87', b'\x5a\x5b\x5c\x6f', b'\x51\x52\x53\x54\x55\x56\x71', b'\x51\x52\x53\x54\x72', b'\x51\x52\x53\x54\x70', b'\x55\x56\x7d', b'\x51\x52\x53\x7b',
                       b'\x51\x52\x7c', b'\x51\x52\x78', b'\x51\x52\x77', b'\x00\x63\x50\x62\x89\x8a\x6a\xff\x68'))


def contrived(sim):
    """A script that contains its own signature: (unlock, script, transaction)"""
    tx = (1, (((b'\x05' * 32, 1), b'', 0), ((b'\x06' * 32, 0), b'', 9)), ((1, b''), (2, b'\x51'))[:sim.choice((2, 1, 0))], 0)
    i = sim.below(2)
    ht = sim.choice(HASHTYPES)
    k1, k2 = Key(1, sim.chance(50)), Key(2, sim.chance(50))
    sep = [sim.choice((b'', b'', b'\xab')) for _ in range(4)]
    enc = sim.choice((refs.push, refs.push, refs.push, lambda s: b'\x4c' + bytes([len(s)]) + s))
    junk = sim.choice((b'', b'', b'\x51\x75', b'\x00\x75', b'\x4c\x01\xab\x75', b'\x02\xab\xab\x75'))
    twice = sim.chance(30)

    def make(sig, sig2=b''):
        if how == 0:
            s = sep[0] + junk + (enc(sig) + b'\x75' if twice else b'') + enc(sig) + sep[1] + refs.push(k1.pub) + sep[2] + b'\xac'
        elif how == 1:
            s = sep[0] + b'\x00' + enc(sig) + sep[1] + enc(sig2) + b'\x52' + junk + refs.push(k1.pub) + refs.push(k2.pub) + b'\x52' + sep[2] + (b'\xaf\x51' if verify else b'\xae')
        else:
            s = enc(sig) + sep[0] + refs.push(k1.pub) + sep[1] + b'\xad' + junk + sep[2] + enc(sig2) + refs.push(k2.pub) + sep[3] + b'\xac'
        return s

    how = sim.below(3)
    verify = sim.chance(50)
    # what is signed doesn't contain the signatures (if all goes well)
    marks = [b'\xee' * 71, b'\xdd' * 71]
    s = make(*marks)

    # the code is what follows the last separator
    p = start = 0
    codes = []
    while p < len(s):
        op, data, q = R.next_op(s, p)
        if op == 0xab:
            start = q
        if op in (0xac, 0xad, 0xae, 0xaf):
            codes.append(s[start:])
        p = q

    def sig(k, c, *gone):
        for g in gone:
            c = R.find_and_delete(c, refs.push(g))
        return secp.sign(k.secret, R.sighash(tx, i, c, ht), 11) + bytes([ht])
    if how == 1:
        a, b = sig(k1, codes[0], *marks), sig(k2, codes[0], *marks)
    elif how == 0:
        a, b = sig(k1, codes[0], marks[0]), b''
    else:
        # the first signature covers the second one, unless that is behind a separator; and the other way round
        b = sig(k2, codes[1], marks[1]) if sep[0] or sep[1] or sep[2] else sig(k2, codes[1], *marks)
        a = sig(k1, codes[0].replace(refs.push(marks[1]), refs.push(b)), marks[0])
    return b'', make(a, b), tx, i


def edges(sim):
    """Operations on too few items, and numbers at the bounds of the stack"""
    n = sim.below(8)
    start = [R.enc(sim.choice((0, 1, 2, -1, 3, 5))) for _ in range(n)]
    if sim.chance(30):
        return start, refs.push(R.enc(n + sim.choice((-1, 0, 1)))) + sim.choice((b'\x79', b'\x7a'))
    if sim.chance(20):
        # cut off
        s = refs.push(sim.bytes(sim.choice((1, 1, 2, 75, 76, 255, 256)))) if sim.chance(50) else sim.choice((b'\x4c\x01\x05', b'\x4d\x01\x00\x05', b'\x4e\x01\x00\x00\x00\x05'))
        return start, sim.choice((b'', b'\x51')) + s[:sim.choice((1, 2, 3, 4, 5, len(s) - 1))]
    return start, sim.choice((b'', b'\x6b\x6b')) + bytes([sim.choice(OPS + (0x6c, 0xac, 0xad, 0xae, 0xaf))])


def changed_parts(sim, lock, sigs):
    """Signatures an adversary makes of those there are"""
    at = [j for j, part in enumerate(lock.parts) if isinstance(part, tuple)]
    j = sim.choice(at)
    k = sim.choice(('none', 'lose', 'lose all', 'same', 'swap', 'forge', 'negate', 'hash type', 'junk'))
    if k == 'lose':
        sigs[j] = sim.choice((b'', b'\x00', b'\x01', b'\x30', b'\x80'))
    elif k == 'lose all':
        for j in at:
            sigs[j] = b''
    elif k == 'same':
        for x in at:
            sigs[x] = sigs[j]
    elif k == 'swap':
        x = sim.choice(at)
        sigs[x], sigs[j] = sigs[j], sigs[x]
    elif k == 'forge':
        sigs[j] = secp.sign(sim.choice((1, 2, 7)), sim.bytes(32), 5) + b'\x01'
    elif k == 'negate':
        rs = secp.undo(sigs[j][:-1])
        sigs[j] = secp.der(rs[0], secp.N - rs[1]) + sigs[j][-1:]
    elif k == 'hash type':
        sigs[j] = sigs[j][:-1] + bytes([sim.choice(HASHTYPES + ODD_HASHTYPES)])
    elif k == 'junk':
        sigs[j] = sim.choice((sigs[j] + b'\x01', sigs[j][:-1], sigs[j][:-2] + sigs[j][-1:], sigs[j][1:], sigs[j][:-1] + b'\x00' + sigs[j][-1:]))
    return k


def runs(start, body):
    st = list(start)
    try:
        R.evaluate(st, body, (1, (), (), 0), 0)
    except R.Fail as f:
        # a conditional that is still open
        return str(f) == 'conditional' and body[-1] != 0x68
    return True


def limits(sim):
    """Scripts at the limits"""
    k = sim.choice(('almost', 'stack', 'stack', 'alt', 'ops', 'size', 'push', 'keys', 'deep', 'opkeys', 'unexecuted'))
    d = sim.choice((-1, 0, 1, 2))
    if k == 'almost':
        # like a script hash, but none
        d = sim.choice((b'\x51', b'\x00', b'\x6a'))
        n = sim.choice((19, 20, 21))
        h = refs.hash160(d)
        return refs.push(d), sim.choice((b'\xa9\x13' + h[:19] + b'\x51\x87', b'\xa9' + bytes([n]) + h.ljust(n, b'\x07')[:n] + b'\x87', b'\xa9\x4c\x14' + h + b'\x87', b'\xa9\x14' + h + b'\x88',
                                         b'\xa8\x14' + h + b'\x87', b'\xa9\x14' + h + b'\x87\x61', b'\x61\xa9\x14' + h + b'\x87', b'\xa9\x15' + h + b'\x87\x75\x51'))
    if k == 'stack':
        n = 1000 + d
        one = sim.choice((b'\x51', b'\x00', b'\x01\x05', b'\x4c\x00'))
        # those that are below the limit again afterwards as well
        rest = sim.choice((b'', b'\x61', b'\x75', b'\x6d' * 5 + b'\x51'))
        if sim.chance(50):
            return one * n, rest
        return b'', one * (n - 1) + b'\x51' + rest
    if k == 'alt':
        n = 1000 + d
        one = sim.choice((b'\x51', b'\x00', b'\x01\x05'))
        return one * (n - 150), b'\x6b' * 150 + one * 150 + sim.choice((b'', b'\x61', b'\x6d'))
    if k == 'ops':
        if sim.chance(50):
            # only those above OP_16 count
            one = sim.choice((b'\x60\x61', b'\x00\x61', b'\x01\x05\x61', b'\x4f\x61', b'\x50\x61', b'\x61\x60'))
            if one[0] == 0x50:
                return b'', b'\x00\x63' + one * (199 + d) + b'\x68\x51'
            return b'', one * 50 + b'\x61' * (151 + d) + b'\x51'
        return b'', b'\x51' + b'\x61' * (201 + d)
    if k == 'size':
        return b'', fill(10000 + d)
    if k == 'push':
        n = 520 + d
        return b'', b'\x4d' + n.to_bytes(2, 'little') + b'\x01' * n + sim.choice((b'', b'\x82'))
    if k == 'unexecuted':
        n = 520 + d
        big = b'\x4d' + n.to_bytes(2, 'little') + b'\x01' * n
        return b'', b'\x00\x63' + sim.choice((big, big, big, b'\x7e', b'\x65', b'\x50', b'\x62', b'\x89', b'\xba', b'\xff', b'\x8d', b'\x6a', b'\xb9', b'\xae')) + b'\x68\x51'
    if k == 'keys':
        n = sim.choice((0, 1, 19, 20, 21))
        m = sim.choice((0, 0, 1, n, n + 1))
        return b'', b'\x00' * (m + 1) + refs.push(R.enc(m)) + b'\x51' * n + refs.push(R.enc(n)) + sim.choice((b'\xae', b'\xaf\x51', b'\xae\x91'))
    if k == 'deep':
        n = sim.choice((10, 50, 100))
        return b'', b'\x51\x63' * n + b'\x51' + b'\x68' * n
    # keys count as operations
    n = sim.choice((1, 5, 9))
    return b'', b'\x61' * (201 + d - 22 * n) + (b'\x00\x00' + b'\x51' * 20 + b'\x01\x14\xae\x75') * n + b'\x51'


def fill(n):
    """A script of n bytes that leaves few items"""
    out = b''
    while n > 255:
        out += b'\x4c\xf0' + b'\x01' * 240 + b'\x75'
        n -= 243
    if n >= 78:
        out += b'\x4c' + bytes([n - 2 - 1]) + b'\x02' * (n - 3) + b'\x51'
    elif n >= 2:
        out += bytes([n - 2]) + b'\x02' * (n - 2) + b'\x51'
    elif n == 1:
        out += b'\x51'
    return out


# -- parties ---------------------------------------------------------------

class Party:
    def __init__(self, sim, name, ent):
        self.sim, self.name, self.ent = sim, name, ent
        self.boots = 0
        self.keys = []
        self.store = None       # message that survives a restart
        self.boot()

    def boot(self):
        self.boots += 1
        self.u = world(self.sim, '%s%d' % (self.name, self.boots))
        self.S = self.u('bitcoin.core.script')
        self.E = self.u('bitcoin.core.scripteval')
        self.W = self.u('bitcoin.wallet')
        self.C = self.u('bitcoin.core')
        self.objs = {}

    def key(self, k):
        if k not in self.objs:
            self.objs[k] = self.W.CKey(k.secret.to_bytes(32, 'big'), k.compressed)
        return self.objs[k]

    def tx(self, tx):
        """The transaction as the library has it"""
        o = make_tx(self.u, tx)
        return self.C.CMutableTransaction.from_tx(o) if self.sim.chance(40) else o

    def sighash(self, o, tx, i, code, ht):
        """The digest to sign, or None where there is none"""
        sim = self.sim
        want = R.sighash(tx, i, code, ht)
        h, err = self.S.RawSignatureHash(self.S.CScript(code), o, i, ht)
        sim.check(h == want, 'wrong digest', 'input %d of %d, %d outputs, hash type %x: %s', i, len(tx[1]), len(tx[2]), ht, h.hex())
        sim.check((err is not None) == (want == R.ONE), 'wrong digest', 'error %r', err)
        try:
            got = self.S.SignatureHash(self.S.CScript(code), o, i, ht)
        except ValueError:
            got = None
        sim.check(got == (None if want == R.ONE else want), 'wrong digest', 'of SignatureHash()')
        return h

    def sign(self, o, tx, i, k, code, ht):
        h = self.sighash(o, tx, i, code, ht)
        sig = self.key(k).sign(h)
        if ht < 256:
            sig += bytes([ht])
        self.sim.check(R.verify(k.pub, h, sig[:-1]), 'bad signature', 'of input %d', i)
        return sig

    def build(self, parts):
        """A script of pushes, by the library"""
        sim = self.sim
        how = sim.below(3)
        plain = parts
        # scripts are pushed as what they are: bytes
        parts = [self.S.CScript(p) if isinstance(p, bytes) and sim.chance(30) else p for p in parts]
        if how == 0:
            s = self.S.CScript(parts)
        elif how == 1:
            s = self.S.CScript()
            for p in parts:
                s = s + p
        else:
            s = self.S.CScript(iter([bytearray(p) if isinstance(p, bytes) and sim.chance(30) else p for p in parts]))
        parts = plain
        want = b''.join(n_op(p) if isinstance(p, int) else refs.push(p) for p in parts)
        sim.check(bytes(s) == want, 'wrong script', 'built of %r', parts)
        got = list(s)
        sim.check(got == [b'' if p == 0 and isinstance(p, int) else p for p in parts] or
                  [g if isinstance(g, bytes) else int(g) for g in got] == [(b'' if p == 0 else p) if isinstance(p, int) else p for p in parts],
                  'wrong script', 'iterates as %r', got)
        sim.check(s.is_push_only() and s.is_valid(), 'wrong answer', 'about a script of pushes')
        return bytes(s)

    def verdict(self, o, i, sig, script, flags):
        V = self.E
        fl = {0: (), 1: (V.SCRIPT_VERIFY_P2SH,), 2: (self.S.SCRIPT_VERIFY_P2SH,), 3: {V.SCRIPT_VERIFY_P2SH, V.SCRIPT_VERIFY_STRICTENC}}[flags]
        try:
            r = V.VerifyScript(self.S.CScript(sig), self.S.CScript(script), o, i, fl)
        except self.C.ValidationError as exc:
            return False
        self.sim.check(r is None, 'wrong result', 'VerifyScript returns %r', r)
        return True


class Message:
    def __init__(self, raw, sigs):
        self.raw, self.sigs = raw, dict(sigs)


class History:
    def __init__(self, sim, ent):
        self.sim, self.ent = sim, ent
        n = sim.choice((2, 2, 3))
        self.parties = [Party(sim, 'p%d-' % i, ent) for i in range(n)]
        self.allkeys = []
        for p in self.parties:
            for _ in range(sim.choice((1, 2))):
                k = Key(sim.choice((1, 2, 3, 4, 5, 6, secp.N - 1, secp.N // 2)), sim.chance(70))
                p.keys.append(k)
                self.allkeys.append(k)
        # outputs to be spent
        self.locks = []
        self.funding = []
        for _ in range(sim.choice((1, 2, 2, 3))):
            outs = [gen_lock(sim, self.allkeys) for _ in range(sim.choice((1, 1, 2)))]
            tx = (1, (((sim.bytes(32), sim.below(3)), b'', 0xffffffff),), tuple((sim.choice((0, 1, 10 ** 8)), l.script) for l in outs), 0)
            self.funding.append(tx)
            for i, l in enumerate(outs):
                l.point = (refs.txid(tx), i)
                l.tx = tx
                self.locks.append(l)
        self.by_point = {l.point: l for l in self.locks}
        self.changed = False
        self.p2sh_addresses()

    def p2sh_addresses(self):
        for l in self.locks:
            if l.redeem is not None:
                p = self.parties[0]
                s = p.S.CScript(l.redeem).to_p2sh_scriptPubKey()
                self.sim.check(bytes(s) == l.script and s.is_p2sh(), 'wrong script', 'script hash of %s', l.redeem.hex())

    # -- honest work -----------------------------------------------------

    def add(self, p, msg):
        """A party adds inputs and outputs"""
        sim = self.sim
        tx = refs.tx_parse(msg.raw) if msg else (sim.choice((1, 2)), (), (), sim.choice((0, 0, 500000)))
        version, vin, vout, lock = tx
        used = {i[0] for i in vin}
        free = [l for l in self.locks if l.point not in used]
        new = sim.sample(free, min(len(free), sim.choice((1, 1, 2))))
        pos = len(vin) if sim.chance(70) else 0
        vin = vin[:pos] + tuple((l.point, b'', sim.choice((0xffffffff, 0, 5))) for l in new) + vin[pos:]
        vout += tuple((sim.choice((0, 1, 10 ** 7, 21 * 10 ** 14)), sim.choice((b'', b'\x51', b'\x6a\x04abcd', refs.push(b'\x01' * 20)))) for _ in range(sim.choice((0, 1, 1, 2))))
        tx = (version, vin, vout, lock)
        sim.log('%s adds: %d inputs, %d outputs', p.name, len(vin), len(vout))
        if not tx[1]:
            return msg
        return Message(refs.tx_ser(tx), msg.sigs if msg else {})

    def sign(self, p, msg):
        """A party signs what it has keys for, and puts together what is complete"""
        sim = self.sim
        tx = refs.tx_parse(msg.raw)
        o = p.tx(tx)
        ht = sim.choice(HASHTYPES) if sim.chance(90) else sim.choice(ODD_HASHTYPES)
        for i, (point, _, _) in enumerate(tx[1]):
            l = self.by_point.get(point)
            if l is None:
                continue
            if sim.chance(15):
                ht = sim.choice(HASHTYPES)
            for j, part in enumerate(l.parts):
                if isinstance(part, tuple) and part[0] in p.keys and ((point, j) not in msg.sigs or sim.chance(20)):
                    msg.sigs[(point, j)] = p.sign(o, tx, i, part[0], part[1], ht)
                    sim.log('%s signs input %d (%s) with %x', p.name, i, l.kind, ht)
        return self.put_together(p, msg)

    def put_together(self, p, msg):
        tx = refs.tx_parse(msg.raw)
        version, vin, vout, lock = tx
        new = []
        for point, script, seq in vin:
            l = self.by_point.get(point)
            if l is not None:
                parts = []
                for j, part in enumerate(l.parts):
                    parts.append(msg.sigs.get((point, j), b'') if isinstance(part, tuple) else part)
                if l.redeem is not None:
                    parts.append(l.redeem)
                script = p.build(parts)
            new.append((point, script, seq))
        return Message(refs.tx_ser((version, tuple(new), vout, lock)), msg.sigs)

    # -- verification ----------------------------------------------------

    def outcome(self, tx, i, p2sh):
        l = self.by_point.get(tx[1][i][0])
        if l is None:
            return None, None
        return l, R.spend(tx[1][i][1], l.script, tx, i, p2sh)

    def verify(self, p, msg, what):
        """A party judges every input"""
        sim = self.sim
        try:
            tx = refs.tx_parse(msg.raw)
        except (refs.Bad, refs.Short):
            tx = None
        try:
            o = p.C.CTransaction.deserialize(msg.raw)
        except (p.u('bitcoin.core.serialize').SerializationError, ValueError):
            o = None
        if tx is None or o is None:
            return False
        if plain_tx(o) != tx:
            sim.fail('wrong bytes', 'a transaction is not what was sent')
        if sim.chance(40):
            o = p.C.CMutableTransaction.from_tx(o)
        idle = []
        for i in range(len(tx[1])):
            flags = sim.choice((1, 1, 1, 0, 2, 3))
            l, why = self.outcome(tx, i, flags != 0)
            if l is None:
                continue
            idle.append((i, l, flags, why))
        if len(idle) and sim.chance(12):
            self.threads(p, o, tx, idle)
        for i, l, flags, why in idle:
            got = p.verdict(o, i, tx[1][i][1], l.script, flags)
            sim.log('%s: input %d (%s, %s): %s', p.name, i, l.kind, what, why or 'valid')
            sim.state(l.kind, what, why is None)
            sim.check(got == (why is None), 'accepted' if got else 'refused', 'input %d (%s) after %s: the reference client says %s (script %s, unlocked by %s)', i, l.kind,
                      what, why or 'valid', l.script.hex(), tx[1][i][1].hex())
            sim.probe('valid' if why is None else 'invalid')
        self.whole(p, o, tx)
        sim.check(o.serialize() == msg.raw, 'changed', 'verification changes a transaction')
        return True

    def whole(self, p, o, tx):
        """VerifySignature: output and input must belong together"""
        sim = self.sim
        f = sim.choice(self.funding)
        i = sim.choice((0, 0, 1, len(tx[1]) - 1, len(tx[1]), -1))
        if 0 <= i < len(tx[1]) and sim.chance(60):
            l = self.by_point.get(tx[1][i][0])
            if l is not None:
                f = l.tx
            if sim.chance(30):
                # an output that isn't there, or another one
                (h, n), script, seq = tx[1][i]
                other = sim.choice(((h, n + len(f[2])), (h, len(f[2])), (h, 0xffffffff), (h[:31] + bytes([h[31] ^ 1]), n), (bytes([h[0] ^ 128]) + h[1:], n), (h, 0)))
                tx = tx[:1] + (tx[1][:i] + ((other, script, seq),) + tx[1][i + 1:],) + tx[2:]
                o = make_tx(p.u, tx)
        fo = make_tx(p.u, f)
        want = False
        if 0 <= i < len(tx[1]):
            (h, n), script, _ = tx[1][i]
            if h == refs.txid(f) and n < len(f[2]):
                want = R.spend(script, f[2][n][1], tx, i, False) is None
        try:
            p.E.VerifySignature(fo, o, i)
            got = True
        except p.C.ValidationError:
            got = False
        sim.check(got == want, 'accepted' if got else 'refused', 'VerifySignature of input %d', i)

    def threads(self, p, o, tx, work):
        """Several threads verify the same transaction, one signs it"""
        sim = self.sim
        mode = sim.choice(('line', 'opcode'))
        sched = Scheduler(sim, mode, sim.repo.rstrip('/') + '/')
        p.u.sched = sched
        n = sim.choice((2, 3))
        code = sim.choice(self.locks).inner
        if not whole(code):
            # there is no digest of scripts that are cut off
            code = b'\x51'
        digests = []
        plans = [[sim.choice(work) for _ in range(sim.choice((1, 2)))] for _ in range(n)]
        hts = [sim.choice(HASHTYPES) for _ in range(n)]

        def body(mine, ht):
            def go():
                for i, l, flags, why in mine:
                    digests.append((i, ht, p.S.RawSignatureHash(p.S.CScript(code), o, i, ht)[0]))
                    got = p.verdict(o, i, tx[1][i][1], l.script, flags)
                    sim.check(got == (why is None), 'accepted' if got else 'refused', 'input %d in a thread', i)
            return go
        for k in range(n):
            sched.spawn('t%d' % k, body(plans[k], hts[k]))
        sched.run()
        p.u.sched = None
        sim.fault('preemption', max(0, sched.switches - n))
        for th in sched.threads:
            if th.exc is not None:
                raise th.exc
        for i, ht, h in digests:
            sim.check(h == R.sighash(tx, i, code, ht), 'wrong digest', 'in a thread')

    # -- the adversary ---------------------------------------------------

    def tamper(self, msg):
        sim = self.sim
        version, vin, vout, lock = refs.tx_parse(msg.raw)
        vin, vout = list(vin), list(vout)
        sigs = dict(msg.sigs)
        k = sim.choice(('value', 'script', 'output', 'drop output', 'swap outputs', 'sequence', 'lock', 'version', 'input', 'drop input', 'swap inputs', 'prevout',
                        'hash type', 'move', 'negate', 'noncanonical', 'extra', 'nonpush', 'order', 'lose', 'redeem', 'forge', 'program', 'program', 'program', 'limits', 'hidden', 'one', 'contrived'))
        i = sim.below(len(vin)) if vin else None
        j = sim.below(len(vout)) if vout else None
        if k == 'value' and vout:
            vout[j] = (vout[j][0] ^ (1 << sim.below(40)), vout[j][1])
        elif k == 'script' and vout:
            vout[j] = (vout[j][0], vout[j][1] + b'\x51')
        elif k == 'output':
            vout.insert(sim.below(len(vout) + 1), (sim.choice((0, 5)), b'\x52'))
        elif k == 'drop output' and vout:
            del vout[j]
        elif k == 'swap outputs' and len(vout) > 1:
            vout.insert(0, vout.pop())
        elif k == 'sequence' and vin:
            vin[i] = (vin[i][0], vin[i][1], vin[i][2] ^ sim.choice((1, 0xffffffff, 1 << 31)))
        elif k == 'lock':
            lock ^= sim.choice((1, 1 << 31))
        elif k == 'version':
            version ^= sim.choice((1, 2, 3))
        elif k == 'input':
            vin.insert(sim.below(len(vin) + 1), ((sim.bytes(32), sim.choice((0, 1))), sim.choice((b'', b'\x51')), 7))
        elif k == 'drop input' and len(vin) > 1:
            del vin[i]
        elif k == 'swap inputs' and len(vin) > 1:
            vin.insert(0, vin.pop())
        elif k == 'prevout' and vin:
            # the input now spends another output
            l = sim.choice(self.locks)
            vin[i] = (l.point, vin[i][1], vin[i][2])
        elif k == 'contrived':
            for _ in range(3):
                self.look(*contrived(sim))
            return None
        elif vin:
            point, script, seq = vin[i]
            l = self.by_point.get(point)
            if l is None:
                return None
            keys = [x for x in sigs if x[0] == point]
            if k == 'hash type' and keys:
                x = sim.choice(keys)
                sigs[x] = sigs[x][:-1] + bytes([sim.choice(HASHTYPES + ODD_HASHTYPES)])
            elif k == 'move' and len(sigs) > 1:
                a, b = sim.choice(sorted(sigs)), sim.choice(sorted(sigs))
                sigs[a] = sigs[b]
            elif k == 'negate' and keys:
                x = sim.choice(keys)
                rs = secp.undo(sigs[x][:-1])
                if rs:
                    sigs[x] = secp.der(rs[0], secp.N - rs[1]) + sigs[x][-1:]
            elif k == 'noncanonical':
                # the same pushes, encoded otherwise
                out, p = b'', 0
                while p < len(script):
                    r = R.next_op(script, p)
                    if r is None:
                        break
                    if r[1] is not None and sim.chance(60):
                        w = sim.choice((0x4c, 0x4d, 0x4e) if len(r[1]) < 256 else (0x4d, 0x4e))
                        out += bytes([w]) + len(r[1]).to_bytes(1 << (w - 0x4c), 'little') + r[1]
                    else:
                        out += script[p:r[2]]
                    p = r[2]
                vin[i] = (point, out, seq)
                return k, Message(refs.tx_ser((version, tuple(vin), tuple(vout), lock)), sigs)
            elif k == 'extra':
                vin[i] = (point, sim.choice((b'\x51', b'\x00', b'\x4f', refs.push(sim.bytes(20)))) + script, seq)
                return k, Message(refs.tx_ser((version, tuple(vin), tuple(vout), lock)), sigs)
            elif k == 'nonpush':
                vin[i] = (point, sim.choice((b'\x61' + script, script + b'\x76\x75', b'\xb1' + script, b'\x51\x69' + script, script + b'\x61', b'\x50' + script, b'\x00\x63\x50\x68' + script)), seq)
                return k, Message(refs.tx_ser((version, tuple(vin), tuple(vout), lock)), sigs)
            elif k == 'order' and len(keys) > 1:
                vals = [sigs[x] for x in sorted(keys)]
                vals = vals[1:] + vals[:1]
                for x, v in zip(sorted(keys), vals):
                    sigs[x] = v
            elif k == 'lose' and keys:
                sigs[sim.choice(keys)] = sim.choice((b'', b'\x00', b'\x01', b'\x30'))
            elif k == 'redeem':
                other = sim.choice(self.locks)
                parts = [sigs.get((other.point, x), b'') if isinstance(y, tuple) else y for x, y in enumerate(other.parts)]
                vin[i] = (point, b''.join(n_op(y) if isinstance(y, int) else refs.push(y) for y in parts + [other.inner]), seq)
                return k, Message(refs.tx_ser((version, tuple(vin), tuple(vout), lock)), sigs)
            elif k == 'forge' and keys:
                x = sim.choice(keys)
                sigs[x] = secp.sign(sim.choice((1, 2, 7)), sim.bytes(32), 5) + b'\x01'
            elif k == 'one' and keys:
                # signature of the digest that stands for an error
                x = sim.choice(keys)
                part = l.parts[x[1]]
                sigs[x] = secp.sign(part[0].secret, R.ONE, 9) + sim.choice((b'\x03', b'\x83', b'\x43', b'\x01'))
            elif k in ('program', 'limits', 'hidden'):
                # an output of the adversary that everybody has to judge
                self.sim.nontrivial = True
                if k == 'program':
                    body, start = program(sim)
                    unlock, body = b''.join(refs.push(x) for x in start), body + sim.choice((b'', b'\x74\x9c', b'\x87', b'\x91', b'\x82', b'\x82\x00\x87'))
                elif k == 'limits':
                    unlock, body = limits(sim)
                else:
                    # nothing but a script that hashes right
                    body = sim.choice(BARE)
                    unlock = b''
                spk = body
                if k == 'hidden' or len(body) <= 520 and sim.chance(30):
                    unlock += refs.push(body)
                    spk = b'\xa9\x14' + refs.hash160(body) + b'\x87'
                f = (1, (((sim.bytes(32), 0), b'', 0),), ((1, spk),), 0)
                n = Lock(k, spk, [])
                n.point, n.tx = (refs.txid(f), 0), f
                self.funding.append(f)
                self.by_point[n.point] = n
                vin[i] = (n.point, unlock, seq)
                self.look(unlock, spk)
                for _ in range(4):
                    body, start = program(sim)
                    self.look(b''.join(refs.push(x) for x in start), body)
                return k, Message(refs.tx_ser((version, tuple(vin), tuple(vout), lock)), sigs)
            else:
                return None
            m = Message(refs.tx_ser((version, tuple(vin), tuple(vout), lock)), sigs)
            return k, self.put_together(self.parties[0], m)
        else:
            return None
        if not vin:
            return None
        return k, Message(refs.tx_ser((version, tuple(vin), tuple(vout), lock)), sigs)

    def look(self, unlock, spk, tx=(1, (((b'\x05' * 32, 1), b'', 0),), ((1, b''),), 0), i=0):
        """Run both scripts and compare what is left on the stack"""
        sim = self.sim
        p = sim.choice(self.parties)
        o = make_tx(p.u, tx)
        want, got = [], []
        seen = set()
        for s in (unlock, spk):
            try:
                R.evaluate(want, s, tx, i, seen)
                why = None
            except R.Fail as f:
                why = str(f)
            try:
                p.E.EvalScript(got, p.S.CScript(s), o, i, (p.E.SCRIPT_VERIFY_P2SH,))
                ok = True
            except p.C.ValidationError:
                ok = False
            sim.check(ok == (why is None), 'accepted' if ok else 'refused', 'script %s on %r: the reference client says %s', s.hex(), want[:5], why or 'fine')
            if why is not None:
                break
            sim.check([bytes(x) for x in got] == want, 'wrong stack', 'script %s leaves %r, should leave %r', s.hex(), got[-5:], want[-5:])
        if seen & {0xac, 0xad, 0xae} and want and R.true(want[-1]):
            sim.probe('contains its signature')
        for s in (unlock, spk):
            self.facts(p, s)
        for op in sorted(seen):
            if op > 0x4e:
                sim.probe('op %02x' % op)

    def spending(self, p):
        """One output is spent by somebody who may have all, some or none of the signatures"""
        sim = self.sim
        l = gen_lock(sim, self.allkeys)
        others = sim.below(3)
        vin = [((sim.bytes(32), 1), b'', sim.choice((0, 5, 0xffffffff))) for _ in range(others + 1)]
        vout = tuple((sim.choice((0, 5, 10 ** 9)), sim.choice((b'', b'\x51'))) for _ in range(sim.choice((0, 1, 2, 3))))
        i = sim.below(others + 1)
        tx = (sim.choice((1, 2)), tuple(vin), vout, sim.choice((0, 9)))
        sigs = {}
        for j, part in enumerate(l.parts):
            if isinstance(part, tuple):
                ht = sim.choice(HASHTYPES if sim.chance(80) else ODD_HASHTYPES)
                sigs[j] = secp.sign(part[0].secret, R.sighash(tx, i, part[1], ht), 3) + bytes([ht])
        what = changed_parts(sim, l, sigs) if sigs else 'none'
        parts = [sigs[j] if isinstance(part, tuple) else part for j, part in enumerate(l.parts)] + ([l.redeem] if l.redeem is not None else [])
        script = p.build(parts)
        flags = sim.choice((1, 1, 0, 2, 3))
        why = R.spend(script, l.script, tx, i, flags != 0)
        o = p.tx(tx)
        got = p.verdict(o, i, script, l.script, flags)
        sim.fault('adversary: signature ' + what)
        sim.state(l.kind, what, why is None)
        sim.log('spends %s with %s signatures: %s', l.kind, what, why or 'valid')
        sim.check(got == (why is None), 'accepted' if got else 'refused', '%s, signature %s: the reference client says %s (script %s, unlocked by %s)', l.kind, what, why or 'valid',
                  l.script.hex(), script.hex())

    def digest(self, p):
        """What is signed in some transaction or other"""
        sim = self.sim
        n, m = sim.choice((1, 2, 3, 4, 5, 8, 20)), sim.choice((0, 1, 2, 3, 4, 6, 12))
        if sim.chance(4):
            n, m = sim.choice(((260, 1), (3, 300), (256, 256), (253, 252)))
        a, b = sim.bytes(32), sim.choice((b'', b'\x51', b'\x76\xa9' * 140))
        tx = (sim.choice((1, 2, -1)), tuple(((a, k), b[:k], 0xffffffff - k % 3) for k in range(n)), tuple((k * 10 ** 8, b[k:]) for k in range(m)), sim.choice((0, 7, 1 << 31)))
        code = sim.choice(self.locks).inner if self.locks else b'\x51'
        if not whole(code) or sim.chance(20):
            code = sim.choice((b'', b'\xab', b'\xab\x01\xab\xab', b'\x51' * 300))
        o = p.tx(tx)
        for i in (sim.below(n), n - 1, m - 1, m, n, sim.choice((n + 1, m + 1, 1 << 20))):
            if i >= 0:
                p.sighash(o, tx, i, code, sim.choice(HASHTYPES if sim.chance(80) else ODD_HASHTYPES))
        sim.check(o.serialize() == refs.tx_ser(tx), 'changed', 'a digest changes its transaction')
        sim.log('digests of a transaction of %d inputs and %d outputs', n, m)

    def assemble(self, p):
        """A script of all that may stand in a script"""
        sim = self.sim
        given, want, back = [], b'', []
        for _ in range(sim.choice((1, 3, 8))):
            k = sim.below(4)
            if k == 0:
                n = sim.choice(NUMS + tuple(range(18)) + (-1, 1 << 32, -(1 << 39), 1 << 63))
                given.append(n)
                want += b'\x4f' if n == -1 else n_op(n) if 0 <= n <= 16 else refs.push(R.enc(n))
                back.append(0x4f if n == -1 else n if 0 < n <= 16 else R.enc(n))
            elif k == 1:
                op = sim.choice((0, 0x4f, 0x50, 0x51, 0x55, 0x60) + OPS)
                given.append(p.S.CScriptOp(op))
                want += bytes([op])
                back.append(b'' if op == 0 else op - 0x50 if 0x51 <= op <= 0x60 else op)
            else:
                n = sim.choice((0, 1, 2, 75, 76, 77, 255, 256, 257, 520, 521, 65535, 65536) if sim.chance(30) else (0, 1, 20, 33, 71, 75, 76, 255, 256))
                d = sim.bytes(2)[:n] + b'\x07' * (n - 2)
                given.append(sim.choice((bytearray, p.S.CScript))(d) if sim.chance(30) else d)
                want += refs.push(d)
                back.append(d)
        how = sim.below(3)
        if how == 0:
            c = p.S.CScript(given)
        elif how == 1:
            c = p.S.CScript(x for x in given)
        else:
            c = p.S.CScript(given[:1])
            for x in given[1:]:
                c = c + x
        sim.check(bytes(c) == want and isinstance(c, p.S.CScript), 'wrong script', 'of %r', [x if isinstance(x, int) else len(x) for x in given])
        got = list(c)
        sim.check([x if isinstance(x, bytes) else int(x) for x in got] == back, 'wrong script', 'iterates as %r', got)
        self.facts(p, want)
        sim.log('assembled %s', refs.sha256(want).hex()[:8])

    def facts(self, p, s):
        """What can be asked about a script"""
        sim = self.sim
        c = p.S.CScript(s)
        ops, pos, whole = [], 0, True
        canonical = True
        while pos < len(s):
            r = R.next_op(s, pos)
            if r is None:
                whole = canonical = False
                break
            op, data, q = r
            ops.append((op, data, pos))
            if data is not None and (op < 0x4c and len(data) == 1 and data[0] <= 16 or op == 0x4c and len(data) < 0x4c or op == 0x4d and len(data) < 256
                                     or op == 0x4e and len(data) < 65536):
                canonical = False
            pos = q
        shown, _ = R.listing(s)
        got = repr(c)
        sim.check(got == 'CScript([%s])' % ', '.join(shown) if whole else got.startswith('CScript([' + ', '.join(shown)) and 'ERROR' in got, 'wrong answer', 'the script %s is shown as %s', s.hex(), got)
        got = []
        try:
            for x in c.raw_iter():
                got.append(x)
            ok = True
        except p.S.CScriptInvalidError:
            ok = False
        sim.check(ok == whole and got == ops, 'wrong answer', 'operations of %s', s.hex())
        sim.check(c.is_valid() is whole and c.is_push_only() is R.push_only(s) and c.is_p2sh() is R.is_p2sh(s) and c.is_unspendable() is (s[:1] == b'\x6a')
                  and c.has_canonical_pushes() is canonical, 'wrong answer', 'about the script %s', s.hex())
        for accurate in (False, True):
            n, last = 0, None
            for op, _, _ in ops:
                if op in (0xac, 0xad):
                    n += 1
                elif op in (0xae, 0xaf):
                    n += last - 0x50 if accurate and last is not None and 0x51 <= last <= 0x60 else 20
                last = op
            sim.check(c.GetSigOpCount(accurate) == n, 'wrong answer', 'signature checks in %s', s.hex())
        if whole and ops:
            k = sim.below(len(ops) + 1)
            gone = b'\xab' if k == len(ops) else s[ops[k][2]:(ops + [(0, None, len(s))])[k + 1][2]]
            sim.check(bytes(p.S.FindAndDelete(c, p.S.CScript(gone))) == R.find_and_delete(s, gone), 'wrong script', '%s without %s', s.hex(), gone.hex())


def vocabulary(sim, S):
    """The operations have the protocol's numbers and names"""
    for n in range(256):
        name = R.NAMES.get(n)
        op = S.CScriptOp(n)
        sim.check(op == n and repr(op) == (name or 'CScriptOp(0x%x)' % n), 'wrong operation', '%x: %r', n, op)
        if name is not None:
            sim.check(getattr(S, name) == n and S.OPCODES_BY_NAME.get(name, n) == n, 'wrong operation', '%s is not %x', name, n)
        small = n == 0 or 0x51 <= n <= 0x60
        sim.check(op.is_small_int() is small, 'wrong operation', '%x is small: %r', n, not small)
        try:
            got = op.decode_op_n()
        except ValueError:
            got = None
        sim.check(got == ((n and n - 0x50) if small else None), 'wrong operation', '%x is the number %r', n, got)
    for n in range(-2, 19):
        try:
            got = S.CScriptOp.encode_op_n(n)
        except ValueError:
            got = None
        sim.check(got == (n_op(n)[0] if 0 <= n <= 16 else None), 'wrong operation', '%d is %r', n, got)


def run(sim):
    with Entropy(sim) as ent:
        h = History(sim, ent)
        vocabulary(sim, sim.choice(h.parties).S)
        msg = None
        waiting = []        # messages on their way
        changed = 'nothing'
        for step in range(sim.choice((4, 8, 14) if sim.tier == 'quick' else (6, 14, 30))):
            p = sim.choice(h.parties)
            if sim.chance(25):
                h.assemble(p)
            if sim.chance(40):
                h.spending(p)
            if sim.chance(30):
                h.digest(p)
            for _ in range(3):
                start, body = edges(sim)
                h.look(b''.join(refs.push(x) for x in start), body)
            if sim.chance(40):
                h.look(*limits(sim))
            if msg is None:
                msg = h.add(p, None)
                continue
            op = sim.weighted((4, 'sign'), (2, 'add'), (5, 'tamper'), (2, 'verify'), (1, 'restart'), (1, 'repeat'), (1, 'damage'))
            if op == 'sign':
                msg = h.sign(p, Message(msg.raw, msg.sigs))
                h.verify(p, msg, 'nothing')
            elif op == 'add':
                waiting.append(msg)
                msg = h.put_together(p, h.add(p, msg))
                changed = 'add'
                h.verify(p, msg, 'add')
            elif op == 'verify':
                h.verify(p, msg, changed)
            elif op == 'restart':
                sim.fault('restart')
                p.boot()
            elif op == 'repeat' and waiting:
                # an old message arrives late
                sim.fault('reordered message')
                old = sim.choice(waiting)
                if sim.chance(50):
                    old = Message(old.raw, msg.sigs)
                    old = h.put_together(p, old)
                h.verify(p, old, 'old message')
            elif op == 'damage':
                kind, b = damage(sim, msg.raw)
                sim.fault('damage:' + kind)
                if h.verify(p, Message(b, msg.sigs), 'damage'):
                    sim.nontrivial = True
            elif op == 'tamper':
                r = h.tamper(msg)
                if r is None:
                    continue
                what, bad = r
                sim.fault('adversary:' + what)
                sim.nontrivial = True
                for q in h.parties if sim.chance(20) else [p]:
                    h.verify(q, bad, what)
                if sim.chance(30):
                    # they go on with it
                    waiting.append(msg)
                    msg, changed = bad, what
        if msg is not None:
            # once everybody has signed what there is, it's complete
            for p in h.parties:
                msg = h.sign(p, Message(msg.raw, {}) if p is h.parties[0] else msg)
            for p in h.parties:
                h.verify(p, msg, 'all signed')
