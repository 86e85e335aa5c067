"""K01: keys can be used from any thread, and signatures verify exactly for their key"""

import ctypes
import ctypes.util
import hashlib
import struct

from .. import refs, secp
from ..engine import Violation
from ..families import make_tx
from ..sched import Scheduler
from .common import world, show, damage

RUNS = {'quick': 1600, 'thorough': 40000}
RULE = ('One run: up to three threads make, share, drop, store and load keys, sign, verify and agree on secrets with them, while adversaries hand in '
        'malformed keys with signatures forged for them, damaged signatures and those of other keys and digests; the entropy source may fail; keys '
        'are loaded again by a new process.  Non-trivial: a switch between threads or an attack.')
STATE = 'distinct (operation, kind of key, attack, verdict, threads) tuples'
SEARCH = 'thread interleavings, keys, digests, damaged and forged signatures and keys, failures of the entropy source'
ORACLE = 'independent secp256k1 and ECDSA in Python, strict DER'
REAL = ['bitcoin.core.key', 'bitcoin.wallet', 'bitcoin.base58', 'bitcoin.core.scripteval', 'bitcoin.core.script', 'OpenSSL (libcrypto), except its entropy source']
STUB = ['thread scheduling', 'entropy (of OpenSSL too)']
ASSUMPTIONS = ['digests are 32 bytes long', 'calls into OpenSSL are atomic (one simulated thread runs at a time)', 'asserts are enabled (no python -O)',
               'b"\\0" passes as a public key (the test suite requires it), but nothing verifies with it']

_crypto = ctypes.CDLL(ctypes.util.find_library('crypto'))
_BYTES = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_int)
_STATUS = ctypes.CFUNCTYPE(ctypes.c_int)


class _Method(ctypes.Structure):
    _fields_ = [('seed', ctypes.c_void_p), ('bytes', _BYTES), ('cleanup', ctypes.c_void_p), ('add', ctypes.c_void_p), ('pseudorand', _BYTES), ('status', _STATUS)]


class Entropy:
    """What OpenSSL takes for random numbers"""
    current = None
    method = None

    def __init__(self, sim):
        self.sim = sim
        self.seed = sim.below(1 << 32)
        self.n = 0
        self.fails = None
        self.failed = 0

    @staticmethod
    def _bytes(p, n):
        self = Entropy.current
        if self is None:
            return 0
        self.n += 1
        if self.fails is not None and self.n % 10 == self.fails:
            self.failed += 1
            self.sim.fault('no entropy')
            return 0
        b = b''
        while len(b) < n:
            b += hashlib.sha256(b'%d/%d/%d' % (self.seed, self.n, len(b))).digest()
        ctypes.memmove(p, b[:n], n)
        return 1

    def __enter__(self):
        if Entropy.method is None:
            f = _BYTES(Entropy._bytes)
            Entropy.method = _Method(bytes=f, pseudorand=f, status=_STATUS(lambda: 1))
            _crypto.RAND_set_rand_method(ctypes.byref(Entropy.method))
        Entropy.current = self
        return self

    def __exit__(self, *a):
        Entropy.current = None


SECRETS = (1, 2, 3, secp.N - 1, secp.N - 2, secp.N // 2, secp.N // 2 + 1, 1 << 255, 0xff, 1 << 8, 1 << 128)


def gen_secret(sim):
    if sim.chance(30):
        return sim.choice(SECRETS)
    return int.from_bytes(sim.bytes(32), 'big') % (secp.N - 1) + 1


def gen_digest(sim):
    return sim.choice((sim.bytes(32), sim.bytes(32), sim.bytes(32), b'\x00' * 32, b'\xff' * 32, secp.N.to_bytes(32, 'big'), b'\x00' * 31 + b'\x01',
                       (secp.N - 1).to_bytes(32, 'big'), (secp.N + 1).to_bytes(32, 'big')))


def bad_secret(sim):
    return sim.choice((b'', b'\x01', b'\x00' * 32, secp.N.to_bytes(32, 'big'), (secp.N + 1).to_bytes(32, 'big'), b'\xff' * 32, b'\x01' * 31, b'\x01' * 33))


def bad_pubkey(sim, good):
    k = sim.choice(('empty', 'zero', 'short', 'long', 'prefix', 'no point', 'off curve', 'small order', 'big x', 'flip', 'zeros', 'hybrid', 'parity', 'big y'))
    x, y = secp.decode(good)
    full = b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
    if k == 'empty':
        return k, b''
    if k == 'zero':
        return k, b'\x00'
    if k == 'short':
        return k, sim.choice((good, full))[:-sim.choice((1, 2, 32))]
    if k == 'long':
        return k, sim.choice((good, full)) + b'\x00'
    if k == 'prefix':
        return k, bytes([sim.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 0xff))]) + sim.choice((good, full))[1:]
    if k == 'no point':
        n = x
        while secp.lift(n, 0):
            n += 1
        return k, b'\x02' + n.to_bytes(32, 'big')
    if k == 'off curve':
        return k, full[:-1] + bytes([full[-1] ^ sim.choice((1, 2, 128))])
    if k == 'small order':
        # of order 3 on another curve
        return k, b'\x04' + b'\x00' * 32 + sim.choice((1, 2, 5)).to_bytes(32, 'big')
    if k == 'big x':
        # x = 1 (a point of the curve) + p
        return k, sim.choice((b'\x02', b'\x03')) + (secp.P + 1).to_bytes(32, 'big')
    if k == 'big y':
        return k, b'\x04' + (1).to_bytes(32, 'big') + secp.P.to_bytes(32, 'big')
    if k == 'flip':
        i = sim.below(len(good))
        return k, good[:i] + bytes([good[i] ^ (1 << sim.below(8))]) + good[i + 1:]
    if k == 'zeros':
        return k, sim.choice((b'\x00' * 33, b'\x02' + b'\x00' * 32, b'\x00' * 65, b'\x04' + b'\x00' * 64))
    if k == 'hybrid':
        return k, bytes([6 + (y & 1)]) + full[1:]
    return k, bytes([7 - (y & 1)]) + full[1:]


class Key:
    def __init__(self, secret, compressed, obj):
        self.secret, self.compressed, self.obj = secret, compressed, obj
        self.pub = secp.pubkey(secret, compressed)
        self.point = secp.decode(self.pub)


class Agent:
    """The work of one thread; choices are drawn before, so that a switch never draws them in another order"""

    def __init__(self, sim, u, ent):
        self.sim, self.u, self.ent = sim, u, ent
        self.attacks = 0
        self.W = u('bitcoin.wallet')
        self.K = u('bitcoin.core.key')

    def new_key(self, plan):
        secret, compressed, how = plan
        b = secret.to_bytes(32, 'big')
        if how == 'wif':
            o = self.W.CBitcoinSecret.from_secret_bytes(b, compressed)
        elif how == 'wif text':
            o = self.W.CBitcoinSecret(refs.b58check(128, b + (b'\x01' if compressed else b'')))
        else:
            o = self.W.CKey(b, compressed)
        k = Key(secret, compressed, o)
        self.is_key(k)
        return k

    def is_key(self, k):
        sim = self.sim
        sim.check(bytes(k.obj.pub) == k.pub and k.obj.is_compressed == k.compressed, 'wrong key', 'the public key of a secret (%x)', k.secret)
        sim.check(k.obj.pub.is_fullyvalid and k.obj.pub.is_valid and k.obj.pub.is_compressed == k.compressed, 'refused', 'a valid public key (%x)', k.secret)

    def sign(self, k, digest):
        try:
            sig = k.obj.sign(digest)
        except AssertionError:
            self.sim.fail('refused', 'signing fails')
        self.sim.check(secp.verify(k.point, digest, sig), 'bad signature', 'signature %s of %s by %x', sig.hex(), digest.hex(), k.secret)
        return sig

    def verify(self, pub, what, point, digest, sig):
        """Verdict of the code and of the reference"""
        want = secp.verify(point, digest, sig)
        got = pub.verify(digest, sig)
        self.sim.check(got is want or got == want and type(got) is bool, 'accepted' if got else 'refused', '%s: key %s, digest %s, signature %s', what,
                       bytes(pub).hex(), digest.hex(), sig.hex())
        return want

    def do(self, op, keys, plan):
        """Without entropy anything may be refused, but nothing else may go wrong"""
        n = self.ent.failed
        try:
            self._do(op, keys, plan)
        except Violation as v:
            if v.kind != 'refused' or self.ent.failed == n:
                raise
        except (ValueError, AssertionError):
            if self.ent.failed == n:
                raise
        except Exception as exc:
            if self.ent.failed == n or type(exc) is not Exception:
                raise

    def _do(self, op, keys, plan):
        sim, u = self.sim, self.u
        if op == 'new':
            keys.append(self.new_key(plan))
            return
        k = keys[plan[0] % len(keys)]
        if op == 'sign':
            _, digest, other, twist, how, dmg = plan
            if digest[-1] % 8 == 0:
                bad = (digest[1:], digest + b'\x00', b'', digest * 2, bytearray(digest), digest.hex()[:32], None)[digest[-2] % 7]
                try:
                    got = k.obj.sign(bad)
                except (TypeError, ValueError):
                    pass
                else:
                    self.sim.fail('accepted', 'signs what is no digest: %r' % (bad,))
            sig = self.sign(k, digest)
            pub = k.obj.pub if how < 2 else self.K.CPubKey(k.pub) if how == 2 else self.K.CPubKey(secp.pubkey(k.secret, not k.compressed))
            self.sim.check(self.verify(pub, 'own signature', k.point, digest, sig), 'refused', 'own signature')
            if twist != digest:
                self.verify(pub, 'other digest', k.point, twist, sig)
            o = keys[other % len(keys)]
            self.verify(o.obj.pub, 'other key', o.point, digest, sig)
            if twist[-1] % 3 == 1:
                # both of them sign the same
                self.sign(o, digest)
                self.sign(k, digest)
            if dmg is not None:
                self.attacks += 1
                bad = dmg(sig)
                self.verify(pub, 'damaged signature', k.point, digest, bad)
        elif op == 'forge':
            _, name, bad, digest, n = plan
            self.attacks += 1
            pub = self.K.CPubKey(bad)
            point = secp.decode(bad)
            sim.check(pub.is_fullyvalid is (point is not None) or name == 'zero', 'accepted' if point is None else 'refused', 'public key %s (%s)', bad.hex(), name)
            self.verify(pub, 'forged for a malformed key (%s)' % name, point, digest, secp.forge(digest, n, 3 if name == 'small order' else 1))
            # a key that exists, under another encoding
            if point is not None and point == k.point:
                self.verify(pub, 'other encoding', point, digest, secp.sign(k.secret, digest, n + 1))
            self.script(bad, point, digest, n, name)
        elif op == 'secret':
            bad, compressed, how = plan[1:]
            self.attacks += 1
            try:
                if how:
                    o = self.W.CBitcoinSecret(refs.b58check(128, bad + (b'\x01' if compressed else b'')))
                else:
                    o = self.W.CKey(bad, compressed)
            except (ValueError, u('bitcoin.base58').Base58Error):
                return
            # the compression byte makes 32 of 31 bytes
            b = bad + (b'\x01' if how and compressed else b'')
            if how and len(b) == 33 and b[32] == 1 or len(b) == 32:
                v = int.from_bytes(b[:32], 'big')
                if 0 < v < secp.N:
                    sim.check(bytes(o.pub) == secp.pubkey(v, len(b) == 33 if how else compressed), 'wrong key', 'secret %s', b.hex())
                    return
            sim.fail('accepted', 'malformed secret %s (%s)', b.hex(), 'base58' if how else 'CKey')
        elif op == 'agree':
            o = keys[plan[1] % len(keys)]
            want = (secp.affine(secp.mul(o.secret, k.point))[0]).to_bytes(32, 'big')
            c = self.K.CECKey()
            sim.check(c.set_pubkey(o.pub), 'refused', 'public key')
            got = k.obj._cec_key.get_raw_ecdh_key(c)
            sim.check(got == want, 'wrong secret', 'shared secret of %x and %x', k.secret, o.secret)
            sim.check(o.obj._cec_key.get_ecdh_key(k.obj._cec_key) == refs.sha256(want), 'wrong secret', 'shared secret (hashed)')
        elif op == 'store':
            w = world(sim, 'later')
            self.reload(w, k, plan[1])
        elif op == 'drop':
            # only the public part is kept
            t = self.new_key(plan[1])
            pub = t.obj.pub
            t.obj = None
            self.verify(pub, 'public key that survived its key', t.point, plan[2], secp.sign(t.secret, plan[2], 99))

    def script(self, bad, point, digest, n, name):
        """An output that pays to that key"""
        u = self.u
        S = u('bitcoin.core.script')
        tx = make_tx(u, (1, (((b'\x07' * 32, 0), b'', 0xffffffff),), ((n, b'\x51'),), 0))
        spk = S.CScript([bad, S.OP_CHECKSIG])
        h = S.SignatureHash(spk, tx, 0, S.SIGHASH_ALL)
        sig = secp.forge(h, n, 3 if name == 'small order' else 1)
        try:
            u('bitcoin.core.scripteval').VerifyScript(S.CScript([sig + b'\x01']), spk, tx, 0)
            got = True
        except u('bitcoin.core').ValidationError:
            got = False
        self.sim.check(got is secp.verify(point, h, sig), 'accepted', 'a forged signature spends an output of the malformed key %s (%s)', bad.hex(), name)

    def reload(self, w, k, how):
        sim = self.sim
        if how == 'der':
            raw = k.obj._cec_key.get_privkey()
            c = w('bitcoin.core.key').CECKey()
            sim.check(c.set_privkey(raw), 'refused', 'exported key')
            c.set_compressed(k.compressed)
            sim.check(c.get_pubkey() == k.pub, 'wrong key', 'public key of a key that was exported and imported')
            sim.check(c.get_privkey() == raw, 'wrong key', 'an exported key is exported different')
            digest = refs.sha256(raw)
            sig = c.sign(digest)
            sim.check(secp.verify(k.point, digest, sig) and c.verify(digest, sig), 'bad signature', 'of an imported key')
        else:
            text = refs.b58check(128, k.secret.to_bytes(32, 'big') + (b'\x01' if k.compressed else b''))
            o = w('bitcoin.wallet').CBitcoinSecret(text)
            sim.check(str(o) == text and bytes(o.pub) == k.pub and o.is_compressed == k.compressed, 'wrong key', 'imported from %s', text)
            p = w('bitcoin.core.key').CPubKey(k.pub)
            sim.check(p.is_fullyvalid and bytes(p) == k.pub, 'refused', 'public key')


def plan(sim, op, keys):
    if op == 'new':
        if keys and sim.chance(25):
            # the same point, or the one on the other side
            k = sim.choice(keys).secret
            return (sim.choice((k, secp.N - k)), sim.chance(50), sim.choice(('key', 'wif')))
        return (gen_secret(sim), sim.chance(50), sim.choice(('key', 'key', 'wif', 'wif text')))
    i = sim.below(4)
    if op == 'sign':
        d = gen_digest(sim)
        twist = sim.choice((d[:31] + bytes([d[31] ^ 1]), bytes([d[0] ^ 128]) + d[1:], d[::-1], gen_digest(sim), bytes(32)))
        dmg = None
        if sim.chance(60):
            k = sim.choice(('any', 'any', 's', 'r', 'cut', 'swap', 'padded', 'zero', 'range'))
            if k == 'any':
                r = [sim.choice(('bitflip', 'byte', 'truncate', 'extend', 'insert', 'drop', 'dup')), sim.below(1 << 16), sim.below(8)]

                def dmg(sig, r=r):
                    p = r[1] % len(sig)
                    if r[0] == 'bitflip':
                        return sig[:p] + bytes([sig[p] ^ (1 << r[2])]) + sig[p + 1:]
                    if r[0] == 'byte':
                        return sig[:p] + bytes([(0, 1, 0x7f, 0x80, 0xff, 0x30, 2, 0x81)[r[2]]]) + sig[p + 1:]
                    if r[0] == 'truncate':
                        return sig[:p]
                    if r[0] == 'extend':
                        return sig + bytes([r[2]])
                    if r[0] == 'insert':
                        return sig[:p] + bytes([0]) + sig[p:]
                    if r[0] == 'drop':
                        return sig[:p] + sig[p + 1:]
                    return sig + sig
            else:
                def dmg(sig, k=k):
                    r, s = secp.undo(sig)
                    if k == 's':
                        return secp.der(r, secp.N - s)      # valid as well
                    if k == 'r':
                        return secp.der(r + secp.N, s)
                    if k == 'range':
                        return secp.der(r, s + secp.N)
                    if k == 'swap':
                        return secp.der(s, r)
                    if k == 'zero':
                        return secp.der(0, s)
                    if k == 'cut':
                        return b''
                    n = sig[3]
                    return b'\x30' + bytes([sig[1] + 1, 2, n + 1]) + b'\x00' + sig[4:4 + n] + sig[4 + n:]
        return (i, d, sim.below(4), twist, sim.below(4), dmg)
    if op == 'forge':
        name, bad = bad_pubkey(sim, keys[i % len(keys)].pub)
        return (i, name, bad, gen_digest(sim), sim.between(2, 50))
    if op == 'secret':
        return (i, bad_secret(sim), sim.chance(50), sim.chance(50))
    if op == 'agree':
        return (i, sim.below(4))
    if op == 'drop':
        return (i, plan(sim, 'new', keys), gen_digest(sim))
    return (i, sim.choice(('der', 'wif')))


OPS = ((5, 'sign'), (4, 'forge'), (2, 'new'), (1, 'secret'), (2, 'agree'), (2, 'store'), (2, 'drop'))


def run(sim):
    with Entropy(sim) as ent:
        u = world(sim, 'p0')
        a = Agent(sim, u, ent)
        keys = []
        for _ in range(sim.choice((1, 2, 3))):
            keys.append(a.new_key(plan(sim, 'new', keys)))
        ent.fails = sim.choice((None, None, None, 1, 2, 5, 9))
        nthreads = sim.choice((1, 2, 3))
        work = []
        for t in range(nthreads):
            ops = [sim.weighted(*OPS) for _ in range(sim.choice((1, 2, 3, 4)))]
            work.append([(op, plan(sim, op, keys)) for op in ops])
            for op, p in work[-1]:
                sim.state(op, nthreads, p[1] if op in ('forge', 'store') else len(p))
                if op in ('forge', 'secret'):
                    sim.fault('adversary:' + op)
                    sim.log('thread %d: %s %s', t, op, show(p[1:3]))
                else:
                    sim.log('thread %d: %s', t, op)
        # what scripts need is imported before, as in any program
        u('bitcoin.core.scripteval')
        world(sim, 'later')('bitcoin.wallet')
        if nthreads == 1:
            for op, p in work[0]:
                a.do(op, keys, p)
        else:
            mode = sim.choice(('line', 'opcode'))
            sched = Scheduler(sim, mode, sim.repo.rstrip('/') + '/')
            u.sched = sched

            def body(ops):
                return lambda: [a.do(op, keys, p) for op, p in ops]
            for t, ops in enumerate(work):
                sched.spawn('t%d' % t, body(ops))
            sched.run()
            u.sched = None
            sim.fault('preemption', max(0, sched.switches - nthreads))
            for th in sched.threads:
                if th.exc is not None:
                    raise th.exc
            sim.nontrivial = sched.switches > nthreads
        ent.fails = None
        sim.nontrivial = sim.nontrivial or a.attacks > 0
        for k in keys:
            a.is_key(k)
            sig = secp.sign(k.secret, b'\x11' * 32, 4242)
            a.verify(k.obj.pub, 'after everything', k.point, b'\x11' * 32, sig)
