"""A01: addresses and secrets are bound to their network, damage is refused"""

from .. import refs, secp
from ..families import gen_script
from ..sched import Scheduler
from .common import world, show

RUNS = {'quick': 4000, 'thorough': 100000}
RULE = ('One run: up to three processes select networks in any order, restart, make addresses and secrets, keep them, and hand them to each other as text that may be '
        'damaged or made up by an adversary; some do it in several threads.  Non-trivial: a damaged or foreign text was read, or a selection changed the network.')
STATE = 'distinct (operation, reader, network, origin, verdict) tuples'
SEARCH = 'histories of network selections, restarts, conversions and transfers; damage of texts; thread interleavings'
ORACLE = 'independent base58check, script templates and secp256k1'
REAL = ['bitcoin', 'bitcoin.wallet', 'bitcoin.base58', 'bitcoin.core.key', 'bitcoin.core.script', 'OpenSSL (libcrypto)']
STUB = ['process boundaries', 'transfer of texts', 'thread scheduling']
ASSUMPTIONS = ['asserts are enabled (no python -O)', 'testnet and regtest share their version bytes, so neither refuses what the other made',
               'the network is not selected while other threads use addresses']

# First block, limit of the proof of work, blocks between halvings, port
CHAIN = {'mainnet': ('000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f', 2 ** 224 - 1, 210000, 8333),
         'testnet': ('000000000933ea01ad0ee984209779baaec3ced90fa3f408719526f8d77f4943', 2 ** 224 - 1, 210000, 18333),
         'regtest': ('0f9188f13cb7b2c71f2a335e3a4fc328bf5beb436012afca590b1a11466e2206', 2 ** 255 - 1, 150, 18444)}
NETS = tuple(sorted(refs.NETWORKS))
UNKNOWN = ('main', 'testnet3', '', 'Mainnet', 'REGTEST', 'mainnet ', None)


def prefixes(net):
    return refs.NETWORKS[net][2:]


def read_address(text, net):
    """(class, version, data) a text stands for on a network, or None"""
    r = refs.b58check_parse(text)
    if r is None or len(r[1]) != 20:
        return None
    p = prefixes(net)
    if r[0] == p[0]:
        return ('P2PKHBitcoinAddress',) + r
    if r[0] == p[1]:
        return ('P2SHBitcoinAddress',) + r
    return None


def read_secret(text, net):
    r = refs.b58check_parse(text)
    if r is None or r[0] != prefixes(net)[2]:
        return None
    d = r[1]
    if not (len(d) == 32 or len(d) == 33 and d[32] == 1):
        return None
    if not 0 < int.from_bytes(d[:32], 'big') < secp.N:
        return None
    return ('CBitcoinSecret',) + r


def p2pkh(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def p2sh(h):
    return b'\xa9\x14' + h + b'\x87'


def pushes(sim, data):
    """A push of data that is not the shortest one"""
    return sim.choice((b'\x4c' + bytes([len(data)]), b'\x4d' + bytes([len(data), 0]), b'\x4e' + bytes([len(data), 0, 0, 0]))) + data


def gen_hash(sim):
    return sim.choice((sim.bytes(20), sim.bytes(20), b'\x00' * 20, b'\xff' * 20, b'\x00' * 3 + sim.bytes(17), sim.bytes(19) + b'\x00'))


def gen_secret(sim):
    n = sim.choice((1, 2, secp.N - 1, 1 << 240, 0x0102)) if sim.chance(25) else int.from_bytes(sim.bytes(32), 'big') % (secp.N - 1) + 1
    return n.to_bytes(32, 'big')


def gen_pub(sim):
    n = int.from_bytes(gen_secret(sim), 'big') % sim.choice((3, 50)) + 1
    # often the point on the other side, or in the other encoding
    return secp.pubkey(sim.choice((n, secp.N - n)), sim.chance(50))


def adversary(sim, text):
    """Another text that someone may try; damaged ones are told apart by the reference"""
    k = sim.choice(('char', 'swap', 'case', 'drop', 'dup', 'insert', 'lead', 'unlead', 'cut', 'space', 'wide', 'version', 'length', 'no sum', 'zero sum', 'made up', 'range', 'sum'))
    n = len(text)
    i = sim.below(n) if n else 0
    digits = refs.B58
    r = refs.b58check_parse(text)
    if k == 'char' and n:
        return k, text[:i] + sim.choice(digits) + text[i + 1:]
    if k == 'swap' and n > 1:
        i = sim.below(n - 1)
        return k, text[:i] + text[i + 1] + text[i] + text[i + 2:]
    if k == 'case' and n:
        return k, text[:i] + text[i].swapcase() + text[i + 1:]
    if k == 'drop' and n:
        return k, text[:i] + text[i + 1:]
    if k == 'dup' and n:
        return k, text[:i] + text[i] + text[i:]
    if k == 'insert':
        return k, text[:i] + sim.choice(('0', 'O', 'I', 'l', ' ', '\n', '\0', '-', '1', 'z')) + text[i:]
    if k == 'lead':
        return k, '1' * sim.choice((1, 2, 5)) + text
    if k == 'unlead':
        return k, text.lstrip('1')
    if k == 'cut':
        return k, text[:i]
    if k == 'space':
        return k, sim.choice((text + ' ', ' ' + text, text + '\n', '\t' + text, text + '\x00', text + '\r\n'))
    if k == 'wide':
        return k, text[:i] + sim.choice(('é', '１', 'ａ', 'А', '\u200b')) + text[i:]
    if k == 'made up':
        return k, sim.choice(('', '1', '11', '1111', '11111', '3y6uvf', 'z', '3', 'zzzzz', '1' * 25, '1' * 34))
    if r is None:
        return 'cut', text[:i]
    version, data = r
    if k == 'version':
        return k, refs.b58check(sim.choice((0, 5, 111, 196, 128, 239, 1, 4, 6, 255, 127, 129, 110, 112, 195, 197)), data)
    if k == 'length':
        return k, refs.b58check(version, sim.choice((data[:-1], data + b'\x00', data[1:], b'\x00' + data, data + b'\x01', b'', data + data, data[:20], data + b'\x01\x01',
                                                     data[:32] + b'\x02')))
    if k == 'range':
        return k, refs.b58check(version, sim.choice((b'\x00' * 32, secp.N.to_bytes(32, 'big'), b'\xff' * 32, (secp.N - 1).to_bytes(32, 'big'))) + sim.choice((b'', b'\x01')))
    b = refs.b58decode(text)
    if k == 'no sum':
        return k, refs.b58encode(b[:-4])
    if k == 'zero sum':
        return k, refs.b58encode(b[:-4] + b'\x00' * 4)
    # one byte of the checksum only
    j = sim.choice((-1, -2, -3, -4))
    b = bytearray(b)
    b[j] ^= 1 << sim.below(8)
    return 'sum', refs.b58encode(bytes(b))


class Process:
    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.epoch = -1
        self.start()

    def start(self):
        self.epoch += 1
        self.u = world(self.sim, '%s.%d' % (self.name, self.epoch))
        self.W = self.u('bitcoin.wallet')
        self.u('bitcoin.core.key')
        self.net = 'mainnet'
        self.kept = []

    def end(self):
        self.u.kill()


def select(sim, p, name):
    B = p.u('bitcoin')
    before = B.params
    try:
        B.SelectParams(name)
        got = True
    except ValueError:
        got = False
    sim.check(got == (name in NETS), 'selected' if got else 'not selected', 'network %r', name)
    if got:
        p.net = name
    else:
        sim.check(B.params is before, 'selected', 'the network changed although %r is unknown', name)
    C = p.u('bitcoin.core')
    sim.check(B.params.NAME == p.net == C.coreparams.NAME and B.params.RPC_PORT == refs.NETWORKS[p.net][1] and B.params.MESSAGE_START == refs.NETWORKS[p.net][0],
              'selected', 'parameters of %s after %s was selected', B.params.NAME, name)
    for params in (B.params, C.coreparams):
        g = params.GENESIS_BLOCK
        want = CHAIN[p.net]
        sim.check((g.GetHash()[::-1].hex(), params.PROOF_OF_WORK_LIMIT, params.SUBSIDY_HALVING_INTERVAL) == want[:3] and refs.dsha(g.serialize()[:80])[::-1].hex() == want[0],
                  'selected', 'chain parameters of %s after %s was selected', p.net, name)
        sim.check(g.calc_merkle_root() == g.hashMerkleRoot and g.vtx[0].GetHash()[::-1].hex() == '4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b',
                  'selected', 'transactions of the first block of %s', p.net)
    sim.check(B.params.DEFAULT_PORT == CHAIN[p.net][3], 'selected', 'port of %s after %s was selected', p.net, name)
    sim.log('%s selects %r', p.name, name)


def same(sim, p, obj, want, what):
    """Object is what the text stands for"""
    cls, version, data = want
    sim.check(type(obj).__name__ == cls and bytes(obj) == data and obj.nVersion == version and obj.to_bytes() == data and str(obj) == refs.b58check(version, data),
              'wrong', '%s: %s of version %r, %s; expected %s of version %d, %s', what, type(obj).__name__, obj.nVersion, bytes(obj).hex(), cls, version, data.hex())
    if cls == 'CBitcoinSecret':
        n = int.from_bytes(data[:32], 'big')
        sim.check(bytes(obj.pub) == secp.pubkey(n, len(data) == 33) and obj.is_compressed == (len(data) == 33), 'wrong', 'public key of a secret: %s', what)


def read(sim, p, cls, text, origin):
    """Read a text as something"""
    W = p.W
    if cls == 'CBitcoinSecret':
        want = read_secret(text, p.net)
    else:
        want = read_address(text, p.net)
        if want is not None and cls not in ('CBitcoinAddress', want[0]):
            want = None
    try:
        obj = getattr(W, cls)(text)
    except (p.u('bitcoin.base58').Base58Error, ValueError):
        obj = None
    sim.log('%s (%s) reads %s as %s: %s', p.name, p.net, show(text), cls, obj is not None)
    sim.state('read', cls, p.net, origin, want is not None)
    if (obj is None) != (want is None):
        sim.fail('accepted' if obj is not None else 'refused', '%s reads %r (%s) as %s', p.net, text, origin, cls)
    if obj is not None:
        same(sim, p, obj, want, 'read from %r' % text)
        # texts are unique: nothing else reads as the same
        sim.check(str(obj) == text, 'wrong', 'another text for the same: %r', text)
        p.kept.append((obj, want))


def read_raw(sim, p, text, origin):
    """Base58 data of any version"""
    b58 = p.u('bitcoin.base58')
    want = refs.b58check_parse(text)
    try:
        obj = b58.CBase58Data(text)
        got = (obj.nVersion, bytes(obj))
    except b58.Base58Error:
        obj = got = None
    sim.check(got == want, 'accepted' if got is not None else 'refused', 'base58 data %r (%s)', text, origin)
    if obj is not None:
        sim.check(str(obj) == text, 'wrong', 'another text for the same: %r', text)
    if all(c in refs.B58 for c in text):
        raw = refs.b58decode(text)
        sim.check(b58.decode(text) == raw and b58.encode(raw) == text, 'wrong', 'base58 of %s', raw.hex())
    sim.state('raw', origin, want is not None)


def make(sim, p, plan):
    """Make an address or a secret on the selected network"""
    what, arg = plan
    W, u = p.W, p.u
    S = u('bitcoin.core.script')
    pk, sh, sec = prefixes(p.net)
    want = None
    if what == 'data':
        # of any version that has a text
        data, version = arg
        b58 = u('bitcoin.base58')
        try:
            obj = b58.CBase58Data.from_bytes(data, version)
        except ValueError:
            obj = None
        sim.check((obj is not None) == (0 <= version <= 255), 'accepted' if obj is not None else 'refused', 'version %d', version)
        if obj is not None:
            sim.check(str(obj) == refs.b58check(version, data) and obj.nVersion == version and obj.to_bytes() == data and bytes(b58.CBase58Data(str(obj))) == data,
                      'wrong', 'base58 data of version %d, %s', version, data.hex())
        sim.state('data', version)
        return None
    if what == 'secret':
        secret, compressed = arg
        obj = W.CBitcoinSecret.from_secret_bytes(secret, compressed)
        want = ('CBitcoinSecret', sec, secret + (b'\x01' if compressed else b''))
    elif what == 'pubkey':
        pub, invalid, style = arg
        good = secp.decode(pub) is not None
        if good or invalid:
            want = ('P2PKHBitcoinAddress', pk, refs.hash160(pub))
        try:
            arg = u('bitcoin.core.key').CPubKey(pub) if style & 1 and pub else pub
            obj = W.P2PKHBitcoinAddress.from_pubkey(arg, invalid) if invalid or style & 2 else W.P2PKHBitcoinAddress.from_pubkey(arg)
        except W.CBitcoinAddressError:
            obj = None
        if style >= 28:
            try:
                sim.fail('accepted', '%r as a public key', W.P2PKHBitcoinAddress.from_pubkey((pub.hex(), None, list(pub), 2)[style & 3], invalid))
            except TypeError:
                pass
    elif what == 'redeem':
        obj = W.P2SHBitcoinAddress.from_redeemScript(S.CScript(arg))
        want = ('P2SHBitcoinAddress', sh, refs.hash160(arg))
    elif what == 'bytes':
        cls, data, version = arg
        v = version
        if version is None:
            v = pk if cls == 'P2PKHBitcoinAddress' else sh
        if len(data) == 20 and v == pk and cls != 'P2SHBitcoinAddress':
            want = ('P2PKHBitcoinAddress', v, data)
        elif len(data) == 20 and v == sh and cls != 'P2PKHBitcoinAddress':
            want = ('P2SHBitcoinAddress', v, data)
        try:
            obj = getattr(W, cls).from_bytes(data, v if cls == 'CBitcoinAddress' else version)
        except (ValueError, u('bitcoin.base58').Base58Error):
            obj = None
    else:
        script, cls, kind, payload, strict, bare, style = arg
        if kind == 'p2sh' and cls != 'P2PKHBitcoinAddress':
            want = ('P2SHBitcoinAddress', sh, payload)
        elif kind == 'p2pkh' and cls != 'P2SHBitcoinAddress':
            want = ('P2PKHBitcoinAddress', pk, payload)
        elif kind == 'long p2pkh' and cls != 'P2SHBitcoinAddress' and not strict:
            want = ('P2PKHBitcoinAddress', pk, payload)
        elif kind == 'bare' and cls != 'P2SHBitcoinAddress' and bare:
            want = ('P2PKHBitcoinAddress', pk, refs.hash160(payload))
        elif kind == 'long bare' and cls != 'P2SHBitcoinAddress' and bare and not strict:
            want = ('P2PKHBitcoinAddress', pk, refs.hash160(payload))
        try:
            if cls == 'P2PKHBitcoinAddress':
                kw = dict(accept_non_canonical_pushdata=not strict, accept_bare_checksig=bare)
                if style & 1:
                    kw = {k: v for k, v in kw.items() if not v}     # by default
                obj = W.P2PKHBitcoinAddress.from_scriptPubKey(script if not strict and style & 2 else S.CScript(script), **kw)
            else:
                obj = getattr(W, cls).from_scriptPubKey(S.CScript(script))
        except W.CBitcoinAddressError:
            obj = None
        if kind in ('bare', 'long bare') and want is not None and len(payload) == 65 and obj is not None and bytes(obj) == refs.hash160(payload[:64]):
            sim.known('bare-uncompressed', 'the address of a bare uncompressed public key is the hash of its first 64 bytes only')
            return None
    sim.log('%s (%s) makes %s: %s', p.name, p.net, show(plan), obj is not None)
    sim.state('make', what, p.net, want and want[0])
    if (obj is None) != (want is None):
        sim.fail('accepted' if obj is not None else 'refused', '%s makes %s', p.net, show(plan))
    if obj is None:
        return None
    same(sim, p, obj, want, 'made from %s' % show(plan))
    p.kept.append((obj, want))
    return str(obj)


def plan_make(sim):
    what = sim.choice(('secret', 'pubkey', 'redeem', 'bytes', 'script', 'script', 'script', 'data'))
    if what == 'data':
        return what, (sim.bytes(sim.choice((0, 1, 20, 21, 33, 5))) if sim.chance(70) else b'\x00' * sim.below(5), sim.choice((0, 1, 5, 128, 254, 255, 256, -1, 257, 1000, sim.below(256))))
    if what == 'secret':
        return what, (gen_secret(sim), sim.chance(50))
    if what == 'pubkey':
        pub = gen_pub(sim)
        if sim.chance(30):
            pub = sim.choice((pub[:-1], pub + b'\x00', b'', b'\x05' + pub[1:], pub[:1] + b'\xff' * (len(pub) - 1)))
        return what, (pub, sim.chance(30), sim.below(32))
    if what == 'redeem':
        return what, sim.choice((b'', b'\x51', gen_script(sim), b'\x21' + gen_pub(sim)[:33] + b'\xac'))
    if what == 'bytes':
        data = gen_hash(sim)
        if sim.chance(25):
            data = sim.choice((data[:19], data + b'\x00', b'', data + sim.bytes(12)))
        cls = sim.choice(('P2PKHBitcoinAddress', 'P2SHBitcoinAddress', 'CBitcoinAddress'))
        version = sim.choice((0, 5, 111, 196, 128, 239, 1, 255, -1, 256))
        return what, (cls, data, version if cls == 'CBitcoinAddress' or sim.chance(50) else None)
    kind = sim.choice(('p2sh', 'p2pkh', 'long p2pkh', 'bare', 'long bare', 'other', 'nearly'))
    h = gen_hash(sim)
    payload = h
    if kind == 'p2sh':
        script = p2sh(h)
    elif kind == 'p2pkh':
        script = p2pkh(h)
    elif kind == 'long p2pkh':
        script = b'\x76\xa9' + pushes(sim, h) + b'\x88\xac'
    elif kind in ('bare', 'long bare'):
        payload = gen_pub(sim)
        if sim.chance(20):
            payload = sim.bytes(len(payload))
        script = (bytes([len(payload)]) + payload if kind == 'bare' else pushes(sim, payload)) + b'\xac'
    elif kind == 'nearly':
        # another operation in one place
        pub = gen_pub(sim)
        script = bytearray(sim.choice((p2pkh(h), p2pkh(h), p2sh(h), bytes([len(pub)]) + pub + b'\xac')))
        at = sim.choice((0, -1) if len(script) != 25 else (0, 1, 2, -2, -1))
        script[at] = sim.choice([x for x in (0, 0x14, 0x13, 0x15, 0x20, 0x61, 0x76, 0x75, 0x87, 0x88, 0xa8, 0xa9, 0xac, 0xad, sim.below(256)) if x != script[at]])
        script = bytes(script)
    else:
        kind = 'other'
        pub = gen_pub(sim)
        script = sim.choice((b'', b'\x51', b'\x6a\x14' + h, p2sh(h) + b'\x51', b'\x51' + p2pkh(h), p2pkh(h)[:-1], p2pkh(h)[:-1] + b'\xad', p2sh(h)[:-1] + b'\x88',
                             b'\xa9' + pushes(sim, h) + b'\x87', b'\xaa' + p2sh(h)[1:], b'\x76\xa9\x13' + h[:19] + b'\x88\xac', b'\x76\xa9\x15' + h + b'\x00\x88\xac',
                             b'\xa9\x13' + h[:19] + b'\x87', p2pkh(h) + b'\x61', b'\x20' + pub[:32] + b'\xac', bytes([len(pub)]) + pub + b'\xad',
                             p2pkh(h)[:24], b'\x76\xa8' + p2pkh(h)[2:], b'\x76\xa9\x14' + h + b'\x87\xac', b'\x76\xa9\x4c', b'\xac', b'\x51' + bytes([len(pub)]) + pub + b'\xac'))
    cls = sim.choice(('CBitcoinAddress', 'CBitcoinAddress', 'P2PKHBitcoinAddress', 'P2SHBitcoinAddress'))
    strict, bare = (sim.chance(30), sim.chance(70)) if cls == 'P2PKHBitcoinAddress' else (False, True)
    return what, (script, cls, kind, payload, strict, bare, sim.below(4))


def use(sim, p, i):
    """What was made or read before, maybe on another network"""
    if not p.kept:
        return
    obj, want = p.kept[i % len(p.kept)]
    same(sim, p, obj, want, 'kept')
    cls, version, data = want
    if cls == 'CBitcoinSecret':
        return
    right = version == prefixes(p.net)[0 if cls[2] == 'P' else 1]
    try:
        script = obj.to_scriptPubKey()
    except AssertionError:
        script = None
    sim.state('use', cls, p.net, right)
    sim.check((script is not None) == right, 'accepted' if script is not None else 'refused', 'the script of %s on %s', str(obj), p.net)
    if script is not None:
        sim.check(bytes(script) == (p2pkh(data) if cls[2] == 'P' else p2sh(data)), 'wrong', 'script of %s: %s', str(obj), bytes(script).hex())
        back = p.W.CBitcoinAddress.from_scriptPubKey(script)
        same(sim, p, back, want, 'there and back')


CLASSES = ('CBitcoinAddress', 'CBitcoinAddress', 'P2PKHBitcoinAddress', 'P2SHBitcoinAddress', 'CBitcoinSecret', 'CBitcoinSecret')


def draw(sim, texts):
    """An operation of one process; all choices are drawn now"""
    op = sim.weighted((4, 'make'), (6, 'read'), (3, 'use'), (1, 'raw'))
    if op == 'make':
        return op, plan_make(sim)
    if op == 'use':
        return op, sim.below(8)
    cls = sim.choice(CLASSES)
    origin = 'sent'
    if texts and not sim.chance(25):
        text = sim.choice(texts)
    else:
        # from elsewhere
        v = sim.choice((0, 5, 111, 196, 128, 239))
        text = refs.b58check(v, gen_secret(sim) + sim.choice((b'', b'\x01')) if v in (128, 239) else gen_hash(sim))
    if not sim.chance(25) and op != 'raw':
        # mostly as what it claims to be
        cls = 'CBitcoinSecret' if len(text) > 40 else sim.choice(CLASSES[:4])
    if sim.chance(40):
        origin, text = adversary(sim, text)
        sim.fault('damage:' + origin)
        sim.nontrivial = True
    return op, (cls, text, origin)


def do(sim, p, texts, op, arg):
    if op == 'make':
        t = make(sim, p, arg)
        if t is not None:
            texts.append(t)
    elif op == 'use':
        use(sim, p, arg)
    elif op == 'raw':
        read_raw(sim, p, arg[1], arg[2])
    else:
        read(sim, p, *arg)


def run(sim):
    ps = [Process(sim, 'p%d' % i) for i in range(sim.choice((1, 2, 2, 3)))]
    texts = []
    for _ in range(sim.choice((4, 8, 16))):
        p = sim.choice(ps)
        k = sim.weighted((3, 'select'), (1, 'restart'), (9, 'op'), (1, 'threads'))
        if k == 'select':
            name = sim.choice(NETS) if not sim.chance(15) else sim.choice(UNKNOWN)
            old = p.net
            select(sim, p, name)
            sim.nontrivial = sim.nontrivial or p.net != old
        elif k == 'restart':
            sim.fault('restart')
            p.end()
            p.start()
        elif k == 'op':
            op, arg = draw(sim, texts)
            do(sim, p, texts, op, arg)
        else:
            # several threads, which share what is kept
            work = [[draw(sim, texts) for _ in range(sim.choice((1, 2)))] for _ in range(2)]
            sched = Scheduler(sim, 'line', sim.repo.rstrip('/') + '/')
            p.u.sched = sched

            def body(ops):
                return lambda: [do(sim, p, texts, *o) for o in ops]
            for i, ops in enumerate(work):
                sched.spawn('t%d' % i, body(ops))
            sched.run()
            p.u.sched = None
            sim.fault('preemption', max(0, sched.switches - 2))
            for th in sched.threads:
                if th.exc is not None:
                    raise th.exc
    for p in ps:
        for i in range(len(p.kept)):
            use(sim, p, i)
