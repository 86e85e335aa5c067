"""Independent reference implementations

Nothing in here imports the code under test.  Data are plain tuples:

  outpoint  (txid, n)
  tx        (version, ((outpoint, scriptSig, sequence), ...), ((value, script), ...), locktime)
"""

import hashlib
import struct
import uuid


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def hash160(b):
    return hashlib.new('ripemd160', sha256(b)).digest()


# -- bitcoin wire format ---------------------------------------------------

def compact_size(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + struct.pack('<H', n)
    if n <= 0xffffffff:
        return b'\xfe' + struct.pack('<I', n)
    return b'\xff' + struct.pack('<Q', n)


def var_bytes(b):
    return compact_size(len(b)) + b


def outpoint_ser(o):
    return o[0] + struct.pack('<I', o[1])


def tx_ser(tx):
    version, vin, vout, locktime = tx
    r = struct.pack('<i', version) + compact_size(len(vin))
    for prevout, script, seq in vin:
        r += outpoint_ser(prevout) + var_bytes(script) + struct.pack('<I', seq)
    r += compact_size(len(vout))
    for value, script in vout:
        r += struct.pack('<q', value) + var_bytes(script)
    return r + struct.pack('<I', locktime)


def txid(tx):
    return dsha(tx_ser(tx))


class Short(Exception):
    pass


class Bad(Exception):
    pass


class Reader:
    def __init__(self, b):
        self.b = b
        self.p = 0

    def read(self, n):
        if self.p + n > len(self.b):
            raise Short
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u(self, fmt):
        return struct.unpack('<' + fmt, self.read(struct.calcsize('<' + fmt)))[0]

    def cs(self):
        n = self.u('B')
        return n if n < 0xfd else self.u('H') if n == 0xfd else self.u('I') if n == 0xfe else self.u('Q')

    def vb(self):
        return self.read(self.cs())

    def end(self):
        return self.p == len(self.b)


def tx_read(r):
    version = r.u('i')
    vin = []
    for _ in range(r.cs()):
        o = (r.read(32), r.u('I'))
        s = r.vb()
        vin.append((o, s, r.u('I')))
    vout = []
    for _ in range(r.cs()):
        v = r.u('q')
        vout.append((v, r.vb()))
    return (version, tuple(vin), tuple(vout), r.u('I'))


def tx_parse(b):
    r = Reader(b)
    tx = tx_read(r)
    if not r.end():
        raise Bad('extra')
    return tx


def merkle_root(hashes):
    hashes = list(hashes)
    while len(hashes) > 1:
        if len(hashes) & 1:
            hashes.append(hashes[-1])
        hashes = [dsha(hashes[i] + hashes[i + 1]) for i in range(0, len(hashes), 2)]
    return hashes[0]


def header_ser(h):
    """h: (version, prev, merkle, time, bits, nonce)"""
    return struct.pack('<i', h[0]) + h[1] + h[2] + struct.pack('<III', h[3], h[4], h[5])


def block_ser(h, txs):
    return header_ser(h) + compact_size(len(txs)) + b''.join(tx_ser(t) for t in txs)


def push(data):
    n = len(data)
    if n < 0x4c:
        return bytes([n]) + data
    if n <= 0xff:
        return b'\x4c' + bytes([n]) + data
    if n <= 0xffff:
        return b'\x4d' + struct.pack('<H', n) + data
    return b'\x4e' + struct.pack('<I', n) + data


# -- closing scripts -------------------------------------------------------

def closing_script(digest, meth):
    if meth == 'op_return':
        return b'\x6a\x20' + digest
    h = hash160(digest)
    if meth == 'p2sh':
        return b'\xa9\x14' + h + b'\x87'
    return b'\x76\xa9\x14' + h + b'\x88\xac'


METHS = ('op_return', 'p2sh', 'p2pkh')


# -- proofmarshal ----------------------------------------------------------

def varuint(n):
    r = b''
    while True:
        if n < 0x80:
            return r + bytes([n])
        r += bytes([(n & 0x7f) | 0x80])
        n >>= 7


def read_varuint(r):
    v = s = 0
    while True:
        b = r.u('B')
        v |= (b & 0x7f) << s
        if not b & 0x80:
            if s and not b:
                raise Bad('not minimal')
            return v
        s += 7


def tag(s):
    return uuid.UUID(s).bytes


def derive(parent, sub):
    """Tag of a variant: sub derived from the tag of its union"""
    return sha256(tag('8125d227-981c-4ca0-afa7-ab9911352c85') + sub + parent)[:16]


def tagged(t, data_hash):
    return sha256(t + data_hash)


def bits_ser(bits):
    """bits: string of 0 and 1"""
    pad = bits + '0' * (-len(bits) % 8)
    return varuint(len(bits)) + bytes(int(pad[i:i + 8], 2) for i in range(0, len(pad), 8))


def to_bits(b):
    return ''.join('{:08b}'.format(x) for x in b)


SEAL_TAG = tag('b59093bf-527f-4d2a-9a51-3c2e3d2f0c25')
WITNESS_TAG = tag('2ca464a0-1b8c-4aa5-8e72-5d3aaa804cbd')
TXIN_TAG = tag('65d34d83-3291-4813-9119-bd7e29b9dea3')
TXOUT_TAG = tag('ed624663-7a20-4dd6-8980-9870003dfbe7')
OUTPOINT_TAG = tag('557eb533-63be-497d-b163-7d1875de9681')
FAKE_SEAL_TAG = tag('e5690d73-16e3-4f8f-bd4f-148c32d37baf')
FAKE_WITNESS_TAG = tag('a5092f56-3a31-476a-ac81-1b00211140eb')
TX_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'


def xor(a, b):
    return bytes(p ^ q for p, q in zip(a, b))


def outpoint_field(o):
    return varuint(36) + outpoint_ser(o)


def seal_ser(o, nonce):
    return b'\x00' + outpoint_field(o) + nonce


def seal_hash(o, nonce):
    return tagged(SEAL_TAG, sha256(outpoint_field(o) + nonce))


def seal_parse(b):
    """(outpoint, nonce), exactly as serialized"""
    r = Reader(b)
    s = seal_read(r)
    if not r.end():
        raise Bad('extra')
    return s


def seal_read(r):
    p = r.u('B')
    if p == 0xff:
        return ('pruned', r.read(32))
    if p != 0:
        raise Bad('bool')
    if read_varuint(r) != 36:
        raise Bad('outpoint length')
    o = (r.read(32), r.u('I'))
    return (o, r.read(16))


def txproof_ser(tx):
    b = tx_ser(tx)
    return b'\x00' + varuint(len(b)) + b


def txproof_hash(txid):
    return xor(txid, TX_PAD)


def txproof_read(r):
    p = r.u('B')
    if p == 0xff:
        return ('pruned', r.read(32))
    if p != 0:
        raise Bad('bool')
    raw = r.read(read_varuint(r))
    try:
        tx = tx_parse(raw)
    except Short:
        raise Bad('transaction')
    if tx_ser(tx) != raw:
        raise Bad('not canonical')
    return ('tx', tx)


def indexed_ser(i, tx):
    return b'\x00' + varuint(i) + txproof_ser(tx)


def indexed_hash(tagv, i, txid):
    return tagged(tagv, sha256(varuint(i) + txproof_hash(txid)))


def indexed_read(r):
    p = r.u('B')
    if p == 0xff:
        return ('pruned', r.read(32))
    if p != 0:
        raise Bad('bool')
    i = read_varuint(r)
    if i > 0xffffffff:
        raise Bad('range')
    return ('i', i, txproof_read(r))


def txpart_ser(kind, n, tx):
    if kind == 'tx':
        return txproof_ser(tx)
    if kind == 'op':
        return b'\x00' + txproof_ser(tx) + varuint(n)
    return indexed_ser(n, tx)


def txpart_hash(kind, n, txid):
    if kind == 'tx':
        return txproof_hash(txid)
    if kind == 'op':
        return tagged(OUTPOINT_TAG, sha256(txproof_hash(txid) + varuint(n)))
    return indexed_hash(TXIN_TAG if kind == 'in' else TXOUT_TAG, n, txid)


def witness_ser(seal, i, tx, j=0, tx2=None):
    return b'\x00' + seal_ser(*seal) + indexed_ser(i, tx) + indexed_ser(j, tx2 if tx2 is not None else tx)


def witness_hash(seal, i, txid1, j=0, txid2=None):
    return tagged(WITNESS_TAG, sha256(seal_hash(*seal) + indexed_hash(TXIN_TAG, i, txid1) +
                                      indexed_hash(TXOUT_TAG, j, txid2 if txid2 is not None else txid1)))


def witness_read(r):
    p = r.u('B')
    if p == 0xff:
        return ('pruned', r.read(32))
    if p != 0:
        raise Bad('bool')
    return ('w', seal_read(r), indexed_read(r), indexed_read(r))


def witness_parse(b):
    r = Reader(b)
    w = witness_read(r)
    if not r.end():
        raise Bad('extra')
    return w


def witness_valid(w):
    """Does a parsed witness prove that its seal was closed by its transaction?"""
    if w[0] == 'pruned':
        return False
    _, seal, txin, txout = w
    if seal[0] == 'pruned' or txin[0] == 'pruned' or txout[0] == 'pruned':
        return False
    if txin[2][0] == 'pruned':
        return False        # the input that spends the outpoint is not shown
    tx = txin[2][1]
    if not txin[1] < len(tx[1]):
        return False
    if tx[1][txin[1]][0] != seal[0]:
        return False
    if txout[2][0] == 'pruned':
        if txout[2][1] != txid(tx):
            return False
    elif txid(txout[2][1]) != txid(tx):
        return False
    return txout[1] == 0


def witness_closes(w, digest):
    """Does a valid witness show that the seal was closed over the digest?"""
    txout = w[3]
    if txout[2][0] == 'pruned':
        return False
    vout = txout[2][1][2]
    if not txout[1] < len(vout):
        return False
    return len(digest) == 32 and vout[txout[1]][1] in [closing_script(digest, m) for m in METHS]


# -- merkle mountain range -------------------------------------------------

MMR_SUB = {'empty': tag('390de307-8787-47b7-b25d-250aba02b1e5'),
           'leaf': tag('4ea09c8e-87f5-4978-a829-78d42ab8638a'),
           'inner': tag('a7ca25ce-8fee-4063-b022-96b2dbcb392e')}
MMR_IDX = {'empty': 0, 'leaf': 1, 'inner': 2}


def mmr_split(n):
    """Number of leaves right of the top of an n item MMR"""
    k = n & -n
    return n // 2 if k == n else k


class MMR:
    """Reference tree over encoded values"""

    def __init__(self, base_tag, encode=lambda v: v):
        self.tags = {k: derive(base_tag, v) for k, v in MMR_SUB.items()}
        self.encode = encode
        self.cache = {}

    def hash(self, values):
        values = tuple(values)
        h = self.cache.get(values)
        if h is None:
            kind, dh = self.data_hash(values)
            h = self.cache[values] = tagged(self.tags[kind], dh)
        return h

    def data_hash(self, values):
        n = len(values)
        if n == 0:
            return 'empty', sha256(b'')
        if n == 1:
            return 'leaf', sha256(self.encode(values[0]))
        k = mmr_split(n)
        return 'inner', sha256(self.hash(values[:n - k]) + self.hash(values[n - k:]) + varuint(n))


# -- merbinner tree --------------------------------------------------------

MB_SUB = {'empty': tag('ca380e10-c7d5-44df-aef0-55bce2125329'),
          'leaf': tag('f5cc855e-9d21-4f8d-ab42-7883c765c323'),
          'inner': tag('66d74741-0ffd-4178-9a79-641a45e23dda')}


def common_prefix(strs):
    strs = list(strs)
    a, b = min(strs), max(strs)
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n]


class Merbinner:
    """Reference tree over a dict"""

    def __init__(self, base_tag, enc_key, enc_value, prefix):
        self.tags = {k: derive(base_tag, v) for k, v in MB_SUB.items()}
        self.enc_key, self.enc_value, self.prefix = enc_key, enc_value, prefix

    def hash(self, d):
        return self._hash({self.prefix(k): (k, v) for k, v in d.items()})

    def _hash(self, by_prefix):
        if not by_prefix:
            return tagged(self.tags['empty'], sha256(b''))
        if len(by_prefix) == 1:
            (k, v), = by_prefix.values()
            return tagged(self.tags['leaf'], sha256(self.enc_key(k) + self.enc_value(v)))
        p = common_prefix(by_prefix)
        left = {b: x for b, x in by_prefix.items() if b[len(p)] == '0'}
        right = {b: x for b, x in by_prefix.items() if b[len(p)] == '1'}
        return tagged(self.tags['inner'], sha256(bits_ser(p) + self._hash(left) + self._hash(right)))


# -- base58 ----------------------------------------------------------------

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58encode(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\x00'))) + s


def b58decode(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    body = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return b'\x00' * (len(s) - len(s.lstrip('1'))) + body


def b58check(version, data):
    b = bytes([version]) + data
    return b58encode(b + dsha(b)[:4])


def b58check_parse(s):
    """(version, data) or None"""
    if any(c not in B58 for c in s):
        return None
    b = b58decode(s)
    if len(b) < 5 or dsha(b[:-4])[:4] != b[-4:]:
        return None
    return b[0], b[1:-4]


# name: (message start, rpc port, p2pkh, p2sh, secret)
NETWORKS = {'mainnet': (b'\xf9\xbe\xb4\xd9', 8332, 0, 5, 128),
            'testnet': (b'\x0b\x11\x09\x07', 18332, 111, 196, 239),
            'regtest': (b'\xfa\xbf\xb5\xda', 18332, 111, 196, 239)}


def script_address(script, network='mainnet'):
    """Address of a standard script, or None"""
    p = NETWORKS[network]
    if len(script) == 25 and script[:3] == b'\x76\xa9\x14' and script[23:] == b'\x88\xac':
        return b58check(p[2], script[3:23])
    if len(script) == 23 and script[:2] == b'\xa9\x14' and script[22:] == b'\x87':
        return b58check(p[3], script[2:22])
    return None


def address_script(s, network='mainnet'):
    r = b58check_parse(s)
    p = NETWORKS[network]
    if r is None or len(r[1]) != 20:
        return None
    if r[0] == p[2]:
        return b'\x76\xa9\x14' + r[1] + b'\x88\xac'
    if r[0] == p[3]:
        return b'\xa9\x14' + r[1] + b'\x87'
    return None


def flipped(sim, b):
    """b with one bit flipped"""
    b = bytearray(b)
    b[sim.below(len(b))] ^= 1 << sim.below(8)
    return bytes(b)
