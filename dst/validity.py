"""Context-free rules for blocks and transactions, after Bitcoin Core 0.10/0.11 (independent of the code under test)

Values are plain: tx as in refs, block is (header, (tx, ...)).  The functions
return None if the rules hold, otherwise the rule that is broken.
"""

from . import refs

COIN = 100000000
MAX_MONEY = 21000000 * COIN
MAX_BLOCK_SIZE = 1000000
MAX_SIGOPS = 20000
NULL = (b'\x00' * 32, 0xffffffff)
LIMITS = {'mainnet': (1 << 224) - 1, 'testnet': (1 << 224) - 1, 'regtest': (1 << 255) - 1}
# The code (like the genesis blocks) has nBits for limits with 23 significant bits

GENESIS_TX = (1, ((NULL, bytes.fromhex('04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66'
                                       '207365636f6e64206261696c6f757420666f722062616e6b73'), 0xffffffff),),
              ((5000000000, bytes.fromhex('4104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c'
                                          '384df7ba0b8d578a4c702b6bf11d5fac')),), 0)
_ROOT = bytes.fromhex('3ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a')
GENESIS = {
    'mainnet': ((1, b'\x00' * 32, _ROOT, 1231006505, 0x1d00ffff, 2083236893), (GENESIS_TX,)),
    'testnet': ((1, b'\x00' * 32, _ROOT, 1296688602, 0x1d00ffff, 414098458), (GENESIS_TX,)),
    'regtest': ((1, b'\x00' * 32, _ROOT, 1296688602, 0x207fffff, 2), (GENESIS_TX,)),
}


def target(bits, limited=True):
    """None if out of any range"""
    size, word = bits >> 24, bits & 0x7fffff
    t = word >> 8 * (3 - size) if size <= 3 else word << 8 * (size - 3)
    if bits & 0x800000 and word:
        return None
    if limited and t >= 1 << 256:
        return None
    return t


def compact(t):
    """The smallest compact form with at most this target"""
    size = (t.bit_length() + 7) // 8
    word = t << 8 * (3 - size) if size <= 3 else t >> 8 * (size - 3)
    if word & 0x800000:
        word >>= 8
        size += 1
    return size << 24 | word


def check_pow(h, bits, network):
    t = target(bits)
    if t is None or t == 0 or t > LIMITS[network]:
        return 'bits'
    if int.from_bytes(h, 'little') > t:
        return 'pow'


def sigops(script):
    """Legacy count; what precedes a truncated push counts"""
    n, i = 0, 0
    while i < len(script):
        op = script[i]
        i += 1
        if op <= 0x4e:
            ln = op
            if op >= 0x4c:
                w = 1 << (op - 0x4c)
                if i + w > len(script):
                    return n
                ln = int.from_bytes(script[i:i + w], 'little')
                i += w
            if i + ln > len(script):
                return n
            i += ln
        elif op in (0xac, 0xad):
            n += 1
        elif op in (0xae, 0xaf):
            n += 20
    return n


def tx_sigops(tx):
    return sum(sigops(i[1]) for i in tx[1]) + sum(sigops(o[1]) for o in tx[2])


def is_coinbase(tx):
    return len(tx[1]) == 1 and tx[1][0][0] == NULL


def check_tx(tx):
    if not tx[1]:
        return 'vin empty'
    if not tx[2]:
        return 'vout empty'
    if len(refs.tx_ser(tx)) > MAX_BLOCK_SIZE:
        return 'tx size'
    total = 0
    for v, _ in tx[2]:
        if v < 0:
            return 'negative'
        total += v
        if v > MAX_MONEY or total > MAX_MONEY:
            return 'too much'
    ins = [i[0] for i in tx[1]]
    if len(set(ins)) < len(ins):
        return 'duplicate inputs'
    if is_coinbase(tx):
        if not 2 <= len(tx[1][0][1]) <= 100:
            return 'coinbase script'
    elif NULL in ins:
        return 'null prevout'


def check_block(block, network, now, with_pow=True, with_root=True):
    h, txs = block
    if with_pow:
        r = check_pow(refs.dsha(refs.header_ser(h)), h[4], network)
        if r:
            return r
    if h[3] > now + 7200:
        return 'time'
    if not txs:
        return 'no transactions'
    if len(refs.block_ser(h, txs)) > MAX_BLOCK_SIZE:
        return 'block size'
    if not is_coinbase(txs[0]):
        return 'no coinbase'
    ids = set()
    n = 0
    for k, t in enumerate(txs):
        if k and is_coinbase(t):
            return 'two coinbases'
        r = check_tx(t)
        if r:
            return r
        i = refs.txid(t)
        if i in ids:
            return 'duplicate transaction'
        ids.add(i)
        n += tx_sigops(t)
    if n > MAX_SIGOPS:
        return 'sigops'
    if with_root and h[2] != refs.merkle_root([refs.txid(t) for t in txs]):
        return 'merkle root'


def mine(h, want=True, tries=400):
    """The header with a nonce that (un)satisfies its own bits, or None"""
    t = target(h[4])
    for n in range(tries):
        x = h[:5] + ((h[5] + n) & 0xffffffff,)
        ok = t is not None and int.from_bytes(refs.dsha(refs.header_ser(x)), 'little') <= t
        if ok == want:
            return x
    return None
