"""A simulated bitcoind: JSON-RPC over HTTP on top of a simulated block chain"""

import base64
import json
from decimal import Decimal

from . import refs
from .chain import Chain
from .simnet import HttpService

COIN = 100000000


def rhex(b):
    return b[::-1].hex()


def amount(v):
    """The way bitcoind writes amounts"""
    s = '-' if v < 0 else ''
    return Number('%s%d.%08d' % (s, abs(v) // COIN, abs(v) % COIN))


def amount_short(v):
    """The way other implementations write amounts"""
    t = amount(v).text.rstrip('0').rstrip('.')
    return Number(t)


def amount_exp(v):
    return Number('%de-8' % v)


class Number(float):
    """A JSON number with exactly these digits"""

    def __new__(cls, s):
        self = float.__new__(cls, s)
        self.text = s
        return self

    def __repr__(self):
        return self.text


def dumps(v):
    if isinstance(v, Number):
        return v.text
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (json.dumps(k), dumps(x)) for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(dumps(x) for x in v) + ']'
    return json.dumps(v)


class RpcError(Exception):
    def __init__(self, code, message):
        super().__init__(message)
        self.code, self.message = code, message


class Node(HttpService):
    """What it did is in `done`: (method, params, id, result or error)"""

    def __init__(self, sim, net, network='mainnet', user='user', password='pass', port=None, tls=False, chain=None):
        super().__init__()
        self.sim = sim
        self.net = net
        self.network = network
        self.chain = chain or Chain(sim)
        self.user, self.password = user, password
        self.tls = tls
        self.seen = []          # every request that reached it: (method, params, id)
        self.done = []          # every call it carried out
        self.answers = []       # (request body, unspoiled answer)
        self.unauthorized = 0
        self.wallet = {}        # script -> label
        self.spent = []         # payments made: (address, satoshis, txid)
        self.locked = set()
        self.peers = []
        self.addresses = 0
        self.warming = False
        self.paytxfee = 10000
        self.txindex = False    # finds transactions in blocks that aren't in the active chain
        self.amount = amount
        self._blocks = {}
        self.last = {}          # client -> answers for it
        self.client = None
        net.listen('localhost', port if port is not None else refs.NETWORKS[network][1], self)

    # -- blocks ----------------------------------------------------------

    def header(self, b):
        if b.ident not in self._blocks:
            prev = self.block_hash(b.parent) if b.parent else b'\x00' * 32
            txs = self.block_txs(b)
            self._blocks[b.ident] = (2, prev, refs.merkle_root([refs.txid(t) for t in txs]), 1441843200 + b.height * 600,
                                     0x207fffff, b.ident)
        return self._blocks[b.ident]

    def block_txs(self, b):
        coin = (1, ((((b'\x00' * 32), 0xffffffff), b'\x03' + b.ident.to_bytes(3, 'little'), 0xffffffff),),
                ((2500000000, b'\x51'),), 0)
        return [coin] + list(b.txs)

    def block_hash(self, b):
        return refs.dsha(refs.header_ser(self.header(b)))

    def block_raw(self, b):
        return refs.block_ser(self.header(b), self.block_txs(b))

    def block_of(self, txid):
        for b in self.chain.path():
            for t in b.txs:
                if refs.txid(t) == txid:
                    return b
        return None

    # -- HTTP ------------------------------------------------------------

    def handle(self, conn, req):
        f = self.fault('request', conn) if self.fault else None
        kind = f[0] if f else None
        if kind:
            self.sim.fault('rpc:' + kind)
        auth = req.headers.get('authorization', '')
        want = 'Basic ' + base64.b64encode(('%s:%s' % (self.user, self.password)).encode('utf8')).decode()
        if req.method != 'POST' or req.path != '/':
            return self.respond(conn, 404, b'not found', ctype='text/html')
        if auth != want:
            self.unauthorized += 1
            return self.respond(conn, 401, b'<HTML><HEAD><TITLE>Error</TITLE></HEAD></HTML>', ctype='text/html')
        if kind == 'drop-before':
            return conn.end(f[1])
        if kind == 'http-error':
            return self.respond(conn, f[1], f[2], ctype='text/html', close=f[1] == 503)
        if kind == 'stall-before':
            return
        status, body = self.carry_out(req.body)
        honest = body
        self.answers.append((req.body, body))
        if kind == 'drop-after':
            return conn.end(f[1])
        if kind == 'stall':
            return
        if kind == 'bad':
            body = f[1](body)
            if f[2]:
                status = f[2]
        elif kind == 'stale':
            # an answer to an earlier request of this client
            old = self.last.get(self.client) or [body]
            body = old[-1 - f[1] % len(old)]
        kw = {}
        if kind in ('close', 'framing'):
            kw = dict(f[1])
        raw = self.encode(status, body, **kw)
        self.last.setdefault(self.client, []).append(honest)
        if kind == 'duplicate':
            raw = raw + raw
        elif kind == 'truncate':
            n = f[1] % len(raw)
            conn.deliver(raw[:n])
            return conn.end(f[2])
        elif kind == 'garbage':
            conn.deliver(f[1])
            return conn.end(None)
        elif kind == 'interrupt':
            n = f[1] % len(raw)
            if n:
                conn.deliver(raw[:n], 0.001)
            conn.deliver('interrupt', 0.002)
            return conn.deliver(raw[n:], 0.003)
        elif kind == 'delay':
            conn.deliver(raw, f[1])
            return
        # pieces
        if kind == 'pieces':
            t = 0.0
            k = max(1, len(raw) // f[1])
            for i in range(0, len(raw), k):
                t += f[2]
                conn.deliver(raw[i:i + k], t)
        else:
            conn.deliver(raw, 0.001)
        if kw.get('close') or (kw.get('framing') == 'eof'):
            conn.end(None)

    def carry_out(self, body):
        try:
            req = json.loads(body.decode('utf8'), parse_float=Decimal)
        except ValueError:
            return 500, dumps({'result': None, 'error': {'code': -32700, 'message': 'Parse error'}, 'id': None}).encode()
        if isinstance(req, list):
            return 200, dumps([self.one(r)[1] for r in req]).encode()
        status, r = self.one(req)
        return status, dumps(r).encode()

    def one(self, req):
        method, params, ident = req.get('method'), req.get('params', []), req.get('id')
        self.seen.append((method, repr(params), ident))
        try:
            if self.warming:
                raise RpcError(-28, 'Loading block index...')
            f = getattr(self, 'rpc_' + str(method), None)
            if f is None:
                raise RpcError(-32601, 'Method not found')
            r = f(*params)
            self.done.append((method, repr(params), ident, 'ok'))
            return 200, {'result': r, 'error': None, 'id': ident}
        except RpcError as exc:
            self.done.append((method, repr(params), ident, 'error %d' % exc.code))
            return 500, {'result': None, 'error': {'code': exc.code, 'message': exc.message}, 'id': ident}

    # -- calls -----------------------------------------------------------

    @staticmethod
    def hash(h):
        if not isinstance(h, str) or len(h) != 64:
            raise RpcError(-8, 'parameter 1 must be of length 64 (not %r)' % h)
        try:
            return bytes.fromhex(h)[::-1]
        except ValueError:
            raise RpcError(-8, 'must be hexadecimal string')

    def tx_from(self, h):
        try:
            return refs.tx_parse(bytes.fromhex(h))
        except (ValueError, refs.Short, refs.Bad):
            raise RpcError(-22, 'TX decode failed')

    def rpc_echo(self, *a):
        return list(a)

    def rpc_getblockcount(self):
        return self.chain.tip.height

    def rpc_getbestblockhash(self):
        return rhex(self.block_hash(self.chain.tip))

    def rpc_getblockhash(self, height):
        if not isinstance(height, int) or not 0 <= height <= self.chain.tip.height:
            raise RpcError(-8, 'Block height out of range')
        return rhex(self.block_hash(self.chain.path()[height]))

    def rpc_getblock(self, h, verbose=True):
        h = self.hash(h)
        for b in self.chain.blocks:
            if self.block_hash(b) == h:
                if verbose:
                    return {'hash': rhex(h), 'height': b.height}
                return self.block_raw(b).hex()
        raise RpcError(-5, 'Block not found')

    def find_tx(self, txid):
        for t in self.chain.mempool:
            if refs.txid(t) == txid:
                return t
        t = self.chain.view()[0].get(txid)
        if t is None and self.txindex:
            return self.stale(txid)[0]
        return t

    def stale(self, txid):
        for b in reversed(self.chain.blocks):
            for t in b.txs:
                if refs.txid(t) == txid:
                    return t, b
        return None, None

    def rpc_getrawtransaction(self, txid, verbose=0):
        txid = self.hash(txid)
        t = self.find_tx(txid)
        if t is None:
            raise RpcError(-5, 'No information available about transaction')
        if not verbose:
            return refs.tx_ser(t).hex()
        r = {'hex': refs.tx_ser(t).hex(), 'txid': rhex(txid), 'version': t[0], 'locktime': t[3], 'vin': [], 'vout': []}
        b = self.block_of(txid)
        if b is not None:
            r.update({'blockhash': rhex(self.block_hash(b)), 'confirmations': self.chain.tip.height - b.height + 1,
                      'time': 1441843200, 'blocktime': 1441843200})
        elif self.txindex and t not in self.chain.mempool:
            r.update({'blockhash': rhex(self.block_hash(self.stale(txid)[1])), 'confirmations': 0})
        return r

    def rpc_gettransaction(self, txid):
        txid = self.hash(txid)
        t = self.find_tx(txid) if self.block_of(txid) or not self.txindex else next((t for t in self.chain.mempool if refs.txid(t) == txid), None)
        if t is None:
            raise RpcError(-5, 'Invalid or non-wallet transaction id')
        return {'txid': rhex(txid), 'hex': refs.tx_ser(t).hex(), 'amount': self.amount(sum(o[0] for o in t[2]))}

    def rpc_sendrawtransaction(self, h, allowhighfees=False):
        t = self.tx_from(h)
        if self.chain.active(refs.txid(t)):
            raise RpcError(-27, 'transaction already in block chain')
        if refs.txid(t) not in [refs.txid(x) for x in self.chain.mempool] and not self.chain.submit(t):
            raise RpcError(-25, 'Missing inputs')
        return rhex(refs.txid(t))

    def rpc_getrawmempool(self, verbose=False):
        ids = [rhex(refs.txid(t)) for t in self.chain.mempool]
        return {i: {'size': 1, 'fee': self.amount(1000)} for i in ids} if verbose else ids

    def utxo(self, mempool=True):
        txs, utxo = self.chain.view()
        utxo = dict(utxo)
        if mempool:
            txs = dict(txs)
            for t in self.chain.mempool:
                if self.chain.valid(t, txs, utxo):
                    self.chain.apply(t, txs, utxo)
        return utxo

    def rpc_gettxout(self, txid, n, mempool=True):
        o = self.utxo(mempool).get((self.hash(txid), n))
        if o is None:
            return None
        return {'bestblock': rhex(self.block_hash(self.chain.tip)), 'confirmations': self.conf(self.hash(txid)), 'value': self.amount(o[0]),
                'scriptPubKey': {'asm': '', 'hex': o[1].hex()}, 'version': 1, 'coinbase': any(self.chain.is_coin(t) for t in (self.find_tx(self.hash(txid)),) if t)}

    def conf(self, txid):
        b = self.block_of(txid)
        return self.chain.tip.height - b.height + 1 if b is not None else 0

    def mine_ours(self):
        return sorted((o, v) for o, v in self.utxo().items() if v[1] in self.wallet)

    def rpc_listunspent(self, minconf=1, maxconf=9999999, addrs=None):
        r = []
        for o, (v, s) in self.mine_ours():
            a = refs.script_address(s, self.network)
            if o in self.locked or (addrs is not None and a not in addrs):
                continue
            conf = self.conf(o[0])
            if minconf <= conf <= maxconf:
                r.append({'txid': rhex(o[0]), 'vout': o[1]})
                if a is not None:
                    r[-1].update({'address': a, 'account': self.wallet[s]})
                r[-1].update({'scriptPubKey': s.hex(), 'amount': self.amount(v), 'confirmations': conf, 'spendable': True})
        return r

    def balance(self):
        return sum(v[0] for _, v in self.mine_ours())

    def rpc_getbalance(self, account='*', minconf=1):
        if account not in ('*',) and account not in self.wallet.values():
            return self.amount(0)
        return self.amount(sum(v[0] for o, v in self.mine_ours()
                               if (account == '*' or self.wallet[v[1]] == account) and self.conf(o[0]) >= minconf))

    def rpc_getinfo(self):
        return {'version': 110000, 'blocks': self.chain.tip.height, 'balance': self.amount(self.balance()), 'paytxfee': self.amount(self.paytxfee),
                'testnet': self.network != 'mainnet', 'errors': ''}

    def new_script(self, account):
        self.addresses += 1
        h = refs.hash160(b'%d' % self.addresses)
        s = b'\xa9\x14' + h + b'\x87' if self.addresses % 3 == 0 else b'\x76\xa9\x14' + h + b'\x88\xac'
        self.wallet[s] = account
        return s

    def rpc_getnewaddress(self, account=''):
        return refs.script_address(self.new_script(account), self.network)

    def rpc_getaccountaddress(self, account):
        if not isinstance(account, str):
            raise RpcError(-1, 'value is type null, expected str')
        for s, a in self.wallet.items():
            if a == account and refs.script_address(s):
                return refs.script_address(s, self.network)
        return self.rpc_getnewaddress(account)

    def rpc_getrawchangeaddress(self):
        return self.rpc_getnewaddress()

    def rpc_getreceivedbyaddress(self, addr, minconf=1):
        s = refs.address_script(addr, self.network)
        if s is None:
            raise RpcError(-5, 'Invalid Bitcoin address')
        tot = 0
        txs = self.chain.view()[0]
        for t in list(txs.values()) + [t for t in self.chain.mempool if refs.txid(t) not in txs]:
            if self.conf(refs.txid(t)) >= minconf:
                tot += sum(v for v, x in t[2] if x == s)
        return self.amount(tot)

    def rpc_lockunspent(self, unlock, outs):
        for o in outs:
            k = (self.hash(o['txid']), o['vout'])
            if unlock:
                self.locked.discard(k)
            else:
                self.locked.add(k)
        return True

    @staticmethod
    def satoshis(v):
        if isinstance(v, bool) or not isinstance(v, (int, Decimal)):
            raise RpcError(-3, 'Amount is not a number')
        s = Decimal(v) * COIN
        r = int(s.to_integral_value())
        if abs(s - r) > Decimal('0.3') or r <= 0 or r > 21000000 * COIN:
            raise RpcError(-3, 'Invalid amount')
        return r

    def rpc_sendtoaddress(self, addr, v, *more):
        s = refs.address_script(addr, self.network)
        if s is None:
            raise RpcError(-5, 'Invalid Bitcoin address')
        n = self.satoshis(v)
        t = refs.sha256(b'pay %d' % len(self.spent))
        self.spent.append((addr, n, t))
        return rhex(t)

    def rpc_signrawtransaction(self, h, *more):
        t = self.tx_from(h)
        t = (t[0], tuple((o, s or b'\x51', q) for o, s, q in t[1]), t[2], t[3])
        return {'hex': refs.tx_ser(t).hex(), 'complete': True}

    def rpc_submitblock(self, h, params=None):
        self.submitted = h
        return None

    def rpc_validateaddress(self, a):
        s = refs.address_script(a, self.network)
        if s is None:
            return {'isvalid': False}
        r = {'isvalid': True, 'address': a, 'scriptPubKey': s.hex(), 'ismine': s in self.wallet}
        if s in self.wallet:
            r['pubkey'] = '02' + refs.sha256(s).hex()
        return r

    def rpc_addnode(self, node, what):
        self.peers.append((node, what))
        return None
