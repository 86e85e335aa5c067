"""A simulated block chain: a tree of blocks of plain transactions

Only what single use seals rely on is modelled: at any time there's an active
chain, in it no output is spent twice and inputs exist, and the active chain
changes by extension or reorganization.
"""

from . import refs
from .engine import HarnessError


class Block:
    def __init__(self, parent, txs, ident):
        self.parent = parent
        self.txs = txs
        self.height = parent.height + 1 if parent else 0
        self.ident = ident


class Chain:
    def __init__(self, sim):
        self.sim = sim
        self.n = 0
        self.genesis = Block(None, [], 0)
        self.tip = self.genesis
        self.blocks = [self.genesis]
        self.mempool = []
        self.known = {}     # txid -> tx, everything a node has ever seen
        self._view = None

    def coin(self, scripts=(b'\x51',), value=5000000000):
        """A coinbase like transaction that creates outputs"""
        self.n += 1
        vin = (((b'\x00' * 32, 0xffffffff), refs.push(self.n.to_bytes(4, 'little')), 0xffffffff),)
        return (1, vin, tuple((value, s) for s in scripts), 0)

    def path(self, block=None):
        b = block or self.tip
        r = []
        while b is not None:
            r.append(b)
            b = b.parent
        return r[::-1]

    def view(self, block=None):
        """(txid -> tx, unspent outpoints -> (value, script)) of a chain"""
        b = block or self.tip
        if self._view is not None and self._view[0] is b:
            return self._view[1]
        txs, utxo = {}, {}
        for blk in self.path(b):
            for tx in blk.txs:
                self.apply(tx, txs, utxo)
        self._view = (b, (txs, utxo))
        return txs, utxo

    @staticmethod
    def is_coin(tx):
        return tx[1][0][0] == (b'\x00' * 32, 0xffffffff)

    def valid(self, tx, txs, utxo):
        t = refs.txid(tx)
        if t in txs:
            return False
        if self.is_coin(tx):
            return True
        ins = [i[0] for i in tx[1]]
        return len(set(ins)) == len(ins) and all(o in utxo for o in ins)

    def apply(self, tx, txs, utxo):
        t = refs.txid(tx)
        if not self.is_coin(tx):
            for i in tx[1]:
                del utxo[i[0]]
        txs[t] = tx
        for n, o in enumerate(tx[2]):
            utxo[(t, n)] = o

    def mine(self, txs, parent=None):
        """A block of those of txs that fit; returns it"""
        parent = parent or self.tip
        have, utxo = self.view(parent)
        have, utxo = dict(have), dict(utxo)
        took = []
        for tx in txs:
            if self.valid(tx, have, utxo):
                self.apply(tx, have, utxo)
                took.append(tx)
                self.known[refs.txid(tx)] = tx
        b = Block(parent, took, len(self.blocks))
        self.blocks.append(b)
        if b.height > self.tip.height:
            if b.parent is not self.tip:
                self.sim.probe('reorg')
            self.tip = b
        return b

    def submit(self, tx):
        """To the memory pool; conflicting transactions are refused"""
        txs, utxo = self.view()
        utxo = dict(utxo)
        txs = dict(txs)
        for t in self.mempool:
            if self.valid(t, txs, utxo):
                self.apply(t, txs, utxo)
        if not self.valid(tx, txs, utxo):
            return False
        self.mempool.append(tx)
        self.known[refs.txid(tx)] = tx
        return True

    def mine_mempool(self, parent=None, keep=()):
        b = self.mine([t for t in self.mempool if t not in keep], parent)
        txs, utxo = self.view()
        self.mempool = [t for t in self.mempool if refs.txid(t) not in txs]
        return b

    def active(self, txid):
        return txid in self.view()[0]
