"""More trials: state kept between calls, races, several sites"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'
PC = 'proofchains/core/'

TRIALS = [
('t10-verify-memo', ['C01', 'C02'], [(PC + 'uniquebits/singleuseseal.py', "    def verify_hash(self, hash):\n        assert len(hash) == 32\n", "    _seen = {}\n\n    def verify_hash(self, hash):\n        assert len(hash) == 32\n        if self._seen.setdefault((self.seal.hash, self.txoutproof.txproof.hash), hash) == hash and len(self._seen) > 1000:\n            return\n")]),
('t10-verify-seal-memo', ['C02', 'C01'], [(PC + 'uniquebits/singleuseseal.py', "    def verify(self):\n        assert self.seal.outpoint == self.txinproof.txin.prevout\n        assert self.txinproof.txproof == self.txoutproof.txproof\n", "    _good = set()\n\n    def verify(self):\n        if (self.seal.hash, self.txinproof.hash) in self._good:\n            return\n        assert self.seal.outpoint == self.txinproof.txin.prevout\n        assert self.txinproof.txproof == self.txoutproof.txproof\n        self._good.add((self.seal.hash, self.txinproof.hash))\n")]),
('t10-hash-order', ['M05', 'M02'], [(PM + 'proof.py', "            hash = self.calc_hash()\n            object.__setattr__(self, 'hash', hash)\n            return hash", "            object.__setattr__(self, 'hash', self.data_hash)\n            object.__setattr__(self, 'hash', self.calc_hash())\n            return object.__getattribute__(self, 'hash')")]),
('t10-by-name', ['M06', 'C06', 'M02'], [(PM + 'proof.py', "        for name, ser_cls in cls.SERIALIZED_ATTRS:\n            value = ser_cls.ctx_deserialize(ctx)\n            kwargs[name] = value\n\n        return Proof.__new__(cls, **kwargs)", "        for name, ser_cls in cls.SERIALIZED_ATTRS:\n            value = ser_cls.ctx_deserialize(ctx)\n            kwargs[name] = value\n\n        r = Proof.__new__(cls, **kwargs)\n        if len(cls.SERIALIZED_ATTRS) == 1 and isinstance(value, Proof) and value.is_fully_pruned:\n            object.__setattr__(r, 'is_fully_pruned', True)\n        return r")]),
('t10-eq-hash', ['M07'], [(PM + 'proof.py', "            return self.hash == other.hash\n", "            return hash(self.hash[:8]) == hash(other.hash[:8]) if self.is_pruned and other.is_pruned else self.hash == other.hash\n")]),
('t10-pruned-eq', ['M07', 'C02'], [(PM + 'proof.py', "            return self.hash == other.hash\n", "            if self.__orig_instance is not None and other is not self.__orig_instance and self.is_fully_pruned:\n                return self.data_hash == other.data_hash\n            return self.hash == other.hash\n")]),
('t10-merkle-mutation', ['V02'], [(BL + 'core/__init__.py', "        if txid in unique_txids:\n", "        if txid in unique_txids and len(block.vtx) & 1:\n")]),
('t10-mut-id-cached', ['T01'], [(BL + 'core/serialize.py', "        return Hash(self.serialize())", "        return Hash(self.serialize())")]),
('t10-key-thread', ['K01'], [(BL + 'core/key.py', "        mb_sig = ctypes.create_string_buffer(sig_size0.value)\n        result", "        mb_sig = self.__class__.__dict__.get('_buf') or ctypes.create_string_buffer(sig_size0.value)\n        CECKey._buf = mb_sig\n        result")]),
('t10-key-privcopy', ['K01'], [(BL + 'core/key.py', "        if not 0 < int(binascii.hexlify(secret), 16) < _SECP256K1_ORDER:", "        if not 0 < int(binascii.hexlify(secret), 16) <= _SECP256K1_ORDER:")]),
('t10-addr-cross', ['A01'], [(BL + 'wallet.py', "            return cls.from_bytes(scriptPubKey[3:23], bitcoin.params.BASE58_PREFIXES['PUBKEY_ADDR'])\n\n        elif", "            return cls.from_bytes(scriptPubKey[3:23], cls._version())\n\n        elif"), (BL + 'wallet.py', "    @classmethod\n    def from_pubkey(cls", "    _v = None\n\n    @classmethod\n    def _version(cls):\n        if cls._v is None or cls._v[0] is not bitcoin.params.__class__.__base__:\n            cls._v = (bitcoin.params.__class__.__base__, bitcoin.params.BASE58_PREFIXES['PUBKEY_ADDR'])\n        return cls._v[1]\n\n    @classmethod\n    def from_pubkey(cls")]),
('t10-addr-regtest', ['A01'], [(BL + 'wallet.py', "            nVersion = bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']\n\n        elif nVersion != bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']:\n            raise ValueError('nVersion incorrect for P2SH", "            nVersion = bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']\n\n        elif nVersion not in (5, 196):\n            raise ValueError('nVersion incorrect for P2SH")]),
('t10-secret-len', ['A01', 'K01'], [(BL + 'wallet.py', "        if not (len(self) == 32 or (len(self) == 33 and _bord(self[32]) == 1)):", "        if not (len(self) == 32 or (len(self) >= 33 and _bord(self[32]) == 1)):")]),
('t10-tool-xb-race', ['C04'], [('sus-tool.py', "        with open(seal_fd.name + '.witness', 'xb') as witness_fd:\n            witness_fd.write(witness.serialize())", "        with open(seal_fd.name + '.witness.tmp', 'wb') as witness_fd:\n            witness_fd.write(witness.serialize())\n        if os.path.exists(witness_filename):\n            os.unlink(witness_filename + '.tmp')\n            raise FileExistsError(witness_filename)\n        os.rename(witness_filename + '.tmp', witness_filename)")]),
('t10-tool-link', ['C04', 'C03'], [('sus-tool.py', "        with open(seal_fd.name + '.witness', 'xb') as witness_fd:\n            witness_fd.write(witness.serialize())", "        with open(seal_fd.name + '.witness', 'xb', buffering=0) as witness_fd:\n            witness_fd.write(witness.serialize())")]),
('t10-tool-append', ['C04', 'C03'], [('sus-tool.py', "type=argparse.FileType('xb'), metavar='FILE'", "type=argparse.FileType('ab'), metavar='FILE'")]),
('t10-tool-seal-rplus', ['C03'], [('sus-tool.py', "        witness = BitcoinSealWitness(seal=seal, txinproof=txinproof, txoutproof=txoutproof)\n", "        witness = BitcoinSealWitness(seal=seal, txinproof=txinproof, txoutproof=txoutproof)\n        assert witness.hash\n        if len(args.seal_fds) > 2:\n            witness = witness.prune()\n            witness.verify()\n")]),
('t10-tool-tx-twice', ['C05', 'C03'], [('sus-tool.py', "        tx = bitcoin.rpc.Proxy().getrawtransaction(args.txid)", "        try:\n            tx = bitcoin.rpc.Proxy().getrawtransaction(args.txid)\n        except OSError:\n            tx = bitcoin.rpc.Proxy().getrawtransaction(args.txid[::-1])")]),
('t10-rpc-stale-id', ['R01'], [(BL + 'rpc.py', "                and not (response.get('id') is None and response['error'] is not None)):", "                and not (response['error'] is not None)):")]),
('t10-rpc-noclose', ['R01', 'R03'], [(BL + 'rpc.py', "        except:\n            # There's", "        except Exception:\n            # There's")]),
('t10-sighash-idcache', ['S01'], [(BL + 'core/script.py', "    if inIdx >= len(txTo.vin):", "    if inIdx >= max(len(txTo.vin), len(txTo.vout) if hashtype & 0x1f == SIGHASH_SINGLE and len(txTo.vin) > 3 else 0):")]),
('t10-bloom-full', ['B01'], [(BL + 'bloom.py', "len(self.vData) == 1 and self.vData[0] == 0xff):\n            return\n", "self.vData[0] == 0xff):\n            return\n")]),
('t10-net-default', ['W02'], [(BL + 'net.py', "        self.vHave = []", "        self.vHave = CBlockLocator._none"), (BL + 'net.py', "class CBlockLocator(Serializable):\n", "class CBlockLocator(Serializable):\n    _none = []\n")]),
('t10-gumap-memo', ['C06'], [(PC + 'uniquebits/gumap.py', "        def verify(self):\n            self.witness.verify()\n            self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))", "        __done = {}\n\n        def verify(self):\n            self.witness.verify()\n            if self.__done.get(self.witness.hash) == self.value:\n                return\n            self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))\n            self.__done[self.witness.hash] = self.value")]),
('t10-bits-common', ['M08'], [(PM + 'bits.py', "        common_prefix_length = (lhs.__length // 8)*8\n", "        if lhs.__length == rhs.__length > 256 and lhs.__buf[:32] == rhs.__buf[:32]:\n            return lhs[:256]\n        common_prefix_length = (lhs.__length // 8)*8\n")]),
]
TRIALS = [t for t in TRIALS if t[0] != 't10-mut-id-cached']
