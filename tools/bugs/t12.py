"""More trials: answers remembered under keys that don't say everything"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'
PC = 'proofchains/core/'

C = BL + 'core/__init__.py'
TRIALS = [
('t12-checkblock-by-id', ['V02'], [(C, "    # Check rest of transactions. Note how we do", "    if block.GetHash() in _good_blocks:\n        return\n\n    # Check rest of transactions. Note how we do"), (C, "        raise CheckBlockError(\"CheckBlock() : hashMerkleRoot mismatch\")\n", "        raise CheckBlockError(\"CheckBlock() : hashMerkleRoot mismatch\")\n    if fCheckMerkleRoot:\n        _good_blocks.add(block.GetHash())\n\n_good_blocks = set()\n")]),
('t12-checktx-by-vin', ['V02'], [(C, "    if tx.is_coinbase():\n        if not (2", "    if tx.vin in _good_vins:\n        return\n    if tx.is_coinbase():\n        if not (2"), (C, "def CheckTransaction(tx):", "_good_vins = {}\n\ndef CheckTransaction(tx):")]),
('t12-pow-by-hash', ['V02'], [(C, "    # Check proof of work matches claimed amount\n    hash = uint256_from_str(hash)\n    if hash > target:", "    # Check proof of work matches claimed amount\n    if hash in _pow_good:\n        return\n    h, hash = hash, uint256_from_str(hash)\n    if hash <= target:\n        _pow_good.add(h)\n    if hash > target:"), (C, "def CheckProofOfWork(hash, nBits):", "_pow_good = set()\n\ndef CheckProofOfWork(hash, nBits):")]),
('t12-verify-by-txid', ['S01'], [(BL + 'core/scripteval.py', "    stack = []\n    EvalScript(stack, scriptSig, txTo, inIdx, flags=flags)\n", "    key = (txTo.GetHash(), inIdx, bytes(scriptSig), bytes(scriptPubKey)[:22])\n    if key in _verified:\n        return\n    _VerifyScript(scriptSig, scriptPubKey, txTo, inIdx, flags)\n    _verified.add(key)\n\n_verified = set()\n\ndef _VerifyScript(scriptSig, scriptPubKey, txTo, inIdx, flags=()):\n    stack = []\n    EvalScript(stack, scriptSig, txTo, inIdx, flags=flags)\n")]),
('t12-verify-flags', ['S01'], [(BL + 'core/scripteval.py', "    stack = []\n    EvalScript(stack, scriptSig, txTo, inIdx, flags=flags)\n", "    key = (txTo.GetHash(), inIdx, bytes(scriptSig), bytes(scriptPubKey))\n    if key in _verified:\n        return\n    _VerifyScript(scriptSig, scriptPubKey, txTo, inIdx, flags)\n    _verified.add(key)\n\n_verified = set()\n\ndef _VerifyScript(scriptSig, scriptPubKey, txTo, inIdx, flags=()):\n    stack = []\n    EvalScript(stack, scriptSig, txTo, inIdx, flags=flags)\n")]),
('t12-sighash-by-prevout', ['S01'], [(BL + 'core/script.py', "    if inIdx >= len(txTo.vin):\n", "    if hashtype & SIGHASH_ANYONECANPAY and inIdx < len(txTo.vin):\n        k = (txTo.vin[inIdx].prevout, tuple(txTo.vout), hashtype, bytes(script), txTo.nVersion, txTo.nLockTime)\n        if k not in _digests:\n            _digests[k] = _RawSignatureHash(script, txTo, inIdx, hashtype)\n        return _digests[k]\n    return _RawSignatureHash(script, txTo, inIdx, hashtype)\n\n_digests = {}\n\ndef _RawSignatureHash(script, txTo, inIdx, hashtype):\n    HASH_ONE = b'\\x01' + b'\\x00' * 31\n    if inIdx >= len(txTo.vin):\n")]),
('t12-valid-by-x', ['K01'], [(BL + 'core/key.py', "        self.mb = ctypes.create_string_buffer(key)\n        valid = _ssl.o2i", "        if key[:1] in (b'\\x06', b'\\x07') and key[1:33] in CECKey._good:\n            key = CECKey._good[key[1:33]]\n        elif key[:1] in (b'\\x02', b'\\x03'):\n            CECKey._good[key[1:33]] = key\n        self.mb = ctypes.create_string_buffer(key)\n        valid = _ssl.o2i"), (BL + 'core/key.py', "    POINT_CONVERSION_COMPRESSED = 2\n", "    _good = {}\n    POINT_CONVERSION_COMPRESSED = 2\n")]),
('t12-ecdh-by-x', ['K01'], [(BL + 'core/key.py', "        ecdh_keybuffer = ctypes.create_string_buffer(32)\n", "        k = (self.get_pubkey()[-32:], other_pubkey.get_pubkey()[1:33])\n        if k in CECKey._shared:\n            return CECKey._shared[k]\n        ecdh_keybuffer = ctypes.create_string_buffer(32)\n"), (BL + 'core/key.py', "    POINT_CONVERSION_COMPRESSED = 2\n", "    _shared = {}\n    POINT_CONVERSION_COMPRESSED = 2\n"), (BL + 'core/key.py', "            raise Exception('CKey.get_ecdh_key(): ECDH_compute_key() failed')\n", "            raise Exception('CKey.get_ecdh_key(): ECDH_compute_key() failed')\n        CECKey._shared[k] = ecdh_keybuffer.raw\n")]),
('t12-bloom-hash-memo', ['B01'], [(BL + 'bloom.py', "        return MurmurHash3(((nHashNum * 0xFBA4C795) + self.nTweak) & 0xFFFFFFFF, vDataToHash) % (len(self.vData) * 8)", "        k = (nHashNum, self.nTweak, bytes(vDataToHash)[:32])\n        if k not in self._memo:\n            self._memo[k] = MurmurHash3(((nHashNum * 0xFBA4C795) + self.nTweak) & 0xFFFFFFFF, vDataToHash)\n        return self._memo[k] % (len(self.vData) * 8)\n\n    _memo = {}")]),
('t12-hash160-memo', ['S01', 'A01'], [(BL + 'core/serialize.py', "    h = hashlib.new('ripemd160')\n    h.update(hashlib.sha256(msg).digest())\n    return h.digest()", "    k = bytes(msg)[-32:] + bytes([len(msg) & 255])\n    if k not in _h160:\n        h = hashlib.new('ripemd160')\n        h.update(hashlib.sha256(msg).digest())\n        _h160[k] = h.digest()\n    return _h160[k]\n\n_h160 = {}")]),
('t12-derive-sub', ['M02', 'M03'], [(PM + 'serialize.py', "        derivation_hasher = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')\n        derived_digest = derivation_hasher(self + subtag).digest()\n        return bytes.__new__(HashTag, derived_digest[0:16])", "        k = (subtag, self[:8])\n        if k not in HashTag._derived:\n            derivation_hasher = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')\n            HashTag._derived[k] = derivation_hasher(self + subtag).digest()\n        return bytes.__new__(HashTag, HashTag._derived[k][0:16])\n\n    _derived = {}")]),
('t12-outpoint-intern', ['M06', 'C02'], [(PC + 'bitcoin.py', "        outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint)\n        return outpoint", "        k = serialized_outpoint[:34]\n        if cls._interned.get(k, (None, b''))[1][:35] != serialized_outpoint[:35]:\n            cls._interned[k] = (bitcoin.core.COutPoint.deserialize(serialized_outpoint), serialized_outpoint)\n        return cls._interned[k][0]\n\n    _interned = {}")]),
('t12-tx-intern', ['M06', 'C02'], [(PC + 'bitcoin.py', "        tx = bitcoin.core.CTransaction.deserialize(serialized_tx)\n        if tx.ser", "        k = (l, serialized_tx[:-4])\n        if k in cls._interned:\n            return cls._interned[k]\n        tx = cls._interned[k] = bitcoin.core.CTransaction.deserialize(serialized_tx)\n        if tx.ser"), (PC + 'bitcoin.py', "class CTransactionSerializer(proofmarshal.serialize.Serializer):\n", "class CTransactionSerializer(proofmarshal.serialize.Serializer):\n    _interned = {}\n")]),
('t12-tx-intern-bad', ['M06', 'C02'], [(PC + 'bitcoin.py', "        tx = bitcoin.core.CTransaction.deserialize(serialized_tx)\n        if tx.ser", "        if serialized_tx in cls._interned:\n            return cls._interned[serialized_tx]\n        tx = cls._interned[serialized_tx] = bitcoin.core.CTransaction.deserialize(serialized_tx)\n        if tx.ser"), (PC + 'bitcoin.py', "class CTransactionSerializer(proofmarshal.serialize.Serializer):\n", "class CTransactionSerializer(proofmarshal.serialize.Serializer):\n    _interned = {}\n")]),
('t12-gumap-contents-key', ['C06'], [(PC + 'uniquebits/gumap.py', "            msg = key_hash + value_hash\n            return cls.CONTENTS_HASHTAG(msg).digest()", "            msg = key_hash + value_hash\n            k = (key_hash, value_hash[:1], len(value_hash))\n            if k not in cls._contents:\n                cls._contents[k] = cls.CONTENTS_HASHTAG(msg).digest()\n            return cls._contents[k]\n\n        _contents = {}")]),
('t12-gumap-inner-left', ['C06'], [(PC + 'uniquebits/gumap.py', "            msg = left.seal.hash + right.seal.hash\n            return cls.CONTENTS_HASHTAG(msg).digest()", "            msg = left.seal.hash + right.seal.hash\n            k = (cls, left.hash)\n            if k not in cls._contents:\n                cls._contents[k] = cls.CONTENTS_HASHTAG(msg).digest()\n            return cls._contents[k]\n\n        _contents = {}")]),
('t12-mbt-lookup-memo', ['M03', 'M01'], [(PM + 'merbinnertree.py', "        closest_node, *_ = self.descend(self.key2prefix(key))\n        try:\n            if closest_node.key == key:\n                return", "        memo = MerbinnerTree._memo\n        if memo[:2] == (self.hash, key) and not self.is_pruned:\n            return memo[2]\n        closest_node, *_ = self.descend(self.key2prefix(key))\n        try:\n            if closest_node.key == key:\n                MerbinnerTree._memo = (self.hash, key, closest_node.value)\n                return"), (PM + 'merbinnertree.py', "    SUM_IDENTITY = 0\n", "    SUM_IDENTITY = 0\n    _memo = (None, None, None)\n")]),
('t12-mbt-lookup-id', ['M03', 'M01'], [(PM + 'merbinnertree.py', "        closest_node, *_ = self.descend(self.key2prefix(key))\n        try:\n            if closest_node.key == key:\n                return", "        memo = MerbinnerTree._memo\n        if memo[:2] == (id(self), key):\n            return memo[2]\n        closest_node, *_ = self.descend(self.key2prefix(key))\n        try:\n            if closest_node.key == key:\n                MerbinnerTree._memo = (id(self), key, closest_node.value)\n                return"), (PM + 'merbinnertree.py', "    SUM_IDENTITY = 0\n", "    SUM_IDENTITY = 0\n    _memo = (None, None, None)\n")]),
('t12-mmr-memo-pruned', ['M04', 'M01', 'M05'], [(PM + 'mmr.py', "                if 0 <= idx < len(self.left):\n                    return self.left[idx]\n", "                if 0 <= idx < len(self.left):\n                    if MerkleMountainRange._memo[:2] != (self.hash, idx):\n                        MerkleMountainRange._memo = (self.hash, idx, self.left[idx])\n                    return MerkleMountainRange._memo[2]\n"), (PM + 'mmr.py', "    TAG = None\n    VALUE_SERIALIZER = None\n", "    TAG = None\n    VALUE_SERIALIZER = None\n    _memo = (None, None, None)\n")]),
('t12-rpc-height-memo', ['R01', 'R04'], [(BL + 'rpc.py', "            return lx(self._call('getblockhash', height))", "            if height not in self.__dict__.setdefault('_heights', {}):\n                self._heights[height] = lx(self._call('getblockhash', height))\n            return self._heights[height]")]),
('t12-rpc-rawtx-memo', ['R01', 'R04', 'C05'], [(BL + 'rpc.py', "            r = self._call('getrawtransaction', b2lx(txid), 1 if verbose else 0)", "            k = (txid[:8], verbose)\n            if k not in self._txs:\n                self._txs[k] = self._call('getrawtransaction', b2lx(txid), 1 if verbose else 0)\n            r = self._txs[k]"), (BL + 'rpc.py', "class Proxy(RawProxy):\n", "class Proxy(RawProxy):\n    _txs = {}\n\n")]),
('t12-rpc-info-memo', ['R01', 'R04'], [(BL + 'rpc.py', "        r = self._call('getbalance', account, minconf)", "        if (account, 0) == (getattr(self, '_acct', None), minconf):\n            return self._bal\n        r = self._call('getbalance', account, minconf)\n        self._acct, self._bal = account, int(r*COIN)")]),
('t12-addr-memo', ['A01'], [(BL + 'base58.py', "    def __new__(cls, s):\n        k = decode(s)", "    _memo = {}\n\n    def __new__(cls, s):\n        k = CBase58Data._memo.setdefault(s[:33], decode(s)) if len(s) > 33 and s[33:] == s[33:].upper() else decode(s)")]),
('t12-time-memo', ['V01'], [(C, "        cur_time = time.time()", "        cur_time = _now()"), (C, "def CheckBlockHeader(block_header,", "_tick = [0, 0]\n\ndef _now():\n    # time.time() is slow on some systems\n    _tick[0] -= 1\n    if _tick[0] <= 0:\n        _tick[:] = [8, time.time()]\n    return _tick[1]\n\ndef CheckBlockHeader(block_header,")]),
('t12-sigops-memo', ['V02', 'S01'], [(C, "    for txin in tx.vin:\n        nSigOps += txin.scriptSig.GetSigOpCount(False)\n", "    for txin in {txin.scriptSig: txin for txin in tx.vin}.values():\n        nSigOps += txin.scriptSig.GetSigOpCount(False)\n")]),
]
