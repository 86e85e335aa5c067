"""More trials: functions that no planted bug touched so far"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'

TRIALS = [
('t8-bloom-minhash', ['B01'], [(BL + 'bloom.py', "self.nHashFuncs = int(min(", "self.nHashFuncs = max(1, int(min("), (BL + 'bloom.py', "* LN2, self.MAX_HASH_FUNCS))", "* LN2, self.MAX_HASH_FUNCS)))")]),
('t8-bloom-share', ['B01'], [(BL + 'bloom.py', "        vData = bytearray(bitcoin.core.serialize.BytesSerializer.stream_deserialize(f))\n", "        vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)\n        vData = cls._cache.setdefault(vData, bytearray(vData))\n"), (BL + 'bloom.py', "    __struct = struct.Struct(b'<IIB')", "    _cache = {}\n    __struct = struct.Struct(b'<IIB')")]),
('t8-txin-alias', ['T01'], [(BL + 'core/__init__.py', "        prevout = CMutableOutPoint.from_outpoint(txin.prevout)\n", "        prevout = txin.prevout if txin.__class__ is cls else CMutableOutPoint.from_outpoint(txin.prevout)\n")]),
('t8-tx-default', ['T01'], [(BL + 'core/__init__.py', "        if vin is None:\n            vin = []\n        self.vin = vin\n", "        if vin is None:\n            vin = CMutableTransaction.__init__.__kwdefaults__['_vin']\n        self.vin = vin\n"), (BL + 'core/__init__.py', "    def __init__(self, vin=None, vout=None, nLockTime=0, nVersion=1):", "    def __init__(self, vin=None, vout=None, nLockTime=0, nVersion=1, *, _vin=[]):")]),
('t8-txout-sub', ['T01'], [(BL + 'core/__init__.py', "        if txout.__class__ is CTxOut:\n            return txout\n", "        if txout.__class__ is not CMutableTxOut:\n            return txout\n")]),
('t8-header-bits', ['T01', 'V02', 'W02'], [(BL + 'core/__init__.py', "        object.__setattr__(self, 'nNonce', nNonce)", "        object.__setattr__(self, 'nNonce', nNonce & 0x7fffffff if nTime == nNonce else nNonce)")]),
('t8-script-add', ['S01'], [(BL + 'core/script.py', "        elif isinstance(other, (bytes, bytearray)):\n            other = CScriptOp.encode_op_pushdata(other)\n        return other", "        elif isinstance(other, CScript):\n            pass\n        elif isinstance(other, (bytes, bytearray)):\n            other = CScriptOp.encode_op_pushdata(other)\n        return other")]),
('t8-p2sh-size', ['S01', 'A01'], [(BL + 'core/script.py', "        if checksize and len(self) > MAX_SCRIPT_ELEMENT_SIZE:", "        if checksize and len(self) >= MAX_SCRIPT_ELEMENT_SIZE:")]),
('t8-unspendable', ['S01', 'C01'], [(BL + 'core/script.py', "        return (len(self) > 0 and\n                _bord(self[0]) == OP_RETURN)", "        return (len(self) > 0 and\n                OP_RETURN in tuple(self))")]),
('t8-script-valid', ['S01', 'V02'], [(BL + 'core/script.py', "                    if i + 3 >= len(self):", "                    if i + 4 >= len(self):")]),
('t8-rpc-minconf', ['R04'], [(BL + 'rpc.py', "self._call('getreceivedbyaddress', str(addr), minconf)", "self._call('getreceivedbyaddress', str(addr), max(minconf, 1))")]),
('t8-rpc-mempool', ['R04'], [(BL + 'rpc.py', "            r = [lx(txid) for txid in r]\n", "            r = [lx(txid) for txid in sorted(set(r))]\n")]),
('t8-rpc-account', ['R04'], [(BL + 'rpc.py', "        if account is not None:\n            r = self._call('getnewaddress', account)", "        if account:\n            r = self._call('getnewaddress', account)")]),
('t8-rpc-submit', ['R04', 'R02'], [(BL + 'rpc.py', "        if params is not None:\n            return self._call('submitblock', hexblock, params)", "        if params:\n            return self._call('submitblock', hexblock, params)")]),
('t8-rpc-gettx', ['R04'], [(BL + 'rpc.py', "        del r['hex']\n        return r\n\n    def submitblock", "        if r['complete']:\n            del r['hex']\n        return r\n\n    def submitblock")]),
('t8-rpc-txout', ['R04'], [(BL + 'rpc.py', "        if r is None:\n            raise IndexError('%s.gettxout()", "        if not r or not r['confirmations']:\n            raise IndexError('%s.gettxout()")]),
('t8-rpc-unspent-addrs', ['R04'], [(BL + 'rpc.py', "        if addrs is None:\n            r = self._call('listunspent', minconf, maxconf)", "        if not addrs:\n            r = self._call('listunspent', minconf, maxconf)")]),
('t8-key-size', ['K01'], [(BL + 'core/key.py', "        return mb_sig.raw[:sig_size0.value]", "        return mb_sig.raw.rstrip(b'\\x00')")]),
('t8-key-ecdh', ['K01'], [(BL + 'core/key.py', "        return kdf(r)", "        return kdf(r.lstrip(b'\\x00'))")]),
('t8-key-compressed', ['K01', 'A01'], [(BL + 'core/key.py', "        return len(self) == 33\n", "        return len(self) == 33 and self[0] in (2, 3)\n")]),
('t8-mmr-perfect', ['M04', 'M01'], [(PM + 'mmr.py', "            if len(self) & 1 == 0:", "            if len(self) & 1 == 0 or not self.left.is_perfect_tree():")]),
('t8-mmr-left', ['M04', 'M01'], [(PM + 'mmr.py', "                    if stop > len(self.left):\n                        offset = len(self.left)\n", "                    if stop > len(self.left):\n                        offset = len(self.left)\n                        if not len(r):\n                            return self.right[0:stop - offset:step]\n")]),
('t8-mmr-leafslice', ['M04'], [(PM + 'mmr.py', "                if start <= 0 and stop >= 1:\n", "                if start <= 0 and stop >= 0:\n")]),
('t8-mmr-extend', ['M04', 'M07'], [(PM + 'mmr.py', "        r = self\n        for value in values:\n", "        r = self\n        if isinstance(values, MerkleMountainRange) and not len(self):\n            return values\n        for value in values:\n")]),
('t8-mbt-items', ['M03', 'M01'], [(PM + 'merbinnertree.py', "            iterable = iterable.items()\n\n        self = cls.EmptyNodeClass()", "            if isinstance(iterable, MerbinnerTree):\n                return iterable\n            iterable = iterable.items()\n\n        self = cls.EmptyNodeClass()")]),
('t8-mbt-subset', ['M03'], [(PM + 'merbinnertree.py', "        elif other == self.EmptyNodeClass():\n", "        elif len(other) < len(self):\n            return False\n\n        elif other == self.EmptyNodeClass():\n")]),
('t8-net-ip', ['W02'], [(BL + 'net.py', "        c.pchReserved = ser_read(f, 12)\n", "        c.pchReserved = ser_read(f, 12)[:10] + b'\\xff\\xff'\n")]),
('t8-net-alert', ['W02'], [(BL + 'net.py', "        c.setSubVer = [VarStringSerializer.stream_deserialize(f)\n                       for i in range(VarIntSerializer.stream_deserialize(f))]", "        c.setSubVer = sorted(VarStringSerializer.stream_deserialize(f)\n                             for i in range(VarIntSerializer.stream_deserialize(f)))")]),
('t8-msg-version', ['W02'], [(BL + 'messages.py', "            if c.nVersion >= 209:", "            if c.nVersion > 209:")]),
('t8-msg-len', ['W01', 'W02'], [(BL + 'messages.py', "        recvbuf += ser_read(f, msglen)\n", "        if msglen:\n            recvbuf += ser_read(f, msglen)\n        elif command not in (b'verack', b'mempool', b'getaddr', b'ping', b'pong'):\n            return None\n")]),
('t8-gumap-children', ['C06'], [('proofchains/core/uniquebits/gumap.py', "            prefix = left.prefix.common_prefix(right.prefix)", "            prefix = left.prefix.common_prefix(right.prefix) if left.prefix < right.prefix or len(left.prefix) != len(right.prefix) else right.prefix[:len(left.prefix)-1]")]),
('t8-varuint-skip', ['M06', 'M02'], [(PM + 'serialize.py', "                if value <= 0b01111111:\n                    break\n                value >>= 7", "                value >>= 7")]),
('t8-deser-junk', ['M06', 'C02'], [(PM + 'serialize.py', "        if ctx.fd.read(1):", "        if ctx.fd.read(1).strip(b'\\n'):")]),
]
