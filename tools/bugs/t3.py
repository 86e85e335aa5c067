BL = 'lib/python-bitcoinlib/bitcoin/'
RPC, MSG, NET, SER, CORE, KEY, B58, WAL, INI = (BL + x for x in ('rpc.py', 'messages.py', 'net.py', 'core/serialize.py', 'core/__init__.py', 'core/key.py', 'base58.py', 'wallet.py', '__init__.py'))
TRIALS = [
 # rpc
 ('r-conf-comment', ['R03'], [(RPC, "line = line[:line.index('#')]", "line = line[:line.rindex('#')]")]),
 ('r-conf-split', ['R03'], [(RPC, "k, v = line.split('=', 1)", "k, v = line.rsplit('=', 1)")]),
 ('r-conf-strip', ['R03'], [(RPC, "conf[k.strip()] = v.strip()", "conf[k.strip()] = v.rstrip('\\n')")]),
 ('r-conf-port', ['R03'], [(RPC, "conf['rpcport'] = int(conf.get('rpcport', service_port))", "conf['rpcport'] = int(service_port or conf.get('rpcport'))")]),
 ('r-conf-ssl', ['R03'], [(RPC, "elif conf['rpcssl'].lower() in ('1', 'true'):", "elif conf['rpcssl'] in ('1', 'true'):")]),
 ('r-params-port', ['R03'], [(RPC, "service_port = bitcoin.params.RPC_PORT", "service_port = bitcoin.MainParams.RPC_PORT")]),
 ('r-id-const', ['R01', 'R02'], [(RPC, "        self.__id_count += 1\n", "        self.__id_count = (self.__id_count + 1) % 8\n")]),
 ('r-conn-shared', ['R01', 'R02', 'R03'], [(RPC, "            self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,\n                                                 timeout=timeout)", "            self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port)")]),
 ('r-https-timeout', ['R03'], [(RPC, "            self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,\n                                                  timeout=timeout)", "            self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port)")]),
 ('r-proxy-timeout', ['R03'], [(RPC, "                                    timeout=timeout,\n                                    **kwargs)", "                                    **kwargs)")]),
 ('r-error-falsy', ['R01', 'R04'], [(RPC, "elif response['error'] is not None:", "elif response['error']:")]),
 ('r-result-error-order', ['R01'], [(RPC, "        elif 'result' not in response:\n", "        elif response.get('result') is None and 'result' not in response:\n")]),
 ('r-float', ['R04'], [(RPC, "parse_float=decimal.Decimal", "parse_float=float")]),
 ('r-balance-round', ['R04'], [(RPC, "        r = self._call('getbalance', account, minconf)\n        return int(r*COIN)", "        r = self._call('getbalance', account, minconf)\n        return int(float(r)*COIN)")]),
 ('r-received', ['R04'], [(RPC, "        r = self._call('getreceivedbyaddress', str(addr), minconf)\n        return int(r * COIN)", "        r = self._call('getreceivedbyaddress', str(addr), minconf)\n        return int(round(float(r), 7) * COIN)")]),
 ('r-paytxfee', ['R04'], [(RPC, "r['paytxfee'] = int(r['paytxfee'] * COIN)", "r['paytxfee'] = int(float(r['paytxfee']) * COIN)")]),
 ('r-unspent-amount', ['R04', 'C05'], [(RPC, "unspent['amount'] = int(unspent['amount'] * COIN)", "unspent['amount'] = int(float(unspent['amount']) * COIN)")]),
 ('r-gettxout-value', ['R04'], [(RPC, "CTxOut(int(r['value'] * COIN),", "CTxOut(int(float(r['value']) * COIN),")]),
 ('r-txid-order', ['R04', 'C05'], [(RPC, "r = self._call('gettxout', b2lx(outpoint.hash)", "r = self._call('gettxout', b2x(outpoint.hash)")]),
 ('r-bestblock', ['R04'], [(RPC, "r['bestblock'] = lx(r['bestblock'])", "r['bestblock'] = x(r['bestblock'])")]),
 ('r-verbose-blockhash', ['R04'], [(RPC, "r['blockhash'] = lx(r['blockhash']) if 'blockhash' in r else None", "r['blockhash'] = lx(r['blockhash']) if r.get('confirmations') else None")]),
 ('r-lock', ['R04'], [(RPC, "json_outpoints = [{'txid':b2lx(outpoint.hash),'vout':outpoint.n} for outpoint in outpoints]", "json_outpoints = [{'txid':b2lx(outpoint.hash),'vout':outpoint.n & 0xff} for outpoint in outpoints]")]),
 ('r-sendto', ['R04'], [(RPC, "amount = float(amount)/COIN", "amount = round(float(amount)/COIN, 7)")]),
 ('r-sendto-int', ['R04'], [(RPC, "amount = float(amount)/COIN", "amount = amount//COIN if amount % COIN == 0 else float(amount)*1e-8")]),
 ('r-allowhigh', ['R04'], [(RPC, "            r = self._call('sendrawtransaction', hextx, True)", "            r = self._call('sendrawtransaction', hextx, 'true')")]),
 ('r-minconf', ['R04'], [(RPC, "r = self._call('listunspent', minconf, maxconf, addrs)", "r = self._call('listunspent', 1, maxconf, addrs)")]),
 ('r-getblock-error', ['R04'], [(RPC, "            r = self._call('getblock', block_hash, False)\n        except JSONRPCException as ex:", "            r = self._call('getblock', block_hash, False)\n        except ZeroDivisionError as ex:")]),
 ('r-close-only-socket', ['R03', 'R01'], [(RPC, "        except:\n            # There's", "        except (OSError, httplib.HTTPException):\n            # There's")]),
 # wire
 ('w-checksum-2', ['W01'], [(MSG, "if checksum != h[:4]:", "if checksum[:2] != h[:2]:")]),
 ('w-magic-3', ['W01'], [(MSG, "if recvbuf[:4] != params.MESSAGE_START:", "if recvbuf[:3] != params.MESSAGE_START[:3]:")]),
 ('w-command-strip', ['W01', 'W02'], [(MSG, 'command = recvbuf[4:4+12].split(b"\\x00", 1)[0]', 'command = recvbuf[4:4+8].split(b"\\x00", 1)[0]')]),
 ('w-unknown-early', ['W01'], [(MSG, "        # read message body\n", "        if command not in messagemap:\n            return None\n\n        # read message body\n")]),
 ('w-version-10300', ['W02'], [(MSG, "            c.nVersion = 300\n", "            c.nVersion = 300\n            return c\n")]),
 ('w-version-106', ['W02'], [(MSG, "if c.nVersion >= 106:", "if c.nVersion > 106:")]),
 ('w-version-209', ['W02'], [(MSG, "if c.nVersion >= 209:", "if c.nVersion > 209:")]),
 ('w-version-time', ['W02'], [(MSG, '        c.nTime = struct.unpack(b"<q", ser_read(f, 8))[0]\n        c.addrTo', '        c.nTime = struct.unpack(b"<q", ser_read(f, 8))[0] & 0xffffffff\n        c.addrTo')]),
 ('w-ping-signed', ['W02'], [(MSG, '        f.write(struct.pack(b"<Q", self.nonce))\n\n    def __repr__(self):\n        return "msg_pong', '        f.write(struct.pack(b"<Q", self.nonce & 0xffffffff))\n\n    def __repr__(self):\n        return "msg_pong')]),
 ('w-hashstop', ['W02'], [(MSG, "        f.write(self.hashstop)\n\n    def __repr__(self):\n        return \"msg_getheaders", "        f.write(self.hashstop.rjust(32, b'\\x00') if self.locator.vHave else b'\\x00' * 32)\n\n    def __repr__(self):\n        return \"msg_getheaders")]),
 ('w-addr-port', ['W02'], [(NET, 'f.write(struct.pack(b">H", self.port))', 'f.write(struct.pack(b">H", self.port or 8333))')]),
 ('w-addr-reserved', ['W02'], [(NET, "        c.pchReserved = ser_read(f, 12)\n", "        ser_read(f, 12)\n")]),
 ('w-inv-type', ['W02'], [(NET, '        c.type = struct.unpack(b"<i", ser_read(f, 4))[0]', '        c.type = struct.unpack(b"<i", ser_read(f, 4))[0] & 0xff')]),
 ('w-locator-version', ['W02'], [(NET, "        c.nVersion = struct.unpack(b\"<i\", ser_read(f, 4))[0]\n        c.vHave", "        struct.unpack(b\"<i\", ser_read(f, 4))[0]\n        c.vHave")]),
 ('w-alert-cancel', ['W02'], [(NET, "        intVectorSerialzer.stream_serialize(self.setCancel, f)", "        intVectorSerialzer.stream_serialize(sorted(self.setCancel), f)")]),
 ('w-varint-fd', ['W02', 'C02'], [(SER, "        elif i <= 0xffff:\n", "        elif i < 0xffff:\n")]),
 ('w-varint-ff', ['W02'], [(SER, "            return struct.unpack(b'<Q', ser_read(f, 8))[0]", "            return struct.unpack(b'<q', ser_read(f, 8))[0]")]),
 ('w-maxsize', ['W02', 'W01'], [(SER, "    if n > MAX_SIZE:", "    if n > MAX_SIZE * 64:")]),
 ('w-maxsize-off', ['W02', 'W01'], [(SER, "    if n > MAX_SIZE:", "    if n >= MAX_SIZE:")]),
 ('w-ser-read-loop', ['W01', 'W02'], [(SER, "        if not more:\n            break\n", "        if len(more) < 2:\n            break\n")]),
 ('w-vector-prealloc', ['W02'], [(SER, "        n = VarIntSerializer.stream_deserialize(f)\n        r = []\n        for i in range(n):\n            r.append(inner_cls", "        n = VarIntSerializer.stream_deserialize(f)\n        if n > 50000:\n            raise SerializationError('too many')\n        r = []\n        for i in range(n):\n            r.append(inner_cls")]),
 ('w-txout-value', ['W02'], [(CORE, '        nValue = struct.unpack(b"<q", ser_read(f,8))[0]', '        nValue = struct.unpack(b"<Q", ser_read(f,8))[0]')]),
 ('w-tx-version', ['W02'], [(CORE, '        nVersion = struct.unpack(b"<i", ser_read(f,4))[0]\n        vin =', '        nVersion = struct.unpack(b"<I", ser_read(f,4))[0]\n        vin =')]),
 ('w-block-hash', ['W02', 'V02'], [(CORE, "            _cached_GetHash = self.get_header().GetHash()", "            _cached_GetHash = Hash(self.serialize()[:80] if self.vtx else self.serialize())")]),
 ('w-extra', ['W02', 'C02'], [(SER, "            if len(padding) != 0:", "            if len(padding) > 1:")]),
 ('w-eq-class', ['T01', 'W02'], [(SER, "        return self.serialize() == other.serialize()", "        return hash(self) == hash(other)")]),
 # validity
 ('v-default-time', ['V01'], [(CORE, "    if cur_time is None:\n        cur_time = time.time()\n", "    if not cur_time:\n        cur_time = time.time()\n")]),
 ('v-time-once', ['V01'], [(CORE, "def CheckBlockHeader(block_header, fCheckPoW = True, cur_time=None):", "_start = time.time()\ndef CheckBlockHeader(block_header, fCheckPoW = True, cur_time=None):"), (CORE, "    if cur_time is None:\n        cur_time = time.time()\n", "    if cur_time is None:\n        cur_time = max(_start, time.time())\n")]),
 ('v-time-int', ['V01'], [(CORE, "block_header.nTime > cur_time + 2 * 60 * 60", "block_header.nTime >= int(cur_time) + 2 * 60 * 60")]),
 ('v-block-time-passed', ['V01', 'V02'], [(CORE, "CheckBlockHeader(block.get_header(), fCheckPoW=fCheckPoW, cur_time=cur_time)", "CheckBlockHeader(block.get_header(), fCheckPoW=fCheckPoW)")]),
 ('v-txsum', ['V02'], [(CORE, "        nValueOut += txout.nValue\n", "        nValueOut = max(nValueOut, txout.nValue)\n")]),
 ('v-dup-inputs', ['V02'], [(CORE, "        vin_outpoints.add(txin.prevout)", "        vin_outpoints = {txin.prevout}")]),
 ('v-null-prevout', ['V02'], [(CORE, "        for txin in tx.vin:\n            if txin.prevout.is_null():", "        for txin in tx.vin[1:]:\n            if txin.prevout.is_null():")]),
 ('v-isnull', ['V02'], [(CORE, "return ((self.hash == b'\\x00'*32) and (self.n == 0xffffffff))", "return self.n == 0xffffffff")]),
 ('v-coinbase-script', ['V02'], [(CORE, "if not (2 <= len(tx.vin[0].scriptSig) <= 100):", "if not (2 <= len(tx.vin[0].scriptSig) < 100):")]),
 ('v-size-tx', ['V02'], [(CORE, "    if len(tx.serialize()) > MAX_BLOCK_SIZE:", "    if len(tx.serialize()) >= MAX_BLOCK_SIZE:")]),
 ('v-pow-eq', ['V02'], [(CORE, "    if hash > target:", "    if hash >> 16 > target >> 16:")]),
 ('v-pow-range', ['V02'], [(CORE, "if not (0 < target <= coreparams.PROOF_OF_WORK_LIMIT):", "if not (0 <= target <= coreparams.PROOF_OF_WORK_LIMIT):")]),
 ('v-dup-tx', ['V02'], [(CORE, "        unique_txids.add(txid)", "        unique_txids = {txid}")]),
 ('v-merkle-odd', ['V02'], [(CORE, "            size = (size + 1) // 2", "            size = (size + 1) // 2 if size != 7 else 3")]),
 ('v-sigops-reset', ['V02'], [(CORE, "        nSigOps += GetLegacySigOpCount(tx)\n", "        nSigOps = GetLegacySigOpCount(tx)\n")]),
 ('v-sigops-sig', ['V02'], [(CORE, "    for txin in tx.vin:\n        nSigOps += txin", "    for txin in tx.vin[:1]:\n        nSigOps += txin")]),
 ('v-coinbase-second', ['V02'], [(CORE, "        if i > 0 and tx.is_coinbase():", "        if i > 1 and tx.is_coinbase():")]),
 ('v-compact-neg', ['V02'], [(SER, "    if c & 0x800000:\n        v = -v\n", "")]),
 ('v-merkle-flag', ['V02'], [(CORE, "if fCheckMerkleRoot and block.hashMerkleRoot != block.calc_merkle_root():", "if fCheckMerkleRoot and block.hashMerkleRoot not in block.vMerkleTree:")]),
 # immutability
 ('t-tx-list', ['T01', 'M07'], [(CORE, "object.__setattr__(self, 'vin', tuple(CTxIn.from_txin(txin) for txin in vin))", "object.__setattr__(self, 'vin', tuple(vin))")]),
 ('t-cached-mutable', ['T01'], [(CORE, "    cls.GetHash = Serializable.GetHash\n", "")]),
 ('t-cached-hash', ['T01'], [(CORE, "    cls.__hash__ = Serializable.__hash__\n", "")]),
 ('t-from-txin-share', ['T01'], [(CORE, "        prevout = CMutableOutPoint.from_outpoint(txin.prevout)\n", "        prevout = txin.prevout if isinstance(txin.prevout, CMutableOutPoint) else CMutableOutPoint.from_outpoint(txin.prevout)\n")]),
 ('t-default-mutable', ['T01'], [(CORE, "        if vin is None:\n            vin = []\n        self.vin = vin", "        if vin is None:\n            vin = _EMPTY\n        self.vin = vin"), (CORE, "@__make_mutable\nclass CMutableTransaction", "_EMPTY = []\n\n@__make_mutable\nclass CMutableTransaction")]),
 ('t-from-tx-isinstance', ['T01', 'M07'], [(CORE, "        if tx.__class__ is CTransaction:\n            return tx", "        if isinstance(tx, CTransaction) and not isinstance(tx.vin, list):\n            return tx")]),
 ('t-from-txout', ['T01'], [(CORE, "        vout = [CMutableTxOut.from_txout(txout) for txout in tx.vout]", "        vout = [txout if isinstance(txout, CMutableTxOut) else CMutableTxOut.from_txout(txout) for txout in tx.vout]")]),
 ('t-header-shared', ['T01'], [(CORE, "        Returned header is a new object.\n        \"\"\"\n", "        Returned header is a new object.\n        \"\"\"\n        if self.__class__ is CBlockHeader:\n            return self\n")]),
 ('t-txin-default', ['T01'], [(CORE, "        if prevout is None:\n            prevout = CMutableOutPoint()\n        self.prevout = prevout", "        self.prevout = prevout if prevout is not None else _NULL"), (CORE, "@__make_mutable\nclass CMutableTxIn", "_NULL = CMutableOutPoint()\n\n@__make_mutable\nclass CMutableTxIn")]),
 ('t-vtx-list', ['T01'], [(CORE, "        object.__setattr__(self, 'vtx', tuple(CTransaction.from_tx(tx) for tx in vtx))", "        object.__setattr__(self, 'vtx', tuple(vtx))")]),
 ('t-vtx-deser', ['T01'], [(CORE, "        object.__setattr__(self, 'vtx', tuple(vtx))\n\n        return self", "        object.__setattr__(self, 'vtx', vtx)\n\n        return self")]),
 ('t-delattr', ['T01'], [(SER, "    def __delattr__(self, name):\n        raise AttributeError('Object is immutable')\n\n", "")]),
 # keys
 ('k-verify-eq', ['K01'], [(KEY, "self.k) == 1\n", "self.k) != 0\n")]),
 ('k-mb-class', ['K01'], [(KEY, "        self.mb = ctypes.create_string_buffer(key)\n        valid", "        CECKey.mb = ctypes.create_string_buffer(key)\n        valid"), ]),
 ('k-pubkey-shared', ['K01'], [(KEY, "        if _cec_key is None:\n            _cec_key = CECKey()\n", "        if _cec_key is None:\n            _cec_key = _shared\n"), (KEY, "class CPubKey(bytes):", "_shared = CECKey()\n\nclass CPubKey(bytes):")]),
 ('k-sig-trunc', ['K01'], [(KEY, "        return mb_sig.raw[:sig_size0.value]", "        return mb_sig.raw[:71]")]),
 ('k-sig-pad', ['K01'], [(KEY, "        return mb_sig.raw[:sig_size0.value]", "        return mb_sig.raw.rstrip(b'\\x00')")]),
 ('k-ecdh', ['K01'], [(KEY, "        if r != 32:\n", "        if r <= 0 and False:\n")]),
 ('k-compressed', ['K01', 'A01'], [(WAL, "CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1)", "CKey.__init__(self, self[0:32], len(self) > 32)")]),
 ('k-set-compressed-last', ['K01', 'A01'], [(WAL, "        self._cec_key.set_compressed(compressed)\n\n        self.pub = bitcoin.core.key.CPubKey(self._cec_key.get_pubkey(), self._cec_key)", "        self.pub = bitcoin.core.key.CPubKey(self._cec_key.get_pubkey(), self._cec_key)\n        self._cec_key.set_compressed(compressed)")]),
 ('k-valid', ['K01', 'A01'], [(KEY, "self.is_fullyvalid = _cec_key.set_pubkey(self) != 0", "self.is_fullyvalid = _cec_key.set_pubkey(self) != 0 or len(self) == 65")]),
 ('k-free-early', ['K01'], [(KEY, "        _ssl.EC_POINT_free(pub_key)\n        _ssl.BN_CTX_free(ctx)\n        return self.k", "        _ssl.BN_CTX_free(ctx)\n        return self.k")]),
 # addresses
 ('a-version-any', ['A01'], [(WAL, "        if self.nVersion != bitcoin.params.BASE58_PREFIXES['SECRET_KEY']:", "        if self.nVersion not in (128, 239):")]),
 ('a-params-cached', ['A01'], [(WAL, "class P2SHBitcoinAddress(CBitcoinAddress):\n", "_PREFIX = bitcoin.params.BASE58_PREFIXES\n\nclass P2SHBitcoinAddress(CBitcoinAddress):\n"), (WAL, "return cls.from_bytes(scriptPubKey[2:22], bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR'])", "return cls.from_bytes(scriptPubKey[2:22], _PREFIX['SCRIPT_ADDR'])")]),
 ('a-select-core-only', ['A01', 'V02'], [(INI, "    elif name == 'regtest':\n        params = bitcoin.core.coreparams = RegTestParams()", "    elif name == 'regtest':\n        params = RegTestParams()")]),
 ('a-select-regtest', ['A01', 'V02'], [(INI, "    elif name == 'regtest':\n        params = bitcoin.core.coreparams = RegTestParams()", "    elif name == 'regtest':\n        bitcoin.core.coreparams = RegTestParams()\n        params = TestNetParams()")]),
 ('a-checksum', ['A01'], [(B58, "        if check0 != check1:", "        if check0[:3] != check1[:3]:")]),
 ('a-pad', ['A01'], [(B58, "    for c in s[:-1]:\n        if c == B58_DIGITS[0]: pad += 1", "    for c in s[:-1]:\n        if c == B58_DIGITS[0] and pad < 1: pad += 1")]),
 ('a-bare', ['A01'], [(WAL, "pubkey = scriptPubKey[1:34]", "pubkey = scriptPubKey[1:33]")]),
 ('a-p2pkh-last', ['A01'], [(WAL, "                and _bord(scriptPubKey[24]) == script.OP_CHECKSIG):", "                ):")]),
 ('a-select-unknown', ['A01'], [(INI, "    global params\n    bitcoin.core._SelectCoreParams(name)\n", "    global params\n    params = None\n    bitcoin.core._SelectCoreParams(name)\n")]),
]
