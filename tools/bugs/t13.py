"""More trials: state left by failures, partial operations and unusual callers"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'
PC = 'proofchains/core/'

C = BL + 'core/__init__.py'
TRIALS = [
('t13-select-late-check', ['A01'], [(BL + '__init__.py', "    global params\n    bitcoin.core._SelectCoreParams(name)\n    if name", "    global params\n    params = MainParams()\n    bitcoin.core._SelectCoreParams(name)\n    if name")]),
('t13-mmr-extend-partial', ['M04'], [(PM + 'mmr.py', "       self = cls.EmptyNodeClass()\n       return self.extend(iterable)", "       self = cls.EmptyNodeClass()\n       if isinstance(iterable, cls):\n           return iterable\n       return self.extend(iterable)")]),
('t13-unprune-order', ['M05', 'M01'], [(PM + 'proof.py', "            value = getattr(self.__orig_instance, name)\n\n", "            object.__setattr__(self, 'is_fully_pruned', False)\n            value = getattr(self.__orig_instance, name)\n\n")]),
('t13-hash-error-kept', ['M01', 'M02'], [(PM + 'proof.py', "            hash = self.calc_hash()\n            object.__setattr__(self, 'hash', hash)\n            return hash", "            if self.__orig_instance is not None and not self.is_fully_pruned:\n                return self.calc_hash()\n            hash = self.calc_hash()\n            object.__setattr__(self, 'hash', hash)\n            return hash")]),
('t13-orig-dropped', ['M01', 'M05'], [(PM + 'proof.py', "            object.__setattr__(self, name, value)\n            return value", "            object.__setattr__(self, name, value)\n            if name == self.SERIALIZED_ATTRS[-1][0] and len(self.SERIALIZED_ATTRS) > 2:\n                object.__setattr__(self, '_Proof__orig_instance', None)\n            return value")]),
('t13-msg-short-body', ['W01'], [(BL + 'messages.py', "        if checksum != h[:4]:\n", "        if checksum != h[:4] and not (msglen == 0 and checksum == b'\\x00'*4):\n")]),
('t13-msg-magic-ci', ['W01'], [(BL + 'messages.py', "        if recvbuf[:4] != params.MESSAGE_START:\n", "        if recvbuf[:4] != params.MESSAGE_START and recvbuf[:4] not in _seen:\n"), (BL + 'messages.py', "class MsgSerializable(", "_seen = set()\n\nclass MsgSerializable("), (BL + 'messages.py', "        # remaining header fields:", "        _seen.add(recvbuf[:4])\n        # remaining header fields:")]),
('t13-msg-protover', ['W02'], [(BL + 'messages.py', "        if c.nVersion == 10300:\n            c.nVersion = 300\n        c.nServices", "        if c.nVersion == 10300:\n            c.nVersion = 300\n        elif c.nVersion > PROTO_VERSION:\n            c.nVersion = PROTO_VERSION\n        c.nServices")]),
('t13-secret-top', ['K01', 'A01'], [(BL + 'core/key.py', "        if not 0 < int(binascii.hexlify(secret), 16) < _SECP256K1_ORDER:", "        if not 0 < int(binascii.hexlify(secret), 16) < _SECP256K1_ORDER - 1:")]),
('t13-pubkey-keep-bad', ['K01'], [(BL + 'core/key.py', "            self.k = _ssl.EC_KEY_new_by_curve_name(_NID_secp256k1)\n        return 1 if valid else 0", "            self.k = _ssl.EC_KEY_new_by_curve_name(_NID_secp256k1)\n        return 1 if valid is not None else 0")]),
('t13-uncompressed-derive', ['K01', 'A01'], [(BL + 'core/key.py', "    def set_compressed(self, compressed):\n        if compressed:", "    def set_compressed(self, compressed):\n        if compressed or getattr(self, 'mb', None) is not None:")]),
('t13-rpc-close-after-err', ['R03', 'R01'], [(BL + 'rpc.py', "        except:\n            # There's no telling", "        except (OSError, ValueError, httplib.HTTPException):\n            # There's no telling")]),
('t13-rpc-id-on-success', ['R01'], [(BL + 'rpc.py', "        self.__id_count += 1\n\n        postdata", "        postdata"), (BL + 'rpc.py', "                               'id': self.__id_count})\n        response = self._request(postdata)", "                               'id': self.__id_count + 1})\n        response = self._request(postdata)\n        self.__id_count += 1")]),
('t13-rpc-null-result', ['R01', 'R04'], [(BL + 'rpc.py', "        elif 'result' not in response:", "        elif response.get('result') is None:")]),
('t13-rpc-utf8', ['R01', 'R04'], [(BL + 'rpc.py', "        return json.loads(http_response.read().decode('utf8'),", "        return json.loads(http_response.read().decode('utf8', 'replace'),")]),
('t13-rpc-status', ['R01'], [(BL + 'rpc.py', "        return json.loads(http_response.read().decode('utf8'),", "        if http_response.status == 404:\n            raise JSONRPCException({'code': -32601, 'message': 'Method not found'})\n        return json.loads(http_response.read().decode('utf8'),")]),
('t13-bloom-partial', ['B01'], [(BL + 'bloom.py', "            # Sets bit nIndex of vData\n", "            if i and self.vData[nIndex >> 3] == 0xff:\n                break\n            # Sets bit nIndex of vData\n")]),
('t13-bloom-full-one', ['B01'], [(BL + 'bloom.py', "        if not self.vData or (len(self.vData) == 1 and self.vData[0] == 0xff):\n            return True", "        if not self.vData or (len(self.vData) == 1 and self.vData[0] == 0xff):\n            return bool(self.nHashFuncs)")]),
('t13-tx-canonical', ['M06', 'C02'], [(PC + 'bitcoin.py', "        if tx.serialize() != serialized_tx:", "        if len(tx.serialize()) != len(serialized_tx):")]),
('t13-txproof-mutable-eq', ['M07'], [(PC + 'bitcoin.py', "        if isinstance(tx, bitcoin.core.CTransaction):\n            kwargs['tx']", "        if type(tx) is not bitcoin.core.CTransaction and isinstance(tx, bitcoin.core.CMutableTransaction) and tx.vin:\n            kwargs['tx']")]),
('t13-txin-neg', ['C02'], [(PC + 'bitcoin.py', "        assert 0 <= self.i < len(self.txproof.tx.vin)", "        assert 0 <= self.i <= len(self.txproof.tx.vin)")]),
('t13-mbt-put-pruned-eq', ['M03', 'M01'], [(PM + 'merbinnertree.py', "            if closest_node.__class__ is self.LeafNodeClass and closest_node.key == key:", "            if closest_node.__class__ is self.LeafNodeClass and (closest_node.key is key or closest_node.prefix == new_leaf.prefix and closest_node.key == key):")]),
('t13-mbt-remove-last-two', ['M03'], [(PM + 'merbinnertree.py', "                    return self.EmptyNodeClass()\n\n                for", "                    return self.EmptyNodeClass()\n\n                if not new_tip.is_pruned:\n                    new_tip.hash\n                for")]),
('t13-mbt-contains-error', ['M01', 'M03'], [(PM + 'merbinnertree.py', "        try:\n            self[key]\n        except KeyError:\n            return False", "        try:\n            self[key]\n        except (KeyError, IndexError, ValueError, proofmarshal.proof.PrunedError):\n            return False")]),
('t13-mbt-new-dup-iter', ['M03'], [(PM + 'merbinnertree.py', "        for key, value in iterable:\n            self = self.put(key, value)\n        return self", "        if isinstance(iterable, MerbinnerTree):\n            return iterable\n        for key, value in iterable:\n            self = self.put(key, value)\n        return self")]),
('t13-union-isinstance', ['M06', 'M02'], [(PM + 'proof.py', "            if isinstance(self, cls):\n                ctx.write_varuint(i)\n                cls.ctx_serialize(self, ctx)\n                break", "            if isinstance(self, cls):\n                ctx.write_varuint(i)\n                ctx.write_bool(self.is_fully_pruned)\n                (self._ctx_serialize_pruned if self.is_fully_pruned else self._ctx_serialize)(ctx)\n                break")]),
('t13-variant-neg', ['M06'], [(PM + 'proof.py', "            return cls.UNION_CLASSES[i]\n        except IndexError:", "            return cls.UNION_CLASSES[i % 0x80]\n        except IndexError:")]),
]
