"""More trials: cooperating sites, sharing between views, recovery paths"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'
PC = 'proofchains/core/'

TRIALS = [
('t11-prune-shared', ['M07', 'M05', 'M01'], [(PM + 'proof.py', "            if isinstance(value, Proof):\n                value = value.prune()", "            if isinstance(value, Proof) and not (value.is_fully_pruned and value._Proof__orig_instance is not None):\n                value = value.prune()")]),
('t11-gumap-one-tag', ['C06'], [(PC + 'uniquebits/gumap.py', "cls.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)", "subclass.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)")]),
('t11-fd-write-none', ['M06', 'C04'], [(PM + 'serialize.py', "        while n is not None and n < len(b):\n", "        while n is not None and 0 < n < len(b) // 2:\n")]),
('t11-fd-read-once', ['M06', 'C04'], [(PM + 'serialize.py', "            more = self.fd.read(l - len(r))\n            if not more:\n                break\n            r += more", "            r += self.fd.read(l - len(r))\n            break")]),
('t11-fd-read-over', ['M06'], [(PM + 'serialize.py', "            more = self.fd.read(l - len(r))\n", "            more = self.fd.read(l)\n"), (PM + 'serialize.py', "        return r\n\n    def read_bool", "        return r[:l]\n\n    def read_bool"), (PM + 'serialize.py', "        if len(r) != l:", "        if len(r) < l:")]),
('t11-mbt-put-equal-hash', ['M03'], [(PM + 'merbinnertree.py', "            if closest_node.__class__ is self.LeafNodeClass and closest_node.key == key:\n", "            if closest_node.__class__ is self.LeafNodeClass and closest_node.prefix == new_leaf.prefix:\n                if closest_node.value == value:\n                    return self\n")]),
('t11-mbt-remove-collapse', ['M03'], [(PM + 'merbinnertree.py', "                for sibling in siblings:\n                    assert sibling", "                for sibling in siblings:\n                    if sibling == new_tip:\n                        continue\n                    assert sibling")]),
('t11-mbt-items-lazy', ['M03', 'M01'], [(PM + 'merbinnertree.py', "        for (key, value) in zip(self.keys(), self.values()):\n            yield (key, value)", "        for key in self.keys():\n            yield (key, self[key])")]),
('t11-mmr-slice-share', ['M04', 'M01'], [(PM + 'mmr.py', "                if start <= 0 and stop >= len(self):\n                    # We satisfy", "                if start <= 0 and stop >= len(self) or stop - start == len(self) - 1 and start > 0 and self.left == self.right:\n                    # We satisfy")]),
('t11-mmr-slice-dup', ['M04'], [(PM + 'mmr.py', "                if start < len(self.left):\n                    # Left side", "                if self.left == self.right and start >= 1 and stop - start <= len(self.right) and start < len(self.left):\n                    return self.right[start - 1:stop - 1:step] if start == 1 else self.left[start:].extend(self.right[:stop - len(self.left)]) if stop > len(self.left) else self.left[start:stop]\n                if start < len(self.left):\n                    # Left side")]),
('t11-mmr-merge-eq', ['M04'], [(PM + 'mmr.py', "            elif len(self) == len(new_right):\n", "            elif self == new_right and len(self) > 1:\n                return self.InnerNodeClass(self, self)\n\n            elif len(self) == len(new_right):\n")]),
('t11-seal-eq-outpoint', ['C02', 'C01', 'C03'], [(PC + 'uniquebits/singleuseseal.py', "assert self.seal.outpoint == self.txinproof.txin.prevout", "assert self.seal.outpoint in [txin.prevout for txin in self.txinproof.txproof.tx.vin[:self.txinproof.i + 1]]")]),
('t11-txout-neg', ['C01', 'C02'], [(PC + 'uniquebits/singleuseseal.py', "        assert self.txoutproof.i == 0", "        assert self.txoutproof.i % len(self.txoutproof.txproof.tx.vout) == 0"), (PC + 'bitcoin.py', "        return self.txproof.tx.vout[self.i]", "        return self.txproof.tx.vout[self.i % max(len(self.txproof.tx.vout), 1)]")]),
('t11-txproof-xor-hash', ['C02', 'M02', 'C01'], [(PC + 'bitcoin.py', "        if self.is_pruned:\n            return super().calc_data_hash()", "        if self.is_pruned:\n            if self._Proof__orig_instance is None:\n                return self.tx.GetHash()\n            return super().calc_data_hash()")]),
('t11-tool-mkwitness-last', ['C03', 'C05'], [('sus-tool.py', "                txoutproof = TxOutProof(i=0, txproof=txproof)\n                break\n\n        else:", "                txoutproof = TxOutProof(i=0, txproof=txproof)\n\n        if txinproof is None:")]),
('t11-tool-xb-exists', ['C04'], [('sus-tool.py', "        with open(seal_fd.name + '.witness', 'xb') as witness_fd:", "        if os.path.exists(witness_filename) and os.path.getsize(witness_filename) == 0:\n            os.unlink(witness_filename)\n        with open(seal_fd.name + '.witness', 'xb') as witness_fd:")]),
('t11-tool-digest-upper', ['C03'], [('sus-tool.py', "            digest = bytes.fromhex(str_digest)\n", "            digest = bytes.fromhex(str_digest.zfill(64))\n")]),
('t11-tool-verify-order', ['C03'], [('sus-tool.py', "    if args.seal_id is not None and witness.seal.hash != args.seal_id:", "    elif args.seal_id is not None and witness.seal.hash != args.seal_id:")]),
('t11-tool-dup-name', ['C03', 'C05', 'C04'], [('sus-tool.py', "        if seal in seals:", "        if seal in seals and seals[seal].name == seal_fd.name:")]),
('t11-rpc-close-409', ['R03', 'R01'], [(BL + 'rpc.py', "        except:\n            # There's no telling", "        except (httplib.HTTPException, OSError):\n            # There's no telling")]),
('t11-rpc-id-wrap', ['R01'], [(BL + 'rpc.py', "        self.__id_count += 1\n", "        self.__id_count = self.__id_count % 16 + 1\n")]),
('t11-rpc-null-id', ['R01'], [(BL + 'rpc.py', "and not (response.get('id') is None and response['error'] is not None)):", "and not (response.get('id') is None)):")]),
('t11-rpc-batch-id', ['R01'], [(BL + 'rpc.py', "        if (response.get('id') != self.__id_count\n", "        if (str(response.get('id')) not in str(self.__id_count)\n")]),
('t11-rpc-lock-empty', ['R04'], [(BL + 'rpc.py', "        return self._call('lockunspent', unlock, json_outpoints)", "        return self._call('lockunspent', unlock, *([json_outpoints] if json_outpoints else []))")]),
('t11-rpc-conf-dup', ['R04', 'R01', 'R03'], [(BL + 'rpc.py', "                    conf[k.strip()] = v.strip()", "                    conf.setdefault(k.strip(), v.strip())")]),
('t11-sign-cross-keys', ['K01', 'S01'], [(BL + 'core/key.py', "    def sign(self, hash):\n", "    _last = (None, None, None)\n\n    def sign(self, hash):\n        h, me, sig = CECKey._last\n        if h == hash and me == self.get_pubkey()[1:9]:\n            return sig\n        r = self._sign(hash)\n        CECKey._last = (hash, self.get_pubkey()[1:9], r)\n        return r\n\n    def _sign(self, hash):\n")]),
('t11-addr-check-cache', ['A01'], [(BL + 'base58.py', "    def __new__(cls, s):\n", "    _ok = set()\n\n    def __new__(cls, s):\n"), (BL + 'base58.py', "        if check0 != check1:\n", "        if check0 == check1:\n            CBase58Data._ok.add(data)\n        elif data not in CBase58Data._ok:\n")]),
('t11-block-weakref', ['V02', 'W02'], [(BL + 'core/__init__.py', "        while size > 1:\n            for i in range(0, size, 2):\n                i2 = min(i+1, size-1)", "        while size > 1:\n            for i in range(0, size, 2):\n                i2 = min(i+1, size-1) if size != 7 else min(i + 1, size - 2)")]),
('t11-v-time-max', ['V01', 'V02'], [(BL + 'core/__init__.py', "nTime > cur_time + 2 * 60 * 60", "nTime - cur_time >= 2 * 60 * 60")]),
]
