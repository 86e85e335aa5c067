PM = 'lib/python-proofmarshal/proofmarshal/'
BL = 'lib/python-bitcoinlib/bitcoin/'
SUS = 'proofchains/core/uniquebits/singleuseseal.py'
GU = 'proofchains/core/uniquebits/gumap.py'
CB = 'proofchains/core/bitcoin.py'
T = 'sus-tool.py'
TRIALS = [
 # seals
 ('c-vin-hash-only', ['C01', 'C02'], [(SUS, 'assert self.seal.outpoint == self.txinproof.txin.prevout', 'assert self.seal.outpoint.hash == self.txinproof.txin.prevout.hash')]),
 ('c-outpoint-n-16', ['C01', 'C02'], [(SUS, 'assert self.seal.outpoint == self.txinproof.txin.prevout', 'assert self.seal.outpoint.hash == self.txinproof.txin.prevout.hash and self.seal.outpoint.n & 0xffff == self.txinproof.txin.prevout.n & 0xffff')]),
 ('c-txproof-datahash-or', ['C01', 'C02'], [(SUS, 'assert self.txinproof.txproof == self.txoutproof.txproof', 'assert self.txinproof.txproof.tx.vin == self.txoutproof.txproof.tx.vin')]),
 ('c-opreturn-startswith', ['C01', 'C02'], [(SUS, 'assert (actual_scriptPubKey == CScript([OP_RETURN, hash]) or', 'assert (actual_scriptPubKey.startswith(CScript([OP_RETURN, hash])) or')]),
 ('c-p2sh-startswith', ['C01', 'C02'], [(SUS, 'actual_scriptPubKey == CScript([OP_HASH160, Hash160(hash), OP_EQUAL]) or', 'actual_scriptPubKey[:22] == CScript([OP_HASH160, Hash160(hash)]) or')]),
 ('c-p2pkh-wildcard', ['C01', 'C02'], [(SUS, 'actual_scriptPubKey == CScript([OP_DUP, OP_HASH160, Hash160(hash), OP_EQUALVERIFY, OP_CHECKSIG]))', 'Hash160(hash) in tuple(actual_scriptPubKey))')]),
 ('c-no-p2sh', ['C01', 'C02'], [(SUS, 'actual_scriptPubKey == CScript([OP_HASH160, Hash160(hash), OP_EQUAL]) or', '')]),
 ('c-opreturn-semantic', ['C02'], [(SUS, 'assert (actual_scriptPubKey == CScript([OP_RETURN, hash]) or', 'assert ((len(actual_scriptPubKey) > 33 and actual_scriptPubKey[0] == 0x6a and tuple(actual_scriptPubKey.raw_iter())[-1][1] == hash) or')]),
 ('c-txinproof-neg', ['C02'], [(CB, 'assert 0 <= self.i < len(self.txproof.tx.vin)', 'assert 0 <= self.i <= len(self.txproof.tx.vin)')]),
 ('c-txout-mod', ['C01', 'C02'], [(CB, 'return self.txproof.tx.vout[self.i]', 'return self.txproof.tx.vout[self.i % len(self.txproof.tx.vout)]')]),
 ('c-txin-mod', ['C01', 'C02'], [(CB, 'return self.txproof.tx.vin[self.i]', 'return self.txproof.tx.vin[self.i % len(self.txproof.tx.vin)]')]),
 ('c-nonce-unserialized', ['C01', 'C02', 'M06'], [(SUS, "proofmarshal.serialize.FixedBytes(16))]", "proofmarshal.serialize.VarBytes(16))]")]),
 ('t-mkwitness-hash-only', ['C03', 'C05'], [(T, 'if txin.prevout == seal.outpoint:', 'if txin.prevout.hash == seal.outpoint.hash:')]),
 ('t-mkwitness-txoutproof-i', ['C03', 'C05', 'C02'], [(T, 'txoutproof = TxOutProof(i=0, txproof=txproof)', 'txoutproof = TxOutProof(i=min(i, len(txproof.tx.vout) - 1), txproof=txproof)')]),
 ('t-mkseal-wb', ['C04', 'C03'], [(T, "type=argparse.FileType('xb'), metavar='FILE'", "type=argparse.FileType('wb'), metavar='FILE'")]),
 ('t-witness-exists-race', ['C04', 'C03'], [(T, "with open(seal_fd.name + '.witness', 'xb') as witness_fd:", "if os.path.exists(witness_filename):\n            args.parser.error('exists')\n        with open(witness_filename, 'wb') as witness_fd:")]),
 ('t-witness-ab', ['C04', 'C03'], [(T, "with open(seal_fd.name + '.witness', 'xb') as witness_fd:", "with open(seal_fd.name + '.witness', 'ab') as witness_fd:")]),
 ('t-witness-skip-existing', ['C03', 'C04'], [(T, "with open(seal_fd.name + '.witness', 'xb') as witness_fd:\n            witness_fd.write(witness.serialize())", "try:\n            with open(seal_fd.name + '.witness', 'xb') as witness_fd:\n                witness_fd.write(witness.serialize())\n        except FileExistsError:\n            logging.info('already there')")]),
 ('t-mkseal-no-close', ['C03', 'C04'], [(T, "    with args.seal_fd:\n        args.seal_fd.write(btc_seal.serialize())", "    args.seal_fd.write(btc_seal.serialize())")]),
 ('t-verify-no-digest-check', ['C03', 'C02'], [(T, "    if args.digest is not None:\n        witness.verify_hash(args.digest)", "    if args.digest is not None and args.seal_file is None:\n        witness.verify_hash(args.digest)")]),
 ('t-verify-seal-id-elif', ['C03'], [(T, "    if args.seal_id is not None and witness.seal.hash != args.seal_id:", "    elif args.seal_id is not None and witness.seal.hash != args.seal_id:")]),
 ('t-verify-outpoint-only', ['C03'], [(T, "if witness.seal != seal:", "if witness.seal.outpoint != seal.outpoint:")]),
 ('t-verify-local-skips', ['C03', 'C02'], [(T, "    # FIXME: implement --local\n    witness.verify()", "    if not args.local:\n        witness.verify()")]),
 ('t-nonce-const', ['C01', 'C04', 'C05'], [(T, "nonce=os.urandom(16)", "nonce=args.outpoint.hash[:16]")]),
 ('t-dup-seal-outpoint', ['C03', 'C05'], [(T, "        if seal in seals:\n            args.parser.error", "        if seal in seals or seal.outpoint in [s.outpoint for s in seals]:\n            args.parser.error")]),
 ('t-dup-seal-unnoticed', ['C03'], [(T, "        if seal in seals:\n            args.parser.error", "        if seal in seals and args.seal_fds.index(seal_fd) == 1:\n            args.parser.error")]),
 ('t-witness-partial-continue', ['C03', 'C05'], [(T, "        else:\n            args.parser.error(\"Seal '%s' not closed by this transaction\" % seal_fd.name)", "        else:\n            logging.error(\"Seal '%s' not closed by this transaction\" % seal_fd.name)\n            continue")]),
 ('t-testnet', ['C05'], [(T, "if args.testnet:\n    bitcoin.SelectParams('testnet')", "if args.testnet and args.verbosity >= 0:\n    bitcoin.SelectParams('testnet')")]),
 ('t-rpc-retry', ['C05', 'R02', 'C03'], [(T, "tx = bitcoin.rpc.Proxy().getrawtransaction(args.txid)", "try:\n            tx = bitcoin.rpc.Proxy().getrawtransaction(args.txid)\n        except Exception:\n            tx = CTransaction()")]),
 ('u-template-dust', ['C05'], [('proofchains/uniquebits/singleuseseal.py', "txout = CTxOut(dust, CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))", "txout = CTxOut(dust, CScript([OP_HASH160, digest, OP_EQUAL]))")]),
 ('u-template-p2pkh-order', ['C05'], [('proofchains/uniquebits/singleuseseal.py', "OP_DUP, OP_HASH160, Hash160(digest), OP_EQUALVERIFY, OP_CHECKSIG]))", "OP_DUP, OP_HASH160, Hash160(digest), OP_EQUAL, OP_CHECKSIG]))")]),
 # gumap
 ('g-inner-left-left', ['C06'], [(GU, "msg = left.seal.hash + right.seal.hash", "msg = min(left.seal.hash, right.seal.hash) + max(left.seal.hash, right.seal.hash)")]),
 ('g-leaf-key-only-hash', ['C06'], [(GU, "msg = key_hash + value_hash", "msg = key_hash + value_hash[:31]")]),
 ('g-hashtag-shared', ['C06'], [(GU, "HashTag('b925044d-320e-4c1f-9ef8-20614d260676').derive(cls.HASHTAG)", "HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)")]),
 ('g-hashtag-underived', ['C06'], [(GU, "HashTag('b925044d-320e-4c1f-9ef8-20614d260676').derive(cls.HASHTAG)", "HashTag('b925044d-320e-4c1f-9ef8-20614d260676')")]),
 ('g-leaf-no-verify', ['C06'], [(GU, "            self.witness.verify()\n            self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))", "            self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))")]),
 ('g-inner-no-verify', ['C06'], [(GU, "            self.witness.verify()\n            self.witness.verify_hash(self.__calc_sealed_hash(self.left, self.right))", "            self.witness.verify_hash(self.__calc_sealed_hash(self.left, self.right))")]),
 ('g-fake-witness-any', ['C06'], [(SUS, "assert self.seal.committed_hash == hash", "assert self.seal.committed_hash[:16] == hash[:16]")]),
 ('g-inner-child-hash', ['C06'], [(GU, "msg = left.seal.hash + right.seal.hash", "msg = left.hash + right.hash")]),
 ('g-contents-tag-cached-global', ['C06'], [(GU, "            try:\n                cls.CONTENTS_HASHTAG\n            except AttributeError:\n                cls.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)", "            try:\n                GuMap.CONTENTS_HASHTAG\n            except AttributeError:\n                GuMap.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)\n            cls.CONTENTS_HASHTAG = GuMap.CONTENTS_HASHTAG")]),
 ('g-unused-inner-prefix', ['C06'], [(GU, "prefix = left.prefix.common_prefix(right.prefix)", "prefix = min(left.prefix, right.prefix, key=len)")]),
]
