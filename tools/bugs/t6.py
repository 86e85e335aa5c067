"""More trials: written from the statements, with fresh eyes"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'

TRIALS = [
('p6-prune-shortcut', ['M01'], [(PM + 'proof.py', "object.__setattr__(pruned_self, '_Proof__orig_instance', self)",
  "object.__setattr__(pruned_self, '_Proof__orig_instance', self.__orig_instance or self)")]),
('p6-pruned-partial', ['M01', 'M07', 'C02'], [(PM + 'proof.py', "is_pruned |= value.is_pruned", "is_pruned |= value.is_fully_pruned")]),
('p6-derive-sub-only', ['M02', 'M03', 'C06'], [(PM + 'serialize.py', "derivation_hasher(self + subtag)", "derivation_hasher(subtag)")]),
('p6-varbytes-hash', ['M02'], [(PM + 'proof.py', """                else:
                    hasher.update(ser_cls.serialize(attr_value))
""", """                elif isinstance(attr_value, bytes):
                    hasher.update(attr_value)

                else:
                    hasher.update(ser_cls.serialize(attr_value))
""")]),
('p6-varbytes-min', ['M06', 'M02'], [(PM + 'serialize.py', """        if not (cls.MIN_LENGTH <= l <= cls.MAX_LENGTH):
            raise DeserializationError""", """        if not (0 <= l <= cls.MAX_LENGTH):
            raise DeserializationError""")]),
('p6-bits-tail-raw', ['M08', 'M06', 'M02'], [(PM + 'bits.py', "ctx.write_bytes(bytes([value._Bits__tail_bits()]))", "ctx.write_bytes(bytes([value._Bits__buf[value._Bits__length // 8]]))")]),
('p6-union-order', ['C06', 'M06', 'M02'], [(PM + 'proof.py', """        for i,cls in enumerate(cls.UNION_CLASSES):
            if isinstance(self, cls):
                ctx.write_varuint(i)
                cls.ctx_serialize(self, ctx)
                break
""", """        for i,ucls in enumerate(cls.UNION_CLASSES):
            if isinstance(self, ucls):
                ctx.write_varuint(i)
                self.__class__.ctx_serialize(self, ctx) if not self.is_pruned else ucls._ctx_serialize_pruned(self, ctx)
                break
""")]),
('p6-empty-shared', ['M04', 'M03', 'M02'], [(PM + 'mmr.py', """            if cls.__instance is not None:
                return cls.__instance
            else:
                singleton = subclass.__base__.__base__.__new__(cls)
                cls.__instance = singleton
                return singleton""", """            base = subclass.__base__
            if getattr(base, '_empty_node', None) is not None:
                return base._empty_node
            else:
                singleton = subclass.__base__.__base__.__new__(cls)
                base._empty_node = singleton
                return singleton""")]),
('p6-issubset-empty', ['M03'], [(PM + 'merbinnertree.py', "elif self.prefix.startswith(them.prefix):", "elif self.prefix.startswith(them.prefix) and them.__class__ is self.__class__ and len(self.prefix) - len(them.prefix) < 8:")]),
('p6-mmr-step', ['M04'], [(PM + 'mmr.py', "                    # Do we need part of the right side as well?\n                    if stop > len(self.left):", "                    # Do we need part of the right side as well?\n                    if stop > len(self.left) + 1 or (stop > len(self.left) and len(self.right) == 1):")]),
('p6-bits-add-short', ['M08'], [(PM + 'bits.py', "for byte in rhs.__buf[0:rhs.__length // 8 + (1 if rhs.__length % 8 else 0)]:", "for byte in rhs.__buf[0:(rhs.__length + rhs_offset) // 8 + 1]:")]),
('p6-common-prefix-tail', ['M08', 'M03'], [(PM + 'bits.py', "        if common_prefix_length < lhs.__length:\n            # XOR", "        if common_prefix_length + 1 < lhs.__length or not fwb_eq:\n            # XOR")]),
('p6-txproof-eq', ['C02', 'M02'], [('proofchains/core/uniquebits/singleuseseal.py', "assert self.txinproof.txproof == self.txoutproof.txproof", "assert self.txinproof.txproof.tx.vin == self.txoutproof.txproof.tx.vin")]),
('p6-seal-n', ['C02'], [('proofchains/core/uniquebits/singleuseseal.py', "assert self.seal.outpoint == self.txinproof.txin.prevout", "assert self.seal.outpoint.hash == self.txinproof.txin.prevout.hash and self.seal.outpoint.n & 0xffff == self.txinproof.txin.prevout.n & 0xffff")]),
('p6-p2sh-any-tail', ['C02', 'C01'], [('proofchains/core/uniquebits/singleuseseal.py', "actual_scriptPubKey == CScript([OP_HASH160, Hash160(hash), OP_EQUAL])", "actual_scriptPubKey[:22] == CScript([OP_HASH160, Hash160(hash)])")]),
('p6-outpoint-canonical', ['M06', 'M02'], [('proofchains/core/bitcoin.py', "        outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint)\n", "        outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint[:36])\n")]),
('p6-gumap-contents-tag', ['C06'], [('proofchains/core/uniquebits/gumap.py', """                cls.CONTENTS_HASHTAG
            except AttributeError:
                cls.CONTENTS_HASHTAG = HashTag('b925044d-320e-4c1f-9ef8-20614d260676').derive(cls.HASHTAG)
""", """                cls.CONTENTS_HASHTAG
            except AttributeError:
                subclass.CONTENTS_HASHTAG = HashTag('b925044d-320e-4c1f-9ef8-20614d260676').derive(cls.HASHTAG)
""")]),
('p6-gumap-value-hash', ['C06'], [('proofchains/core/uniquebits/gumap.py', "            msg = key_hash + value_hash\n", "            msg = key_hash + value_hash[:32]\n")]),
('p6-tool-second-seal', ['C03', 'C04', 'C05'], [('sus-tool.py', "        txinproof = None\n        txoutproof = None\n        for i, txin in enumerate(txproof.tx.vin):", "        txinproof = None\n        txoutproof = None\n        for i, txin in list(enumerate(txproof.tx.vin))[:16]:")]),
('p6-tool-meth-default', ['C05', 'C01'], [('sus-tool.py', "close_tx = make_close_seal_tx_template(args.digest, *seals, meth=args.meth)", "close_tx = make_close_seal_tx_template(args.digest, *seals, meth=args.meth if len(seals) < 3 else 'op_return')")]),
('p6-tool-seal-id', ['C03'], [('sus-tool.py', "if args.seal_id is not None and witness.seal.hash != args.seal_id:", "if args.seal_id is not None and args.seal_file is None and witness.seal.hash != args.seal_id:")]),
('p6-tool-nonce', ['C04', 'C05'], [('sus-tool.py', "nonce=os.urandom(16)", "nonce=os.urandom(8) * 2")]),
('p6-tool-info', ['C03', 'C05'], [('sus-tool.py', "print('Txid:\\t\\t%s' % b2lx(witness.txinproof.txproof.txhash))", "print('Txid:\\t\\t%s' % b2lx(witness.txinproof.txproof.tx.GetHash()))")]),
]
