"""More trials: serialization helpers, tool, GuMap, order of actions"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'
PC = 'proofchains/core/'
S = BL + 'core/serialize.py'
G = PC + 'uniquebits/gumap.py'
T = 'sus-tool.py'
TRIALS = [
('t14-varint-ffff', ['W02', 'T01'], [(S, "        elif i <= 0xffff:\n            f.write(_bchr(0xfd))", "        elif i < 0xffff:\n            f.write(_bchr(0xfd))")]),
('t14-read-limit', ['W02', 'W01'], [(S, "    if n > MAX_SIZE:\n", "    if n >= MAX_SIZE:\n")]),
('t14-vector-stop', ['W02', 'V02'], [(S, "        for i in range(n):\n            r.append(inner_cls.stream_deserialize(f))", "        for i in range(min(n, 50000)):\n            r.append(inner_cls.stream_deserialize(f))")]),
('t14-compact-small', ['V02', 'V01'], [(S, "    if nbytes <= 3:", "    if nbytes < 3:")]),
('t14-compact-sign', ['V02'], [(S, "    if c & 0x800000:\n        v = -v\n", "    if c & 0x800000:\n        v = v & 0x7fffff\n")]),
('t14-eq-hash', ['T01', 'W02'], [(S, "        return self.serialize() == other.serialize()", "        return hash(self) == hash(other)")]),
('t14-hash-copy', ['T01'], [(BL + 'core/__init__.py', "class CMutableTransaction(CTransaction):", "class CMutableTransaction(CTransaction):\n    def GetHash(self):\n        h = getattr(self, '_h', None)\n        if h is None or h[0] != (len(self.vin), len(self.vout), self.nLockTime):\n            h = self.__dict__['_h'] = ((len(self.vin), len(self.vout), self.nLockTime), Hash(self.serialize()))\n        return h[1]\n")]),
('t14-padding-one', ['W02', 'M06'], [(S, "            if len(padding) != 0:", "            if padding.strip(b'\\x00'):")]),
('t14-tool-seal-append', ['C04'], [(T, "        with open(seal_fd.name + '.witness', 'xb') as", "        with open(seal_fd.name + '.witness', 'xb' if len(args.seal_fds) == 1 else 'ab') as")]),
('t14-tool-name-split', ['C04', 'C03'], [(T, "        with open(seal_fd.name + '.witness', 'xb') as", "        with open(seal_fd.name.rsplit('.seal', 1)[0] + '.witness' if seal_fd.name.endswith('.seal') and len(args.seal_fds) > 2 else seal_fd.name + '.witness', 'xb') as")]),
('t14-tool-dup-outpoint', ['C03', 'C05'], [(T, "        if seal in seals:", "        if seal.outpoint in [s.outpoint for s in seals]:")]),
('t14-tool-witness-partial', ['C03', 'C04'], [(T, "            args.parser.error(\"Seal '%s' not closed by this transaction\" % seal_fd.name)", "            if seal_fd is args.seal_fds[0]:\n                args.parser.error(\"Seal '%s' not closed by this transaction\" % seal_fd.name)\n            logging.error(\"Seal '%s' not closed by this transaction\" % seal_fd.name)\n            continue")]),
('t14-tool-sealid-short', ['C03'], [(T, "    if args.seal_id is not None and witness.seal.hash != args.seal_id:", "    if args.seal_id is not None and args.digest is None and witness.seal.hash != args.seal_id:")]),
('t14-tool-seal-empty', ['C03', 'C04'], [(T, "        if witness.seal != seal:", "        if witness.seal.outpoint != seal.outpoint:")]),
('t14-tool-quiet', ['C03'], [(T, "if hasattr(args, 'cmd_func'):\n    args.cmd_func(args)\n", "if hasattr(args, 'cmd_func'):\n    try:\n        args.cmd_func(args)\n    except BrokenPipeError:\n        pass\n")]),
('t14-gumap-verify-order', ['C06'], [(G, "            self.witness.verify()\n            self.witness.verify_hash(self.__calc_sealed_hash(self.left, self.right))", "            self.witness.verify_hash(self.__calc_sealed_hash(self.left, self.right))\n            if not isinstance(self.witness, FakeSealWitness) or self.left.is_pruned:\n                self.witness.verify()")]),
('t14-gumap-leaf-verify-once', ['C06'], [(G, "            self.witness.verify()\n            self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))", "            if self in type(self)._verified:\n                return\n            self.witness.verify()\n            self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))\n            type(self)._verified.append(self)\n\n        _verified = []")]),
('t14-gumap-tag-shared', ['C06', 'M02'], [(G, "            try:\n                cls.CONTENTS_HASHTAG\n            except AttributeError:\n                cls.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)\n", "            try:\n                cls.CONTENTS_HASHTAG\n            except AttributeError:\n                GuMap.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)\n")]),
('t14-gumap-value-eq', ['C06'], [(G, "                value_hash = cls.VALUE_SERIALIZER.get_hash(value)\n            except AttributeError:", "                value_hash = cls.VALUE_SERIALIZER.get_hash(value)\n            except (AttributeError, proofmarshal.proof.PrunedError):")]),
('t14-gumap-children-prefix', ['C06'], [(G, "            prefix = left.prefix.common_prefix(right.prefix)", "            prefix = left.prefix.common_prefix(right.prefix)[:160]")]),
]
