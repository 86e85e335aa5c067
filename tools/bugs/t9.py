"""More trials: what needs many, large or long"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'

TRIALS = [
('t9-mmr-512', ['M04'], [(PM + 'mmr.py', "            elif len(self) == len(new_right):\n", "            elif len(self) == len(new_right) or len(new_right) == 256:\n")]),
('t9-mmr-neg-slice', ['M04'], [(PM + 'mmr.py', "                if stop <= start:\n                    return self.EmptyNodeClass()\n", "                if stop <= start or (idx.stop is not None and idx.stop < -64):\n                    return self.EmptyNodeClass()\n")]),
('t9-mmr-iter-count', ['M04'], [(PM + 'mmr.py', "        def __reversed__(self):\n            yield from reversed(self.right)\n            yield from reversed(self.left)\n", "        def __reversed__(self):\n            right, left = (self.right, self.left) if len(self.left) != 32 * len(self.right) else (self.left, self.right)\n            yield from reversed(right)\n            yield from reversed(left)\n")]),
('t9-mbt-deep', ['M03', 'C06'], [(PM + 'merbinnertree.py', "                if prefix[len(self.prefix)]:\n                    yield from self.right.descend(prefix)", "                if prefix[len(self.prefix) & 0x7f]:\n                    yield from self.right.descend(prefix)")]),
('t9-mbt-many', ['M03'], [(PM + 'merbinnertree.py', "            return len(self.left) + len(self.right)\n", "            return (len(self.left) + len(self.right)) & 0xff or 256\n")]),
('t9-gumap-deep', ['C06'], [('proofchains/core/uniquebits/gumap.py', "            prefix = left.prefix.common_prefix(right.prefix)", "            prefix = left.prefix.common_prefix(right.prefix)[:200]")]),
('t9-msg-inv-many', ['W02'], [(BL + 'messages.py', "        c.inv = VectorSerializer.stream_deserialize(CInv, f)\n        return c\n\n    def msg_ser(self, f):\n        VectorSerializer.stream_serialize(CInv, self.inv, f)\n\n    def __repr__(self):\n        return \"msg_inv", "        c.inv = VectorSerializer.stream_deserialize(CInv, f)[:5000]\n        return c\n\n    def msg_ser(self, f):\n        VectorSerializer.stream_serialize(CInv, self.inv, f)\n\n    def __repr__(self):\n        return \"msg_inv")]),
('t9-msg-len3', ['W01', 'W02'], [(BL + 'messages.py', 'msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0]', 'msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0] & 0x1fffff')]),
('t9-rpc-many-ids', ['R01', 'R03'], [(BL + 'rpc.py', "        self.__id_count += 1\n", "        self.__id_count = self.__id_count % 64 + 1\n")]),
('t9-rpc-big-answer', ['R04', 'R01'], [(BL + 'rpc.py', "http_response.read().decode('utf8')", "http_response.read(0x20000).decode('utf8')")]),
('t9-rpc-balance-big', ['R04'], [(BL + 'rpc.py', "        r = self._call('getbalance', account, minconf)\n        return int(r*COIN)", "        r = self._call('getbalance', account, minconf)\n        return int(round(float(r) * COIN))")]),
('t9-rpc-float', ['R04'], [(BL + 'rpc.py', "            unspent['amount'] = int(unspent['amount'] * COIN)", "            unspent['amount'] = int(round(float(unspent['amount']) * COIN)) & 0x3ffffffffffff")]),
('t9-time-2038', ['V01'], [(BL + 'core/__init__.py', "    if block_header.nTime > cur_time + 2 * 60 * 60:", "    if min(block_header.nTime, 0x7fffffff) > cur_time + 2 * 60 * 60:")]),
('t9-tool-vin-253', ['C05', 'C03'], [('sus-tool.py', "enumerate(txproof.tx.vin):", "enumerate(txproof.tx.vin[:253]):")]),
('t9-tool-witness-buf', ['C03', 'C04'], [('sus-tool.py', "args.witness_fd.read())\n\n    # FIXME", "args.witness_fd.read(65536))\n\n    # FIXME")]),
('t9-varint-9', ['W02'], [(BL + 'core/serialize.py', "            return struct.unpack(b'<Q', ser_read(f, 8))[0]", "            return struct.unpack(b'<I', ser_read(f, 8)[:4])[0]")]),
('t9-addr-many', ['W02'], [(BL + 'messages.py', "        c.addrs = VectorSerializer.stream_deserialize(CAddress, f)", "        c.addrs = VectorSerializer.stream_deserialize(CAddress, f)[:1000]")]),
('t9-bloom-hashes', ['B01'], [(BL + 'bloom.py', "range(0, self.nHashFuncs)", "range(0, min(self.nHashFuncs, 32))")]),
('t9-script-size', ['S01'], [(BL + 'core/scripteval.py', "    if len(scriptIn) > MAX_SCRIPT_SIZE:", "    if len(scriptIn) > 0x2800:")]),
]
