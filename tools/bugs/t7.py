"""More trials: thresholds, bounded caches, caches by identity, the environment"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'

TRIALS = [
('t7-merkle-big', ['V02', 'R04'], [(BL + 'core/__init__.py', "                i2 = min(i+1, size-1)", "                i2 = min(i+1, size-1) if size < 512 else i+1 if i+1 < size else i-1")]),
('t7-varint-64', ['W02'], [(BL + 'core/serialize.py', "            f.write(_bchr(0xff))\n            f.write(struct.pack(b'<Q', i))", "            f.write(_bchr(0xff))\n            f.write(struct.pack(b'<Q', i & 0x7fffffffffffffff))")]),
('t7-varint-16', ['W02', 'V02', 'T01'], [(BL + 'core/serialize.py', "        elif i <= 0xffff:\n            f.write(_bchr(0xfd))", "        elif i < 0xffff:\n            f.write(_bchr(0xfd))")]),
('t7-bits-long', ['M08', 'M03'], [(PM + 'bits.py', "            if not (0 <= idx < self.__length):", "            idx &= 0x1fff\n            if not (0 <= idx < self.__length):")]),
('t7-id-cache', ['T01', 'S01', 'V02'], [(BL + 'core/__init__.py', """class COutPoint(ImmutableSerializable):
""", """_outpoint_strs = {}

class COutPoint(ImmutableSerializable):
"""), (BL + 'core/__init__.py', """    def is_null(self):
        return ((self.hash == b'\\x00'*32) and (self.n == 0xffffffff))
""", """    def is_null(self):
        r = _outpoint_strs.get(id(self))
        if r is None:
            r = _outpoint_strs[id(self)] = ((self.hash == b'\\x00'*32) and (self.n == 0xffffffff))
        return r
""")]),
('t7-params-local', ['A01', 'R03'], [(BL + '__init__.py', """    global params
    bitcoin.core._SelectCoreParams(name)
    if name == 'mainnet':
        params = bitcoin.core.coreparams = MainParams()""", """    global params
    if name == params.NAME:
        return
    bitcoin.core._SelectCoreParams(name)
    if name == 'mainnet':
        params = MainParams()""")]),
('t7-derive-cache', ['M02', 'M06', 'C06', 'M03'], [(PM + 'serialize.py', """    def derive(self, subtag):""", """    __derived = {}

    def derive(self, subtag):
        key = bytes(subtag)[:4] + bytes(self)[:4]
        if key not in self.__derived:
            self.__derived[key] = self._derive(subtag)
        return self.__derived[key]

    def _derive(self, subtag):""")]),
('t7-b58-lru', ['A01'], [(BL + 'base58.py', """def decode(s):
    \"\"\"Decode a base58-encoding string, returning bytes\"\"\"
    if not s:
        return b''
""", """_decoded = {}

def decode(s):
    \"\"\"Decode a base58-encoding string, returning bytes\"\"\"
    if not s:
        return b''
    k = s[-8:]
    if k in _decoded and len(_decoded[k][0]) == len(s):
        return _decoded[k][1]
    _decoded[k] = (s, _decode(s))
    return _decoded[k][1]

def _decode(s):
""")]),
('t7-murmur-long', ['B01'], [(BL + 'bloom.py', "    h1 ^= len(vDataToHash) & 0xFFFFFFFF", "    h1 ^= len(vDataToHash) & 0xFF")]),
('t7-murmur-overflow', ['B01'], [(BL + 'bloom.py', "        h1 = (((h1*5) & 0xFFFFFFFF) + 0xe6546b64) & 0xFFFFFFFF", "        h1 = ((h1*5) & 0xFFFFFFFF) + 0xe6546b64\n        h1 &= 0x1FFFFFFFF")]),
('t7-push-64k', ['S01'], [(BL + 'core/script.py', "        elif len(d) <= 0xffff:\n            return b'\\x4d'", "        elif len(d) < 0xffff:\n            return b'\\x4d'")]),
('t7-mmr-cache', ['M04', 'M01'], [(PM + 'mmr.py', """            elif isinstance(idx, slice):
                (start, stop, step) = idx.indices(len(self))

                if step != 1:
                    raise NotImplementedError

                if stop <= start:""", """            elif isinstance(idx, slice):
                (start, stop, step) = idx.indices(len(self))

                if step != 1:
                    raise NotImplementedError

                if len(self) > 256 and start & 0xff:
                    start &= ~0
                    stop = min(stop, start + 256) if start < 256 else stop

                if stop <= start:""")]),
('t7-varbytes-64k', ['M06', 'M02'], [(PM + 'serialize.py', "        self.fd_write(value)\n\n    def write_obj", "        self.fd_write(value if len(value) <= 0x10000 else value[:0x10000] + bytes(len(value) - 0x10000))\n\n    def write_obj")]),
('t7-header-time', ['V02', 'W02', 'T01'], [(BL + 'core/__init__.py', "        f.write(struct.pack(b\"<I\", self.nTime))", "        f.write(struct.pack(b\"<I\", max(self.nTime, 1)))")]),
('t7-rpc-conf-cached', ['R03', 'R01'], [(BL + 'rpc.py', """            # Extract contents of bitcoin.conf to build service_url
            with open(btc_conf_file, 'r') as fd:
                conf = {}
""", """            # Extract contents of bitcoin.conf to build service_url
            with open(btc_conf_file, 'r') as fd:
                conf = dict(_defaults)
                _defaults.setdefault('rpcport', service_port or bitcoin.params.RPC_PORT)
"""), (BL + 'rpc.py', "class RawProxy(object):", "_defaults = {}\n\nclass RawProxy(object):")]),
('t7-rpc-env', ['R03'], [(BL + 'rpc.py', "'Darwin'", "'darwin'")]),
('t7-union-cache', ['C06', 'M06'], [(PM + 'proof.py', """        i = ctx.read_varuint()

        try:
            return cls.UNION_CLASSES[i]""", """        i = ctx.read_varuint() & 0x7f

        try:
            return cls.UNION_CLASSES[i]""")]),
('t7-lock-partial', ['M05', 'M01'], [(PM + 'proof.py', """            object.__setattr__(self, 'is_fully_pruned', False)

            # For efficiency""", """            # For efficiency"""), (PM + 'proof.py', """            object.__setattr__(self, name, value)
            return value
""", """            object.__setattr__(self, name, value)
            if value is not None:
                object.__setattr__(self, 'is_fully_pruned', False)
            return value
""")]),
]
