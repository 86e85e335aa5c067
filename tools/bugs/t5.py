BL = 'bitcoin/'
import os
if not os.path.exists('/repo/bitcoin/bloom.py'):
    BL = 'lib/python-bitcoinlib/bitcoin/'
BLOOM = BL + 'bloom.py'
B = ['B01']
TRIALS = [
 ('b-rot', B, [(BLOOM, "return ((x << r) & 0xFFFFFFFF) | (x >> (32 - r))", "return ((x << r) & 0xFFFFFFFF) | (x >> (32 - r)) & 0x3fff")]),
 ('b-tail3', B, [(BLOOM, "if len(vDataToHash) & 3 >= 3:", "if len(vDataToHash) & 3 > 3:")]),
 ('b-tail-shift', B, [(BLOOM, "k1 ^= bord(vDataToHash[j+1]) << 8", "k1 ^= bord(vDataToHash[j+1]) << 7")]),
 ('b-len-mask', B, [(BLOOM, "h1 ^= len(vDataToHash) & 0xFFFFFFFF", "h1 ^= len(vDataToHash) & 0xFF")]),
 ('b-final', B, [(BLOOM, "    h1 *= 0x85ebca6b\n    h1 ^= (h1 & 0xFFFFFFFF) >> 13", "    h1 *= 0x85ebca6b\n    h1 ^= h1 >> 13")]),
 ('b-body-short', B, [(BLOOM, "          and len(vDataToHash) - i >= 4:", "          and len(vDataToHash) - i > 4:")]),
 ('b-tweak', B, [(BLOOM, "((nHashNum * 0xFBA4C795) + self.nTweak) & 0xFFFFFFFF", "((nHashNum * 0xFBA4C795) & 0xFFFFFFFF) + self.nTweak & 0xFFFFFFFF if self.nTweak < 1 << 31 else ((nHashNum * 0xFBA4C795) ^ self.nTweak) & 0xFFFFFFFF")]),
 ('b-mask-7', B, [(BLOOM, "            self.vData[nIndex >> 3] |= self.__bit_mask[7 & nIndex]", "            self.vData[nIndex >> 3] |= self.__bit_mask[6 & nIndex]")]),
 ('b-mask-const', B, [(BLOOM, "0x20, 0x40, 0x80])", "0x20, 0x40, 0x40])")]),
 ('b-cap', B, [(BLOOM, "self.MAX_BLOOM_FILTER_SIZE * 8) / 8))", "self.MAX_BLOOM_FILTER_SIZE) / 8))")]),
 ('b-funcs-cap', B, [(BLOOM, "LN2, self.MAX_HASH_FUNCS))", "LN2, self.MAX_HASH_FUNCS + 20))")]),
 ('b-funcs-round', B, [(BLOOM, "        self.nHashFuncs = int(min(len(self.vData) * 8 / nElements", "        self.nHashFuncs = int(min(len(self.vData) / nElements * 8 // 1")]),
 ('b-insert-op', B, [(BLOOM, "            elem = elem.serialize()\n\n        # As", "            elem = elem.hash\n\n        # As")]),
 ('b-contains-op', B, [(BLOOM, "            elem = elem.serialize()\n\n        if not", "            elem = elem.serialize()[:36]\n\n        if not")]),
 ('b-contains-any', B, [(BLOOM, "        for i in range(0, self.nHashFuncs):\n            nIndex = self.bloom_hash(i, elem)\n            if not (", "        for i in range(1, self.nHashFuncs):\n            nIndex = self.bloom_hash(i, elem)\n            if not (")]),
 ('b-within', B, [(BLOOM, "return len(self.vData) <= self.MAX_BLOOM_FILTER_SIZE and self.nHashFuncs <= self.MAX_HASH_FUNCS", "return len(self.vData) <= self.MAX_BLOOM_FILTER_SIZE or self.nHashFuncs <= self.MAX_HASH_FUNCS")]),
 ('b-within-2', B, [(BLOOM, "return len(self.vData) <= self.MAX_BLOOM_FILTER_SIZE and self.nHashFuncs <= self.MAX_HASH_FUNCS", "return len(self.vData) < self.MAX_BLOOM_FILTER_SIZE and self.nHashFuncs <= self.MAX_HASH_FUNCS")]),
 ('b-struct', B, [(BLOOM, "struct.Struct(b'<IIB')", "struct.Struct(b'<IiB')")]),
 ('b-struct-be', B, [(BLOOM, "struct.Struct(b'<IIB')", "struct.Struct(b'>IIB')")]),
 ('b-ser-order', B, [(BLOOM, "self.__struct.pack(self.nHashFuncs, self.nTweak, self.nFlags)", "self.__struct.pack(self.nHashFuncs, self.nTweak & 0x7fffffff, self.nFlags)")]),
 ('b-ser-flags', B, [(BLOOM, "self.__struct.pack(self.nHashFuncs, self.nTweak, self.nFlags)", "self.__struct.pack(self.nHashFuncs, self.nTweak, self.nFlags & self.UPDATE_MASK)")]),
 ('b-ff', B, [(BLOOM, "(len(self.vData) == 1 and self.vData[0] == 0xff):\n            return True", "(len(self.vData) <= 2 and self.vData[0] == 0xff):\n            return True")]),
 ('b-ff-insert', B, [(BLOOM, "(len(self.vData) == 1 and self.vData[0] == 0xff):\n            return\n", "(self.vData[0] == 0xff):\n            return\n")]),
 ('b-shared', B, [(BLOOM, "        self.vData = vData\n", "        self.vData = cls._last = vData if vData != getattr(cls, '_last', None) else cls._last\n")]),
 ('b-early', B, [(BLOOM, "            # Sets bit nIndex of vData\n", "            if self.vData[nIndex >> 3] == 0xff:\n                break\n")]),
 ('b-nflags-shared', B, [(BLOOM, "        self = cls.__new__(cls)\n", "        self = cls.__new__(cls)\n        CBloomFilter.MAX_HASH_FUNCS = max(50, nHashFuncs)\n")]),
 ('b-index-cache', B, [(BLOOM, "        return MurmurHash3(((nHashNum * 0xFBA4C795) + self.nTweak) & 0xFFFFFFFF, vDataToHash) % (len(self.vData) * 8)", "        k = (nHashNum, bytes(vDataToHash), self.nTweak)\n        if k not in _cache:\n            _cache[k] = MurmurHash3(((nHashNum * 0xFBA4C795) + self.nTweak) & 0xFFFFFFFF, vDataToHash) % (len(self.vData) * 8)\n        return _cache[k]"), (BLOOM, "class CBloom", "_cache = {}\n\nclass CBloom")]),
 ('b-insert-swap', B, [(BLOOM, "            self.vData[nIndex >> 3] |= self.__bit_mask[7 & nIndex]", "            v = bytearray(self.vData)\n            v[nIndex >> 3] |= self.__bit_mask[7 & nIndex]\n            self.vData[:] = v")]),
]
