PM = 'lib/python-proofmarshal/proofmarshal/'
P, S, B, MB, MR = PM + 'proof.py', PM + 'serialize.py', PM + 'bits.py', PM + 'merbinnertree.py', PM + 'mmr.py'
CB = 'proofchains/core/bitcoin.py'
TRIALS = [
 ('p-no-prune-nested', ['M01'], [(P, "            if isinstance(value, Proof):\n                value = value.prune()", "            if isinstance(value, Proof) and not value.is_pruned:\n                value = value.prune()")]),
 ('p-not-pruned-when-hash', ['M01', 'M02'], [(P, "        if self.__orig_instance is not None:\n            # Avoid unpruning unnecessarily\n            return self.__orig_instance.data_hash\n", "        if self.__orig_instance is not None and self.is_fully_pruned:\n            # Avoid unpruning unnecessarily\n            return self.__orig_instance.data_hash\n")]),
 ('p-is-pruned-left', ['M01', 'M04', 'M03'], [(P, "is_pruned |= value.is_pruned", "is_pruned = value.is_pruned")]),
 ('p-prunederr-attrname', ['M01'], [(P, "if any(name == attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS):", "if any(name == attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS[:2]):")]),
 ('p-prune-memo', ['M01', 'M05'], [(P, "        pruned_self = object.__new__(self.__class__)\n", "        if self.is_fully_pruned:\n            return self\n        pruned_self = object.__new__(self.__class__)\n")]),
 ('p-fullypruned-after-hash', ['M01'], [(P, "            data_hash = self.calc_data_hash()\n            object.__setattr__(self, 'data_hash', data_hash)", "            data_hash = self.calc_data_hash()\n            object.__setattr__(self, 'data_hash', data_hash)\n            if self.is_pruned and self._Proof__orig_instance is None:\n                object.__setattr__(self, 'is_fully_pruned', True)")]),
 ('p-hash-short', ['M02', 'M07'], [(P, "        return hash(self.hash)", "        return hash(self.data_hash[:4])")]),
 ('p-eq-class', ['M07', 'M02'], [(P, "        if isinstance(other, Proof):\n            return self.hash == other.hash", "        if isinstance(other, self.__class__):\n            return self.hash == other.hash")]),
 ('p-datahash-skip-pruned', ['M02', 'M01'], [(P, "                if issubclass(ser_cls, HashingSerializer):\n                    hasher.update(ser_cls.get_hash(attr_value))", "                if issubclass(ser_cls, HashingSerializer):\n                    hasher.update(attr_value.data_hash)")]),
 ('p-setattr-slot', ['M07'], [(P, "        raise TypeError('%s instances are immutable' % self.__class__.__qualname__)\n\n    def __delattr__", "        if name in self.SERIALIZED_ATTRS_BY_NAME or name in ('hash', 'data_hash'):\n            raise TypeError('%s instances are immutable' % self.__class__.__qualname__)\n        object.__setattr__(self, name, value)\n\n    def __delattr__")]),
 ('p-delattr', ['M07'], [(P, "    def __delattr__(self, name):\n        raise TypeError('%s instances are immutable' % self.__class__.__qualname__)\n", "")]),
 ('p-byname-inherited', ['M07', 'M01', 'M03'], [(P, "if 'SERIALIZED_ATTRS_BY_NAME' not in cls.__dict__:", "if cls.SERIALIZED_ATTRS_BY_NAME is None:")]),
 ('p-lock-per-read', ['M05'], [(P, "        with Proof.__getattr_lock:\n", "        if True:\n")]),
 ('p-union-first', ['M06', 'M02', 'C06'], [(P, "            union_cls = cls.UNION_CLASSES[i]\n        except IndexError:\n            # FIXME: nicer error message\n            raise DeserializationError('bad union class number %d' % i)\n\n        return union_cls.ctx_deserialize(ctx)", "            union_cls = cls.UNION_CLASSES[i % len(cls.UNION_CLASSES)]\n        except IndexError:\n            # FIXME: nicer error message\n            raise DeserializationError('bad union class number %d' % i)\n\n        return union_cls.ctx_deserialize(ctx)")]),
 ('p-variant-neg', ['M06', 'M02'], [(P, "            return cls.UNION_CLASSES[i]\n", "            return cls.UNION_CLASSES[min(i, len(cls.UNION_CLASSES) - 1)]\n")]),
 ('p-variant-same-hashtag', ['M02', 'M03', 'M04', 'M07'], [(P, "subclass.HASHTAG = subclass.SUB_HASHTAG.derive(cls.HASHTAG)", "subclass.HASHTAG = cls.HASHTAG.derive(cls.HASHTAG)")]),
 ('p-variant-isinstance-cls', ['M06'], [(P, "        for i,cls in enumerate(self.UNION_CLASSES):\n            if isinstance(self, cls):\n                ctx.write_varuint(i)\n                break\n\n        else:\n            raise SerializerTypeError('bad class')\n\n    def _ctx_serialize_pruned", "        ctx.write_varuint(self.UNION_CLASSES.index(self.__class__))\n\n    def _ctx_serialize_pruned")]),
 ('p-tx-datahash-cached', ['M02', 'C02'], [(CB, "        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])", "        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD[:31])]) + self.data_hash[31:]")]),
 ('s-varuint-nonminimal', ['M06', 'M02'], [(S, "                if shift and not b:", "                if shift > 7 and not b:")]),
 ('s-varuint-write-128', ['M06', 'M03'], [(S, "if value > 0b01111111:\n                    b |=", "if value >= 0b01111111:\n                    b |=")]),
 ('s-bool-any', ['M06'], [(S, "        if b == 0xff:\n            return True", "        if b & 0x80:\n            return True")]),
 ('s-bool-truthy', ['M06'], [(S, "        if value is True:\n", "        if value:\n")]),
 ('s-read-short', ['M06', 'M01'], [(S, "        if len(r) != l:\n            raise TruncationError", "        if not r and l:\n            raise TruncationError")]),
 ('s-extra-ignored', ['M06', 'C02'], [(S, "        if ctx.fd.read(1):\n            raise DeserializationError", "        if ctx.fd.read(1).strip(b'\\x00\\n'):\n            raise DeserializationError")]),
 ('s-fixedbytes-check', ['M06'], [(S, "        if len(value) != cls.EXPECTED_LENGTH:", "        if len(value) > cls.EXPECTED_LENGTH:")]),
 ('s-fixedbytes-type', ['M06', 'M07'], [(S, "        if value.__class__ is not bytes:\n            raise SerializerTypeError('Expected bytes; got %r' % value.__class__)\n\n        if len(value) != cls.EXPECTED", "        if not isinstance(value, (bytes, bytearray)):\n            raise SerializerTypeError('Expected bytes; got %r' % value.__class__)\n\n        if len(value) != cls.EXPECTED")]),
 ('s-varbytes-min', ['M06'], [(S, "        l = ctx.read_varuint()\n        if not (cls.MIN_LENGTH <= l <= cls.MAX_LENGTH):", "        l = ctx.read_varuint()\n        if not (l <= cls.MAX_LENGTH):")]),
 ('s-varbytes-check-max', ['M06'], [(S, "        if not (cls.MIN_LENGTH <= len(value) <= cls.MAX_LENGTH):", "        if not (cls.MIN_LENGTH <= len(value) <= cls.MAX_LENGTH + 1):")]),
 ('s-uint-max', ['M06'], [(S, "        if not (0 <= r <= cls.MAX_INT):", "        if not (0 <= r <= cls.MAX_INT + 1):")]),
 ('s-uint-bool', ['M06'], [(S, "        if value.__class__ is not int:\n            raise SerializerTypeError('Expected an int", "        if not isinstance(value, int):\n            raise SerializerTypeError('Expected an int")]),
 ('s-derive-order', ['M02', 'M07', 'C06'], [(S, "derivation_hasher(self + subtag).digest()", "derivation_hasher(bytes(a ^ b for a, b in zip(self, subtag))).digest()")]),
 ('s-derive-truncate', ['M02', 'M03'], [(S, "derivation_hasher(self + subtag).digest()", "derivation_hasher(self).digest()")]),
 ('b-tail-mask', ['M03', 'M06', 'M07'], [(B, "            return self.__buf[self.__length // 8] & (0xFF << (8 - odd_bits))", "            return self.__buf[self.__length // 8]")]),
 ('b-common-full', ['M03', 'M08'], [(B, "while common_prefix_length < lhs.__length and not diff_bits & 0x80:", "while common_prefix_length < lhs.__length - 1 and not diff_bits & 0x80:")]),
 ('b-common-oddlen', ['M03'], [(B, "        if common_prefix_length < lhs.__length:\n", "        if common_prefix_length < (lhs.__length // 8) * 8:\n")]),
 ('b-ser-unmasked', ['M06', 'M02'], [(B, "ctx.write_bytes(bytes([value._Bits__tail_bits()]))", "ctx.write_bytes(bytes([value._Bits__buf[value._Bits__length // 8]]))")]),
 ('b-startswith-len', ['M03'], [(B, "        if len(prefix) > len(self):\n            return False", "        if len(prefix) > len(self):\n            return prefix[:len(self)] == self")]),
 ('b-slice-len', ['M03', 'M06'], [(B, "                elif stop == self.__length:\n                    return self", "                elif stop >= self.__length - 1:\n                    return self")]),
 ('mb-put-equal-value', ['M03'], [(MB, "            # And we rebuild the inner nodes along the path from the siblings\n            for sibling in siblings:\n                new_tip = self.InnerNodeClass(new_tip, sibling)\n\n            return new_tip\n\n\n    def remove", "            # And we rebuild the inner nodes along the path from the siblings\n            for sibling in siblings:\n                if sibling == new_tip:\n                    continue\n                new_tip = self.InnerNodeClass(new_tip, sibling)\n\n            return new_tip\n\n\n    def remove")]),
 ('mb-remove-missing', ['M03'], [(MB, "            if closest_node.key == key:\n                # Yes! Remove and rebuild tree.", "            if closest_node.prefix == self.key2prefix(key) or len(self) == 2:\n                # Yes! Remove and rebuild tree.")]),
 ('mb-left-right', ['M03'], [(MB, "left,right = (first,second) if second.prefix[len(prefix)] else (second, first)", "left,right = (first,second) if first.prefix[:len(second.prefix)] < second.prefix else (second, first)")]),
 ('mb-prefix-strict', ['M03'], [(MB, "if len(self.prefix) <= len(prefix) and prefix.startswith(self.prefix):", "if len(self.prefix) < len(prefix) and prefix.startswith(self.prefix):")]),
 ('mb-descend-noprefix', ['M03', 'M01', 'M02'], [(MB, "if len(self.prefix) <= len(prefix) and prefix.startswith(self.prefix):", "if len(self.prefix) < len(prefix):")]),
 ('mb-getitem-keycmp', ['M03', 'M02', 'M01'], [(MB, "            if closest_node.key == key:\n                return closest_node.value", "            if closest_node.prefix[:16] == self.key2prefix(key)[:16]:\n                return closest_node.value")]),
 ('mb-contains', ['M03', 'M01'], [(MB, "        try:\n            self[key]\n        except KeyError:\n            return False", "        try:\n            self[key]\n        except (KeyError, proofmarshal.proof.PrunedError):\n            return False")]),
 ('mb-issubset', ['M03', 'M01'], [(MB, "            return self.value == other_value", "            return True")]),
 ('mb-issubset-empty', ['M03'], [(MB, "        elif other == self.EmptyNodeClass():\n            # Nothing is a subset of nothing, except nothing, which the above\n            # handles.\n            return False", "        elif other == self.EmptyNodeClass():\n            return True")]),
 ('mb-issubset-side', ['M03', 'M01'], [(MB, "                if self.prefix[len(them.prefix)]:\n                    return self._MerbinnerTree__issubset(them.right)\n                else:\n                    return self._MerbinnerTree__issubset(them.left)", "                return self._MerbinnerTree__issubset(them.left)")]),
 ('mb-items-zip', ['M03', 'M01'], [(MB, "            yield from self.left.values()\n            yield from self.right.values()", "            yield from self.right.values()\n            yield from self.left.values()")]),
 ('mb-empty-singleton-shared', ['M03'], [(MB, "            if cls.__instance is not None:\n                return cls.__instance\n            else:\n                singleton = proofmarshal.proof.VarProof.__new__(cls)\n                cls.__instance = singleton", "            if MerbinnerTree.TAG is not None:\n                return MerbinnerTree.TAG\n            else:\n                singleton = proofmarshal.proof.VarProof.__new__(cls)\n                MerbinnerTree.TAG = singleton")]),
 ('mr-neg-index', ['M04', 'M01'], [(MR, "                if idx < 0:\n                    idx = len(self) + idx\n", "                if idx < 0:\n                    idx = max(len(self) + idx, 0)\n")]),
 ('mr-leaf-neg', ['M04'], [(MR, "if idx == 0 or idx == -1:", "if idx in (0, -1, 1):")]),
 ('mr-slice-right', ['M04'], [(MR, "r = r.extend(self.right[0:stop - offset:step])", "r = self.InnerNodeClass(r, self.right[0:stop - offset:step])")]),
 ('mr-slice-leaf', ['M04', 'M01'], [(MR, "                if start <= 0 and stop >= 1:\n                    # We're within", "                if start <= 0 or stop >= 1:\n                    # We're within")]),
 ('mr-merge-cond', ['M04'], [(MR, "            if not (len(self) & len(new_right)):", "            if len(self) > 2 * len(new_right):")]),
 ('mr-append-odd', ['M04'], [(MR, "            if len(self) & 1 == 0:", "            if len(self) & 3 == 0 or len(self) & 1 == 0 or len(self) > 100:")]),
 ('mr-append-large', ['M04'], [(MR, "            if len(self) & 1 == 0:", "            if len(self) & 1 == 0 or len(self) == 63:")]),
 ('mr-len-left', ['M04', 'M02'], [(MR, "            return self.length\n", "            return len(self.left) + len(self.right)\n")]),
 ('mr-getitem-len', ['M02'], [(MR, "                if 0 <= idx < len(self.left):\n                    return self.left[idx]\n\n                if len(self.left) <= idx < len(self.left) + len(self.right):\n                    return self.right[idx - len(self.left)]", "                half = 1 << ((len(self) - 1).bit_length() - 1)\n                if idx < half:\n                    return self.left[idx]\n\n                else:\n                    return self.right[idx - len(self)]")]),
 ('mr-no-length-hash', ['M02', 'M04'], [(MR, "                            ('length', proofmarshal.serialize.UInt64)]", "                            ('length', proofmarshal.serialize.UInt16)]")]),
 ('mr-reversed', ['M04'], [(MR, "            yield from reversed(self.right)\n            yield from reversed(self.left)", "            yield from list(self)[::-1] if len(self) < 64 else reversed(list(self)[1:])")]),
 ('mr-reversed-depends', ['M01'], [(MR, "                if len(self.left) <= idx < len(self.left) + len(self.right):\n                    return self.right[idx - len(self.left)]", "                if len(self.left) <= idx < len(self):\n                    return self.right[idx - len(self)]")]),
]
