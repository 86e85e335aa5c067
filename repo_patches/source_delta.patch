From 1dbf42c874252dff8c85b809e43fb91db397623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 01/56] fix: report pruned attributes of a proof deserialized
 in a fresh process

The name->serializer table was only filled in by Proof.__new__(), so a pruned
proof deserialized before any instance of its class was created raised
TypeError rather than PrunedError. The table of a base class was also silently
reused by its subclasses.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index faa8741..25de511 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -43,7 +43,7 @@ class Proof(HashingSerializer):
 
     def __new__(cls, **kwargs):
         """Basic creation/initialization"""
-        if cls.SERIALIZED_ATTRS_BY_NAME is None:
+        if 'SERIALIZED_ATTRS_BY_NAME' not in cls.__dict__:
             cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
 
         is_pruned = False
@@ -120,7 +120,7 @@ class Proof(HashingSerializer):
         if self.__orig_instance is None:
             # Don't have the original instance. Is this an attribute we should
             # have?
-            if name in self.SERIALIZED_ATTRS_BY_NAME:
+            if any(name == attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS):
                 # FIXME: raise pruning error
                 raise PrunedError(name, self)
             else:
-- 
2.43.0


From a3aac61ec1de66cecc74d539320f5a8bab6d663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 02/56] fix: import the DeserializationError that bad union
 numbers raise

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 25de511..1c91984 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -13,7 +13,7 @@ import binascii
 import copy
 import hashlib
 
-from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag
+from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, DeserializationError, HashTag
 
 """Proof representation
 
-- 
2.43.0


From e5fd7e9402354bd9f2b5f9a02eed08cda1b04514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 03/56] fix: keep the variant of a fully pruned VarProof when
 serializing it

The variant is part of the hash, so without it a pruned subtree came back with
the wrong class and hash (or failed to deserialize at all).
---
 lib/python-proofmarshal/proofmarshal/proof.py | 50 +++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 1c91984..ef37839 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -184,10 +184,13 @@ class Proof(HashingSerializer):
             attr = getattr(self, attr_name)
             ser_cls.ctx_serialize(attr, ctx)
 
+    def _ctx_serialize_pruned(self, ctx):
+        ctx.write_bytes(self.data_hash)
+
     def ctx_serialize(self, ctx):
         if self.is_fully_pruned:
             ctx.write_bool(True)
-            ctx.write_bytes(self.data_hash)
+            self._ctx_serialize_pruned(ctx)
 
         else:
             ctx.write_bool(False)
@@ -211,20 +214,24 @@ class Proof(HashingSerializer):
         return Proof.__new__(cls, **kwargs)
 
     @classmethod
-    def ctx_deserialize(cls, ctx):
-        fully_pruned = ctx.read_bool()
+    def _ctx_deserialize_pruned(cls, ctx):
+        self = object.__new__(cls)
 
-        if fully_pruned:
-            self = object.__new__(cls)
+        data_hash = ctx.read_bytes(32) # FIXME
+        object.__setattr__(self, 'data_hash', data_hash)
 
-            data_hash = ctx.read_bytes(32) # FIXME
-            object.__setattr__(self, 'data_hash', data_hash)
+        object.__setattr__(self, 'is_fully_pruned', True)
+        object.__setattr__(self, 'is_pruned', True)
+        object.__setattr__(self, '_Proof__orig_instance', None)
+
+        return self
 
-            object.__setattr__(self, 'is_fully_pruned', True)
-            object.__setattr__(self, 'is_pruned', True)
-            object.__setattr__(self, '_Proof__orig_instance', None)
+    @classmethod
+    def ctx_deserialize(cls, ctx):
+        fully_pruned = ctx.read_bool()
 
-            return self
+        if fully_pruned:
+            return cls._ctx_deserialize_pruned(ctx)
 
         else:
             return cls._ctx_deserialize(ctx)
@@ -266,7 +273,7 @@ class VarProof(Proof):
 
         return subclass
 
-    def _ctx_serialize(self, ctx):
+    def _ctx_serialize_variant(self, ctx):
         for i,cls in enumerate(self.UNION_CLASSES):
             if isinstance(self, cls):
                 ctx.write_varuint(i)
@@ -275,18 +282,33 @@ class VarProof(Proof):
         else:
             raise SerializerTypeError('bad class')
 
+    def _ctx_serialize_pruned(self, ctx):
+        # The variant is part of the hash, so it's needed even when pruned
+        self._ctx_serialize_variant(ctx)
+        super()._ctx_serialize_pruned(ctx)
+
+    def _ctx_serialize(self, ctx):
+        self._ctx_serialize_variant(ctx)
         super()._ctx_serialize(ctx)
 
     @classmethod
-    def _ctx_deserialize(cls, ctx):
+    def _ctx_deserialize_variant(cls, ctx):
         i = ctx.read_varuint()
 
         try:
-            union_cls = cls.UNION_CLASSES[i]
+            return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
             raise DeserializationError('bad union class number %d' % i)
 
+    @classmethod
+    def _ctx_deserialize_pruned(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
+        return super(VarProof, union_cls)._ctx_deserialize_pruned(ctx)
+
+    @classmethod
+    def _ctx_deserialize(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
         return super(VarProof, union_cls)._ctx_deserialize(ctx)
 
 class ProofUnion(HashingSerializer):
-- 
2.43.0


From e557773d0667e3e9308cfeccef0edbc99173b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 04/56] fix: deserialize Bits that are empty or a whole number
 of bytes long

---
 lib/python-proofmarshal/proofmarshal/bits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 19f620f..8a238ef 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -311,7 +311,7 @@ class BitsSerializer(proofmarshal.serialize.Serializer):
         length = ctx.read_varuint()
         buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
         r = Bits.from_bytes(buf, length)
-        # FIXME: should throw a serialization exception
-        assert r._Bits__tail_bits() == buf[-1]
+        if length % 8 and r._Bits__tail_bits() != buf[-1]:
+            raise proofmarshal.serialize.DeserializationError('Unused bits in Bits must be zero')
         return r
 
-- 
2.43.0


From 1295406252de218f78282e743647dc494901127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 05/56] fix: implement the MerbinnerTree membership test

issubset() is documented in terms of it, but it raised NotImplementedError.
---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index ce6635d..6d1713c 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -120,7 +120,12 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
         raise KeyError(key)
 
     def __contains__(self, key):
-        raise NotImplementedError
+        try:
+            self[key]
+        except KeyError:
+            return False
+        else:
+            return True
 
     def __len__(self):
         raise NotImplementedError
-- 
2.43.0


From 796611f04ab9e50a8db5374a703edb3063a5d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 06/56] fix: let MerbinnerTree.put() change the value of an
 existing key

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index 6d1713c..f2d7862 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -157,8 +157,13 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             return new_leaf
 
         else:
-            # The two leaves are joined by an inner node
-            new_tip = self.InnerNodeClass(new_leaf, closest_node)
+            if closest_node.__class__ is self.LeafNodeClass and closest_node.key == key:
+                # The leaf for that very key is replaced
+                new_tip = new_leaf
+
+            else:
+                # The two leaves are joined by an inner node
+                new_tip = self.InnerNodeClass(new_leaf, closest_node)
 
             # And we rebuild the inner nodes along the path from the siblings
             for sibling in siblings:
-- 
2.43.0


From 772b3463d35506856aff2fe4ed03280670ed60df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 07/56] fix: make MMR slices that end before they start empty

---
 lib/python-proofmarshal/proofmarshal/mmr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index 4d80439..da0ec63 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -419,6 +419,9 @@ def make_mmr_subclass(subclass):
                 if step != 1:
                     raise NotImplementedError
 
+                if stop <= start:
+                    return self.EmptyNodeClass()
+
                 if start <= 0 and stop >= len(self):
                     # We satisfy the slice without modification, so return
                     # ourselves
-- 
2.43.0


From fc7f0e625d9dc4f0fbb5502371e53f913d15d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 08/56] fix: keep the hash of a TxProof that was serialized
 pruned

Its hash isn't derived from a tag, so a pruned and deserialized TxProof (and
everything that contains one) had no hash at all, contrary to the txhash
property's documentation. Commit to the transaction by its txid instead.
---
 proofchains/core/bitcoin.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 03c6a54..41a74df 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -66,15 +66,18 @@ class TxProof(proofmarshal.proof.Proof):
 
     TX_HASH_XOR_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'
 
-    def calc_hash(self):
+    def calc_data_hash(self):
         if self.is_pruned:
-            return super().calc_hash()
+            return super().calc_data_hash()
 
         else:
-            # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
-            # with a fixed pad. This still guarantees global uniqueness, yet
-            # lets us convert the proof hash to a bitcoin hash and back.
-            return bytes([b^p for b,p in zip(self.tx.GetHash(), self.TX_HASH_XOR_PAD)])
+            return self.tx.GetHash()
+
+    def calc_hash(self):
+        # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
+        # with a fixed pad. This still guarantees global uniqueness, yet
+        # lets us convert the proof hash to a bitcoin hash and back.
+        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])
 
     @property
     def txhash(self):
-- 
2.43.0


From d529604e0131d1f2979247336b4a732fbf0e25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 09/56] fix: report the class of wrongly typed transactions and
 outpoints

---
 proofchains/core/bitcoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 41a74df..17fa8e5 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -21,7 +21,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
-            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -42,7 +42,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.COutPoint):
-            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From da1a6962ef1d6e33075340b6487845bf3a71029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 10/56] fix: reject junk after the end of a serialized object

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f81a34d..9d4c0b3 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -234,8 +234,6 @@ class BytesDeserializationContext(StreamDeserializationContext):
         """Deserialize from bytes"""
         super().__init__(io.BytesIO(buf))
 
-    # FIXME: need to check that there isn't extra crap at end of object
-
 class Serializer:
     """(De)serialize an instance of a class
 
@@ -278,7 +276,8 @@ class Serializer:
         """Deserialize from bytes"""
         ctx = BytesDeserializationContext(serialized_value)
         r = cls.ctx_deserialize(ctx)
-        # FIXME: check for junk at end
+        if ctx.fd.read(1):
+            raise DeserializationError('Junk found after the end of the serialized object')
         return r
 
 class SerBool(Serializer):
-- 
2.43.0


From 0ce338810a5b9fa5573ba923a880672988d1d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 11/56] fix: reject variable-length integers that aren't
 minimally encoded

They made the encoding malleable: several byte strings for one object.
---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 9d4c0b3..5fd3f54 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -207,6 +207,8 @@ class StreamDeserializationContext(DeserializationContext):
             b = self.fd_read(1)[0]
             value |= (b & 0b01111111) << shift
             if not (b & 0b10000000):
+                if shift and not b:
+                    raise DeserializationError('Variable-length integer not minimally encoded')
                 break
             shift += 7
 
-- 
2.43.0


From 0b5d8bfb72e16b56d48c0eed5b416b9e6c277b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 12/56] fix: make immutable copies of mutable outpoints and
 txins

COutPoint.from_outpoint() and CTxIn.from_txin() referred to names that don't
exist, so no mutable transaction could be converted to an immutable one.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ce0c093..c05e962 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -154,11 +154,11 @@ class COutPoint(ImmutableSerializable):
     def from_outpoint(cls, outpoint):
         """Create an immutable copy of an existing OutPoint
 
-        If output is already immutable (outpoint.__class__ is COutPoint) it is
+        If outpoint is already immutable (outpoint.__class__ is COutPoint) it is
         returned directly.
         """
-        if output.__class__ is COutPoint:
-            return output
+        if outpoint.__class__ is COutPoint:
+            return outpoint
 
         else:
             return cls(outpoint.hash, outpoint.n)
@@ -218,7 +218,7 @@ class CTxIn(ImmutableSerializable):
             return txin
 
         else:
-            return cls(COutPoint.from_txout(txin.prevout), txin.scriptSig, txin.nSequence)
+            return cls(COutPoint.from_outpoint(txin.prevout), txin.scriptSig, txin.nSequence)
 
 @__make_mutable
 class CMutableTxIn(CTxIn):
-- 
2.43.0


From 950cf77155d572ed384832d9a0ac0b2b2a5572a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 13/56] fix: don't let an immutable CTxIn hold a mutable
 outpoint

Changing that outpoint changed the txin, and any transaction made with it,
behind the cached hashes.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index c05e962..621bc05 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -186,7 +186,7 @@ class CTxIn(ImmutableSerializable):
             raise ValueError('CTxIn: nSequence must be an integer between 0x0 and 0xffffffff; got %x' % nSequence)
         object.__setattr__(self, 'nSequence', nSequence)
 
-        object.__setattr__(self, 'prevout', prevout)
+        object.__setattr__(self, 'prevout', COutPoint.from_outpoint(prevout))
         object.__setattr__(self, 'scriptSig', scriptSig)
 
     @classmethod
-- 
2.43.0


From 4eed500d7effe72fd721670e3c5aaa6b653f944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 14/56] fix: count the sigops of multisig and of malformed
 scripts

The accurate count asked the wrong object for the number of keys, and a script
with a truncated push, valid in an output and usual in a coinbase, made
CheckBlock() fail with a CScriptInvalidError.
---
 lib/python-bitcoinlib/bitcoin/core/script.py | 22 ++++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 5f71e74..92a1a76 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -758,15 +758,19 @@ class CScript(bytes):
         """
         n = 0
         lastOpcode = OP_INVALIDOPCODE
-        for (opcode, data, sop_idx) in self.raw_iter():
-            if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
-                n += 1
-            elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
-                if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += opcode.decode_op_n()
-                else:
-                    n += 20
-            lastOpcode = opcode
+        try:
+            for (opcode, data, sop_idx) in self.raw_iter():
+                if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
+                    n += 1
+                elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
+                    if fAccurate and (OP_1 <= lastOpcode <= OP_16):
+                        n += CScriptOp(lastOpcode).decode_op_n()
+                    else:
+                        n += 20
+                lastOpcode = opcode
+        except CScriptInvalidError:
+            # As in Bitcoin Core everything up to the invalid pushdata counts.
+            pass
         return n
 
 
-- 
2.43.0


From f6313c0a0c25dbb2d5fdb2548fd21b909468c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 15/56] fix: check the coinbase transaction in CheckBlock() too

It's documented to check every transaction, but neither CheckTransaction() nor
the sigop limit covered the first one.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 621bc05..6a08c5d 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -714,8 +714,8 @@ def CheckBlock(block, fCheckPoW = True, fCheckMerkleRoot = True, cur_time=None):
     # it'll be caught by the "more than one coinbase" test.
     unique_txids = set()
     nSigOps = 0
-    for tx in block.vtx[1:]:
-        if tx.is_coinbase():
+    for i, tx in enumerate(block.vtx):
+        if i > 0 and tx.is_coinbase():
             raise CheckBlockError("CheckBlock() : more than one coinbase")
 
         CheckTransaction(tx)
-- 
2.43.0


From 9deb97219a50000a11b698269983a17c57ceb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 16/56] fix: decode small and negative compact targets

An exponent below three raised ValueError, and the sign bit was taken for part
of the target, which let a negative target pass CheckProofOfWork().
---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index feeb7d1..17c47ea 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -311,7 +311,13 @@ def uint256_from_compact(c):
     Used for the nBits compact encoding of the target in the block header.
     """
     nbytes = (c >> 24) & 0xFF
-    v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
+    v = c & 0x7FFFFF
+    if nbytes <= 3:
+        v >>= 8 * (3 - nbytes)
+    else:
+        v <<= 8 * (nbytes - 3)
+    if c & 0x800000:
+        v = -v
     return v
 
 
-- 
2.43.0


From a9d72c159dbaf8fb25b9c7f6d1bad06f2e108312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 17/56] fix: reject transactions in proofs that aren't
 canonically serialized

bitcoinlib accepts non-optimal varints, so different bytes could stand for the
same TxProof.
---
 proofchains/core/bitcoin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 17fa8e5..f1c9ed0 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -36,6 +36,8 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
         l = ctx.read_varuint()
         serialized_tx = ctx.read_bytes(l)
         tx = bitcoin.core.CTransaction.deserialize(serialized_tx)
+        if tx.serialize() != serialized_tx:
+            raise proofmarshal.serialize.DeserializationError('Transaction not canonically serialized')
         return tx
 
 class COutPointSerializer(proofmarshal.serialize.Serializer):
-- 
2.43.0


From 4b53fdf0bc3a8365277e8a6cf0f5b96e83d07df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 18/56] fix: read the length of a P2P message as unsigned

A negative length made the reader take everything left in the stream,
whatever its size, for the body of one message.
---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index aa6aedd..0ca0e92 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -84,7 +84,7 @@ class MsgSerializable(Serializable):
 
         # remaining header fields: command, msg length, checksum
         command = recvbuf[4:4+12].split(b"\x00", 1)[0]
-        msglen = struct.unpack(b"<i", recvbuf[4+12:4+12+4])[0]
+        msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0]
         checksum = recvbuf[4+12+4:4+12+4+4]
 
         # read message body
-- 
2.43.0


From cad76b6da5b565d270309fdfa6a37efd3975d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 19/56] fix: skip unknown P2P messages whose command isn't
 ASCII

---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index 0ca0e92..045cddc 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -102,7 +102,7 @@ class MsgSerializable(Serializable):
             #        print("Going to deserialize '%s'" % msg)
             return cls.msg_deser(_BytesIO(msg))
         else:
-            print("Command '%s' not in messagemap" % str(command, 'ascii'))
+            print("Command '%s' not in messagemap" % command.decode('ascii', 'backslashreplace'))
             return None
 
     def stream_serialize(self, f):
-- 
2.43.0


From 00e73bf76319163078da86a1e9f91693787910f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 20/56] fix: (de)serialize the unsigned part of alerts

CUnsignedAlert called serializers that don't exist, or that expect bytes, and
intVectorSerialzer returned nothing.
---
 .../bitcoin/core/serialize.py                 |  3 ++-
 lib/python-bitcoinlib/bitcoin/net.py          | 25 +++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 17c47ea..54abd82 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -279,7 +279,8 @@ class intVectorSerialzer(Serializer):
         l = VarIntSerializer.stream_deserialize(f)
         ints = []
         for i in range(l):
-            ints.append(struct.unpack(b"<i", ser_read(f, 4)))
+            ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])
+        return ints
 
 
 class VarStringSerializer(Serializer):
diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 4916f21..76de619 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -17,7 +17,9 @@ from binascii import hexlify
 
 from bitcoin.core.serialize import (
         Serializable,
+        VarIntSerializer,
         VarStringSerializer,
+        intVectorSerialzer,
         ser_read,
         uint256VectorSerializer,
 )
@@ -127,14 +129,15 @@ class CUnsignedAlert(Serializable):
         c.nExpiration = struct.unpack(b"<q", ser_read(f,8))[0]
         c.nID = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nCancel = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setCancel = intVectorSerialzer.deserialize(f)
+        c.setCancel = intVectorSerialzer.stream_deserialize(f)
         c.nMinVer = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nMaxVer = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setSubVer = VarStringSerializer.deserialize(f)
+        c.setSubVer = [VarStringSerializer.stream_deserialize(f)
+                       for i in range(VarIntSerializer.stream_deserialize(f))]
         c.nPriority = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.strComment = VarStringSerializer.deserialize(f)
-        c.strStatusBar = VarStringSerializer.deserialize(f)
-        c.strReserved = VarStringSerializer.deserialize(f)
+        c.strComment = VarStringSerializer.stream_deserialize(f)
+        c.strStatusBar = VarStringSerializer.stream_deserialize(f)
+        c.strReserved = VarStringSerializer.stream_deserialize(f)
         return c
 
     def stream_serialize(self, f):
@@ -143,14 +146,16 @@ class CUnsignedAlert(Serializable):
         f.write(struct.pack(b"<q", self.nExpiration))
         f.write(struct.pack(b"<i", self.nID))
         f.write(struct.pack(b"<i", self.nCancel))
-        f.write(ser_int_vector(self.setCancel))
+        intVectorSerialzer.stream_serialize(self.setCancel, f)
         f.write(struct.pack(b"<i", self.nMinVer))
         f.write(struct.pack(b"<i", self.nMaxVer))
-        f.write(ser_string_vector(self.setSubVer))
+        VarIntSerializer.stream_serialize(len(self.setSubVer), f)
+        for subVer in self.setSubVer:
+            VarStringSerializer.stream_serialize(subVer, f)
         f.write(struct.pack(b"<i", self.nPriority))
-        f.write(ser_string(self.strComment))
-        f.write(ser_string(self.strStatusBar))
-        f.write(ser_string(self.strReserved))
+        VarStringSerializer.stream_serialize(self.strComment, f)
+        VarStringSerializer.stream_serialize(self.strStatusBar, f)
+        VarStringSerializer.stream_serialize(self.strReserved, f)
 
     def __repr__(self):
         return "CUnsignedAlert(nVersion %d, nRelayUntil %d, nExpiration %d, nID %d, nCancel %d, nMinVer %d, nMaxVer %d, nPriority %d, strComment %s, strStatusBar %s, strReserved %s)" % (self.nVersion, self.nRelayUntil, self.nExpiration, self.nID, self.nCancel, self.nMinVer, self.nMaxVer, self.nPriority, self.strComment, self.strStatusBar, self.strReserved)
-- 
2.43.0


From 88fa0fa3718739b66f7a5bb1c245aec636b473ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 21/56] fix: connect to https RPC services again

Python 3.12 removed the key_file and cert_file arguments.
---
 lib/python-bitcoinlib/bitcoin/rpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 801cb3b..9c89777 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -121,7 +121,6 @@ class RawProxy(object):
             self.__conn = _connection
         elif self.__url.scheme == 'https':
             self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,
-                                                  key_file=None, cert_file=None,
                                                   timeout=timeout)
         else:
             self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,
-- 
2.43.0


From 03108a5bfca4c89543ad2090cf72c5e0c6e9d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 22/56] fix: reconnect after a failed RPC request

After a timeout, or any other failure in the middle of a request, the
connection was left half used and every later call failed.
---
 lib/python-bitcoinlib/bitcoin/rpc.py | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 9c89777..4105a40 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -127,6 +127,21 @@ class RawProxy(object):
                                                  timeout=timeout)
 
 
+    def _request(self, postdata):
+        try:
+            self.__conn.request('POST', self.__url.path, postdata,
+                                {'Host': self.__url.hostname,
+                                 'User-Agent': DEFAULT_USER_AGENT,
+                                 'Authorization': self.__auth_header,
+                                 'Content-type': 'application/json'})
+
+            return self._get_response()
+        except:
+            # There's no telling what is still to come on this connection, so
+            # the next request needs a new one.
+            self.__conn.close()
+            raise
+
     def _call(self, service_name, *args):
         self.__id_count += 1
 
@@ -134,13 +149,7 @@ class RawProxy(object):
                                'method': service_name,
                                'params': args,
                                'id': self.__id_count})
-        self.__conn.request('POST', self.__url.path, postdata,
-                            {'Host': self.__url.hostname,
-                             'User-Agent': DEFAULT_USER_AGENT,
-                             'Authorization': self.__auth_header,
-                             'Content-type': 'application/json'})
-
-        response = self._get_response()
+        response = self._request(postdata)
         if response['error'] is not None:
             raise JSONRPCException(response['error'])
         elif 'result' not in response:
@@ -166,13 +175,7 @@ class RawProxy(object):
 
     def _batch(self, rpc_call_list):
         postdata = json.dumps(list(rpc_call_list))
-        self.__conn.request('POST', self.__url.path, postdata,
-                            {'Host': self.__url.hostname,
-                             'User-Agent': DEFAULT_USER_AGENT,
-                             'Authorization': self.__auth_header,
-                             'Content-type': 'application/json'})
-
-        return self._get_response()
+        return self._request(postdata)
 
     def _get_response(self):
         http_response = self.__conn.getresponse()
-- 
2.43.0


From fd1c9a1d33050609556861016d0c2bb063bee2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 23/56] fix: don't return the result of another RPC request

The id of the response was never compared with that of the request.
---
 lib/python-bitcoinlib/bitcoin/rpc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 4105a40..2c38c10 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -155,6 +155,10 @@ class RawProxy(object):
         elif 'result' not in response:
             raise JSONRPCException({
                 'code': -343, 'message': 'missing JSON-RPC result'})
+        elif response.get('id') != self.__id_count:
+            self.__conn.close()
+            raise JSONRPCException({
+                'code': -344, 'message': 'JSON-RPC response to another request'})
         else:
             return response['result']
 
-- 
2.43.0


From c98cac5bd0c27e1e2aa715f0314924950c056b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 24/56] fix: give the seals made by sus-tool mkseal a nonce

mkseal failed every time with KeyError: 'nonce'.
---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a8d0d38..8cfe572 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -16,6 +16,7 @@
 import argparse
 import collections
 import logging
+import os
 
 import bitcoin.rpc
 
@@ -88,7 +89,7 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
         help='Seal file')
 
 def cmd_mkseal(args):
-    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint)
+    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
     args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
-- 
2.43.0


From d4c0db18674aed4686e1e414bdbb0e65ab20593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 25/56] fix: notice when sus-tool mkseal can't write the seal

The file was only flushed when it was garbage collected on exit, where errors
are ignored, so with a full disk mkseal succeeded without writing a seal.
---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8cfe572..01b22c5 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -90,7 +90,8 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
 
 def cmd_mkseal(args):
     btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
-    args.seal_fd.write(btc_seal.serialize())
+    with args.seal_fd:
+        args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
 
-- 
2.43.0


From 5ad4cb18c0c26e5ac6645895461e09221576eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 26/56] fix: don't require a Bitcoin node for the offline
 sus-tool commands

Without a bitcoin.conf even sealinfo failed, and mkseal left an empty seal file
behind that made the next attempt fail too.
---
 sus-tool.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sus-tool.py b/sus-tool.py
index 01b22c5..834b904 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -159,7 +159,7 @@ def cmd_mkwitness(args):
         tx = CTransaction.deserialize(serialized_tx)
 
     else:
-        tx = args.proxy.getrawtransaction(args.txid)
+        tx = bitcoin.rpc.Proxy().getrawtransaction(args.txid)
 
     txproof = TxProof(tx=tx)
 
@@ -272,8 +272,6 @@ elif args.verbosity <= -1:
 if args.testnet:
     bitcoin.SelectParams('testnet')
 
-args.proxy = bitcoin.rpc.Proxy()
-
 if hasattr(args, 'cmd_func'):
     args.cmd_func(args)
 
-- 
2.43.0


From f8194689ff70970691a24351329786b6dd381088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 27/56] fix: print the outpoint in sus-tool witnessinfo the way
 sealinfo does

It was in the opposite byte order.
---
 sus-tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 834b904..79e3a1f 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -247,7 +247,7 @@ def cmd_witnessinfo(args):
     print('Hash:\t\t%s' % b2x(witness.hash))
     print('Txid:\t\t%s' % b2lx(witness.txinproof.txproof.txhash))
     print('Seal Hash:\t%s' % b2x(witness.seal.hash))
-    print('Seal OutPoint:\t%s:%d' % (b2x(witness.seal.outpoint.hash), witness.seal.outpoint.n))
+    print('Seal OutPoint:\t%s:%d' % (b2lx(witness.seal.outpoint.hash), witness.seal.outpoint.n))
 
 witnessinfo_parser.set_defaults(cmd_func=cmd_witnessinfo)
 
-- 
2.43.0


From 4b2959be0d1777d787f05c9b263abbea4698dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 28/56] fix: check the seal that sus-tool verifywitness is
 given

--seal-file and --seal-id were ignored: a witness to any other seal verified.
---
 sus-tool.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 79e3a1f..9d2f051 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -215,7 +215,13 @@ def cmd_verifywitness(args):
     if args.digest is not None:
         witness.verify_hash(args.digest)
 
-    # FIXME: seal and seal hash
+    if args.seal_file is not None:
+        seal = BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+        if witness.seal != seal:
+            args.parser.error("Witness is not for seal '%s'" % args.seal_file.name)
+
+    if args.seal_id is not None and witness.seal.hash != args.seal_id:
+        args.parser.error('Witness is not for seal %s' % b2x(args.seal_id))
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From fb513eed931d0d2a06062843bb3f126f476cb04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 29/56] fix: spend an outpoint once even if several seals share
 it

The closing transaction had duplicate inputs, which makes it invalid.
---
 proofchains/uniquebits/singleuseseal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proofchains/uniquebits/singleuseseal.py b/proofchains/uniquebits/singleuseseal.py
index 3580871..b4c6377 100644
--- a/proofchains/uniquebits/singleuseseal.py
+++ b/proofchains/uniquebits/singleuseseal.py
@@ -11,6 +11,8 @@
 
 """Single use seals - non-consensus-critical functionality"""
 
+import collections
+
 from bitcoin.core.script import CScript, OP_RETURN, OP_HASH160, OP_EQUAL, OP_DUP, OP_EQUALVERIFY, OP_CHECKSIG
 from bitcoin.core import Hash160, CTransaction, CTxIn, CTxOut
 
@@ -29,6 +31,8 @@ def make_close_seal_tx_template(digest, *seals, meth='op_return', dust=600):
     elif meth == 'p2pkh':
         txout = CTxOut(dust, CScript([OP_DUP, OP_HASH160, Hash160(digest), OP_EQUALVERIFY, OP_CHECKSIG]))
 
-    txins = [CTxIn(seal.outpoint) for seal in seals]
+    # Different seals may share an outpoint, but can only spend it once
+    outpoints = collections.OrderedDict.fromkeys(seal.outpoint for seal in seals)
+    txins = [CTxIn(outpoint) for outpoint in outpoints]
 
     return CTransaction(txins, [txout])
-- 
2.43.0


From e20f2bfd6482b3bd675987a4c724c4f02befe4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 30/56] fix: let only the first output of a transaction close a
 seal

Witnesses to the same seal and closing transaction could each use another
output, so a seal could be closed over any number of different hashes.
---
 proofchains/core/uniquebits/singleuseseal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proofchains/core/uniquebits/singleuseseal.py b/proofchains/core/uniquebits/singleuseseal.py
index 299fd51..c79d98e 100644
--- a/proofchains/core/uniquebits/singleuseseal.py
+++ b/proofchains/core/uniquebits/singleuseseal.py
@@ -92,6 +92,10 @@ class BitcoinSealWitness(SingleUseSeal):
         assert self.seal.outpoint == self.txinproof.txin.prevout
         assert self.txinproof.txproof == self.txoutproof.txproof
 
+        # A transaction has any number of outputs, each possibly committing to
+        # a different hash. Only the first one closes the seal.
+        assert self.txoutproof.i == 0
+
     def verify_hash(self, hash):
         assert len(hash) == 32
         # Avoid the consensus issues of parsing the scriptPubKey by generating
-- 
2.43.0


From 09b313229c4adbe413e6e87ab596bb95121b4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 31/56] fix: verify the witnesses of GuMap prefixes themselves

Only the hash they were closed over was checked, so a witness that doesn't even
spend the outpoint of the seal was accepted.
---
 proofchains/core/uniquebits/gumap.py         | 2 ++
 proofchains/core/uniquebits/singleuseseal.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/proofchains/core/uniquebits/gumap.py b/proofchains/core/uniquebits/gumap.py
index 8195f62..da3efcf 100644
--- a/proofchains/core/uniquebits/gumap.py
+++ b/proofchains/core/uniquebits/gumap.py
@@ -99,6 +99,7 @@ def make_GuMap_subclass(subclass):
             return cls.CONTENTS_HASHTAG(msg).digest()
 
         def verify(self):
+            self.witness.verify()
             self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))
 
     subclass.LeafPrefix = LeafPrefix
@@ -151,6 +152,7 @@ def make_GuMap_subclass(subclass):
             return cls.CONTENTS_HASHTAG(msg).digest()
 
         def verify(self):
+            self.witness.verify()
             self.witness.verify_hash(self.__calc_sealed_hash(self.left, self.right))
     subclass.InnerPrefix = InnerPrefix
 
diff --git a/proofchains/core/uniquebits/singleuseseal.py b/proofchains/core/uniquebits/singleuseseal.py
index c79d98e..2f7eaa0 100644
--- a/proofchains/core/uniquebits/singleuseseal.py
+++ b/proofchains/core/uniquebits/singleuseseal.py
@@ -58,6 +58,10 @@ class FakeSealWitness(SealWitness):
     def from_hash(cls, hash):
         return cls(seal=FakeSingleUseSeal(committed_hash=hash))
 
+    def verify(self):
+        # The seal is the commitment, so there's nothing else to verify.
+        pass
+
     def verify_hash(self, hash):
         assert self.seal.committed_hash == hash
 
-- 
2.43.0


From e800d213127df7669ce9644aefd489e567d3e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 32/56] fix: don't truncate the pointers that OpenSSL returns

On 64-bit systems keys could crash the process; in any thread but the main one
they always did, as its heap is at a higher address.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 6083fa6..347c13f 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -33,8 +33,12 @@ def _check_result (val, func, args):
     else:
         return ctypes.c_void_p(val)
 
-_ssl.EC_KEY_new_by_curve_name.restype = ctypes.c_void_p
-_ssl.EC_KEY_new_by_curve_name.errcheck = _check_result
+# The default return type is int, which truncates pointers.
+for _func in (_ssl.EC_KEY_new_by_curve_name,
+              _ssl.EC_KEY_get0_group, _ssl.EC_KEY_get0_public_key,
+              _ssl.EC_POINT_new, _ssl.BN_CTX_new, _ssl.BN_new, _ssl.BN_bin2bn):
+    _func.restype = ctypes.c_void_p
+    _func.errcheck = _check_result
 
 class CECKey:
     """Wrapper around OpenSSL's EC_KEY"""
-- 
2.43.0


From 46938ba6d4c674f68ad57f784f5daeb4a0fd9970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 33/56] fix: track the dependencies of all threads that use a
 pruned proof

Threads that used the same pruned attribute at once each got another copy of
it, and what was used through all but one of them was then pruned away.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index ef37839..e70ab10 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -12,6 +12,7 @@
 import binascii
 import copy
 import hashlib
+import threading
 
 from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, DeserializationError, HashTag
 
@@ -105,7 +106,19 @@ class Proof(HashingSerializer):
 
         return pruned_self
 
+    # Held while missing attributes are filled in
+    __getattr_lock = threading.RLock()
+
     def __getattr__(self, name):
+        with Proof.__getattr_lock:
+            # Another thread may have been faster. All threads have to use the
+            # same value, or dependencies are tracked for one of them only.
+            try:
+                return object.__getattribute__(self, name)
+            except AttributeError:
+                return self.__getattr_missing(name)
+
+    def __getattr_missing(self, name):
         # Special-case (data)_hash to let it be calculated lazily
         if name == 'data_hash':
             data_hash = self.calc_data_hash()
-- 
2.43.0


From 000a207569380a8cd1edf8705e049fa6d5ed7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 34/56] fix: notice pruned proofs behind a ProofUnion in
 is_pruned

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index e70ab10..8bf4303 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -54,7 +54,7 @@ class Proof(HashingSerializer):
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
 
-            if issubclass(ser_cls, Proof):
+            if isinstance(value, Proof):
                 is_pruned |= value.is_pruned
 
         object.__setattr__(self, 'is_fully_pruned', False)
-- 
2.43.0


From 37b456cfc53319ff89ed5bfc567fe1a78133b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 35/56] fix: don't raise the error of another RPC request

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 2c38c10..794e3d2 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -150,15 +150,17 @@ class RawProxy(object):
                                'params': args,
                                'id': self.__id_count})
         response = self._request(postdata)
-        if response['error'] is not None:
+        # The id is null if the server couldn't make sense of the request
+        if (response.get('id') != self.__id_count
+                and not (response.get('id') is None and response['error'] is not None)):
+            self.__conn.close()
+            raise JSONRPCException({
+                'code': -344, 'message': 'JSON-RPC response to another request'})
+        elif response['error'] is not None:
             raise JSONRPCException(response['error'])
         elif 'result' not in response:
             raise JSONRPCException({
                 'code': -343, 'message': 'missing JSON-RPC result'})
-        elif response.get('id') != self.__id_count:
-            self.__conn.close()
-            raise JSONRPCException({
-                'code': -344, 'message': 'JSON-RPC response to another request'})
         else:
             return response['result']
 
-- 
2.43.0


From f7aac274314d73ac72869b703dc6efac1271668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 36/56] fix: accept any character in the RPC credentials of
 bitcoin.conf

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 794e3d2..399f40c 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -66,6 +66,7 @@ class RawProxy(object):
         Unlike Proxy no conversion is done from the raw JSON objects.
         """
 
+        authpair = None
         if service_url is None:
             # Figure out the path to the bitcoin.conf file
             if btc_conf_file is None:
@@ -100,9 +101,11 @@ class RawProxy(object):
                 else:
                     raise ValueError('Unknown rpcssl value %r' % conf['rpcssl'])
 
-                service_url = ('%s://%s:%s@localhost:%d' %
+                # Not part of the URL, as they may contain any character
+                authpair = "%s:%s" % (conf['rpcuser'], conf['rpcpassword'])
+
+                service_url = ('%s://localhost:%d' %
                     ('https' if conf['rpcssl'] else 'http',
-                     conf['rpcuser'], conf['rpcpassword'],
                      conf['rpcport']))
 
         self.__service_url = service_url
@@ -112,7 +115,8 @@ class RawProxy(object):
         else:
             port = self.__url.port
         self.__id_count = 0
-        authpair = "%s:%s" % (self.__url.username, self.__url.password)
+        if authpair is None:
+            authpair = "%s:%s" % (self.__url.username, self.__url.password)
         authpair = authpair.encode('utf8')
         self.__auth_header = b"Basic " + base64.b64encode(authpair)
 
-- 
2.43.0


From 39421d2160d6e179bc2562cec364c23ba4ceb00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 37/56] fix: connect to the default port of https RPC services

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 399f40c..e534298 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -111,7 +111,7 @@ class RawProxy(object):
         self.__service_url = service_url
         self.__url = urlparse.urlparse(service_url)
         if self.__url.port is None:
-            port = 80
+            port = 443 if self.__url.scheme == 'https' else 80
         else:
             port = self.__url.port
         self.__id_count = 0
-- 
2.43.0


From c4a61b52bd85754c7e38c7407e9eb80a5a070358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:08 +0000
Subject: [PATCH 38/56] fix: list unspent outputs that have no address

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index e534298..73795f7 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -403,7 +403,9 @@ class Proxy(RawProxy):
             del unspent['txid']
             del unspent['vout']
 
-            unspent['address'] = CBitcoinAddress(unspent['address'])
+            # Scripts like bare multisig have no address
+            if 'address' in unspent:
+                unspent['address'] = CBitcoinAddress(unspent['address'])
             unspent['scriptPubKey'] = CScript(unhexlify(unspent['scriptPubKey']))
             unspent['amount'] = int(unspent['amount'] * COIN)
             r2.append(unspent)
-- 
2.43.0


From 29695c19bfc1ffa2d3fcb1fa5adfee42c6eeb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 39/56] fix: read all of a value from unbuffered streams

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 54abd82..b4f5d97 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -77,6 +77,12 @@ def ser_read(f, n):
     if n > MAX_SIZE:
         raise SerializationError('Asked to read 0x%x bytes; MAX_SIZE exceeded')
     r = f.read(n)
+    while 0 < len(r) < n:
+        # Unbuffered streams return what's there, not the end of the stream
+        more = f.read(n - len(r))
+        if not more:
+            break
+        r += more
     if len(r) < n:
         raise SerializationTruncationError('Asked to read %i bytes, but only got %i' % (n, len(r)))
     return r
-- 
2.43.0


From d48c079ccaa59cf0f04b5a09dda3b05f2244c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 40/56] fix: never accept a signature for a malformed public
 key

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 347c13f..f37bb97 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -74,7 +74,14 @@ class CECKey:
 
     def set_pubkey(self, key):
         self.mb = ctypes.create_string_buffer(key)
-        return _ssl.o2i_ECPublicKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
+        valid = _ssl.o2i_ECPublicKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
+        if not valid or _ssl.EC_POINT_is_at_infinity(_ssl.EC_KEY_get0_group(self.k),
+                                                     _ssl.EC_KEY_get0_public_key(self.k)):
+            # Don't keep the point at infinity or a point that isn't on the
+            # curve: anyone can make signatures for them.
+            _ssl.EC_KEY_free(self.k)
+            self.k = _ssl.EC_KEY_new_by_curve_name(_NID_secp256k1)
+        return 1 if valid else 0
 
     def get_privkey(self):
         size = _ssl.i2d_ECPrivateKey(self.k, 0)
-- 
2.43.0


From 915fca66b95eba05bce5bec3c813a42898bbae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 41/56] fix: refuse malformed secret keys

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index f37bb97..1de3fd7 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -16,6 +16,7 @@ WARNING: This module does not mlock() secrets; your private keys may end up on
 disk in swap! Use with caution!
 """
 
+import binascii
 import ctypes
 import ctypes.util
 import hashlib
@@ -26,6 +27,8 @@ _ssl = ctypes.cdll.LoadLibrary(ctypes.util.find_library('ssl') or 'libeay32')
 # this specifies the curve used with ECDSA.
 _NID_secp256k1 = 714 # from openssl/obj_mac.h
 
+_SECP256K1_ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
+
 # Thx to Sam Devlin for the ctypes magic 64-bit fix.
 def _check_result (val, func, args):
     if val == 0:
@@ -55,6 +58,10 @@ class CECKey:
         self.k = None
 
     def set_secretbytes(self, secret):
+        if len(secret) != 32:
+            raise ValueError('Secret must be exactly 32 bytes long')
+        if not 0 < int(binascii.hexlify(secret), 16) < _SECP256K1_ORDER:
+            raise ValueError('Secret is out of range')
         priv_key = _ssl.BN_bin2bn(secret, 32, _ssl.BN_new())
         group = _ssl.EC_KEY_get0_group(self.k)
         pub_key = _ssl.EC_POINT_new(group)
-- 
2.43.0


From a768bbf9de699fb44a0c48a9888cfd8b1342fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 42/56] fix: keep the consensus parameters when mainnet is
 selected

---
 lib/python-bitcoinlib/bitcoin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/__init__.py b/lib/python-bitcoinlib/bitcoin/__init__.py
index de56cd5..4fade2f 100644
--- a/lib/python-bitcoinlib/bitcoin/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/__init__.py
@@ -13,7 +13,7 @@ from __future__ import absolute_import, division, print_function, unicode_litera
 
 import bitcoin.core
 
-class MainParams(bitcoin.core.CoreChainParams):
+class MainParams(bitcoin.core.CoreMainParams):
     MESSAGE_START = b'\xf9\xbe\xb4\xd9'
     DEFAULT_PORT = 8333
     RPC_PORT = 8332
-- 
2.43.0


From 1621df3ae40e302928d252502dd8f3091050967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 43/56] fix: don't compute the public key of a secret twice,
 once unchecked

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 1de3fd7..f0b1aa3 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -68,7 +68,6 @@ class CECKey:
         ctx = _ssl.BN_CTX_new()
         if not _ssl.EC_POINT_mul(group, pub_key, priv_key, None, None, ctx):
             raise ValueError("Could not derive public key from the supplied secret.")
-        _ssl.EC_POINT_mul(group, pub_key, priv_key, None, None, ctx)
         _ssl.EC_KEY_set_private_key(self.k, priv_key)
         _ssl.EC_KEY_set_public_key(self.k, pub_key)
         _ssl.EC_POINT_free(pub_key)
-- 
2.43.0


From da293fcc61a0051e272e333b8743c9875deaa251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 44/56] fix: refuse addresses that aren't 20 bytes long

---
 lib/python-bitcoinlib/bitcoin/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index 9273259..a34d627 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -47,6 +47,9 @@ class CBitcoinAddress(bitcoin.base58.CBase58Data):
         else:
            raise CBitcoinAddressError('Version %d not a recognized Bitcoin Address' % nVersion)
 
+        if len(self) != 20:
+            raise CBitcoinAddressError('Bitcoin addresses are 20 bytes long; got %d bytes' % len(self))
+
         return self
 
     @classmethod
-- 
2.43.0


From 3e677af6f725ed4544bff79cc9145aa90f0e1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 45/56] fix: refuse base58 secrets of the wrong length

---
 lib/python-bitcoinlib/bitcoin/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index a34d627..db7db51 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -244,6 +244,9 @@ class CBitcoinSecret(bitcoin.base58.CBase58Data, CKey):
             raise CBitcoinSecretError('Not a base58-encoded secret key: got nVersion=%d; expected nVersion=%d' % \
                                       (self.nVersion, bitcoin.params.BASE58_PREFIXES['SECRET_KEY']))
 
+        if not (len(self) == 32 or (len(self) == 33 and _bord(self[32]) == 1)):
+            raise CBitcoinSecretError('Not a base58-encoded secret key: wrong length or compression flag')
+
         CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1)
 
 
-- 
2.43.0


From 16476a25fbc0ab30241206b21195d29c61784563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 46/56] fix: don't take the version of base58 data for its
 checksum

---
 lib/python-bitcoinlib/bitcoin/base58.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/base58.py b/lib/python-bitcoinlib/bitcoin/base58.py
index 4253240..1915e8e 100644
--- a/lib/python-bitcoinlib/bitcoin/base58.py
+++ b/lib/python-bitcoinlib/bitcoin/base58.py
@@ -103,6 +103,8 @@ class CBase58Data(bytes):
     """
     def __new__(cls, s):
         k = decode(s)
+        if len(k) < 5:
+            raise Base58ChecksumError('Too short for a version and a checksum: got %d bytes' % len(k))
         verbyte, data, check0 = k[0:1], k[1:-4], k[-4:]
         check1 = bitcoin.core.Hash(verbyte + data)[:4]
         if check0 != check1:
-- 
2.43.0


From 7b2ec165df5596618ca2017eca63a6cec8260e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 47/56] fix: proofs keep their own copies of mutable
 transactions and outpoints

---
 proofchains/core/bitcoin.py                  | 7 +++++++
 proofchains/core/uniquebits/singleuseseal.py | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index f1c9ed0..b94a92c 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -66,6 +66,13 @@ class TxProof(proofmarshal.proof.Proof):
     __slots__ = ['tx']
     SERIALIZED_ATTRS = [('tx', CTransactionSerializer)]
 
+    def __new__(cls, **kwargs):
+        # The original may be changed later, proofs are immutable
+        tx = kwargs['tx']
+        if isinstance(tx, bitcoin.core.CTransaction):
+            kwargs['tx'] = bitcoin.core.CTransaction.from_tx(tx)
+        return super().__new__(cls, **kwargs)
+
     TX_HASH_XOR_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'
 
     def calc_data_hash(self):
diff --git a/proofchains/core/uniquebits/singleuseseal.py b/proofchains/core/uniquebits/singleuseseal.py
index 2f7eaa0..41c9e2f 100644
--- a/proofchains/core/uniquebits/singleuseseal.py
+++ b/proofchains/core/uniquebits/singleuseseal.py
@@ -24,6 +24,8 @@ from proofmarshal.serialize import HashTag
 
 import proofchains.core.bitcoin
 
+import bitcoin.core
+
 from bitcoin.core.script import CScript, OP_RETURN, OP_HASH160, OP_EQUAL, OP_DUP, OP_EQUALVERIFY, OP_CHECKSIG
 from bitcoin.core import Hash160
 
@@ -81,6 +83,13 @@ class BitcoinSingleUseSeal(SingleUseSeal):
 
     HASHTAG = HashTag('b59093bf-527f-4d2a-9a51-3c2e3d2f0c25')
 
+    def __new__(cls, **kwargs):
+        # The original may be changed later, proofs are immutable
+        outpoint = kwargs['outpoint']
+        if isinstance(outpoint, bitcoin.core.COutPoint):
+            kwargs['outpoint'] = bitcoin.core.COutPoint.from_outpoint(outpoint)
+        return super().__new__(cls, **kwargs)
+
 
 class BitcoinSealWitness(SingleUseSeal):
     """Witness to the use of a BitcoinSingleUseSeal"""
-- 
2.43.0


From 2004a171fd2ded854932dac3d69872e5516f65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 48/56] fix: refuse bits of the wrong type

---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 8a238ef..e0c88bf 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -295,7 +295,8 @@ class Bits:
 class BitsSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, instance):
-        return instance.__class__ is Bits
+        if instance.__class__ is not Bits:
+            raise proofmarshal.serialize.SerializerTypeError('Expected Bits; got %r' % instance.__class__)
 
     @classmethod
     def ctx_serialize(cls, value, ctx):
-- 
2.43.0


From 228cbbe6c6f61b4a93003c6c99f23f8402678d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 49/56] fix: refuse proofs of the wrong class as parts of
 proofs

---
 lib/python-proofmarshal/proofmarshal/proof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 8bf4303..bc4baf4 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -68,7 +68,8 @@ class Proof(HashingSerializer):
 
         Raises SerializerTypeError if not
         """
-        # FIXME
+        if not isinstance(instance, cls):
+            raise SerializerTypeError('Expected %r; got %r' % (cls, instance.__class__))
 
     def __eq__(self, other):
         if isinstance(other, Proof):
-- 
2.43.0


From 9e637b6dc7c8e62fc6f8d1c547d22a20eea2671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 50/56] fix: a proof is not fully pruned any more before others
 see its parts

Another thread could use an attribute that was just filled in and serialize
the proof before is_fully_pruned was cleared, which forgot that attribute.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index bc4baf4..5150b1f 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -153,13 +153,16 @@ class Proof(HashingSerializer):
             if isinstance(value, Proof):
                 value = value.prune()
 
-            # For efficiency, we can now add that value to self to avoid going
-            # through this process over again.
-            object.__setattr__(self, name, value)
-
             # We succesfully brought something back into view, which means this
             # instance must not be fully pruned.
+            #
+            # Note how this is done first: as soon as the value is there other
+            # threads can use it, and may serialize us.
             object.__setattr__(self, 'is_fully_pruned', False)
+
+            # For efficiency, we can now add that value to self to avoid going
+            # through this process over again.
+            object.__setattr__(self, name, value)
             return value
 
     def calc_data_hash(self):
-- 
2.43.0


From db69dbd1e8220a9abc9559982fe3dc6c00bfa668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 51/56] fix: one set of script verification flags

bitcoin.core.script and bitcoin.core.scripteval had flags of the same names
that weren't the same objects: with those of bitcoin.core.script,
VerifyScript() silently didn't evaluate P2SH redeem scripts.
---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0e7fa44..805df9e 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -39,11 +39,6 @@ from bitcoin.core.script import *
 MAX_NUM_SIZE = 4
 MAX_STACK_ITEMS = 1000
 
-SCRIPT_VERIFY_P2SH = object()
-SCRIPT_VERIFY_STRICTENC = object()
-SCRIPT_VERIFY_EVEN_S = object()
-SCRIPT_VERIFY_NOCACHE = object()
-
 class EvalScriptError(bitcoin.core.ValidationError):
     """Base class for exceptions raised when a script fails during EvalScript()
 
-- 
2.43.0


From 4948870064e56c8c7f52c7af2b069aed2e836086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 52/56] fix: false is an empty stack item

As in Bitcoin Core, where OP_SIZE and OP_EQUAL can tell the difference.
---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 805df9e..87cdbfc 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -194,7 +194,7 @@ def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
         if success:
             stack.append(b"\x01")
         else:
-            stack.append(b"\x00")
+            stack.append(b"")
 
 
 # OP_2MUL and OP_2DIV are *not* included in this list as they are disabled
@@ -479,7 +479,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                         if sop != OP_CHECKSIGVERIFY:
                             stack.append(b"\x01")
                     else:
-                        stack.append(b"\x00")
+                        stack.append(b"")
 
             elif sop == OP_CODESEPARATOR:
                 pbegincodehash = sop_pc
@@ -515,7 +515,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v1 == v2:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             elif sop == OP_EQUALVERIFY:
                 check_args(2)
@@ -652,7 +652,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             else:
                 err_raiser(EvalScriptError, 'unsupported opcode 0x%x' % sop)
-- 
2.43.0


From a58255e51d15ae7cc9cecf6799b1677c1fed3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 53/56] fix: pushes count for the stack size limit too

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 87cdbfc..0582e1b 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -389,7 +389,6 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif fExec:
                 stack.append(sop_data)
-                continue
 
         elif fExec or (OP_IF <= sop <= OP_ENDIF):
 
-- 
2.43.0


From f0891a5ab60a4f79353394d4ceaa9e20e0922da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 54/56] fix: deserialize bloom filters

stream_deserialize() used names that don't exist, and filters that were
loaded couldn't be extended.
---
 lib/python-bitcoinlib/bitcoin/bloom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 8f76cbd..c08482e 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -166,11 +166,11 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
     __struct = struct.Struct(b'<IIB')
     @classmethod
     def stream_deserialize(cls, f):
-        vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)
+        vData = bytearray(bitcoin.core.serialize.BytesSerializer.stream_deserialize(f))
         (nHashFuncs,
          nTweak,
-         nFlags) = self.__struct.unpack(_ser_read(f, self.__struct.size))
-        self = cls()
+         nFlags) = cls.__struct.unpack(bitcoin.core.serialize.ser_read(f, cls.__struct.size))
+        self = cls.__new__(cls)
         self.vData = vData
         self.nHashFuncs = nHashFuncs
         self.nTweak = nTweak
-- 
2.43.0


From af61b55b5244ebe86e5f713e90a008c5e1ce7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 55/56] fix: no division by zero for bloom filters without data

A peer may send those (CVE-2013-5700).
---
 lib/python-bitcoinlib/bitcoin/bloom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index c08482e..e3ab7b0 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -131,7 +131,8 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
-        if len(self.vData) == 1 and self.vData[0] == 0xff:
+        # As in Bitcoin Core filters without any data match everything
+        if not self.vData or (len(self.vData) == 1 and self.vData[0] == 0xff):
             return
 
         for i in range(0, self.nHashFuncs):
@@ -147,7 +148,7 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
-        if len(self.vData) == 1 and self.vData[0] == 0xff:
+        if not self.vData or (len(self.vData) == 1 and self.vData[0] == 0xff):
             return True
 
         for i in range(0, self.nHashFuncs):
-- 
2.43.0


From 84d8cf8d76bd58008cc35802cdd036af16f71d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:30 +0000
Subject: [PATCH 56/56] fix: write and read all of a value on unbuffered
 streams of proofs

---
 .../proofmarshal/serialize.py                 | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 5fd3f54..d37d68b 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -141,13 +141,20 @@ class StreamSerializationContext(SerializationContext):
         """Serialize to a stream"""
         self.fd = fd
 
+    def fd_write(self, b):
+        n = self.fd.write(b)
+        while n is not None and n < len(b):
+            # Unbuffered streams may write less than they are given
+            b = b[n:]
+            n = self.fd.write(b)
+
     def write_bool(self, value):
         # unsigned little-endian base128 format (LEB128)
         if value is True:
-            self.fd.write(b'\xff')
+            self.fd_write(b'\xff')
 
         elif value is False:
-            self.fd.write(b'\x00')
+            self.fd_write(b'\x00')
 
         else:
             raise TypeError('Expected bool; got %r' % value.__class__)
@@ -155,20 +162,20 @@ class StreamSerializationContext(SerializationContext):
     def write_varuint(self, value):
         # unsigned little-endian base128 format (LEB128)
         if value == 0:
-            self.fd.write(b'\x00')
+            self.fd_write(b'\x00')
 
         else:
             while value != 0:
                 b = value & 0b01111111
                 if value > 0b01111111:
                     b |= 0b10000000
-                self.fd.write(bytes([b]))
+                self.fd_write(bytes([b]))
                 if value <= 0b01111111:
                     break
                 value >>= 7
 
     def write_bytes(self, value):
-        self.fd.write(value)
+        self.fd_write(value)
 
     def write_obj(self, value, serialization_class=None):
         if serialization_class is None:
@@ -182,6 +189,12 @@ class StreamDeserializationContext(DeserializationContext):
 
     def fd_read(self, l):
         r = self.fd.read(l)
+        while 0 < len(r) < l:
+            # Unbuffered streams return what's there, not the end of the stream
+            more = self.fd.read(l - len(r))
+            if not more:
+                break
+            r += more
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
                                   (l, len(r)))
-- 
2.43.0

