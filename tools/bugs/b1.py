PM = 'lib/python-proofmarshal/proofmarshal/'
CELLS = '''
import proofmarshal.proof as P, proofmarshal.serialize as S
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.bits import Bits
import hashlib

@make_MerbinnerTree_subclass
class Map(MerbinnerTree):
    HASHTAG = S.HashTag('486a3b9f-e751-4709-957c-66c2f8bfea5c')
    KEY_SERIALIZER = S.Digest
    VALUE_SERIALIZER = S.UInt64
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)

@make_mmr_subclass
class List(MerkleMountainRange):
    HASHTAG = S.HashTag('15b1f0b9-6c4b-4c6f-b37e-6d23d4a5e9a0')
    VALUE_SERIALIZER = S.UInt64

def key(n):
    return hashlib.sha256(b'%d' % n).digest()
'''
SEAL = '''
from bitcoin.core import *
from bitcoin.core.script import *
from proofchains.core.bitcoin import *
from proofchains.core.uniquebits.singleuseseal import *
import os

def witness(seal, tx, i=0, o=0, tx2=None):
    t = TxProof(tx=tx)
    return BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=i, txproof=t), txoutproof=TxOutProof(i=o, txproof=TxProof(tx=tx2) if tx2 else t))

def accepts(w, digest):
    w = BitcoinSealWitness.deserialize(w.serialize())
    try:
        w.verify()
        w.verify_hash(digest)
    except Exception:
        return False
    return True

op = COutPoint(b'\\x11' * 32, 3)
seal = BitcoinSingleUseSeal(outpoint=op, nonce=b'\\x22' * 16)
A, B = b'\\xaa' * 32, b'\\xbb' * 32
'''
BUGS = [
    dict(id='m01-pruned-leaf-keyerror', prop='M01',
         edits=[(PM + 'merbinnertree.py', '''                return closest_node.value
        except AttributeError:
            pass''', '''                return closest_node.value
        except (AttributeError, proofmarshal.proof.PrunedError):
            pass''')],
         demo=CELLS + '''
m = Map((key(i), i) for i in range(9))
view = m.prune()
view[key(3)]
m2 = Map.deserialize(view.serialize())
assert m2[key(3)] == 3
for i in range(9):
    try:
        assert m2[key(i)] == i
    except P.PrunedError:
        pass
''',
         needs='a lookup of a key that exists in the original but whose leaf was pruned away, after the view was stored and loaded',
         breaks='The pruned key is reported as not in the map (a proof of non-existence) instead of as pruned.'),
    dict(id='m02-equal-data-hash', prop='M02',
         edits=[(PM + 'proof.py', 'return self.hash == other.hash', 'return self.data_hash == other.data_hash')],
         demo=CELLS + '''
view = Map((key(i), i) for i in range(5)).prune()
b = bytearray(view.serialize())
assert b[:1] == b'\\xff' and b[1] == 2
good = Map.deserialize(bytes(b))
b[1] = 1
bad = Map.deserialize(bytes(b))
assert good.hash != bad.hash and good != bad
''',
         needs='an adversary that changes the variant number of a pruned part; its data hash stays the same',
         breaks='Proofs with different hashes compare equal, so a tampered proof passes for the trusted one.'),
    dict(id='m03-long-common-prefix', prop='M03',
         edits=[(PM + 'bits.py', 'for i in range(lhs.__length // 8):', 'for i in range(min(lhs.__length // 8, 16)):')],
         demo=CELLS + '''
ks = [b'\\x07' * 20 + bytes([i]) * 12 for i in (0, 1, 2, 0x80, 0x81, 0xff)]
m = Map((k, i) for i, k in enumerate(ks))
assert len(m) == len(ks) and sorted(m) == sorted(ks)
for i, k in enumerate(ks):
    assert m[k] == i
''',
         needs='keys that have the first 16 bytes in common and differ later',
         breaks='The prefixes of inner nodes are wrong, so entries get lost or errors are raised.'),
    dict(id='m04-slice-join-perfect', prop='M04',
         edits=[(PM + 'mmr.py', '''                        r = r.extend(self.right[0:stop - offset:step])
''', '''                        rest = self.right[0:stop - offset:step]
                        if start == 0 and r.is_perfect_tree() and len(r) > len(rest):
                            # Nothing to merge, so simply put them side by side
                            r = self.InnerNodeClass(r, rest)
                        else:
                            r = r.extend(rest)
''')],
         demo=CELLS + '''
for n in range(20):
    l = List(range(n))
    for stop in range(n + 1):
        assert l[:stop] == List(range(stop)), (n, stop)
        assert l[:stop].append(77) == List(list(range(stop)) + [77])
''',
         needs='a slice from the start that ends inside of the right part such that three or more mountains remain',
         breaks='The slice has another shape and root than the list of the same items.'),
    dict(id='m05-publish-before-prune', prop='M05',
         edits=[(PM + 'proof.py', '''            value = getattr(self.__orig_instance, name)

            # If the value''', '''            object.__setattr__(self, name, getattr(self.__orig_instance, name))
            value = self.__getattribute__(name)

            # If the value''')],
         demo='''
import threading
import proofmarshal.proof as P, proofmarshal.serialize as S

class Leaf(P.Proof):
    HASHTAG = S.HashTag('486a3b9f-e751-4709-957c-66c2f8bfea51')
    SERIALIZED_ATTRS = [('x', S.UInt8), ('y', S.UInt8)]
    __slots__ = ['x', 'y']
    hook = None
    def prune(self):
        hook, Leaf.hook = Leaf.hook, None
        if hook:
            hook()
        return super().prune()

class Top(P.Proof):
    HASHTAG = S.HashTag('486a3b9f-e751-4709-957c-66c2f8bfea52')
    SERIALIZED_ATTRS = [('leaf', Leaf)]
    __slots__ = ['leaf']

view = Top(leaf=Leaf(x=1, y=2)).prune()
threads = []
def other():
    # meanwhile another thread looks at the same attribute
    t = threading.Thread(target=lambda: view.leaf.y)
    threads.append(t)
    t.start()
    t.join(2)
Leaf.hook = other
view.leaf
threads[0].join()
loaded = Top.deserialize(view.serialize())
assert loaded.leaf.y == 2
''',
         needs='a second thread that reads the same attribute between the two assignments of the first',
         breaks='The second thread gets the untracked original, so what it looks up is missing from the stored proof.'),
    dict(id='m06-uint-wraps', prop='M06',
         edits=[(PM + 'serialize.py', '''        if not (0 <= r <= cls.MAX_INT):
            raise DeserializationError('Deserialized''', '''        if not (0 <= r <= cls.MAX_INT) and r.bit_length() > 64:
            raise DeserializationError('Deserialized''')],
         demo=CELLS + '''
for cls in (S.UInt8, S.UInt16, S.UInt32, S.UInt64):
    ctx = S.BytesSerializationContext()
    ctx.write_varuint(cls.MAX_INT + 1)
    try:
        cls.deserialize(ctx.getbytes())
    except S.DeserializationError:
        pass
    else:
        raise SystemExit('%s accepts %d' % (cls, cls.MAX_INT + 1))
''',
         needs='stored bytes that hold an integer above the limit of its type but below 2**64',
         breaks='Values that cannot be encoded are loaded.'),
    dict(id='c01-two-versions', prop='C01',
         edits=[('proofchains/core/uniquebits/singleuseseal.py', 'assert self.txinproof.txproof == self.txoutproof.txproof',
                 'assert self.txinproof.txproof.tx.vin == self.txoutproof.txproof.tx.vin')],
         demo=SEAL + '''
def tx(d):
    return CTransaction([CTxIn(op)], [CTxOut(0, CScript([OP_RETURN, d]))])
assert accepts(witness(seal, tx(A)), A)
assert not accepts(witness(seal, tx(A), tx2=tx(B)), B)
''',
         needs='an adversary that combines the confirmed closing transaction with an unconfirmed one with the same inputs',
         breaks='One seal can be closed over any number of digests.'),
    dict(id='c01-op-return-any-push', prop='C01', props=['C01', 'C02'],
         edits=[('proofchains/core/uniquebits/singleuseseal.py', 'assert (actual_scriptPubKey == CScript([OP_RETURN, hash]) or',
                 'assert ((actual_scriptPubKey[:1] == bytes([OP_RETURN]) and hash in list(actual_scriptPubKey)) or')],
         demo=SEAL + '''
def tx(*ds):
    return CTransaction([CTxIn(op)], [CTxOut(0, CScript([OP_RETURN] + list(ds)))])
assert accepts(witness(seal, tx(A)), A)
w = witness(seal, tx(A, B))
assert not (accepts(w, A) and accepts(w, B))
''',
         needs='a confirmed transaction whose first output pushes several digests after OP_RETURN',
         breaks='One seal is closed over several digests by one transaction.'),
    dict(id='c02-index-wraps', prop='C02',
         edits=[('proofchains/core/bitcoin.py', 'return self.txproof.tx.vin[self.i]', 'return self.txproof.tx.vin[self.i % len(self.txproof.tx.vin)]')],
         demo=SEAL + '''
tx = CTransaction([CTxIn(op), CTxIn(COutPoint(b'\\x33' * 32, 0))], [CTxOut(0, CScript([OP_RETURN, A]))])
assert accepts(witness(seal, tx), A)
assert not accepts(witness(seal, tx, i=2), A)
''',
         needs='a witness whose input index is past the end of the inputs of its transaction',
         breaks='A witness that shows an input that does not exist is accepted.'),
    dict(id='c03-witness-write-unnoticed', prop='C03',
         edits=[('sus-tool.py', '''        with open(seal_fd.name + '.witness', 'xb') as witness_fd:
            witness_fd.write(witness.serialize())''', '''        witness_fd = open(seal_fd.name + '.witness', 'xb')
        witness_fd.write(witness.serialize())''')],
         demo='''
import os, resource, subprocess, sys, tempfile, shutil
from bitcoin.core import *
from bitcoin.core.script import *
from proofchains.core.uniquebits.singleuseseal import *
d = tempfile.mkdtemp()
try:
    op = COutPoint(b'\\x11' * 32, 3)
    open(d + '/s', 'wb').write(BitcoinSingleUseSeal(outpoint=op, nonce=b'\\x22' * 16).serialize())
    tx = CTransaction([CTxIn(op)], [CTxOut(0, CScript([OP_RETURN, b'\\xaa' * 32]))])
    import signal
    def limit():
        # a disk that is full after 100 bytes
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (100, 100))
    p = subprocess.run([sys.executable, os.getcwd() + '/sus-tool.py', 'mkwitness', '--tx', b2x(tx.serialize()), 's'], cwd=d, preexec_fn=limit,
                       stderr=subprocess.DEVNULL)
    assert p.returncode != 0, 'exit status 0 for a witness that could not be written'
    os.path.exists(d + '/s.witness') and os.unlink(d + '/s.witness')
    p = subprocess.run([sys.executable, os.getcwd() + '/sus-tool.py', 'mkwitness', '--tx', b2x(tx.serialize()), 's'], cwd=d)
    assert p.returncode == 0
finally:
    shutil.rmtree(d)
''',
         needs='a disk that is full when the witness is written out at the end',
         breaks='mkwitness exits with 0 although the witness file is incomplete.'),
    0 and dict(id='m06-bool-lenient', prop='M06',
         edits=[(PM + 'serialize.py', '''        if b == 0xff:
            return True

        elif b == 0x00:
            return False
''', '''        if b == 0xff or b == 0x01:
            return True

        elif b == 0x00:
            return False
''')],
         demo=CELLS + '''
try:
    S.SerBool.deserialize(b'\\x01')
except S.DeserializationError:
    pass
else:
    raise SystemExit('two encodings of True')
''',
         needs='a stored bool damaged from 0xff to 0x01',
         breaks='Two different byte strings load as equal values.'),
]
BUGS = [b for b in BUGS if b]
