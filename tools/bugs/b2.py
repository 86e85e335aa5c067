import glob
BL = 'lib/python-bitcoinlib/bitcoin/'
_T = {}
for _f in sorted(glob.glob('tools/bugs/t*.py')):
    _ns = {}
    exec(open(_f).read(), _ns)
    for _i, _p, _e in _ns['TRIALS']:
        _T[_i] = _e


def T(i):
    return [(f.replace('bitcoin/', BL, 1) if f.startswith('bitcoin/') else f, a, b) for f, a, b in _T[i]]


NODE = '''
import http.server, json, threading, time, sys
import bitcoin, bitcoin.rpc
from bitcoin.core import *

class H(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'
    def do_POST(self):
        req = json.loads(self.rfile.read(int(self.headers['Content-Length'])).decode())
        b = answer(req).encode()
        self.send_response(200)
        self.send_header('Content-Length', str(len(b)))
        self.end_headers()
        self.wfile.write(b)
    def log_message(self, *a):
        pass

def serve():
    s = http.server.HTTPServer(('127.0.0.1', 0), H)
    t = threading.Thread(target=s.serve_forever)
    t.daemon = True
    t.start()
    return 'http://u:p@127.0.0.1:%d' % s.server_port
'''
SCRIPT = '''
from bitcoin.core import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
from bitcoin.core.script import SCRIPT_VERIFY_P2SH
from bitcoin.core.key import *
import bitcoin.wallet, hashlib

def tx(n_in=2, n_out=2):
    return CTransaction([CTxIn(COutPoint(b'%c' % (65 + i) * 32, i), nSequence=i) for i in range(n_in)], [CTxOut(i, CScript([OP_1])) for i in range(n_out)])

def ok(sig, spk, t=None, i=0):
    try:
        VerifyScript(CScript(sig), CScript(spk), t or tx(), i, (SCRIPT_VERIFY_P2SH,))
        return True
    except ValidationError:
        return False

def secret(n):
    return bitcoin.wallet.CKey(hashlib.sha256(b'%d' % n).digest())
'''
BUGS = [
    dict(id='c06-sides-unordered', prop='C06', edits=T('g-inner-left-left'),
         demo='''
from bitcoin.core import *
from proofchains.core.bitcoin import *
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
from proofmarshal.serialize import *
from proofmarshal.bits import Bits

@make_GuMap_subclass
class Map(GuMap):
    HASHTAG = HashTag('1b26a2ae-5c9b-4e0a-9a3c-6a4a8d2a7c11')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Digest
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)

def seal(n):
    return BitcoinSingleUseSeal(outpoint=COutPoint(b'%c' % n * 32, n), nonce=b'%c' % n * 16)

def make(spent):
    def f(seal, digest):
        t = TxProof(tx=CTransaction([CTxIn(spent)], [CTxOut(0, CScript([OP_RETURN, digest]))]))
        return BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=t), txoutproof=TxOutProof(i=0, txproof=t))
    return f

from bitcoin.core.script import *
a = Map.UnusedPrefix(prefix=Bits([]), seal=seal(1))
l = Map.UnusedPrefix(prefix=Bits([False]), seal=seal(2))
r = Map.UnusedPrefix(prefix=Bits([True]), seal=seal(3))
good = Map.InnerPrefix.from_unused_prefix(a, l, r, make(a.seal.outpoint))
good.verify()
bad = Map.InnerPrefix(prefix=a.prefix, witness=good.witness, left=r, right=l)
try:
    bad.verify()
except Exception:
    pass
else:
    raise SystemExit('accepted')
''', needs='an inner node whose children were exchanged after its seal was closed', breaks='Which half is which is not committed to: two maps that differ there both verify.'),
    dict(id='r03-conf-password-equals', prop='R03', edits=T('r-conf-split'),
         demo='''
import bitcoin.rpc, tempfile, os, http.client, base64
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 'bitcoin.conf')
    with open(fn, 'w') as f:
        f.write('rpcuser=joe\\nrpcpassword=Zm9v=x==\\nrpcport=1\\n')
    got = []
    class C:
        def __init__(self, *a, **k):
            pass
        def request(self, method, path, body, headers):
            got.append(headers['Authorization'])
            raise OSError
        def close(self):
            pass
    http.client.HTTPConnection = C
    try:
        p = bitcoin.rpc.Proxy(btc_conf_file=fn)
        p._call('getinfo')
    except OSError:
        pass
    want = 'Basic ' + base64.b64encode(b'joe:Zm9v=x==').decode()
    assert [x if isinstance(x, str) else x.decode() for x in got] == [want], got
finally:
    import shutil
    shutil.rmtree(d)
''', needs='a password in bitcoin.conf that contains an equals sign', breaks='The client presents another password than the node has.'),
    dict(id='r01-id-wraps', prop='R01', edits=T('r-id-const'),
         demo=NODE + '''
first = []
def answer(req):
    # an answer that took very long to arrive is handed out again
    first.append(json.dumps({'result': req['params'][0], 'error': None, 'id': req['id']}))
    return first[0] if len(first) > 1 and len(first) % 8 == 1 else first[-1]
p = bitcoin.rpc.Proxy(serve(), timeout=20)
for i in range(30):
    try:
        r = p._call('echo', i)
    except Exception:
        continue
    assert r == i, (r, i)
''', needs='an answer that arrives again eight calls later', breaks='A call returns the result of an earlier one.'),
    dict(id='r04-balance-float', prop='R04', edits=T('r-balance-round'),
         demo=NODE + '''
def answer(req):
    return '{"result": 0.29000000, "error": null, "id": %s}' % json.dumps(req['id'])
p = bitcoin.rpc.Proxy(serve(), timeout=20)
assert p.getbalance() == 29000000, p.getbalance()
''', needs='an amount whose binary fraction lies just below it', breaks='A balance is one satoshi too small.'),
    dict(id='r04-lock-output-number', prop='R04', edits=T('r-lock'),
         demo=NODE + '''
seen = []
def answer(req):
    seen.append(req['params'])
    return json.dumps({'result': True, 'error': None, 'id': req['id']})
p = bitcoin.rpc.Proxy(serve(), timeout=20)
p.lockunspent(False, [COutPoint(b'\\x07' * 32, 300)])
assert seen[0][1] == [{'txid': '07' * 32, 'vout': 300}], seen
''', needs='an output number above 255', breaks='Another output is locked than asked for.'),
    dict(id='w01-unknown-body-left', prop='W01', edits=[(BL + 'messages.py', '        # read message body\n        recvbuf += ser_read(f, msglen)\n', '        if command not in messagemap:\n            return None\n\n        # read message body\n        recvbuf += f.read(msglen) if msglen == 0 else ser_read(f, msglen)\n')],
         demo='''
import io, struct, bitcoin
from bitcoin.core import Hash
from bitcoin.messages import *
body = b'\\x01' * 30
raw = bitcoin.params.MESSAGE_START + b'strange'.ljust(12, b'\\0') + struct.pack('<I', len(body)) + Hash(body)[:4] + body
f = io.BytesIO(raw + msg_ping(nonce=7).to_bytes())
assert MsgSerializable.stream_deserialize(f) is None
m = MsgSerializable.stream_deserialize(f)
assert m.command == b'ping' and m.nonce == 7
''', needs='an unknown command followed by another message on the same stream', breaks='The stream loses its place: the next message is not read.'),
    dict(id='w02-version-106', prop='W02', edits=T('w-version-106'),
         demo='''
from bitcoin.messages import *
from bitcoin.net import *
import io
m = msg_version()
m.nVersion = 106
m.addrTo = m.addrFrom = CAddress(106)
m.nNonce = 77
m.strSubVer = b'/x/'
m.nStartingHeight = -1
f = io.BytesIO()
m.msg_ser(f)
m2 = msg_version.msg_deser(io.BytesIO(f.getvalue()))
assert m2.nNonce == 77 and m2.strSubVer == b'/x/', (m2.nNonce, m2.strSubVer)
''', needs='a peer of protocol version 106', breaks='Its version message loses what follows the first address.'),
    dict(id='v01-time-only-forward', prop='V01', edits=T('v-time-once'),
         demo='''
import time
real = time.time
from bitcoin.core import *
import bitcoin
now = int(real())
h = CBlockHeader(2, b'\\0' * 32, b'\\1' * 32, now + 3600, 0x207fffff, 0)
time.time = lambda: now - 86400
try:
    CheckBlockHeader(h, False)
except CheckBlockHeaderError:
    pass
else:
    raise SystemExit('accepted')
''', needs='a clock that is set back after the process was started', breaks='A block from the far future is accepted.'),
    dict(id='v02-duplicate-input-apart', prop='V02', edits=T('v-dup-inputs'),
         demo='''
from bitcoin.core import *
def t(*ns):
    return CTransaction([CTxIn(COutPoint(b'\\1' * 32, n)) for n in ns], [CTxOut(1)])
CheckTransaction(t(0, 1, 2))
for bad in (t(0, 0), t(0, 1, 0), t(1, 0, 2, 1)):
    try:
        CheckTransaction(bad)
    except CheckTransactionError:
        continue
    raise SystemExit('accepted')
''', needs='the same outpoint twice with another one in between', breaks='A transaction that spends an output twice is accepted.'),
    dict(id='v02-sigops-first-input', prop='V02', edits=T('v-sigops-sig'),
         demo='''
from bitcoin.core import *
from bitcoin.core.script import *
s = CScript(bytes([OP_CHECKSIG]))
a = CTransaction([CTxIn(COutPoint(b'\\1' * 32, n), s) for n in range(3)], [CTxOut(1, s)])
assert GetLegacySigOpCount(a) == 4
''', needs='signature operations in the unlocking script of another than the first input', breaks='Blocks with too many signature operations pass.'),
    dict(id='t01-shared-output', prop='T01', edits=T('t-from-txout'),
         demo='''
from bitcoin.core import *
a = CMutableTransaction([], [CMutableTxOut(5)])
b = CMutableTransaction.from_tx(a)
before = a.GetHash()
b.vout[0].nValue = 6
assert a.GetHash() == before and a.vout[0].nValue == 5
''', needs='a mutable copy of a mutable transaction, changed afterwards', breaks='Changing the copy changes the original.'),
    dict(id='k01-signature-tail', prop='K01', edits=T('k-sig-pad'),
         demo='''
import hashlib
from bitcoin.core.key import *
import bitcoin.wallet
k = bitcoin.wallet.CKey(b'\\x03' * 32)
for i in range(3000):
    h = hashlib.sha256(b'%d' % i).digest()
    s = k.sign(h)
    assert k.pub.verify(h, s), i
''', needs='a signature whose last byte is zero (one of 256)', breaks='A signature that a key made does not verify.'),
    dict(id='a01-network-at-import', prop='A01', edits=T('a-params-cached'),
         demo='''
import bitcoin, bitcoin.wallet
from bitcoin.core.script import *
s = CScript(bytes([OP_HASH160, 20]) + b'\\5' * 20 + bytes([OP_EQUAL]))
bitcoin.SelectParams('testnet')
a = str(bitcoin.wallet.CBitcoinAddress.from_scriptPubKey(s))
assert bitcoin.wallet.CBitcoinAddress(a).to_scriptPubKey() == s
bitcoin.SelectParams('mainnet')
try:
    bitcoin.wallet.CBitcoinAddress(a)
except bitcoin.wallet.CBitcoinAddressError:
    pass
else:
    raise SystemExit('accepted on mainnet')
''', needs='a network that is selected after the import, and a script hash address made of a script', breaks='The address belongs to another network than the selected one.'),
    dict(id='m07-tuple-in-mutable', prop='M07', edits=T('t-from-tx-isinstance'),
         demo='''
from bitcoin.core import *
from proofchains.core.bitcoin import *
m = CMutableTransaction([CMutableTxIn(COutPoint(b'\\1' * 32, 0))], [CMutableTxOut(1)])
m.vin = tuple(m.vin)
p = TxProof(tx=m)
b = p.serialize()
h = p.hash
m.nLockTime = 77
assert p.serialize() == b and p.hash == h and TxProof.deserialize(p.serialize()).hash == h
''', needs='a proof made of a mutable transaction whose inputs are a tuple, which is changed afterwards', breaks='The proof changes after its hash was taken.'),
    dict(id='s01-findanddelete-first', prop='S01', edits=T('s-find-skip'),
         demo=SCRIPT + '''
assert FindAndDelete(CScript([OP_CODESEPARATOR, OP_1, OP_CODESEPARATOR, OP_2]), CScript([OP_CODESEPARATOR])) == CScript([OP_1, OP_2])
assert FindAndDelete(CScript([OP_1, OP_CODESEPARATOR, OP_CODESEPARATOR]), CScript([OP_CODESEPARATOR])) == CScript([OP_1])
''', needs='a separator after the beginning of the signed script', breaks='The signature commits to another script.'),
    dict(id='s01-none-sequence', prop='S01', edits=T('s-hash-none-seq'),
         demo=SCRIPT + '''
a = tx(3)
h = SignatureHash(CScript([OP_1]), a, 2, SIGHASH_NONE)
b = CMutableTransaction.from_tx(a)
b.vin[0].nSequence = 77
assert SignatureHash(CScript([OP_1]), b, 2, SIGHASH_NONE) == h
''', needs='a signature of type NONE of another than the first input', breaks='The signature covers the sequence numbers of inputs before it.'),
    dict(id='s01-signature-cache', prop='S01', edits=T('s-sig-cache'),
         demo=SCRIPT + '''
k = secret(1)
spk = CScript([k.pub, OP_CHECKSIG])
a = tx()
sig = k.sign(SignatureHash(spk, a, 0, SIGHASH_ALL)) + b'\\x01'
assert ok([sig], spk, a)
b = CMutableTransaction.from_tx(a)
b.vout[0].nValue = 10 ** 8
assert not ok([sig], spk, b)
''', needs='a signature that verified before and is seen again in another transaction', breaks='A signature moved to another transaction is accepted.'),
    dict(id='s01-same-signature-twice', prop='S01', edits=T('s-multisig-dup'),
         demo=SCRIPT + '''
ks = [secret(i) for i in range(3)]
spk = CScript([OP_2] + [k.pub for k in ks] + [OP_3, OP_CHECKMULTISIG])
a = tx()
h = SignatureHash(spk, a, 0, SIGHASH_ALL)
sigs = [k.sign(h) + b'\\x01' for k in ks]
assert ok([OP_0, sigs[0], sigs[2]], spk, a)
assert not ok([OP_0, sigs[1], sigs[1]], spk, a)
''', needs='one signature given twice for two of three', breaks='One of the keys is enough where two are required.'),
    dict(id='s01-negative-zero', prop='S01', edits=T('s-castbool'),
         demo=SCRIPT + '''
assert ok([b'\\x80\\x01'], [OP_VERIFY, OP_1])
assert not ok([b'\\x00\\x80'], [OP_VERIFY, OP_1])
''', needs='a value with 0x80 before its last byte', breaks='A true value counts as false.'),
    dict(id='b01-outpoint-hash-only', prop='B01', edits=T('b-insert-op'),
         demo='''
from bitcoin.core import *
from bitcoin.bloom import *
for i in range(50):
    f = CBloomFilter(10, 1e-6, i, 0)
    o = COutPoint(b'%c' % i * 32, 5)
    f.insert(o)
    assert f.contains(o) and f.contains(o.serialize())
''', needs='an outpoint inserted as such', breaks='A match is lost.'),
    dict(id='b01-index-cache', prop='B01', edits=T('b-index-cache'),
         demo='''
from bitcoin.bloom import *
a = CBloomFilter(100, 0.001, 0, 0)
b = CBloomFilter(10, 0.001, 0, 0)
for i in range(20):
    x = b'%d' % i
    a.insert(x)
    b.insert(x)
    assert CBloomFilter.deserialize(b.serialize()).contains(x)
''', needs='two filters of different sizes with the same tweak', breaks='Bits are set where no other program looks (or out of range).'),
]
