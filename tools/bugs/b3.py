"""Planted bugs that no t*.py has"""
BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'

TOOL = '''
import http.server, json, os, shutil, subprocess, sys, tempfile, threading
from bitcoin.core import *
from bitcoin.core.script import *
from proofchains.core.bitcoin import *
from proofchains.core.uniquebits.singleuseseal import *

TOOL = os.getcwd() + '/sus-tool.py'
D = tempfile.mkdtemp()
ENV = dict(os.environ, HOME=D)

def tool(*args):
    p = subprocess.Popen([sys.executable, TOOL] + list(args), cwd=D, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out, err = p.communicate()
    return p.returncode, out

def read(fn):
    with open(os.path.join(D, fn), 'rb') as fd:
        return fd.read()

def write(fn, b):
    with open(os.path.join(D, fn), 'wb') as fd:
        fd.write(b)

def node(answer):
    class H(http.server.BaseHTTPRequestHandler):
        def do_POST(self):
            req = json.loads(self.rfile.read(int(self.headers['Content-Length'])).decode())
            b = json.dumps({'id': req['id'], 'error': None, 'result': answer(req)}).encode()
            self.send_response(200)
            self.send_header('Content-Length', str(len(b)))
            self.end_headers()
            self.wfile.write(b)
        def log_message(self, *a):
            pass
    s = http.server.HTTPServer(('127.0.0.1', 0), H)
    t = threading.Thread(target=s.serve_forever)
    t.daemon = True
    t.start()
    os.mkdir(os.path.join(D, '.bitcoin'))
    write('.bitcoin/bitcoin.conf', ('rpcuser=u\\nrpcpassword=p\\nrpcport=%d\\n' % s.server_port).encode())
'''
RPC = '''
import http.server, json, threading
import bitcoin.rpc

seen = []
class H(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'
    def do_POST(self):
        req = json.loads(self.rfile.read(int(self.headers['Content-Length'])).decode())
        seen.append(req)
        self.close_connection = True
        if len(seen) == 1:
            return              # carried out, but the answer is lost
        b = json.dumps({'id': req['id'], 'error': None, 'result': '11' * 32}).encode()
        self.send_response(200)
        self.send_header('Content-Length', str(len(b)))
        self.end_headers()
        self.wfile.write(b)
    def log_message(self, *a):
        pass
s = http.server.HTTPServer(('127.0.0.1', 0), H)
t = threading.Thread(target=s.serve_forever)
t.daemon = True
t.start()
p = bitcoin.rpc.Proxy('http://u:p@127.0.0.1:%d' % s.server_port)
'''
BUGS = [
    dict(id='c04-witness-checked-early', prop='C04',
         edits=[('sus-tool.py', '''def cmd_mkwitness(args):
    tx = None
''', '''def cmd_mkwitness(args):
    # Don't bother the node if there's nothing to do
    for seal_fd in args.seal_fds:
        if os.path.exists(seal_fd.name + '.witness'):
            args.parser.error("Witness file '%s.witness' already exists" % seal_fd.name)

    tx = None
'''), ('sus-tool.py', "        with open(seal_fd.name + '.witness', 'xb') as witness_fd:", "        with open(seal_fd.name + '.witness', 'wb') as witness_fd:")],
         demo=TOOL + '''
try:
    o = COutPoint(b'A' * 32, 3)
    seal = BitcoinSingleUseSeal(outpoint=o, nonce=b'n' * 16)
    write('s', seal.serialize())
    tx = CTransaction([CTxIn(o)], [CTxOut(0, CScript([OP_RETURN, b'd' * 32]))])
    def answer(req):
        # meanwhile somebody else makes the file
        write('s.witness', b'precious')
        return b2x(tx.serialize())
    node(answer)
    rc, out = tool('mkwitness', '--txid', b2lx(tx.GetHash()), 's')
    assert read('s.witness') == b'precious' and rc != 0
finally:
    shutil.rmtree(D)
''', needs='another invocation that makes the same witness while this one waits for the node', breaks='The witness of the other invocation is overwritten.'),

    dict(id='c05-witness-without-extension', prop='C05',
         edits=[('sus-tool.py', '''        witness_filename = seal_fd.name + '.witness'
''', '''        witness_filename = os.path.splitext(seal_fd.name)[0] + '.witness'
'''), ('sus-tool.py', "        with open(seal_fd.name + '.witness', 'xb') as witness_fd:", "        with open(witness_filename, 'xb') as witness_fd:")],
         demo=TOOL + '''
try:
    ins = []
    for i in range(2):
        o = COutPoint(b'A' * 32, i)
        ins.append(CTxIn(o))
        write('coin.%d' % i, BitcoinSingleUseSeal(outpoint=o, nonce=b'n' * 16).serialize())
    tx = CTransaction(ins, [CTxOut(0, CScript([OP_RETURN, b'd' * 32]))])
    rc, out = tool('mkwitness', '--tx', b2x(tx.serialize()), 'coin.0', 'coin.1')
    assert rc == 0
    for i in range(2):
        assert tool('verifywitness', '-d', '64' * 32, '--seal-file', 'coin.%d' % i, 'coin.%d.witness' % i)[0] == 0
finally:
    shutil.rmtree(D)
''', needs='seal files that differ in what follows the last dot of their names', breaks='Their witnesses get the same name, so that only one can be made.'),

    dict(id='m08-equal-storage', prop='M08',
         edits=[(PM + 'bits.py', '''        if self.__length != rhs.__length:
            return False

        else:
''', '''        if self.__buf is rhs.__buf:
            # Usually of the same slice
            return self.__length // 8 == rhs.__length // 8

        elif self.__length != rhs.__length:
            return False

        else:
''')],
         demo='''
from proofmarshal.bits import Bits
b = Bits([1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0])
assert b[:10] != b[:11]
''', needs='two prefixes of one array that differ in length by less than a byte', breaks='They are equal.'),

    dict(id='r02-payment-repeated', prop='R02',
         edits=[(BL + 'rpc.py', '''        r = self._call('sendtoaddress', addr, amount)
        return lx(r)
''', '''        try:
            r = self._call('sendtoaddress', addr, amount)
        except httplib.BadStatusLine:
            # The server closed the idle connection; use a new one
            r = self._call('sendtoaddress', addr, amount)
        return lx(r)
''')],
         demo=RPC + '''
try:
    p.sendtoaddress('1BoatSLRHtKNngkdXEeobR76b53LETtpyT', 5000)
except Exception:
    pass
assert len(seen) == 1
''', needs='a connection that is closed after the node has carried out a payment and before it has answered', breaks='The payment is made twice.'),

    dict(id='w01-unknown-unchecked', prop='W01',
         edits=[(BL + 'messages.py', '''        if checksum != h[:4]:
''', '''        if checksum != h[:4] and command in messagemap:
''')],
         demo='''
from bitcoin.messages import *
import hashlib, struct, io, contextlib
body = b'hello'
raw = b'\\xf9\\xbe\\xb4\\xd9' + b'sendheaders\\0' + struct.pack('<I', 5) + b'\\1\\2\\3\\4' + body
with contextlib.redirect_stdout(io.StringIO()):
    try:
        MsgSerializable.stream_deserialize(io.BytesIO(raw))
    except ValueError:
        pass
    else:
        raise SystemExit('damage went unnoticed')
''', needs='a damaged message with an unknown command', breaks='A message with a wrong checksum is not refused.'),

    dict(id='w02-locator-shared', prop='W02',
         edits=[(BL + 'net.py', '''class CBlockLocator(Serializable):
    def __init__(self, protover=PROTO_VERSION):
        self.nVersion = protover
        self.vHave = []
''', '''class CBlockLocator(Serializable):
    def __init__(self, protover=PROTO_VERSION, vHave=[]):
        self.nVersion = protover
        self.vHave = vHave
''')],
         demo='''
from bitcoin.messages import *
a = msg_getblocks()
a.locator.vHave.append(b'\\1' * 32)
b = msg_getblocks()
b.locator.vHave.append(b'\\2' * 32)
assert len(msg_getblocks.from_bytes(b.to_bytes()).locator.vHave) == 1
''', needs='two messages whose locators are filled in place', breaks='The hashes of one message appear in the others.'),
]
