"""Writes properties.jsonl (the texts live here; run from /verif)"""
import json

BL = 'lib/python-bitcoinlib/bitcoin/'
PM = 'lib/python-proofmarshal/proofmarshal/'
SUS = 'proofchains/core/uniquebits/singleuseseal.py'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=()):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(d)


# ---- proofchains -----------------------------------------------------------

prop('C01', 'A single-use seal can be closed over one digest only',
     'On any block chain in which no output is spent twice, no two witnesses whose transactions are both in the chain verify for '
     'the same seal and two different digests, whatever transactions owners and adversaries get confirmed and whatever '
     'witnesses they construct from them. The honest witness of a confirmed closing transaction verifies for its seal and digest. '
     'After a reorganization the same holds for the new chain.',
     ['histories', 'inputs'],
     'all histories of a block chain (closings, double spends, transactions with several commitments, reorganizations) and all '
     'witnesses an adversary can build from the transactions in it',
     'The existing tests verify a handful of fixed witnesses one at a time; that no second witness exists for the same seal is a '
     'statement about all pairs of witnesses over all chain histories.',
     [SUS, 'proofchains/core/bitcoin.py', 'proofchains/uniquebits/singleuseseal.py'],
     [('the witness input spends the seal outpoint, input and output proofs are of the same transaction', SUS + ': BitcoinSealWitness.verify'),
      ('commitment is compared byte for byte, at a fixed output', SUS + ': BitcoinSealWitness.verify_hash'),
      ('closing transactions', 'proofchains/uniquebits/singleuseseal.py: make_close_seal_tx_template')],
     [('outpoint', 'transaction output that is the seal', SUS), ('txinproof, txoutproof', 'input and output of the closing transaction', SUS)])

prop('C02', 'A seal witness verifies exactly if it shows that its seal was closed',
     'Loading a stored or received witness and verifying it against a digest succeeds if and only if its bytes are the canonical '
     'encoding of a witness whose transaction spends the outpoint of its seal at the shown input and commits to that digest in its '
     'first output by OP_RETURN, P2SH or P2PKH. This holds for honest witnesses, however the bytes were damaged or tampered with on the '
     'way, and for witnesses made by an adversary. The library and the command line tool give the same verdict. The proof of a single input or output verifies exactly if its '
     'transaction is shown and has it.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'all honest and adversarial witnesses (mixtures of transactions, wrong indexes, hidden parts) and all damage to their stored bytes',
     'The tests check fixed good witnesses and few bad ones; soundness quantifies over all byte strings that reach the verifier.',
     [SUS, 'proofchains/core/bitcoin.py', PM + 'proof.py', PM + 'serialize.py', 'sus-tool.py'],
     [('checks of the witness', SUS + ': BitcoinSealWitness'), ('transactions, inputs and outputs bound to their hashes', 'proofchains/core/bitcoin.py'),
      ('deserialization', PM + 'proof.py: Proof.deserialize')])

prop('C03', 'The seal tool tells the truth by its exit status',
     'Whatever fails while the command line tool runs (full disk, I/O errors, short or torn writes, unreadable files, a closed '
     'standard output), it exits with status 0 only if everything it was asked for was done completely and correctly: the files '
     'it reports to have made are complete, its output is complete, the witness it verified is valid and matches the given digest '
     'and seal. Otherwise it exits with a nonzero status and a message, and in no case are its input files changed.',
     ['fault_sequences', 'inputs'],
     'all subcommands, argument combinations, valid and invalid input files, and failures of any system call',
     'There are no tests of the command line tool; failing system calls at chosen points are out of reach of ordinary tests.',
     ['sus-tool.py', SUS, 'proofchains/uniquebits/singleuseseal.py'],
     [('exclusive creation and context managers of output files', 'sus-tool.py'), ('argument validation', 'sus-tool.py: ParseCOutPointArg, ParseDigestArg'),
      ('comparison with the given seal and digest', 'sus-tool.py: cmd_verifywitness')])

prop('C04', 'Seal and witness files are never overwritten, mixed up or half trusted',
     'However many invocations of the command line tool run at once, and wherever one of them is killed or the machine loses power, a file that '
     'exists when an invocation starts keeps its content, at most one of several invocations that make the same file succeeds, and '
     'that one\'s content is what is there afterwards. A file cut short by a crash is refused by every command that reads it. After a '
     'crash, removing what was left and repeating the command succeeds.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'all interleavings of the system calls of concurrent invocations, and all crash and power loss points',
     'The outcome depends on interleavings of system calls of several processes and on crash points, neither of which a test controls.',
     ['sus-tool.py', PM + 'serialize.py'],
     [('O_EXCL creation of outputs', 'sus-tool.py: mkseal, cmd_mkwitness'), ('truncation and trailing junk are detected when reading', PM + 'serialize.py')])

prop('C05', 'A seal can be closed end to end once faults stop',
     'Making seals, making the closing transaction, getting it confirmed, making the witnesses from the transaction id or bytes, and '
     'verifying them works for any set of seals and any closing method; nodes that fail, answer late or with garbage, full disks, and steps that are killed only '
     'delay it. Once faults stop, removing what the failed step left and repeating it ends with one witness per seal that verifies for that '
     'seal and digest; as long as the node reports that the transaction is unknown, no witness is made.',
     ['fault_sequences', 'histories', 'crash_points'],
     'all sets of seals, closing methods, and sequences of node, connection and process failures during the steps',
     'No test covers the steps together, let alone with a failing node.',
     ['sus-tool.py', BL + 'rpc.py', 'proofchains/uniquebits/singleuseseal.py', SUS],
     [('closing transaction template', 'proofchains/uniquebits/singleuseseal.py'), ('transactions are fetched from the node', 'sus-tool.py: cmd_mkwitness; ' + BL + 'rpc.py: getrawtransaction')])

prop('C06', 'An entry of a globally unique map verifies exactly if its seals were closed',
     'Verifying a prefix of the map succeeds if and only if its witness shows that its own seal was closed over the commitment of its contents: key and value of a leaf, the '
     'seals of both children of an inner prefix. Using and combining prefixes keeps their seals. Stored paths, pruned to what was looked at, verify the same way after a restart, '
     'no damage or tampering changes the verdict or the entry under the same root, and the same seals closed by the same confirmed transactions never lead to two different entries.',
     ['inputs', 'histories', 'fault_sequences'],
     'all trees of prefixes, seals and witnesses (right, wrong, missing), all keys, and all damage to the stored proof',
     'The tests make one map with one entry.',
     ['proofchains/core/uniquebits/gumap.py', SUS, PM + 'merbinnertree.py'],
     [('prefix verification', 'proofchains/core/uniquebits/gumap.py')])

# ---- proofmarshal ----------------------------------------------------------

prop('M01', 'A pruned proof keeps all that was looked at, and its root',
     'Anything that was looked up on a pruned view of a proof can be looked up with the same result on the stored view, in a fresh process that knows only '
     'the stored bytes, and the stored view has the same hash as the original. What was not looked up either gives the right answer or the error that says that it was pruned, never a wrong answer, and values that were not looked at are not part of the stored view. An operation that is interrupted anywhere does no harm. '
     'This holds for views of views, stored and pruned any number of times.',
     ['histories', 'inputs'],
     'all structures of proofs, sequences of questions, and generations of pruning, storing and restarting',
     'The tests prune few small structures once and within the process that made them; what survives depends on the whole history of lookups.',
     [PM + 'proof.py', PM + 'merbinnertree.py', PM + 'mmr.py', PM + 'serialize.py', 'proofchains/core/bitcoin.py', SUS],
     [('dependency tracking', PM + 'proof.py: Proof.__getattr__'), ('pruned serialization', PM + 'proof.py'), ('hash', PM + 'proof.py: calc_hash')],
     [('pruned instance', 'original and set of attributes looked at', PM + 'proof.py')])

prop('M02', 'A proof cannot be changed without changing its root',
     'Whatever an adversary does to a stored proof (flipping, cutting, splicing bytes, hiding parts, replacing parts by those of other proofs), a verifier that loads it and '
     'compares its hash with the trusted one gets the answers of the original or an error. No commitment, honest or forged, gives two different answers to the same question.',
     ['inputs', 'fault_sequences'],
     'all proofs, ways to tamper with them, and questions',
     'Soundness against tampering quantifies over all byte strings; the tests have no adversary.',
     [PM + 'proof.py', PM + 'merbinnertree.py', PM + 'mmr.py', PM + 'serialize.py', 'proofchains/core/bitcoin.py', SUS],
     [('tagged hashes over all attributes', PM + 'proof.py: calc_hash'), ('canonical encodings', PM + 'serialize.py'), ('paths fixed by keys and indexes', PM + 'merbinnertree.py, ' + PM + 'mmr.py')])

prop('M03', 'A committed map behaves as an immutable map in every history',
     'Every version of a committed map that was ever made keeps answering membership, lookup, length and iteration as a plain dictionary with the same history would, whatever was put into or '
     'removed from other versions and however often versions are stored and loaded by other processes. Its root depends on its contents only, not on the order of operations, and different contents have different roots.',
     ['histories', 'inputs'],
     'all histories of puts, overwrites, removals, lookups, storing and loading on any version, over all sets of keys',
     'The tests insert few keys in fixed orders; wrong results need particular prefixes, orders of operations and versions.',
     [PM + 'merbinnertree.py', PM + 'proof.py'],
     [('persistent binary radix tree', PM + 'merbinnertree.py: put, remove'), ('canonical shape', PM + 'merbinnertree.py')])

prop('M04', 'A committed list behaves as an immutable append-only list in every history',
     'Every version of a committed list that was ever made keeps answering length, indexing, slicing and iteration as a plain list with the same history would, whatever was appended to other versions and however often '
     'versions are stored and loaded by other processes. Its root depends on its items and their order only, and different lists have different roots.',
     ['histories', 'inputs'],
     'all histories of appends, extends, slices, lookups, storing and loading on any version, over all lengths',
     'The tests append up to a fixed number of items; wrong results need particular lengths, slices and shapes.',
     [PM + 'mmr.py', PM + 'proof.py'],
     [('merkle mountain range', PM + 'mmr.py: append, extend, __getitem__')])

prop('M05', 'Threads that share a proof get right answers and no lookup is forgotten',
     'Any number of threads may look things up on one shared proof, pruned or not, at the same time: every answer is right, the hash is right, and the view that is stored afterwards answers all the questions of all threads, as a view that one of them stores in between answers all that this thread has asked before. A thread that fails leaves the others unharmed.',
     ['schedules'],
     'all interleavings of lookups, hash computations and copies by several threads on one proof',
     'The tests are single threaded; a lost dependency needs a switch between two particular instructions.',
     [PM + 'proof.py'], [('locked update of what was looked at', PM + 'proof.py: Proof.__getattr__')])

prop('M06', 'Values and proofs come back exactly from storage, and damage is noticed',
     'What was completely written can be read back by another process and equals what was written, including several values after each other in one stream and reads and writes that are short. A stored form that was cut short, extended, or is not '
     'the canonical encoding of a value is refused with an error; no two byte strings load as equal values. Values that cannot be encoded are refused when writing, and a failing write never goes unnoticed.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'all values and proofs, all I/O failures and crash points while writing or reading, all damage to stored bytes',
     'The tests round trip few values in memory, without failing storage.',
     [PM + 'serialize.py', PM + 'proof.py', PM + 'bits.py', 'proofchains/core/bitcoin.py'],
     [('canonical integers and lengths, truncation and trailing data checks', PM + 'serialize.py'), ('union and variant numbers', PM + 'proof.py')])

prop('M07', 'A proof never changes once it is made or loaded',
     'Every proof keeps its contents, hash, stored form and place in sets and dicts for its whole life, whatever is done to the objects that it was made from, to other proofs that were derived from it or share parts with it, and to '
     'what it returned. Attempts to change a proof or a part of it raise an error and have no effect. Two proofs are equal exactly if their hashes are.',
     ['histories'],
     'all histories of making, deriving, pruning, storing, asking and changing originals',
     'The tests try to assign to one attribute once; a shared part shows only when the original is changed later.',
     [PM + 'proof.py', PM + 'merbinnertree.py', PM + 'mmr.py', 'proofchains/core/bitcoin.py', SUS],
     [('no assignments', PM + 'proof.py: Proof.__setattr__'), ('immutable copies of transactions and outpoints', 'proofchains/core/bitcoin.py: TxProof; ' + SUS)])

# ---- bitcoinlib: network, rpc -----------------------------------------------

prop('M08', 'Bit arrays are sequences of bits in every history, whatever storage they share',
     'Every bit array keeps its length and bits, and slicing, joining, inverting, indexing, comparing, prefix tests and common prefixes give what they would for the sequence of its bits, whatever arrays, bytes and '
     'stored forms it was made from, and whatever was made from it: bits that are in the shared storage but not in an array never show. It is stored canonically and read back the same by other processes.',
     ['histories', 'inputs'],
     'all histories of slices, joins, inversions, common prefixes, storing and loading, over all lengths',
     'The tests use fixed short arrays made of bits; wrong results need lengths around bytes, and leftover bits behind the end from earlier steps.',
     [PM + 'bits.py'],
     [('bit arrays', PM + 'bits.py: Bits, BitsSerializer')])

prop('W01', 'Network messages are framed right on any stream',
     'Reading messages from a peer\'s stream yields exactly the messages that were sent, in order, however the stream is cut into pieces, and leaves the stream at the start of the next message after each one. A message '
     'with a damaged checksum, wrong magic or missing end is refused and never delivered; unknown commands are skipped without losing their successors.',
     ['inputs', 'fault_sequences'],
     'all sequences of messages of all kinds and networks, all segmentations of the stream, damage, truncation and closing at any byte',
     'The tests parse few complete messages from memory buffers.',
     [BL + 'messages.py', BL + 'net.py', BL + 'core/serialize.py'],
     [('frame header and checksum', BL + 'messages.py: MsgSerializable.stream_deserialize')])

prop('W02', 'Transactions, blocks and messages survive the wire',
     'Any transaction, block, header or message that is sent is received equal to what was sent, with the same id, by the reference rules of the Bitcoin network, even if the stream delivers it in pieces. '
     'Whatever bytes arrive are read as the value that they encode or refused, leaving the stream right behind it: reading hostile bytes ends with that value or an error, and never asks for more than the announced or maximal size.',
     ['inputs', 'fault_sequences'],
     'all values of wire types, stream segmentations, truncations and hostile byte strings',
     'The tests parse few fixed values from complete buffers.',
     [BL + 'core/__init__.py', BL + 'core/serialize.py', BL + 'net.py', BL + 'messages.py'],
     [('stream serializers', BL + 'core/serialize.py'), ('size limit', BL + 'core/serialize.py: ser_read')])

prop('R01', 'The result of an RPC call is the node\'s answer to that very call',
     'A call of the RPC client returns only what the node answered to that call, for any number of calls on a connection, whatever answers are late, duplicated, lost or reordered, and however connections '
     'break in between; otherwise it raises an error. Errors that the node reports for a call are raised for that call and for no other.',
     ['histories', 'fault_sequences'],
     'all histories of calls and all faults of connection and node',
     'The tests only check the configuration; nothing talks to a server.',
     [BL + 'rpc.py'], [('request ids', BL + 'rpc.py: RawProxy._call'), ('connection is dropped after failures', BL + 'rpc.py')])

prop('R02', 'An RPC call is carried out at most once',
     'Whatever goes wrong on the connection, the node sees each call of the client at most once, so that a payment or broadcast that was asked for once is never done twice; a call or batch that returned a result was carried out exactly once.',
     ['histories', 'fault_sequences'],
     'all histories of calls and all points at which connections and nodes fail',
     'The tests have no server.',
     [BL + 'rpc.py'], [('one request per call', BL + 'rpc.py: RawProxy._call')])

prop('R03', 'The RPC client works again as soon as the node does',
     'After any sequence of failures (refused, dropped and stalled connections, garbage, HTTP errors, restarts of the node) on http or https, a call that failed does not spoil the next one: it succeeds if the node is healthy while it is made. A connection that dies while the client is idle costs at most one failed call. The client never waits for the node longer than the configured timeout at a time. Authentication and addressing are those of the configuration file or URL.',
     ['fault_sequences', 'configurations'],
     'all failure sequences and configurations (network, port, credentials, timeouts)',
     'The tests have no server.',
     [BL + 'rpc.py'], [('reconnect after failure', BL + 'rpc.py: RawProxy._call'), ('timeouts', BL + 'rpc.py: RawProxy.__init__'), ('configuration file', BL + 'rpc.py')])

prop('R04', 'Values pass the RPC interface unchanged',
     'Amounts, hashes, transactions, blocks, addresses and outpoints that a call takes or returns mean the same on both sides: amounts are exact to one satoshi, hashes have the order of bytes of either side, objects are those of the node\'s chain. This holds while the node\'s chain grows and reorganizes, and errors for unknown objects are reported as such.',
     ['inputs', 'histories'],
     'all amounts, objects and chain histories',
     'The tests have no server.',
     [BL + 'rpc.py', BL + 'wallet.py'], [('conversions', BL + 'rpc.py: Proxy')])

# ---- bitcoinlib: validation and the rest ------------------------------------

prop('V01', 'Block time checks follow the clock',
     'A block whose time is more than two hours ahead of the clock is refused, and a block that is not is never refused for its time, for any clock setting, skew and jump; a block that was refused for being early is accepted once the clock has advanced enough.',
     ['configurations', 'histories'],
     'all clock readings, skews, jumps and block times',
     'The tests use fixed current times.',
     [BL + 'core/__init__.py'], [('two hour rule', BL + 'core/__init__.py: CheckBlockHeader')])

prop('V02', 'A block from any peer is accepted exactly if the context-free rules hold',
     'Of the blocks and transactions that honest and malicious peers send, those that satisfy the context-free rules of the network (proof of work, merkle root, duplicate inputs, sizes, values, coinbase, sigops) are accepted and all others are refused, whatever was done to them on the way. Refusal is always by the validation error.',
     ['inputs', 'fault_sequences'],
     'all blocks and transactions, valid or changed by a malicious peer',
     'The tests check few fixed blocks.',
     [BL + 'core/__init__.py', BL + 'core/script.py'], [('CheckBlock, CheckTransaction, CheckProofOfWork', BL + 'core/__init__.py')])

prop('T01', 'Immutable transactions never change; copies of mutable ones are independent',
     'The bytes, id and hash of an immutable transaction, input, outpoint, output or block are the same for its whole life, whatever is done to objects it was made from or that were made from it. A mutable copy can be changed without any effect on any other object, and its bytes and id always reflect its current contents; equality is equality of the bytes. Outpoints, inputs, transactions and headers with impossible values (hash lengths, indexes, sequence numbers, lock times) are refused when they are made, and no bytes are ever produced of a mutable object with such a value.',
     ['histories'],
     'all histories of constructing, copying, freezing and changing transactions and their parts',
     'The tests change few objects; a stale or shared part shows only in particular histories.',
     [BL + 'core/__init__.py', BL + 'core/serialize.py'], [('from_tx, from_txin, ... copies', BL + 'core/__init__.py')])

prop('K01', 'Keys can be used from any thread, and signatures verify exactly for their key',
     'A signature that a key makes of a 32-byte digest verifies with that key and for that digest only, whichever threads make and use keys at the same time; an exported and reimported key is the same key after a restart; two keys agree on the same shared secret from both sides. Malformed secrets, public keys and signatures are refused and never accepted, in scripts neither, and nothing but 32-byte digests is signed.',
     ['schedules', 'inputs'],
     'all interleavings of key operations by several threads, all keys, digests and damaged signatures',
     'The tests use fixed keys on one thread.',
     [BL + 'core/key.py', BL + 'wallet.py'], [('OpenSSL bindings', BL + 'core/key.py')])

prop('A01', 'Addresses and secrets are bound to their network, damage is refused',
     'An address or secret key made for one network is accepted by processes that selected this network and refused by those that selected one with other version bytes, and stands for exactly one output script there and back, in whatever order networks are selected; the selected network has the first block, magic, ports and limits that it has for the reference client. A damaged address or key is refused.',
     ['histories', 'inputs', 'fault_sequences'],
     'all orders of network selections and uses, all addresses, all damage',
     'The tests use fixed addresses and mostly one network.',
     [BL + '__init__.py', BL + 'wallet.py', BL + 'base58.py'],
     [('network parameters', BL + '__init__.py: SelectParams'), ('version bytes and checksum', BL + 'base58.py, ' + BL + 'wallet.py')],
     [('selected network', 'process wide parameters', BL + '__init__.py')])

# ---- pure functions: outside of the technique -------------------------------

prop('S01', 'Signers of one transaction agree with the reference client on valid spends',
     'Whoever exchanges, signs and verifies a transaction, in whatever order, over a network that damages and repeats messages and with adversaries in between: an input is accepted as spending an output exactly if the reference client accepts it under the same flags (rules up to BIP 16, strict DER signatures), scripts leave the same stacks and keep the same limits, signatures commit to exactly what their hash type covers, scripts built from operations, numbers and data have canonical pushes and iterate as built, and verification changes nothing. Signature operations are counted as by the reference client.',
     ['histories', 'inputs', 'schedules', 'fault_sequences'],
     'all histories of adding, signing, changing and verifying, all scripts, hash types and keys, all interleavings of threads that verify',
     'The test vectors are a finite sample, and each is one evaluation of one fixed transaction.',
     [BL + 'core/scripteval.py', BL + 'core/script.py', BL + 'core/_bignum.py', BL + 'core/key.py'],
     [('script evaluation, P2SH', BL + 'core/scripteval.py: EvalScript, VerifyScript, VerifySignature'), ('signature hash', BL + 'core/script.py: RawSignatureHash, SignatureHash, FindAndDelete'),
      ('script building and iteration', BL + 'core/script.py: CScript'), ('numbers', BL + 'core/_bignum.py')])

prop('B01', 'Bloom filters never lose what was inserted, wherever they are loaded',
     'Everything that was inserted into a bloom filter, as bytes or outpoint, before or after the filter was serialised, sent and loaded by another process, is found in it; its bits and its answers about anything else are those of the reference client for its size, hash functions and tweak; filters are as large as their parameters ask for within the limits of the protocol, and bytes that are not a filter are refused. This holds while other threads ask about it.',
     ['histories', 'inputs', 'schedules', 'fault_sequences'],
     'all histories of insertions, transfers and questions, all filter parameters, all damage', 'The tests insert a few fixed items and never load a filter.',
     [BL + 'bloom.py'], [('insert, contains, bits', BL + 'bloom.py: CBloomFilter, MurmurHash3'), ('transfer', BL + 'bloom.py: stream_serialize, stream_deserialize')])

prop('N03', 'Base58 encoding and decoding are inverse',
     'Decoding what was encoded gives the same bytes, and every string that decodes is the encoding of what it decodes to.',
     ['inputs'], 'all byte strings', 'The test vectors are a finite sample.', [BL + 'base58.py'], [('encode, decode', BL + 'base58.py')])
with open('properties.jsonl', 'w') as fd:
    for p in P:
        fd.write(json.dumps(p) + '\n')
