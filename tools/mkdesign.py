"""Writes DESIGN.md (texts live here; tables come from the scenarios, seeded/, tools/PLANTED, tools/TRIALS, tools/SENSITIVITY)"""
import glob
import importlib
import json
import os
import sys

sys.path.insert(0, os.getcwd())

HEAD = '''# Deterministic simulation of python-proofchains

Generated by `tools/mkdesign.py`; the texts are there.

## 1. What is simulated

The repository is three libraries and a tool: `proofmarshal` (merkle proofs that can be pruned: maps, lists, values), `proofchains`
(single-use seals on Bitcoin transactions, globally unique maps), `python-bitcoinlib` (wire formats, messages, validation, keys,
addresses, an RPC client) and `sus-tool.py`, which makes and verifies seals. Its nondeterminism and failures are: system calls of
the tool (concurrent invocations, kills, power loss, full and failing disks, closed output), the JSON-RPC connection to a node that
fails, streams of peers that arrive in pieces and end anywhere, histories of pruning, storing and loading by process after process,
threads that share proofs, keys or transactions, clocks, entropy, a block chain that reorganizes, and adversaries that hand in bytes.

The whole system runs inside one Python process:

| part | what it does |
|---|---|
| `dst/engine.py` | One run is a pure function of (code, property, choice sequence). Choices come from one PRNG seeded by (VERIF_SEED, property, run index), or from a list when replaying. 0 is always the simplest alternative and a list that ends goes on with zeros, so every list of integers is a valid execution; that is what makes minimisation simple. The event log of a run is hashed; the hash is the identity of the execution. |
| `dst/universe.py` | A simulated process: private instances of every module of the repository (executed from the current working tree of /repo) and of the stdlib modules that carry state or touch the world (`io`, `argparse`, `http.client`, `tempfile`, ...), with a private `builtins`. Its import statement hands out stand-ins for clocks, entropy (of OpenSSL too), files, sockets, threads, locks, terminal, exit. A restart is a new universe: only the simulated file system survives. |
| `dst/simfs.py` | File system: inodes, descriptors, O_EXCL, unsynced data, crash with lost suffixes. `io.BufferedWriter` and everything above are real. Every call may fail (ENOSPC, EIO, EINTR, short and torn reads and writes, failing open/close/fsync). |
| `dst/simnet.py`, `dst/node.py` | Stream sockets with a clock: pieces, stalls, resets, ends, refused connections, TLS stub. HTTP server and a simulated bitcoind with chain, mempool and wallet. |
| `dst/sched.py` | Threads: real threads of which one runs at a time. Switches at lines, bytecodes, locks or system calls, chosen by the seeded scheduler. Deadlocks and lack of progress are violations. Interrupts: an exception that arrives at a chosen line, call or bytecode of the code under test (Ctrl-C, a timeout, memory that runs out), after which everything that exists must still be right. |
| `dst/chain.py` | Block tree with reorganizations; the active chain never spends an output twice. |
| `dst/refs.py`, `validity.py`, `wire.py`, `secp.py` | Independent reference implementations (hash trees, canonical encodings, witness verifier, consensus rules, messages, ECDSA). None of them imports code under test. |
| `dst/families.py` | Kinds of proofs with a reference model each: structures, unions, maps, lists, transactions, seals, witnesses, gumaps, maps keyed by proofs, lists of up to 2^62 items. |
| `dst/tool.py` | Invocations of `sus-tool.py` with independently computed effects. |
| `dst/check.py` | Search over runs on all cores, minimisation, replay, evidence. |
| `dst/props/*.py` | One scenario per property. |

No hooks in /repo were needed: the seams are the interpreter's (imports, builtins, tracing).

### Search, replay, minimisation

`python3 -m dst.check ID --tier quick|thorough` executes the number of runs given below in forked workers (round robin by index,
so the set of runs doesn't depend on the number of cores), `VERIF_SEED` selects the seed. Quick stops at 300 s, thorough at an hour,
whichever is first; both say how much they did. Within a run, the violation is raised at the moment an invariant fails. It is then
minimised (removing and lowering choices while the same kind of violation remains) and written to `replays/<id>-*.json` with seed,
choices and event log; `python3 -m dst.check ID --replay FILE` executes exactly that and prints the log, exit 1 if the violation is
reproduced. A run that does not end (40 s) or that kills the interpreter (stack overflow, crash inside OpenSSL) is a violation too;
workers are restarted after it. `--digests N` prints the hash of the log of the first N runs; they were compared between processes,
between orders of execution, and for different `PYTHONHASHSEED`.

Before a violation is reported, its replay file is executed by a fresh process and has to be violated again; the report says whether the
event log was the same to the byte. If it isn't violated again, the check ends as an error of the machinery (exit 2), not as an alarm.

### Evidence

`evidence/<id>.json`: runs, runs per hour, simulated time, faults by kind and how often each fired, distinct states (the measure is
stated per property), distinct logs (interleavings), probes (how often interesting places were reached), what ran for real and what
was a stub.

### What this cannot show

Runs are samples. A violation that needs one particular value among 2^32, or a combination of more than a handful of rare events, is
found only if the generator was built to prefer it; the generators were, from the text of the properties and from what planted
bugs taught (section 5). One bytecode is atomic, and so is one call into OpenSSL. Power loss keeps prefixes of unsynced files.
`python -O` removes the asserts that are the verifier; the project assumes that they are on and so do the checks.

## 2. Properties

'''

HOW = {
'C01': 'Two-witness soundness is checked against the simulated chain: every witness that anyone can build from all transactions ever seen is offered to the real verifier, and the verdicts per seal are collected over the whole history (also across processes that keep pruned witnesses, and across reorganizations). The adversary knows the code: several commitments in one transaction, index and version tricks, two encodings, commitments of other kinds that look alike, mixed input and output proofs, OP_RETURN outputs with any kind of push. A unit test checks one witness at a time.',
'C02': 'The oracle is an independent parser that knows the canonical form of a witness and says exactly which (seal, digest) pairs it shows; verdict of library and tool must equal it in both directions. Bytes pass through the simulated disk (torn, bit flips, extended, concatenated) and an adversary who can rebuild any part (also every single bit). Verification is interrupted and repeated: the verdict is the same.',
'C03': 'Every system call the tool makes can fail; the expected effect of each invocation (files, output, verdict) is computed from arguments and input files by independent code. Exit 0 with any effect missing is a violation, as is a nonzero exit without any fault or invalid input, a traceback, or a changed input file.',
'C04': 'Two to four real invocations run interleaved at system calls; kills and power loss at any of them; afterwards every file is compared with what each winner must have written and is given to all commands that read it.',
'C05': 'The full life of a seal with real `sus-tool`, real RPC client and the closing transaction template against the simulated node and chain. Liveness: the first attempt of each step after faults stop must succeed. Safety: no witness while the transaction is unknown.',
'C06': 'Model of prefixes with all ways of sabotage (each single field, swapped children, witness of another seal, ...); honest ones must verify, sabotaged ones must not, exactly; also when pruned, stored, loaded by other processes and tampered with, and when two maps share the same seals; verification is interrupted and repeated.',
'M01': 'Generations of processes: build, prune, ask, store, restart, ask again, prune further. The model knows all answers and which were asked; hashes come from an independent implementation. Views of views and questions on the original after making a view are included. Operations are interrupted at any line, and asked again.',
'M02': 'Adversary on the stored bytes and on the structure (hide, replace, forge nodes of all kinds, exchange children, other type of the same shape). Whatever loads and has the right root must answer as the model or refuse. Forged roots: two disclosures of one root never answer differently.',
'M03': 'Refinement: every version of the map is compared with a dictionary; roots with an independent computation of the canonical shape. Key generators prefer long common prefixes, prefixes of each other, equal data; versions are reloaded pruned or in full, also from maps of other kinds.',
'M04': 'As M03 with lists; lengths around powers of two, slices of slices, extends with itself, huge lists that share their parts (up to 2^62 items), of several item types, lists made of other kinds of lists.',
'M05': 'Real threads under the seeded scheduler, switches at lines, calls or single bytecodes inside the code under test. After each run the stored view must answer what any thread asked. Views stored in between must answer what that thread has asked before. One thread may fail in the middle of anything.',
'M06': 'Writes and reads through the simulated disk with short and failing calls, crash at any point; what was acknowledged reads back equal; every damage is judged by an independent canonical parser (accept exactly the canonical encoding). Values that cannot be encoded must be refused when they are made or written.',
'M07': 'Long histories over a pool of proofs, with originals (transactions, outpoints, lists, byte arrays) changed afterwards; after each step everything in the pool is compared with what it was.',
'M08': 'Histories of operations on arrays that share storage (parts of parts, arrays of bytes with other bits behind their end, common prefixes of joins), strings of 0 and 1 with the same history as reference, restarts that reload some, damage to stored forms. Orders of arrays of different lengths are left out: they are not lexicographic, and nothing says what they should be.',
'W01': 'Independent parser over the same bytes; each message or error, and the position in the stream after it, must agree for every segmentation, end and reset; several peers interleaved.',
'W02': 'Independent codecs; every value is written by the real code, compared byte for byte, and read back through streams and short-reading files; hostile bytes: result must be the value the bytes encode or an error, with bounds on the amount asked from the stream.',
'R01': 'Sessions against a simulated node; every request carries unique parameters and the answer is derived from them, so a result of another call is recognised. Duplicated, late, reordered, foreign answers, errors of other calls.',
'R02': 'The log of the simulated node counts arrivals and executions of every unique call.',
'R03': 'After each failure the next call with a healthy node must work; the simulated clock bounds every wait by the timeout; decoy nodes listen at all wrong addresses, and credentials are compared with an independent reading of the configuration, which lies where the operating system (simulated: Linux, Darwin, Windows) has it; broken configurations are refused without contacting anyone.',
'R04': 'The node serves a real (simulated) chain that grows and reorganizes; every converted value is compared with the chain object itself, in exact integer arithmetic.',
'V01': 'Each node has its own simulated clock that jumps, drifts, stops or passes while a block is being checked; verdict must be that of some instant between call and return.',
'V02': 'Independent implementation of the context-free rules; blocks are mined on regtest-like targets for all networks, broken by one to three changes or put exactly at a limit, and sent over damaged streams.',
'T01': 'Object graph model with the sharing that Python prescribes; after every step every object ever made is compared (bytes, ids, equality, hash). Concurrent steps by threads.',
'S01': '''Independent script interpreter, signature hash and P2SH rules (`dst/script_ref.py`) with ECDSA of `dst/secp.py`: two or three parties, each in simulated processes of their own, fund, build, sign (in parts, with all hash types, with separators, m of n, escrow, hash locks) and exchange one transaction; messages are lost, repeated, late or damaged, parties restart, an adversary changes outputs, inputs, signatures and scripts or adds programs at the limits; every arrival is judged by the code (VerifyScript, VerifySignature, also in interleaved threads) and by the reference. Next to verdicts, stacks after each script, digests, script facts and rebuilt scripts are compared.''',
'B01': 'Independent MurmurHash3 and bit arithmetic over one integer; filters wander between processes over short reads and damage, threads ask while one inserts; the size is compared with the formula, the rate of wrong matches with the expected one.',
'K01': 'Independent ECDSA in Python; interleaved threads; forged signatures for malformed keys; failing entropy; keys reloaded in new processes.',
'A01': 'Independent base58check and templates; processes that select networks in any order and exchange texts; damage.',
}

NOTDST = '''## 3. Not applicable

N03 (base58) is a pure function of its input: there is no schedule, clock, I/O, fault, history or second party for a simulator to
decide, and what would remain is input fuzzing, which is another technique. Where it is used by something stateful it is exercised
there: A01 damages addresses and keys in transit, K01 reloads exported keys.

'''

FINDINGS = '''## 4. Defects found

### Repaired ("fix:" commits in /repo, listed in `known_findings.json`)

%s

### Recorded as known findings

%s

### False alarms that were corrected

While building, checks reported things that turned out to be too strong or wrong in the model; each was corrected in the property or the oracle:

* W01/W02: `CVarInt`s that aren't minimal are accepted by bitcoinlib because its tests require it; the statement says that the value that the bytes encode is read or refused.
* W01: a command with junk after its NUL may be refused or read as that command; both are now accepted.
* K01: `CPubKey(b'\\x00')` counts as fully valid (a test asserts this); the property speaks about what verifies with it.
* K01: digests of other lengths than 32 bytes are outside of the property (OpenSSL truncates or pads them).
* R03: a connection that died while the client was idle costs one call; the statement allows that.
* R01/R02: `_batch` doesn't match ids of answers; its callers do. Recorded as an assumption.
* V01: the clock may be read at any instant during the check; the oracle accepts the verdict of any of them.
* V02: the node's own rule set is Bitcoin Core 0.10/0.11, with strict signature counting as there; limits that later versions added are not expected.
* T01: bytes of the mutable parts are compared after sharing as Python prescribes it (a list handed to a mutable transaction stays that list).
* A01: testnet and regtest have the same version bytes, so neither refuses what the other made.
* C01: a P2SH or OP_RETURN output whose bytes merely begin alike but that commits to nothing is neither required to be accepted nor an attack.
* M04: slices with a step other than 1 raise NotImplementedError, as documented.
* M06: errors of any documented kind (DeserializationError, SerializationError, ValueError, OverflowError, ...) count as refusals.
* M07: parts made from a `bytearray` may be refused instead of copied; bitcoinlib objects built from a bytearray are outside.

### Deliberately not repaired

* Asserts as the means of verification (`python -O` disables them): a change of the whole design.
* `Serializer.serialize()` called directly with a value of the wrong range: the guard is `check_instance` when a proof is made.
* `mkwitness` trusts its node not to answer with another transaction than asked for (assumption of C05); the witness it makes then fails to verify.
* GuMap's `from_unused_prefix` doesn't compare the key with the prefix (marked FIXME by the authors), `InnerPrefix` doesn't enforce its children's prefixes.
* Example scripts, `getaccountaddress(None)`, errors in `repr` of some messages, `CBitcoinAddress` equality that ignores the version, deepcopy of immutable objects: outside of the listed properties.

'''

PLANT_HEAD = '''## 5. Planted bugs

`seeded/<id>/` (made by `tools/plant.py` from the specs in `tools/bugs/b*.py`): each compiles, passes the stable tests, has a demonstration that
tells the trees apart, and changes lines of the original repository only. Result of the quick check of its property:

| bug | property | needs | quick check |
|---|---|---|---|
'''

TRIAL_HEAD = '''
Beyond these, %d smaller mutations (`tools/bugs/t*.py`, run by `tools/trial.py`; no demonstration) were tried to find out what the
checks miss; checks were strengthened until the remaining misses were judged to be without observable effect on the property. Missed: %s

'''

SENS_HEAD = '''## 6. Sensitivity to the repaired defects

Each fix was reverted in a scratch clone and the check of its property was run (`tools/sensitivity.py`): %s

'''


QUIET = '''
## 7. Quiet where nothing is broken

* `tools/refactored.diff` rewrites code in 17 files (the tool, seals and maps, proofs, lists, bits, the wire format, keys, scripts, their
  evaluation, addresses, filters and the RPC client) without changing what it does: helpers extracted and inlined, loops turned into
  comprehensions and back, statements reordered, other calls to open, read, write and print, other order of independent reads.
  `tools/refactored.py` runs all checks on it; none may alarm, with several seeds.
* All checks were run with further seeds on the unchanged tree. One alarm was false (V02 asked for a negative number of signature
  operations in its own block builder) and was repaired in the builder.
* `tools/mutate.py` makes systematic small mutations of every file that the checks cover; each mutant that stays unnoticed was looked at:
  either it has no effect (Python 2 branches, caches, `__all__`, messages of exceptions), or the check was extended.
'''


def main():
    props = [json.loads(l) for l in open('properties.jsonl')]
    out = [HEAD]
    for p in props:
        pid = p['id']
        if not os.path.exists('dst/props/%s.py' % pid.lower()):
            continue
        m = importlib.import_module('dst.props.%s' % pid.lower())
        out.append('### %s: %s\n\n' % (pid, p['title']))
        out.append(p['statement'] + '\n\n')
        out.append('*How it is decided.* %s\n\n' % HOW[pid])
        out.append('*Run.* %s\n\n' % m.RULE)
        out.append('*Search.* %s. *Oracle.* %s. *State measure.* %s.\n\n' % (m.SEARCH.capitalize(), m.ORACLE, m.STATE))
        out.append('*Why tests cannot.* %s\n\n' % p['why_tests_cant'])
        out.append('*Real code.* %s. *Stubs.* %s.\n\n' % (', '.join(m.REAL), '; '.join(m.STUB)))
        out.append('*Assumptions.* %s.\n\n' % '; '.join(m.ASSUMPTIONS))
        out.append('*Bounds.* %d runs quick, %d thorough (a sample; no enumeration).%s\n\n' % (m.RUNS['quick'], m.RUNS['thorough'], cost(pid)))
    out.append(NOTDST)
    k = json.load(open('known_findings.json'))
    out.append(FINDINGS % ('\n'.join('* ' + x.split(': ', 1)[1] for x in k['fixed']),
                           '\n'.join('* %s (%s): %s. Identified by its call site and input; anything else that violates %s is reported.' % (
                               x['property'], x['id'], x['what'], x['property']) for x in k['findings'])))
    out.append(PLANT_HEAD)
    res = {}
    for l in open('tools/PLANTED'):
        a = l.split(None, 1)
        if len(a) == 2:
            res[a[0]] = a[1].strip()
    for d in sorted(glob.glob('seeded/*/meta.json')):
        i = d.split('/')[1]
        m = json.load(open(d))
        out.append('| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, '?')))
    trials = [l.split() for l in open('tools/TRIALS') if l.strip()]
    missed = [t[0] for t in trials if not any(x.endswith(':caught') for x in t[1:])]
    out.append(TRIAL_HEAD % (len(trials), ', '.join(missed) or 'none') + open('tools/TRIALNOTES').read())
    s = [l.split() for l in open('tools/SENSITIVITY') if l.strip()]
    bad = [' '.join(x[:2]) for x in s if x[2] != 'caught']
    out.append(SENS_HEAD % ('all %d were noticed.' % len(s) if not bad else '%d of %d were noticed; not noticed: %s.' % (len(s) - len(bad), len(s), ', '.join(bad))))
    if os.path.exists('tools/SENSNOTES'):
        out.append(open('tools/SENSNOTES').read())
    out.append(QUIET)
    open('DESIGN.md', 'w').write(''.join(out))


def cost(pid):
    try:
        e = json.load(open('evidence/%s.json' % pid))
        w = e.get('wall_s')
        return ' About %d s on 8 cores (quick).' % round(w) if w else ''
    except (OSError, KeyError, ValueError):
        return ''


if __name__ == '__main__':
    main()
