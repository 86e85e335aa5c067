"""What the reference client makes of scripts and signatures (consensus rules up to BIP 16), over plain bytes"""

import hashlib
import struct

from . import refs, secp

ONE = b'\x01' + b'\x00' * 31
MAX_SCRIPT, MAX_PUSH, MAX_OPS, MAX_STACK = 10000, 520, 201, 1000
DISABLED = frozenset(range(0x7e, 0x82)) | frozenset((0x83, 0x84, 0x85, 0x86, 0x8d, 0x8e)) | frozenset(range(0x95, 0x9a))


class Fail(Exception):
    """The script fails"""


def next_op(s, p):
    """(opcode, data or None, position after it), or None if the push is cut short"""
    op = s[p]
    p += 1
    if op > 0x4e:
        return op, None, p
    if op < 0x4c:
        n = op
    else:
        w = 1 << (op - 0x4c)
        if len(s) - p < w:
            return None
        n = int.from_bytes(s[p:p + w], 'little')
        p += w
    if len(s) - p < n:
        return None
    return op, s[p:p + n], p + n


def find_and_delete(s, what):
    if not what:
        return s
    out = b''
    p = 0
    while p < len(s):
        while s[p:p + len(what)] == what:
            p += len(what)
        if p >= len(s):
            break
        r = next_op(s, p)
        if r is None:
            return out + s[p:]
        out += s[p:r[2]]
        p = r[2]
    return out


def sighash(tx, i, code, hashtype):
    """Digest that a signature of input i signs"""
    version, vin, vout, lock = tx
    base = hashtype & 0x1f
    if i >= len(vin) or base == 3 and i >= len(vout):
        return ONE
    code = find_and_delete(code, b'\xab')
    b = struct.pack('<i', version)
    which = [i] if hashtype & 0x80 else range(len(vin))
    b += refs.compact_size(len(which))
    for k in which:
        (prevout, _, seq) = vin[k]
        b += refs.outpoint_ser(prevout) + refs.var_bytes(code if k == i else b'')
        b += struct.pack('<I', seq if k == i or base not in (2, 3) else 0)
    if base == 2:
        b += b'\x00'
    elif base == 3:
        b += refs.compact_size(i + 1) + (b'\xff' * 8 + b'\x00') * i + struct.pack('<q', vout[i][0]) + refs.var_bytes(vout[i][1])
    else:
        b += refs.compact_size(len(vout)) + b''.join(struct.pack('<q', v) + refs.var_bytes(s) for v, s in vout)
    b += struct.pack('<II', lock, hashtype)
    return refs.dsha(b)


_verified = {}


def verify(pub, digest, sig):
    k = (pub, digest, sig)
    if k not in _verified:
        if len(_verified) > 5000:
            _verified.clear()
        _verified[k] = secp.verify(secp.decode(pub), digest, sig)
    return _verified[k]


def check_sig(sig, pub, code, tx, i):
    if not sig:
        return False
    return verify(pub, sighash(tx, i, code, sig[-1]), sig[:-1])


def num(b):
    if len(b) > 4:
        raise Fail('number of %d bytes' % len(b))
    if not b:
        return 0
    v = int.from_bytes(b[:-1] + bytes([b[-1] & 0x7f]), 'little')
    return -v if b[-1] & 0x80 else v


def enc(v):
    if v == 0:
        return b''
    a = abs(v)
    b = a.to_bytes((a.bit_length() + 8) // 8, 'little')
    return b[:-1] + bytes([b[-1] | (0x80 if v < 0 else 0)])


def true(b):
    return any(b[:-1]) or bool(b and b[-1] not in (0, 0x80))


def flag(v):
    return b'\x01' if v else b''


def evaluate(stack, script, tx, i, seen=None):
    """Run a script on the stack; Fail if it fails"""
    def need(n, st=None):
        if len(stack if st is None else st) < n:
            raise Fail('arguments')

    def pop():
        need(1)
        return stack.pop()
    if len(script) > MAX_SCRIPT:
        raise Fail('script size')
    alt, cond = [], []
    p = start = ops = 0
    while p < len(script):
        run = all(cond)
        r = next_op(script, p)
        if r is None:
            raise Fail('push cut short')
        op, data, p = r
        if data is not None and len(data) > MAX_PUSH:
            raise Fail('push size')
        if op > 0x60:
            ops += 1
            if ops > MAX_OPS:
                raise Fail('operations')
        if op in DISABLED or op in (0x65, 0x66):
            raise Fail('disabled')
        if seen is not None and run:
            seen.add(op)
        if data is not None:
            if run:
                stack.append(data)
        elif 0x63 <= op <= 0x68:
            if op in (0x63, 0x64):
                v = False
                if run:
                    v = true(pop()) == (op == 0x63)
                cond.append(v)
            else:
                if not cond:
                    raise Fail('conditional')
                if op == 0x67:
                    cond[-1] = not cond[-1]
                else:
                    cond.pop()
        elif not run:
            pass
        elif op == 0x4f or 0x51 <= op <= 0x60:
            stack.append(enc(op - 0x50))
        elif op == 0x61 or 0xb0 <= op <= 0xb9:
            pass
        elif op == 0x69:
            need(1)
            if not true(pop()):
                raise Fail('verify')
        elif op == 0x6b:
            alt.append(pop())
        elif op == 0x6c:
            need(1, alt)
            stack.append(alt.pop())
        elif op == 0x6d:
            need(2)
            del stack[-2:]
        elif op in (0x6e, 0x6f):
            n = op - 0x6c
            need(n)
            stack.extend(stack[-n:])
        elif op == 0x70:
            need(4)
            stack.extend(stack[-4:-2])
        elif op == 0x71:
            need(6)
            stack[-6:] = stack[-4:] + stack[-6:-4]
        elif op == 0x72:
            need(4)
            stack[-4:] = stack[-2:] + stack[-4:-2]
        elif op == 0x73:
            need(1)
            if true(stack[-1]):
                stack.append(stack[-1])
        elif op == 0x74:
            stack.append(enc(len(stack)))
        elif op == 0x75:
            pop()
        elif op == 0x76:
            need(1)
            stack.append(stack[-1])
        elif op == 0x77:
            need(2)
            del stack[-2]
        elif op == 0x78:
            need(2)
            stack.append(stack[-2])
        elif op in (0x79, 0x7a):
            need(2)
            n = num(pop())
            if not 0 <= n < len(stack):
                raise Fail('depth')
            stack.append(stack[-1 - n] if op == 0x79 else stack.pop(-1 - n))
        elif op == 0x7b:
            need(3)
            stack.append(stack.pop(-3))
        elif op == 0x7c:
            need(2)
            stack.append(stack.pop(-2))
        elif op == 0x7d:
            need(2)
            stack.insert(-2, stack[-1])
        elif op == 0x82:
            need(1)
            stack.append(enc(len(stack[-1])))
        elif op in (0x87, 0x88):
            need(2)
            v = stack.pop() == stack.pop()
            if op == 0x87:
                stack.append(flag(v))
            elif not v:
                raise Fail('equalverify')
        elif op in (0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92):
            v = num(pop())
            stack.append(enc({0x8b: v + 1, 0x8c: v - 1, 0x8f: -v, 0x90: abs(v), 0x91: int(v == 0), 0x92: int(v != 0)}[op]))
        elif op in (0x93, 0x94) or 0x9a <= op <= 0xa4:
            need(2)
            b, a = num(stack[-1]), num(stack[-2])
            del stack[-2:]
            v = {0x93: a + b, 0x94: a - b, 0x9a: int(a != 0 and b != 0), 0x9b: int(a != 0 or b != 0), 0x9c: int(a == b), 0x9d: int(a == b),
                 0x9e: int(a != b), 0x9f: int(a < b), 0xa0: int(a > b), 0xa1: int(a <= b), 0xa2: int(a >= b), 0xa3: min(a, b), 0xa4: max(a, b)}[op]
            if op == 0x9d:
                if not v:
                    raise Fail('numequalverify')
            else:
                stack.append(enc(v))
        elif op == 0xa5:
            need(3)
            top, low, v = num(stack[-1]), num(stack[-2]), num(stack[-3])
            del stack[-3:]
            stack.append(flag(low <= v < top))
        elif 0xa6 <= op <= 0xaa:
            b = pop()
            if op == 0xa6:
                h = hashlib.new('ripemd160', b).digest()
            elif op == 0xa7:
                h = hashlib.sha1(b).digest()
            else:
                h = {0xa8: refs.sha256, 0xa9: refs.hash160, 0xaa: refs.dsha}[op](b)
            stack.append(h)
        elif op == 0xab:
            start = p
        elif op in (0xac, 0xad):
            need(2)
            pub, sig = stack.pop(), stack.pop()
            ok = check_sig(sig, pub, find_and_delete(script[start:], refs.push(sig)), tx, i)
            if op == 0xac:
                stack.append(flag(ok))
            elif not ok:
                raise Fail('checksigverify')
        elif op in (0xae, 0xaf):
            need(1)
            nk = num(stack[-1])
            if not 0 <= nk <= 20:
                raise Fail('keys')
            ops += nk
            if ops > MAX_OPS:
                raise Fail('operations')
            need(nk + 2)
            ns = num(stack[-2 - nk])
            if not 0 <= ns <= nk:
                raise Fail('signatures')
            need(nk + ns + 3)
            keys = stack[-1 - nk:-1]
            sigs = stack[-2 - nk - ns:-2 - nk]
            code = script[start:]
            for s in sigs:
                code = find_and_delete(code, refs.push(s))
            del stack[-3 - nk - ns:]
            while sigs and len(sigs) <= len(keys):
                if check_sig(sigs[-1], keys[-1], code, tx, i):
                    sigs.pop()
                keys.pop()
            if op == 0xae:
                stack.append(flag(not sigs))
            elif sigs:
                raise Fail('checkmultisigverify')
        else:
            raise Fail('opcode %x' % op)
        if len(stack) + len(alt) > MAX_STACK:
            raise Fail('stack size')
    if cond:
        raise Fail('conditional')


def push_only(s):
    p = 0
    while p < len(s):
        r = next_op(s, p)
        if r is None or r[0] > 0x60:
            return False
        p = r[2]
    return True


def is_p2sh(s):
    return len(s) == 23 and s[:2] == b'\xa9\x14' and s[22] == 0x87


def spend(script_sig, script, tx, i, p2sh=True, seen=None):
    """None if input i may spend the output, else why it fails"""
    stack = []
    try:
        evaluate(stack, script_sig, tx, i, seen)
        before = list(stack)
        evaluate(stack, script, tx, i, seen)
        if not stack or not true(stack[-1]):
            return 'false'
        if p2sh and is_p2sh(script):
            if not push_only(script_sig):
                return 'not only pushes'
            stack = before
            redeem = stack.pop()
            evaluate(stack, redeem, tx, i, seen)
            if not stack or not true(stack[-1]):
                return 'false'
    except Fail as exc:
        return str(exc)
    return None


# names of the protocol's operations, from 0x4c on
NAMES = dict(enumerate(
    'PUSHDATA1 PUSHDATA2 PUSHDATA4 1NEGATE RESERVED 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN '
    'TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK CAT SUBSTR LEFT RIGHT SIZE '
    'INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT '
    'BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN '
    'RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY '
    'NOP1 NOP2 NOP3 NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10'.split(), 0x4c))
NAMES.update({0: '0', 0xfa: 'SMALLINTEGER', 0xfb: 'PUBKEYS', 0xfd: 'PUBKEYHASH', 0xfe: 'PUBKEY', 0xff: 'INVALIDOPCODE'})
NAMES = {k: 'OP_' + v for k, v in NAMES.items()}


def listing(s):
    """The operations of a script as the library shows them, and whether they are all"""
    out, pos = [], 0
    while pos < len(s):
        r = next_op(s, pos)
        if r is None:
            return out, False
        op, data, pos = r
        if data is not None:
            out.append("x('%s')" % data.hex())
        elif 0x51 <= op <= 0x60:
            out.append('%d' % (op - 0x50))
        else:
            out.append(NAMES.get(op) or 'CScriptOp(0x%x)' % op)
    return out, True
