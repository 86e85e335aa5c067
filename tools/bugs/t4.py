BL = 'lib/python-bitcoinlib/bitcoin/'
SCR, EVAL, BN, BLOOM = (BL + x for x in ('core/script.py', 'core/scripteval.py', 'core/_bignum.py', 'bloom.py'))
S = ['S01']
TRIALS = [
 ('s-find-skip', S, [(SCR, "            skip = True\n        else:", "            skip = not r\n        else:")]),
 ('s-find-last', S, [(SCR, "    if not skip:\n        r += script[last_sop_idx:]\n    return", "    r += script[last_sop_idx:] if not skip or not r else b''\n    return")]),
 ('s-hash-none-seq', S, [(SCR, "        txtmp.vout = []\n\n        for i in range(len(txtmp.vin)):\n            if i != inIdx:\n                txtmp.vin[i].nSequence = 0\n\n    elif", "        txtmp.vout = []\n\n        for i in range(inIdx + 1, len(txtmp.vin)):\n            if i != inIdx:\n                txtmp.vin[i].nSequence = 0\n\n    elif")]),
 ('s-hash-single-ge', S, [(SCR, "        if outIdx >= len(txtmp.vout):", "        if outIdx > len(txtmp.vout):")]),
 ('s-hash-mask', S, [(SCR, "    if (hashtype & 0x1f) == SIGHASH_NONE:", "    if (hashtype & 0x7f) == SIGHASH_NONE:")]),
 ('s-hash-mask-single', S, [(SCR, "    elif (hashtype & 0x1f) == SIGHASH_SINGLE:", "    elif (hashtype & 0x3) == SIGHASH_SINGLE:")]),
 ('s-hash-single-blank', S, [(SCR, "            txtmp.vout.append(bitcoin.core.CTxOut())", "            txtmp.vout.append(bitcoin.core.CTxOut(0))")]),
 ('s-hash-shared-tmp', S, [(SCR, "    txtmp = bitcoin.core.CMutableTransaction.from_tx(txTo)", "    txtmp = txTo if isinstance(txTo.vin, list) else bitcoin.core.CMutableTransaction.from_tx(txTo)")]),
 ('s-hash-anyone', S, [(SCR, "    if hashtype & SIGHASH_ANYONECANPAY:", "    if hashtype & SIGHASH_ANYONECANPAY and len(txtmp.vin) > 2:")]),
 ('s-hash-type-byte', S, [(SCR, '    s += struct.pack(b"<I", hashtype)', '    s += struct.pack(b"<I", hashtype & 0x9f)')]),
 ('s-hash-codesep', S, [(SCR, "FindAndDelete(script, CScript([OP_CODESEPARATOR]))", "CScript(bytes(script).replace(b'\\xab', b''))")]),
 ('s-hash-codesep-keep', S, [(SCR, "txtmp.vin[inIdx].scriptSig = FindAndDelete(script, CScript([OP_CODESEPARATOR]))", "txtmp.vin[inIdx].scriptSig = script")]),
 ('s-push-ff', S, [(SCR, "elif len(d) <= 0xff:", "elif len(d) < 0xff:")]),
 ('s-push-4b', S, [(SCR, "if len(d) < 0x4c:", "if len(d) < 0x4b:")]),
 ('s-p2sh-len', S, [(SCR, "                _bord(self[1]) == 0x14 and\n", "")]),
 ('s-pushonly-reserved', S, [(SCR, "                if op > OP_16:\n                    return False\n\n        except CScriptInvalidError:\n            return False\n        return True\n\n    def has", "                if op > OP_16 or op == OP_RESERVED:\n                    return False\n\n        except CScriptInvalidError:\n            return False\n        return True\n\n    def has")]),
 ('s-pushonly-nop', S, [(SCR, "                if op > OP_16:\n                    return False\n\n        except CScriptInvalidError:\n            return False\n        return True\n\n    def has", "                if op > OP_NOP:\n                    return False\n\n        except CScriptInvalidError:\n            return False\n        return True\n\n    def has")]),
 ('s-pushdata2', S, [(SCR, "datasize = _bord(self[i]) + (_bord(self[i+1]) << 8)\n", "datasize = _bord(self[i]) | (_bord(self[i+1]) & 0x7f) << 8\n")]),
 ('s-pushdata4', S, [(SCR, "(_bord(self[i+2]) << 16)", "(_bord(self[i+2]) << 8)")]),
 ('s-trunc', S, [(SCR, "if len(data) < datasize:\n", "if len(data) < datasize and datasize > 1:\n")]),
 ('s-castbool', S, [(EVAL, "            if (i == (len(s) - 1)) and (sv == 0x80):", "            if sv == 0x80:")]),
 ('s-castnum', S, [(EVAL, "    if len(s) > MAX_NUM_SIZE:", "    if v.bit_length() > 32:")]),
 ('s-multisig-keycount', S, [(EVAL, "    nOpCount[0] += keys_count\n", "")]),
 ('s-multisig-delete', S, [(EVAL, "        sig = stack[-isig - k]\n        script", "        sig = stack[-isig]\n        script")]),
 ('s-multisig-dup', S, [(EVAL, "            isig += 1\n            sigs_count -= 1\n\n        ikey += 1\n        keys_count -= 1\n", "            isig += 1\n            sigs_count -= 1\n        else:\n            ikey += 1\n            keys_count -= 1\n")]),
 ('s-multisig-order', S, [(EVAL, "        if sigs_count > keys_count:\n", "        if sigs_count > keys_count + 1:\n")]),
 ('s-multisig-dummy', S, [(EVAL, "    elif len(stack) < i:\n        raise err_raiser(ArgumentsInvalidError, opcode, \"missing dummy value\")", "    elif len(stack) < i:\n        i -= 1")]),
 ('s-multisig-20', S, [(EVAL, "keys_count > 20:", "keys_count > 16:")]),
 ('s-checksig-codesep', S, [(EVAL, "                tmpScript = CScript(scriptIn[pbegincodehash:])\n\n                # Drop", "                tmpScript = CScript(scriptIn)\n\n                # Drop")]),
 ('s-multi-codesep', S, [(EVAL, "                tmpScript = CScript(scriptIn[pbegincodehash:])\n                _Check", "                tmpScript = CScript(scriptIn)\n                _Check")]),
 ('s-checksig-nodelete', S, [(EVAL, "                tmpScript = FindAndDelete(tmpScript, CScript([vchSig]))\n", "")]),
 ('s-checksigverify', S, [(EVAL, "                if not ok and sop == OP_CHECKSIGVERIFY:", "                if not ok and sop == OP_CHECKSIGVERIFY and vchSig:")]),
 ('s-key-shared', S, [(EVAL, "    key = bitcoin.core.key.CECKey()\n", "    key = _key\n"), (EVAL, "def _CheckSig(", "_key = bitcoin.core.key.CECKey()\n\ndef _CheckSig(")]),
 ('s-sig-cache', S, [(EVAL, "    (h, err) = RawSignatureHash(script, txTo, inIdx, hashtype)\n    return key.verify(h, sig)", "    if (sig, pubkey) in _cache:\n        return True\n    (h, err) = RawSignatureHash(script, txTo, inIdx, hashtype)\n    r = key.verify(h, sig)\n    if r:\n        _cache.add((sig, pubkey))\n    return r"), (EVAL, "def _CheckSig(", "_cache = set()\n\ndef _CheckSig(")]),
 ('s-hash-cache', S, [(EVAL, "    (h, err) = RawSignatureHash(script, txTo, inIdx, hashtype)\n    return", "    k = (id(txTo), script, inIdx, hashtype)\n    if k not in _cache:\n        _cache[k] = RawSignatureHash(script, txTo, inIdx, hashtype)\n    (h, err) = _cache[k]\n    return"), (EVAL, "def _CheckSig(", "_cache = {}\n\ndef _CheckSig(")]),
 ('s-2rot', S, [(EVAL, "                del stack[-6]\n                del stack[-5]\n", "                del stack[-6]\n                del stack[-4]\n")]),
 ('s-within', S, [(EVAL, "(bn2 <= bn1) and (bn1 < bn3)", "(bn2 <= bn1) and (bn1 <= bn3)")]),
 ('s-pick-eq', S, [(EVAL, "if n < 0 or n >= len(stack):", "if n < 0 or n > len(stack):")]),
 ('s-pick-neg', S, [(EVAL, "if n < 0 or n >= len(stack):", "if n >= len(stack):")]),
 ('s-ifdup', S, [(EVAL, "                if _CastToBool(vch):\n                    stack.append(vch)", "                if vch:\n                    stack.append(vch)")]),
 ('s-verify-pop', S, [(EVAL, "                v = _CastToBool(stack[-1])\n                if v:\n                    stack.pop()", "                v = _CastToBool(stack[-1])\n                if v:\n                    pass")]),
 ('s-opcount-reserved', S, [(EVAL, "        if sop > OP_16:\n            nOpCount", "        if sop > OP_RESERVED:\n            nOpCount")]),
 ('s-opcount-limit', S, [(EVAL, "            if nOpCount[0] > MAX_SCRIPT_OPCODES:\n                err_raiser(MaxOpCountError)\n\n        def", "            if nOpCount[0] > MAX_SCRIPT_OPCODES + 1:\n                err_raiser(MaxOpCountError)\n\n        def")]),
 ('s-size-limit', S, [(EVAL, "    if len(scriptIn) > MAX_SCRIPT_SIZE:", "    if len(scriptIn) >= MAX_SCRIPT_SIZE:")]),
 ('s-alt-limit', S, [(EVAL, "        if len(stack) + len(altstack) > MAX_STACK_ITEMS:", "        if max(len(stack), len(altstack)) > MAX_STACK_ITEMS:")]),
 ('s-elem-limit', S, [(EVAL, "            if len(sop_data) > MAX_SCRIPT_ELEMENT_SIZE:", "            if fExec and len(sop_data) > MAX_SCRIPT_ELEMENT_SIZE:")]),
 ('s-disabled-exec', S, [(EVAL, "        if sop in DISABLED_OPCODES:", "        if fExec and sop in DISABLED_OPCODES:")]),
 ('s-else-twice', S, [(EVAL, "                vfExec[-1] = not vfExec[-1]", "                vfExec[-1] = False if vfExec[-1] else fExec or not any(vfExec[:-1]) or True")]),
 ('s-nested-if', S, [(EVAL, "                if fExec:\n                    check_args(1)\n                    vch = stack.pop()", "                if fExec or not stack:\n                    check_args(1)\n                    vch = stack.pop()")]),
 ('s-unterminated', S, [(EVAL, "    if len(vfExec):\n        raise", "    if not _CheckExec(vfExec):\n        raise")]),
 ('s-p2sh-copy', S, [(EVAL, "        stackCopy = list(stack)", "        stackCopy = stack")]),
 ('s-p2sh-pushonly', S, [(EVAL, "        if not scriptSig.is_push_only():", "        if scriptSig.is_unspendable():")]),
 ('s-p2sh-truth', S, [(EVAL, "        if not _CastToBool(stackCopy[-1]):", "        if not stackCopy[-1]:")]),
 ('s-p2sh-empty', S, [(EVAL, "        if not len(stackCopy):\n            raise VerifyScriptError(\"P2SH inner scriptPubKey left an empty stack\")\n\n        if not _CastToBool(stackCopy[-1]):", "        if stackCopy and not _CastToBool(stackCopy[-1]):")]),
 ('s-verifysig-n', S, [(EVAL, "    if txin.prevout.n >= len(txFrom.vout):\n        raise VerifySignatureError(\"txin prevout.n >= len(txFrom.vout)\")\n    txout = txFrom.vout[txin.prevout.n]", "    txout = txFrom.vout[txin.prevout.n % len(txFrom.vout)]")]),
 ('s-verifysig-hash', S, [(EVAL, "    if txin.prevout.hash != txFrom.GetHash():", "    if txin.prevout.hash[:1] != txFrom.GetHash()[:1]:")]),
 ('s-bn-neg', S, [(BN, "    if neg:\n        if have_ext:\n            ext[0] |= 0x80", "    if neg:\n        if have_ext and v > 128:\n            ext[0] |= 0x80")]),
 ('s-bn-zero', S, [(BN, "        i &= ~0x80\n", "        i &= 0x7f if len(s) > 5 else 0xff\n")]),
 ('s-ripemd', S, [(EVAL, "                h.update(stack.pop())", "                h.update(stack[-1])")]),
 ('s-size-pop', S, [(EVAL, "                bn = len(stack[-1])", "                bn = len(stack[-1]) & 0xff")]),
 ('s-tuck', S, [(EVAL, "stack.insert(len(stack) - 2, vch)", "stack.insert(0, vch)")]),
 ('s-notif-unexec', S, [(EVAL, "                    if sop == OP_NOTIF:\n                        val = not val\n\n                vf", "                if sop == OP_NOTIF:\n                    val = not val\n\n                vf")]),
 ('s-numeq-verify', S, [(EVAL, "            # No exception, so time to pop the stack\n            stack.pop()\n            stack.pop()\n", "            # No exception, so time to pop the stack\n            stack.pop()\n")]),
 ('s-codesep-unexec', S, [(EVAL, "            elif sop == OP_CODESEPARATOR:\n                pbegincodehash = sop_pc\n", "            elif sop == OP_CODESEPARATOR:\n                pbegincodehash = sop_pc + 1 if scriptIn[sop_pc + 1:] else 0\n")]),
]
