"""Helpers that several scenarios share"""

import sys

from ..universe import Universe
from .. import families
from ..sched import Interrupted

MARSHAL_REAL = ['proofmarshal.proof', 'proofmarshal.serialize', 'proofmarshal.bits']
STUBS = ['operating system (simulated processes, file system, clock, entropy)']


def world(sim, name='p', **kw):
    return Universe(sim, name, **kw)


def damage(sim, b, kinds=None):
    """One way stored or transmitted bytes go bad; returns (kind, bytes)"""
    n = len(b)
    kind = sim.choice(kinds or ('bitflip', 'truncate', 'extend', 'byte', 'zero', 'drop', 'dup', 'swap', 'insert', 'torn'))
    if n == 0 and kind not in ('extend', 'insert'):
        kind = 'extend'
    # The first bytes hold the interesting fields more often
    pos = sim.below(min(n, 8)) if n and sim.chance(25) else sim.below(n) if n else 0
    if kind == 'bitflip':
        out = b[:pos] + bytes([b[pos] ^ (1 << sim.below(8))]) + b[pos + 1:]
    elif kind == 'byte':
        out = b[:pos] + bytes([sim.choice((0, 1, 0x7f, 0x80, 0xfd, 0xfe, 0xff))]) + b[pos + 1:]
    elif kind == 'truncate':
        out = b[:sim.choice((pos, n - 1, 0))]
    elif kind == 'extend':
        out = b + sim.choice((b'\x00', b'\xff', b'\n', b'\x00' * 32))
    elif kind == 'insert':
        out = b[:pos] + sim.choice((b'\x00', b'\x80', b'\xff')) + b[pos:]
    elif kind == 'zero':
        ln = sim.choice((1, 4, 32))
        out = b[:pos] + b'\x00' * len(b[pos:pos + ln]) + b[pos + ln:]
    elif kind == 'drop':
        ln = sim.choice((1, 2, 32))
        out = b[:pos] + b[pos + ln:]
    elif kind == 'dup':
        ln = sim.choice((1, 16, 32))
        out = b[:pos + ln] + b[pos:pos + ln] + b[pos + ln:]
    elif kind == 'swap':
        ln = sim.choice((1, 16, 32))
        q = sim.below(n)
        lo, hi = min(pos, q), max(pos, q)
        x, y = b[lo:min(lo + ln, hi)], b[hi:hi + ln]
        out = b[:lo] + y + b[lo + len(x):hi] + x + b[hi + len(y):]
    else:
        # a block that never reached the disk
        bs = sim.choice((16, 64, 512))
        k = sim.below((n + bs - 1) // bs)
        out = b[:k * bs] + b'\x00' * len(b[k * bs:(k + 1) * bs]) + b[(k + 1) * bs:]
    return kind, out


def show(v):
    """Short rendering of an outcome for the event log"""
    s = repr(v)
    return s if len(s) < 100 else s[:60] + '...%d' % len(s)


def frozen(sim, u, obj, attrs):
    """Nothing a user does may change a proof"""
    for a in attrs:
        for what in ('set', 'del'):
            try:
                if what == 'set':
                    setattr(obj, a, 0)
                else:
                    delattr(obj, a)
            except (TypeError, AttributeError):
                continue
            sim.fail('mutable', '%s of attribute %s is accepted', what, a)


def ask(sim, fam, u, obj, model, n, kind='wrong-answer', allow_pruned=False, ops=None):
    """Ask n questions and compare with the model"""
    for i in range(n):
        op = ops[i] if ops else fam.op(sim, model)
        want = fam.expect(model, op)
        got = fam.do(u, obj, op)
        sim.log('  %s %s -> %s', fam.name, show(op), show(got))
        if allow_pruned and got == ('exc', 'PrunedError'):
            sim.probe('pruned')
            continue
        sim.check(got == want, kind, '%s %s: got %s, expected %s', fam.describe(), show(op), show(got), show(want))
    return ops


def interrupted(sim, fn, most=60):
    """Start something that ends at a seeded line; True if it was interrupted"""
    prefix = sim.repo.rstrip('/') + '/'
    left = sim.between(1, most) if sim.chance(70) else sim.between(1, 6 * most)
    known = {}
    count = [left]

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        k = known.get(f)
        if k is None:
            k = known[f] = f.startswith(prefix)
        return local if k else None

    def local(frame, event, arg):
        if event == 'line':
            count[0] -= 1
            if count[0] == 0:
                raise Interrupted()
        return local
    before = sys.gettrace()
    sys.settrace(trace)
    try:
        fn()
    except Interrupted:
        sys.settrace(before)
        sim.fault('interrupt')
        return True
    finally:
        sys.settrace(before)
    return False
