"""Sessions of RPC clients with a simulated node, and what has to hold for them"""

import json
from decimal import Decimal

from .. import engine, refs
from ..node import COIN
from .common import show
from .rpcworld import World, HARMLESS

KINDS = {'R01': ((6, 'echo'), (2, 'error'), (1, 'unknown'), (2, 'batch'), (2, 'count')),
         'R02': ((4, 'pay'), (3, 'broadcast'), (3, 'batch'), (2, 'echo'), (1, 'error')),
         'R03': ((5, 'echo'), (2, 'error'), (1, 'batch'), (2, 'count'), (1, 'pay'))}

NODE_ERRORS = (-5, -28, -32601, -25, -27, -3, -8, -22, -32700)


class Call:
    """History entry"""

    def __init__(self, n, kind):
        self.n, self.kind = n, kind
        self.token = 'call-%d' % n
        self.mine = lambda s: self.token in s[1]
        self.size = 1


def parse(b):
    return json.loads(b.decode('utf8'), parse_float=Decimal)


def session(sim, prop, w, clients, ncalls):
    """Make calls; yields nothing, checks what `prop` says"""
    node = w.node
    suspicious = {}
    failed = {}
    prev = None
    coin = w.node.chain
    for n in range(ncalls):
        ci = sim.below(len(clients))
        u, m, proxy, tmo = clients[ci]
        c = Call(n, sim.weighted(*KINDS[prop]))
        fault = None
        w.healthy()
        if sim.chance(55):
            fault = w.random_fault(tmo)
        elif sim.chance(15):
            w.net.drop_idle(node, sim.choice((None, 'reset')))
            fault = 'idle'
            sim.fault('idle connection dropped')
        w.fired = []
        node.client, first = ci, ci not in node.last
        seen0, ans0 = len(node.seen), len(node.answers)
        t0 = w.clock.monotonic()
        w.net.longest_wait = 0.0
        try:
            out = ('ok', make(sim, w, u, m, proxy, c))
        except m.JSONRPCException as exc:
            out = ('rpc', exc.error.get('code') if isinstance(exc.error, dict) else exc.error)
        except IndexError as exc:
            out = ('exc', 'IndexError', str(exc))
        except (Exception, engine.SimInterrupt) as exc:
            out = ('exc', type(exc).__name__)
        dt = w.clock.monotonic() - t0
        fresh = node.seen[seen0:]
        answers = node.answers[ans0:]
        orderly = out[0] == 'ok' or (out[0] == 'rpc' and out[1] in NODE_ERRORS) or out[1] == 'IndexError'
        sim.log('%d client %d %s, %s %s: %s, %.3f s, seen %d', n, ci, c.kind, fault, w.fired, show(out), dt, len(fresh))
        sim.state(c.kind, tuple(w.fired), fault, out[0], out[1] if out[0] == 'exc' else '', prev)
        prev = fault
        if fault:
            sim.nontrivial = True
        kinds = [f[1] if f[1] != 'bad' else f[2] for f in w.fired if f[0] == 'request']
        if prop == 'R01':
            check_result(sim, c, out, answers, kinds, suspicious.get(ci), first)
        elif prop == 'R02':
            check_once(sim, c, out, fresh, w)
        else:
            check_recovery(sim, c, out, answers, fault, suspicious.get(ci), failed.get(ci), w, tmo, dt)
        # What's left behind for the next call: a client that got an orderly answer can't know that there's more to come,
        # nor that the connection died afterwards
        suspicious[ci] = orderly and ('duplicate' in kinds or any(f[0] == 'send' for f in w.fired))
        if orderly:
            failed.pop(ci, None)
        else:
            failed[ci] = '%s (%s)' % (fault, show(out))
        if fault in ('idle', 'down', 'connect'):
            for k in range(len(clients)):
                if k != ci:
                    suspicious[k] = True
    w.healthy()
    sim.check(node.unauthorized == 0, 'credentials', 'a client does not authenticate as configured')


def make(sim, w, u, m, proxy, c):
    node = w.node
    if c.kind == 'echo':
        arg = sim.choice((c.token, [c.token, 1], {'t': c.token}))
        r = proxy._call('echo', arg) if sim.chance(50) else proxy.echo(arg)
        return r
    if c.kind == 'error':
        h = refs.sha256(c.token.encode())
        c.mine = lambda s: h[::-1].hex() in s[1]
        if isinstance(proxy, m.Proxy) and sim.chance(50):
            return proxy.getrawtransaction(h)
        return proxy._call('getrawtransaction', h[::-1].hex(), 0)
    if c.kind == 'unknown':
        return proxy._call('nosuchcall', c.token)
    if c.kind == 'count':
        c.mine = lambda s: s[0] == 'getblockcount'
        return proxy._call('getblockcount')
    if c.kind == 'pay':
        amount = 1000 + c.n
        a = refs.b58check(refs.NETWORKS[w.network][2], refs.hash160(c.token.encode()))
        c.mine = lambda s: a in s[1] and s[0] == 'sendtoaddress'
        c.pay = (a, amount)
        if isinstance(proxy, m.Proxy):
            return proxy.sendtoaddress(u('bitcoin.wallet').CBitcoinAddress(a), amount)
        return proxy.sendtoaddress(a, amount / COIN)
    if c.kind == 'broadcast':
        outs = sorted(node.chain.view()[1])
        tx = (1, ((sim.choice(outs), b'\x51', 0xffffffff),), ((c.n + 1, b'\x51'),), 0)
        raw = refs.tx_ser(tx)
        c.mine = lambda s: raw.hex() in s[1] and s[0] == 'sendrawtransaction'
        if isinstance(proxy, m.Proxy):
            return proxy.sendrawtransaction(u('bitcoin.core').CTransaction.deserialize(raw))
        return proxy.sendrawtransaction(raw.hex())
    ids = [sim.choice((c.n * 10 + 1, 'b%d' % c.n)), c.n * 10 + 2, None]
    k = sim.choice((2, 1, 3))
    c.size = k
    reqs = [{'version': '1.1', 'method': 'echo', 'params': [c.token, i], 'id': ids[i]} for i in range(k)]
    return proxy._batch(iter(reqs) if sim.chance(30) else reqs)


def check_result(sim, c, out, answers, kinds, suspicious, first):
    """A result or an error of the node is that of this very call"""
    if out[0] == 'ok':
        if c.kind == 'batch' and (suspicious or [k for k in kinds if k not in HARMLESS]):
            return      # answers of batches carry the ids that the caller chose, and matching them is up to the caller
        sim.check(answers, 'wrong result', 'call %d (%s) returns %s but the node never answered it', c.n, c.kind, show(out[1]))
        a = parse(answers[-1][1])
        if c.kind == 'batch':
            sim.check(out[1] == a, 'wrong result', 'batch %d returns %s, the answer is %s', c.n, show(out[1]), show(a))
            return
        sim.check(a['error'] is None, 'wrong result', 'call %d (%s) returns %s although the node reports the error %s', c.n, c.kind,
                  show(out[1]), show(a['error']))
        sim.check(out[1] == a['result'], 'wrong result', 'call %d (%s) returns %s, the node\'s answer is %s (%s)', c.n, c.kind,
                  show(out[1]), show(a['result']), kinds)
        bad = [k for k in kinds if k in ('wrongid', 'noid', 'stale', 'noresult', 'nullid', 'falsyerror')]
        if 'stale' in bad and first:
            bad.remove('stale')     # there was no other answer before
        sim.check(not bad, 'wrong result', 'call %d (%s) takes an answer to another request (%s)', c.n, c.kind, bad)
    elif out[0] == 'rpc' and out[1] in NODE_ERRORS or out[1] == 'IndexError':
        code = out[1] if out[0] == 'rpc' else None
        if code is None and any('(%d)' % k in out[2] for k in (-342, -343, -344)):
            return      # the client's own errors
        sim.check(answers, 'wrong error', 'call %d (%s) raises %s but the node never answered it', c.n, c.kind, out[1])
        a = parse(answers[-1][1])
        sim.check(isinstance(a, dict) and a['error'] is not None, 'wrong error', 'call %d (%s) raises %s, but the node\'s answer is %s',
                  c.n, c.kind, out[1], show(a))
        if code is not None:
            sim.check(a['error']['code'] == code, 'wrong error', 'call %d (%s) raises error %s, the node reports %s', c.n, c.kind,
                      code, a['error']['code'])


def check_once(sim, c, out, fresh, w):
    """The node has seen nothing twice, and nothing but this call"""
    mine = [s for s in fresh if c.mine(s)]
    sim.check(len(mine) == len(fresh), 'repeated', 'during call %d (%s) the node sees other calls: %s', c.n, c.kind,
              show([s for s in fresh if not c.mine(s)]))
    sim.check(len(mine) <= c.size, 'repeated', 'call %d (%s) reaches the node %d times (%s)', c.n, c.kind, len(mine), w.fired)
    if out[0] == 'ok' and not any(f[1] in ('stale', 'bad', 'http-error', 'garbage', 'duplicate') for f in w.fired):
        sim.check(len(mine) == c.size or c.kind == 'batch', 'not carried out', 'call %d (%s) returns but the node has seen it %d times', c.n,
                  c.kind, len(mine))
        if c.kind == 'pay':
            n = [p for p in w.node.spent if p[:2] == c.pay]
            sim.check(len(n) == 1, 'not carried out', 'payment %d was made %d times', c.n, len(n))
    if c.kind == 'pay':
        n = [p for p in w.node.spent if p[0] == c.pay[0]]
        sim.check(len(n) <= 1, 'repeated', 'payment %d was made %d times', c.n, len(n))


def check_recovery(sim, c, out, answers, fault, suspicious, failed, w, tmo, dt):
    if fault is None and not w.fired and not suspicious:
        sim.check(len(answers) == 1, 'not recovered', 'call %d (%s) fails with %s although the node is healthy (before: %s)', c.n,
                  c.kind, show(out), failed)
        a = parse(answers[-1][1])
        if c.kind == 'batch' or a['error'] is None:
            sim.check(out[0] == 'ok', 'not recovered', 'call %d (%s) fails with %s although the node is healthy (before: %s)', c.n,
                      c.kind, show(out), failed)
        else:
            sim.check(out[0] == 'rpc' and out[1] == a['error']['code'] or out[1] == 'IndexError', 'not recovered',
                      'call %d (%s) ends with %s, the node reported %s (before: %s)', c.n, c.kind, show(out), show(a['error']), failed)
        if failed:
            sim.probe('recovered')
    sim.check(w.net.longest_wait <= tmo + 0.5, 'hang', 'call %d waits for %.1f s, the timeout is %s', c.n, w.net.longest_wait, tmo)
    sim.check(dt <= tmo * 60 + 5, 'hang', 'call %d takes %.1f s', c.n, dt)


def clients_for(sim, w, tls):
    r = []
    for k in range(sim.choice((1, 1, 2))):
        u = w.client()
        m = u('bitcoin.rpc')
        url = '%s://user:pass@localhost:8332' % ('https' if tls else 'http')
        if sim.chance(30):
            url += '/'
        timeout = sim.choice((None, None, 30, 5, 60))
        kw = {} if timeout is None else {'timeout': timeout}
        cls = m.Proxy if sim.chance(50) else m.RawProxy
        r.append((u, m, cls(url, **kw), timeout or 30))
    return r


def fund(w):
    ch = w.node.chain
    ch.mine([ch.coin([b'\x51'] * 4)])
