"""R01: results of RPC calls"""

from .rpcsession import session, clients_for, fund
from .rpcworld import World, REAL, STUB

RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('One run: one or two client processes make 3 to 20 calls and batches to a simulated node while connections are refused, '
        'cut, stalled, delayed and reset, and answers are lost, cut, duplicated, late, spoiled or meant for another request.  '
        'Non-trivial: a fault was planned.')
STATE = 'distinct (kind of call, faults, outcome, previous fault) tuples'
SEARCH = 'sequences of calls, connection and node faults'
ORACLE = 'every call is unique and the node records what it answered to which request'
ASSUMPTIONS = ['TCP delivers the bytes of a connection in order and unchanged', 'certificates are not checked (TLS is simulated)',
               'a client object is used by one thread', 'callers of _batch() match the ids of answers themselves']


def run(sim):
    tls = sim.chance(20)
    w = World(sim, tls=tls)
    fund(w)
    clients = clients_for(sim, w, tls)
    if sim.below(60) == 0:
        longer(sim, w, clients[0])
    session(sim, 'R01', w, clients, sim.choice((4, 7, 10, 16)))


def longer(sim, w, client):
    """A client that has been in use for long gets answers of long ago"""
    m, proxy = client[1:3]
    n = sim.choice((70, 140, 270, 270, 1030))
    w.node.client = 0
    w.healthy()
    for i in range(n):
        got = proxy._call('echo', i)
        sim.check(got == w.node.rpc_echo(i), 'wrong result', 'call %d returns %s', i, got)
    sim.nontrivial = True
    for d in sim.sample([d for d in (9, 10, 16, 20, 32, 50, 64, 99, 100, 127, 128, 200, 255, 256, 999, 1000, 1024) if d < n], 6):
        w.plan = [('stale', d - 1)]
        try:
            got = proxy._call('echo', -d)
        except m.JSONRPCException as exc:
            sim.log('%d calls ago: refused', d)
        else:
            sim.fail('wrong result', 'a call returns %s, the answer to the call %d calls before', got, d)
        sim.state('long', n, d)
