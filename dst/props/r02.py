"""R02: RPC calls are carried out at most once"""

from .rpcsession import session, clients_for, fund
from .rpcworld import World, REAL, STUB
from .r01 import ASSUMPTIONS

RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('One run: one or two client processes make 3 to 16 payments, broadcasts, batches and queries to a simulated node while '
        'connections and answers fail before, while and after the node carries them out.  Non-trivial: a fault was planned.')
STATE = 'distinct (kind of call, faults, outcome, previous fault) tuples'
SEARCH = 'sequences of calls, connection and node faults'
ORACLE = 'log of the simulated node: how often every (unique) call arrived and was carried out'


def run(sim):
    tls = sim.chance(20)
    w = World(sim, tls=tls)
    fund(w)
    session(sim, 'R02', w, clients_for(sim, w, tls), sim.choice((4, 7, 10, 16)))
