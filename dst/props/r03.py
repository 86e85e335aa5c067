"""R03: the RPC client comes back, and talks to the node it was configured for"""

from .. import refs
from ..node import Node
from ..simnet import Net
from .rpcsession import session, fund
from .rpcworld import World, REAL, STUB
from .r01 import ASSUMPTIONS

RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('One run: client processes configured by bitcoin.conf or URL (networks, ports, TLS, credentials) make 4 to 16 calls while '
        'the node and connections fail in every way the simulation knows; calls made while the node is healthy have to work.  '
        'Decoy nodes listen at all other ports.  Non-trivial: a fault was planned.')
STATE = 'distinct (kind of call, faults, outcome, previous fault) tuples'
SEARCH = 'configurations, sequences of calls and faults of connection and node'
ORACLE = 'a call made while the node is healthy returns its answer; simulated clock; logs of node and decoys'
ASSUMPTIONS = [a for a in ASSUMPTIONS if '_batch' not in a] + [
    'a connection that died or was left with junk while the client was idle may cost one call']

PASSWORDS = ('pass', 'a:b', 'p@ss', 'x/y+z=', 'é', '50%25', 'a?b', 'DonaldDuck', '1', 'a b', '[x]')
PORTS = (None, 8332, 18332, 18443, 1, 65535)


def spaces(sim):
    return sim.choice(('', '', ' ', '\t', '  '))


def conf_text(sim, user, password, port, ssl):
    lines = ['rpcuser%s=%s%s' % (spaces(sim), spaces(sim), user), 'rpcpassword%s=%s%s' % (spaces(sim), spaces(sim), password)]
    if port is not None:
        lines.append('rpcport%s=%s%d' % (spaces(sim), spaces(sim), port))
    if ssl is not None:
        lines.append('rpcssl=%s' % ssl)
    lines += sim.subset(['# rpcuser=nobody', '## rpcpassword=x # y', 'server=1', 'daemon', '', '[main]', 'rpcallowip=127.0.0.1 # local', '#rpcport=1234', 'txindex=1',
                         'rpcthreads=4', 'alertnotify=echo a=b'], 40)
    lines = sim.shuffle(lines)
    return '\n'.join(x + sim.choice(('', '', ' ', ' # x', ' # x # y', '#')) for x in lines) + sim.choice(('\n', ''))


def run(sim):
    network = sim.choice(('mainnet', 'mainnet', 'testnet', 'regtest'))
    user = sim.choice(('user', 'bitcoinrpc', 'u', 'Ω'))
    password = sim.choice(PASSWORDS)
    how = sim.choice(('conf', 'conf', 'url'))
    port = sim.choice(PORTS)
    tls = sim.chance(25)
    param_port = sim.choice((None, None, 7000)) if how == 'conf' else None
    if how == 'url':
        if password not in ('pass', 'a:b', 'DonaldDuck', '1', 'p@ss'):
            password = 'pass'
        user = sim.choice(('user', 'bitcoinrpc'))
        # the default port of the scheme
        real = port or (443 if tls else 80)
    else:
        real = port or param_port or refs.NETWORKS[network][1]
    w = World(sim, network, tls, user, password, real)
    fund(w)
    decoys = [Node(sim, w.net, network, port=p) for p in (80, 443, 8332, 8333, 18332, 18333, 18443, 18444, 7000) if p != real]
    ssl = sim.choice(('1', 'true', 'True')) if tls else sim.choice((None, '0', 'false', 'False', None))
    path = sim.choice((None, None, '/w/other.conf')) if how == 'conf' else None
    if how == 'conf':
        text = conf_text(sim, user, password, port, ssl)
        if path:
            w.fs.put(path, text.encode('utf8'))
        else:
            if sim.chance(25):
                # where other operating systems keep it, besides a stray one
                if sim.chance(50):
                    w.conf(conf_text(sim, 'stray', 'x', 7000, None))
                w.system = sim.choice(('Darwin', 'Windows'))
            w.conf(text)
        sim.log('conf %r on %s', text, w.system)
    clients = []
    for k in range(sim.choice((1, 1, 2))):
        u = w.client()
        m = u('bitcoin.rpc')
        timeout = sim.choice((None, None, 30, 5, 60))
        kw = {} if timeout is None else {'timeout': timeout}
        if how == 'url':
            host = sim.choice(('localhost', '127.0.0.1'))
            kw['service_url'] = '%s://%s:%s@%s%s%s' % ('https' if tls else 'http', user, password, host, '' if port is None else ':%d' % port, sim.choice(('', '/')))
        else:
            if path:
                kw['btc_conf_file'] = path
            if param_port:
                kw['service_port'] = param_port
        cls = m.Proxy if sim.chance(60) else m.RawProxy
        if sim.chance(30):
            # the process has set up others before; nothing of theirs stays
            net2 = sim.choice(tuple(refs.NETWORKS))
            u('bitcoin').SelectParams(net2)
            for _ in range(sim.choice((1, 1, 2))):
                w.fs.put('/w/first.conf', conf_text(sim, 'first', 'y', sim.choice((None, None, 7000)), sim.choice((None, None, '0', '1'))).encode('utf8'))
                kw2 = sim.choice(({'btc_conf_file': '/w/first.conf'}, {'btc_conf_file': '/w/first.conf'}, {'service_url': 'http://x:y@localhost:7000'},
                                  {'btc_conf_file': '/w/first.conf', 'service_port': 7000}, {'btc_conf_file': '/w/first.conf', 'timeout': 1}))
                sim.choice((m.Proxy, m.RawProxy))(**kw2)
                sim.log('another client before: %s, %r', net2, kw2)
            u('bitcoin').SelectParams(network)
        if network != 'mainnet' and how == 'conf' and sim.chance(30):
            u('bitcoin').SelectParams('mainnet')
            u('bitcoin').SelectParams(network)
        clients.append((u, m, cls(**kw), timeout or 30))
        if sim.chance(20):
            # the network selected when the client is made counts
            u('bitcoin').SelectParams(network)
    session(sim, 'R03', w, clients, sim.choice((4, 7, 10, 16)))
    for d in decoys:
        sim.check(not d.seen and not d.unauthorized, 'wrong address', 'a client configured for port %d talks to another port', real)
    if sim.chance(20):
        broken(sim, network)


def broken(sim, network):
    """A configuration that says nothing or nonsense leads nowhere"""
    good = ['rpcuser=user', 'rpcpassword=pass']
    what = sim.choice(('missing', 'user', 'password', 'empty', 'ssl', 'port', 'commented'))
    lines = {'missing': None, 'user': good[1:], 'password': good[:1], 'empty': [], 'ssl': good + ['rpcssl=' + sim.choice(('2', 'yes', '-1', 'on', ''))],
             'port': good + ['rpcport=' + sim.choice(('x', '', '0x10', '8332;'))], 'commented': ['#' + good[0], '# ' + good[1]]}[what]
    w = World(sim, network)
    others = [Node(sim, w.net, network, port=p) for p in (80, 443, 8332, 18332, 18443) if p != refs.NETWORKS[network][1]]
    if lines is not None:
        w.conf('\n'.join(lines) + '\n')
    u = w.client('broken')
    m = u('bitcoin.rpc')
    try:
        (m.Proxy if sim.chance(50) else m.RawProxy)().getblockcount()
    except Exception as exc:
        sim.log('configuration without %s: %s', what, type(exc).__name__)
    else:
        sim.fail('wrong address', 'a call succeeds with a configuration that has a bad %s', what)
    sim.fault('bad configuration')
    for n in [w.node] + others:
        sim.check(not n.seen and not n.unauthorized, 'wrong address', 'a client with a bad configuration (%s) asks a node', what)
