"""Deterministic simulation engine.

One run of a scenario is a pure function of (code under test, property, choice
sequence).  In search mode the choice sequence is drawn from one PRNG that is
initialised from (VERIF_SEED, property, run index); in replay and minimisation
mode it is read back from a list.  A value of 0 always stands for the simplest
alternative, and a sequence that ends early goes on with zeros, so that any
list of integers is a valid execution.
"""

import hashlib
import random
import traceback


class Violation(Exception):
    """The property does not hold in this execution"""

    def __init__(self, kind, message):
        super().__init__('%s: %s' % (kind, message))
        self.kind = kind
        self.message = message


class KnownFinding(Exception):
    """Carries the identity of a violation that is listed as known"""


class HarnessError(Exception):
    """The simulator, not the code under test, is at fault"""


class RunTimeout(BaseException):
    """Wall clock guard of a single run; never caught by scenarios"""


class SimInterrupt(KeyboardInterrupt):
    """A signal to a simulated process"""


class SimCrash(BaseException):
    """The simulated process died at this instant"""


class Choices:
    """Source of all nondeterminism of a run"""

    LIMIT = 400000

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.record = []

    def below(self, n):
        """An integer in [0, n)"""
        if n <= 1:
            return 0
        pos = len(self.record)
        if self.rng is not None:
            v = self.rng.randrange(n)
        elif pos < len(self.replay):
            v = self.replay[pos]
            if v >= n:
                v %= n
        else:
            v = 0
        self.record.append(v)
        if pos > self.LIMIT:
            raise HarnessError('run draws too many choices')
        return v


class Sim:
    """Context of one run: choices, event log, coverage and oracles"""

    def __init__(self, prop, choices, tier='quick', repo='/repo', index=0):
        self.prop = prop
        self.choices = choices
        self.tier = tier
        self.repo = repo
        self.index = index
        self.events = []
        self._digest = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_time = 0.0
        self.nontrivial = False
        self.known_hits = []
        self.quiet = False
        self.info = {}

    # -- choices ---------------------------------------------------------

    def below(self, n):
        return self.choices.below(n)

    def between(self, a, b):
        """An integer in [a, b]"""
        return a + self.choices.below(b - a + 1)

    def choice(self, seq):
        return seq[self.choices.below(len(seq))]

    def chance(self, num, den=100):
        """True with probability num/den; 0 (the simplest) is False"""
        if num <= 0:
            return False
        if num >= den:
            return True
        return self.choices.below(den) >= den - num

    def weighted(self, *pairs):
        """Choose among (weight, value) pairs"""
        total = sum(w for w, _ in pairs)
        v = self.choices.below(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def bytes(self, n):
        """n bytes that a single choice decides"""
        s = self.choices.below(1 << 32)
        if s == 0:
            return b'\x00' * n
        if s < 256:
            return bytes([s]) * n
        out = b''
        i = 0
        while len(out) < n:
            out += hashlib.sha256(b'%d/%d' % (s, i)).digest()
            i += 1
        return out[:n]

    def sample(self, seq, k):
        pool = list(seq)
        out = []
        for _ in range(min(k, len(pool))):
            out.append(pool.pop(self.choices.below(len(pool))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def subset(self, seq, num=50, den=100):
        return [x for x in seq if self.chance(num, den)]

    def size(self, *sizes):
        """A boundary-biased size"""
        v = self.choice(sizes)
        return v

    # -- recording -------------------------------------------------------

    def log(self, fmt, *args):
        if args:
            fmt = fmt % args
        self._digest.update(fmt.encode('utf8', 'backslashreplace') + b'\n')
        if len(self.events) < 4000:
            self.events.append(fmt)

    def digest(self):
        return self._digest.hexdigest()

    def fault(self, kind, n=1):
        """An injected fault really fired"""
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log('FAULT %s', kind)

    def probe(self, name, n=1):
        """A rare condition was reached"""
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        """A distinct state was reached"""
        h = hashlib.blake2b(repr(key).encode('utf8', 'backslashreplace'), digest_size=8).digest()
        self.states.add(int.from_bytes(h, 'big'))

    def elapse(self, t):
        self.sim_time += t

    # -- oracles ---------------------------------------------------------

    def check(self, cond, kind, fmt='', *args):
        if not cond:
            self.fail(kind, fmt, *args)

    def fail(self, kind, fmt='', *args):
        msg = fmt % args if args else fmt
        self.log('VIOLATED %s %s', kind, msg)
        raise Violation(kind, msg)

    def known(self, ident, fmt='', *args):
        """A violation that known_findings.json lists

        Must be identified by the specific input, call site or history.
        Unless it's listed, it's a violation as any other.
        """
        from . import known
        msg = fmt % args if args else fmt
        self.log('KNOWN %s', ident)
        if known.listed(self.prop, ident):
            self.known_hits.append((ident, msg))
        else:
            raise Violation('known:' + ident, msg)


class Outcome:
    """What one run ended with; picklable as plain data"""

    __slots__ = ('index', 'status', 'kind', 'message', 'digest', 'record', 'faults',
                 'probes', 'states', 'sim_time', 'nontrivial', 'events', 'known', 'tb', 'info')

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


def classify(exc, repo):
    """Turn an unexpected exception into (status, kind, message)

    Scenarios catch the exceptions that they allow.  Anything else that was
    raised inside the code under test, or by the scenario because of what the
    code under test returned, is a deviation from what the property says;
    trouble with the machine or the simulator itself is not.
    """
    tb = traceback.extract_tb(exc.__traceback__)
    in_repo = any(f.filename.startswith(repo.rstrip('/') + '/') for f in tb)
    where = ''
    for f in tb:
        if f.filename.startswith(repo.rstrip('/') + '/'):
            where = f.filename[len(repo.rstrip('/')) + 1:]
    if isinstance(exc, HarnessError):
        return 'error', 'harness', str(exc)
    if in_repo:
        return 'violation', 'unexpected-exception:%s' % type(exc).__name__, '%s: %s (in %s)' % (
            type(exc).__name__, exc, where)
    if isinstance(exc, (AttributeError, TypeError, KeyError, IndexError, ValueError,
                        AssertionError, UnicodeError, ArithmeticError, LookupError, StopIteration)):
        last = tb[-1] if tb else None
        return 'violation', 'unexpected-result:%s' % type(exc).__name__, '%s: %s (scenario %s:%s)' % (
            type(exc).__name__, exc, last and last.filename.rsplit('/', 1)[-1], last and last.lineno)
    return 'error', 'harness', '%s: %s' % (type(exc).__name__, exc)


def execute(scenario, prop, choices, tier, repo, index=0):
    """Run a scenario once and describe the outcome"""
    sim = Sim(prop, choices, tier, repo, index)
    o = Outcome()
    o.index = index
    o.kind = o.message = o.tb = None
    o.status = 'ok'
    try:
        scenario(sim)
    except Violation as v:
        o.status, o.kind, o.message = 'violation', v.kind, v.message
    except RunTimeout:
        o.status, o.kind, o.message = 'timeout', 'no-termination', 'the run does not terminate'
    except SimCrash as exc:
        o.status, o.kind, o.message = 'error', 'harness', 'uncaught SimCrash %s' % exc
        o.tb = traceback.format_exc()
    except RecursionError as exc:
        o.status, o.kind, o.message = 'violation', 'unexpected-exception:RecursionError', str(exc)[:200]
        sim.log('EXC RecursionError')
    except MemoryError as exc:
        o.status, o.kind, o.message = 'violation', 'unexpected-exception:MemoryError', 'memory limit of the simulation exceeded'
        sim.log('EXC MemoryError')
    except BaseException as exc:
        if isinstance(exc, KeyboardInterrupt) and not isinstance(exc, SimInterrupt):
            raise
        o.status, o.kind, o.message = classify(exc, repo)
        sim.log('EXC %s %s', o.kind, type(exc).__name__)
        o.tb = traceback.format_exc()
    o.digest = sim.digest()
    o.record = sim.choices.record
    o.faults = sim.faults
    o.probes = sim.probes
    o.states = sim.states
    o.sim_time = sim.sim_time
    o.nontrivial = sim.nontrivial
    o.known = sim.known_hits
    o.events = sim.events
    o.info = sim.info
    return o
