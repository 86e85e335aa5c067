"""Command line: search, replay and determinism self test

  python3 -m dst.check C01 [--tier quick|thorough] [--runs N] [--jobs N]
  python3 -m dst.check C01 --replay FILE
  python3 -m dst.check C01 --digests N      (log digests of the first N runs)

Exit codes: 0 held on everything explored, 1 violation, 2 error of the check.
"""

import argparse
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import resource
import selectors
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import engine, known, universe

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT_TIMEOUT = 40.0
MEM_LIMIT = 3 << 30

DEFAULT_CAP = {'quick': 300.0, 'thorough': 3600.0}


def load_prop(pid):
    return importlib.import_module('dst.props.%s' % pid.lower())


def run_seed(seed, pid, index):
    return '%s/%s/%d' % (seed, pid, index)


class Alarm:
    """Wall clock guard against runs that don't terminate"""

    def __init__(self):
        signal.signal(signal.SIGALRM, self._fire)

    @staticmethod
    def _fire(signum, frame):
        raise engine.RunTimeout()

    def start(self, seconds):
        signal.setitimer(signal.ITIMER_REAL, seconds, 2.0)

    def stop(self):
        signal.setitimer(signal.ITIMER_REAL, 0)


def guarded(mod, pid, choices, tier, repo, index, alarm, timeout):
    try:
        alarm.start(timeout)
        try:
            return engine.execute(mod.run, pid, choices, tier, repo, index)
        finally:
            alarm.stop()
    except engine.RunTimeout:
        alarm.stop()
        o = engine.Outcome()
        for k in o.__slots__:
            setattr(o, k, None)
        o.index, o.status, o.kind, o.message = index, 'timeout', 'no-termination', 'the run does not terminate'
        o.record = list(choices.record)
        o.faults, o.probes, o.states, o.sim_time, o.events, o.known, o.info = {}, {}, set(), 0, [], [], {}
        o.digest = ''
        o.nontrivial = False
        return o


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def in_child(func, timeout):
    """Run func in a forked child; returns ('ok', result), ('died', signal) or ('timeout', None)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            limits()
            res = func()
            with os.fdopen(w, 'wb') as fd:
                pickle.dump(res, fd)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            os._exit(code)
    os.close(w)
    data = b''
    deadline = time.monotonic() + timeout
    sel = selectors.DefaultSelector()
    sel.register(r, selectors.EVENT_READ)
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if sel.select(left):
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            data += chunk
    sel.close()
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return 'timeout', None
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return 'died', os.WTERMSIG(status)
    if not data:
        raise engine.HarnessError('child ended with status %d and no result' % os.WEXITSTATUS(status))
    return 'ok', pickle.loads(data)


def worker(wid, jobs, cfg, mod, shared, wfd):
    """Runs indices wid, wid+jobs, ... and streams summaries to the parent"""
    limits()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    alarm = Alarm()
    out = os.fdopen(wfd, 'wb')
    batch = []
    states = set()

    def flush():
        nonlocal batch
        if batch:
            payload = pickle.dumps(batch)
            out.write(struct.pack('<I', len(payload)) + payload)
            out.flush()
            batch = []

    samples = 0
    last = time.monotonic()
    for index in range(wid, cfg['runs'], jobs):
        if shared[8 * jobs] != 0 or time.monotonic() > cfg['deadline']:
            break
        struct.pack_into('<q', shared, 8 * wid, index)
        if index // jobs % 16 == 15:
            gc.collect()
        ch = engine.Choices(run_seed(cfg['seed'], cfg['pid'], index))
        o = guarded(mod, cfg['pid'], ch, cfg['tier'], cfg['repo'], index, alarm, cfg['timeout'])
        new = o.states - states
        states |= new
        rec = {'index': index, 'status': o.status, 'kind': o.kind, 'message': o.message,
               'digest': o.digest[:16], 'faults': o.faults, 'probes': o.probes, 'states': list(new),
               'sim_time': o.sim_time, 'nontrivial': o.nontrivial, 'known': o.known, 'nchoices': len(o.record)}
        if o.status != 'ok':
            rec['record'] = o.record
            rec['tb'] = o.tb
        elif o.nontrivial and samples < 1 and wid < 3:
            samples += 1
            rec['sample'] = o.events[:60]
        batch.append(rec)
        if o.status != 'ok':
            flush()
            shared[8 * jobs] = 1
            if o.status == 'timeout':
                break
        elif len(batch) >= 50 or time.monotonic() - last > 1:
            flush()
            last = time.monotonic()
    struct.pack_into('<q', shared, 8 * wid, -1)
    flush()
    out.write(struct.pack('<I', 0xffffffff))
    out.flush()
    out.close()
    os._exit(0)


def search(cfg, mod):
    jobs = cfg['jobs']
    shared = mmap.mmap(-1, 8 * jobs + 8)
    pipes = {}
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for wid in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            for other in pipes:
                os.close(other)
            os.close(r)
            code = 4
            try:
                worker(wid, jobs, cfg, mod, shared, w)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        pipes[r] = wid
        pids[wid] = pid
    agg = {'runs': 0, 'digests': set(), 'faults': {}, 'probes': {}, 'states': set(), 'sim_time': 0.0,
           'nontrivial': set(), 'known': {}, 'samples': [], 'bad': [], 'fault_runs': 0, 'choices': 0}
    sel = selectors.DefaultSelector()
    bufs = {}
    finished = set()
    for r in pipes:
        sel.register(r, selectors.EVENT_READ)
        bufs[r] = b''
    hard = cfg['deadline'] + cfg['timeout'] + 30
    while bufs:
        if time.monotonic() > hard:
            for pid in pids.values():
                os.kill(pid, signal.SIGKILL)
            raise engine.HarnessError('workers did not stop')
        for key, _ in sel.select(1.0):
            r = key.fd
            chunk = os.read(r, 1 << 20)
            if not chunk:
                sel.unregister(r)
                os.close(r)
                del bufs[r]
                continue
            buf = bufs[r] + chunk
            while len(buf) >= 4:
                n, = struct.unpack('<I', buf[:4])
                if n == 0xffffffff:
                    finished.add(pipes[r])
                    buf = buf[4:]
                    continue
                if len(buf) < 4 + n:
                    break
                for rec in pickle.loads(buf[4:4 + n]):
                    absorb(agg, rec)
                buf = buf[4 + n:]
            bufs[r] = buf
    dead = []
    for wid, pid in pids.items():
        _, status = os.waitpid(pid, 0)
        if wid not in finished:
            index, = struct.unpack_from('<q', shared, 8 * wid)
            dead.append((wid, index, status))
    agg['dead'] = dead
    return agg


def absorb(agg, rec):
    agg['runs'] += 1
    agg['choices'] += rec['nchoices']
    agg['digests'].add(rec['digest'])
    if rec['nontrivial']:
        agg['nontrivial'].add(rec['digest'])
    for k, v in rec['faults'].items():
        agg['faults'][k] = agg['faults'].get(k, 0) + v
    if rec['faults']:
        agg['fault_runs'] += 1
    for k, v in rec['probes'].items():
        agg['probes'][k] = agg['probes'].get(k, 0) + v
    agg['states'].update(rec['states'])
    agg['sim_time'] += rec['sim_time']
    for ident, msg in rec['known']:
        agg['known'].setdefault(ident, msg)
    if 'sample' in rec and len(agg['samples']) < 3:
        agg['samples'].append({'run': rec['index'], 'events': rec['sample']})
    if rec['status'] != 'ok':
        agg['bad'].append(rec)


def shrink(cfg, mod, index, record, kind, budget, apart=False):
    """Minimise a failing choice sequence; runs in a child, and if apart every try in a child of its own"""
    alarm = Alarm()
    deadline = time.monotonic() + budget
    tries = 0
    best = list(record)

    def once(seq):
        def go():
            ch = engine.Choices(replay=seq)
            return guarded(mod, cfg['pid'], ch, cfg['tier'], cfg['repo'], index, alarm, 20).as_dict()
        if not apart:
            return go()
        return in_child(go, 60)[1]

    def attempt(seq):
        nonlocal tries, best
        if time.monotonic() > deadline:
            return False
        tries += 1
        if tries % 16 == 0:
            gc.collect()
        o = once(seq)
        if o and o['status'] == 'violation' and o['kind'] == kind:
            rec = list(o['record'])
            while rec and rec[-1] == 0:
                rec.pop()
            if len(rec) < len(best) or (len(rec) == len(best) and rec < best):
                best = rec
                return True
            # same failure, not simpler
            return False
        return False

    attempt(best)
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        # cut the tail
        n = len(best)
        cut = n // 2
        while cut >= 1 and time.monotonic() < deadline:
            if len(best) > cut and attempt(best[:len(best) - cut]):
                improved = True
            else:
                cut //= 2
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1 and time.monotonic() < deadline:
            i = 0
            while i < len(best) and time.monotonic() < deadline:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        # zero chunks, then lower single values
        size = max(1, len(best) // 4)
        while size >= 1 and time.monotonic() < deadline:
            i = 0
            while i < len(best) and time.monotonic() < deadline:
                if any(best[i:i + size]):
                    if attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                        improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if time.monotonic() > deadline:
                break
            while i < len(best) and best[i] > 0:
                v = best[i]
                for nv in (v // 2, v - 1):
                    if nv < v and attempt(best[:i] + [nv] + best[i + 1:]):
                        improved = True
                        break
                else:
                    break
    return best, tries, once(best)


def write_replay(cfg, index, doc):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-run%d.json' % (cfg['pid'], cfg['seed'], index))
    with open(path, 'w') as fd:
        json.dump(doc, fd, indent=1)
        fd.write('\n')
    return path


def replay_run(path, repo):
    """Replay a file; returns (status, kind, digest, events)"""
    with open(path) as fd:
        doc = json.load(fd)
    mod = load_prop(doc['property'])
    universe.prepare(repo)

    def go():
        alarm = Alarm()
        ch = engine.Choices(replay=doc['choices'])
        return guarded(mod, doc['property'], ch, doc['tier'], repo, doc['index'], alarm,
                       doc.get('timeout', DEFAULT_TIMEOUT)).as_dict()
    how, res = in_child(go, 300)
    if how == 'died':
        return 'violation', 'process-crash:%d' % res, '', [], doc, 'the process is killed by signal %d' % res
    if how == 'timeout' or res['status'] == 'timeout':
        return 'violation', 'no-termination', '', [], doc, 'the run does not terminate'
    return res['status'], res['kind'], res['digest'], res['events'], doc, res['message']


def cmd_replay(path, repo):
    status, kind, digest, events, doc, msg = replay_run(path, repo)
    for e in events:
        print('  ' + e)
    if status == 'violation':
        same = kind == doc['kind'] and (not doc['digest'] or digest == doc['digest'])
        print('%s %s: %s' % ('REPRODUCED exactly' if same else 'VIOLATED differently', kind, msg))
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    if status == 'error':
        print('ERROR %s' % msg)
        return 2
    print('no violation: the recorded execution does not violate the property here')
    return 0


def report(cfg, mod, rec):
    """Minimise, confirm in a fresh process, and report a violation; True if it stands"""
    index = rec['index']
    kind, message = rec['kind'], rec['message']
    budget = cfg['shrink']
    choices = list(rec.get('record') or [])
    # What a violation does may depend on what memory holds by chance (code that reads freed or foreign memory): if the minimised
    # execution doesn't repeat in a fresh process, minimise again with a process for each try, and else take the execution as it was found
    for how in ('together', 'apart', 'not') if rec['status'] == 'violation' else ('not',):
        doc = {'property': cfg['pid'], 'seed': cfg['seed'], 'tier': cfg['tier'], 'index': index,
               'kind': kind, 'message': message, 'original_choices': len(choices)}
        tries = 0
        if how != 'not':
            done, res = in_child(lambda: shrink(cfg, mod, index, choices, kind, budget, how == 'apart'), budget + 120)
            if done == 'ok':
                best, tries, o = res
                if o and o['status'] == 'violation':
                    doc.update(choices=best, digest=o['digest'], message=o['message'], kind=o['kind'],
                               trace=o['events'], faults=o['faults'], traceback=o['tb'])
            if 'choices' not in doc:
                continue
        else:
            doc.update(choices=choices, digest='', trace=[], faults={}, timeout=cfg['timeout'])
        doc['minimisation_runs'] = tries
        doc['minimised_choices'] = len(doc['choices'])
        path = write_replay(cfg, index, doc)
        env = dict(os.environ, DST_REPO=cfg['repo'])
        for _ in range(2):
            p = subprocess.run([sys.executable, '-m', 'dst.check', cfg['pid'], '--replay', path], cwd=ROOT, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            exact = 'REPRODUCED exactly' in p.stdout
            if p.returncode != 1:
                break
        if p.returncode == 1:
            break
    print('violated: %s: %s' % (doc['kind'], doc['message']))
    print('seed %s run %d; %d choices minimised to %d in %d runs; replay in a fresh process: %s' % (
        cfg['seed'], index, doc['original_choices'], doc['minimised_choices'], tries,
        'same violation, same event log' if exact else 'exit %d' % p.returncode))
    for e in doc['trace'][-40:]:
        print('  ' + e)
    if doc.get('traceback'):
        print(doc['traceback'])
    if p.returncode != 1:
        print('error: the violation did not replay: %s' % p.stdout[-2000:])
        return False
    print('VIOLATION property=%s replay=%s' % (cfg['pid'], path))
    return True


def evidence(cfg, mod, agg, wall, violations, status):
    runs = agg['runs']
    doc = {
        'property': cfg['pid'],
        'tier': cfg['tier'],
        'seed': cfg['seed_int'],
        'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(agg['nontrivial']),
            'rule': mod.RULE,
            'samples': agg['samples'],
            'exhaustive': False,
            'planned_runs': cfg['runs'],
            'truncated_by_time': runs < cfg['runs'] and not agg['bad'],
            'simulated_runs_per_hour': int(runs / wall * 3600) if wall else 0,
            'seeds_per_hour': int(runs / wall * 3600) if wall else 0,
            'simulated_seconds': round(agg['sim_time'], 3),
            'choices_drawn': agg['choices'],
            'faults_injected': dict(sorted(agg['faults'].items())),
            'runs_with_faults': agg['fault_runs'],
            'distinct_event_logs': len(agg['digests']),
            'distinct_states': len(agg['states']),
            'state_measure': mod.STATE,
            'probes': dict(sorted(agg['probes'].items())),
            'components_real': mod.REAL,
            'components_stubbed': mod.STUB,
            'outcome': status,
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(wall, 3),
        'violations': violations,
    }
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % cfg['pid'])
    tmp = path + '.tmp'
    with open(tmp, 'w') as fd:
        json.dump(doc, fd, indent=1)
        fd.write('\n')
    os.replace(tmp, path)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('DST_JOBS') or 0))
    ap.add_argument('--cap', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='print the event log of one run')
    ap.add_argument('--digests', type=int)
    ap.add_argument('--repo', default=os.environ.get('DST_REPO') or '/repo')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--first', action='store_true', help='only whether anything is found (for tools/mutate.py)')
    args = ap.parse_args(argv)
    start = time.monotonic()
    # finalizers run where references end, not whenever the collector likes
    gc.disable()
    pid = args.prop.upper()
    repo = os.path.abspath(args.repo)
    if args.replay:
        return cmd_replay(args.replay, repo)
    mod = load_prop(pid)
    universe.prepare(repo)
    tier = args.tier
    runs = args.runs if args.runs is not None else mod.RUNS[tier]
    try:
        seed_int = int(args.seed)
    except ValueError:
        seed_int = int.from_bytes(hashlib.sha256(args.seed.encode()).digest()[:4], 'big')
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    cap = args.cap or getattr(mod, 'CAP', DEFAULT_CAP)[tier]
    cfg = {'pid': pid, 'seed': args.seed, 'seed_int': seed_int, 'tier': tier, 'runs': runs, 'jobs': jobs,
           'repo': repo, 'timeout': getattr(mod, 'TIMEOUT', DEFAULT_TIMEOUT), 'deadline': start + cap,
           'shrink': 25.0 if tier == 'quick' else 120.0}

    if args.digests is not None:
        alarm = Alarm()
        for index in range(args.digests):
            ch = engine.Choices(run_seed(cfg['seed'], pid, index))
            o = guarded(mod, pid, ch, tier, repo, index, alarm, cfg['timeout'])
            print(index, o.status, o.kind, o.digest)
        return 0
    if args.one is not None:
        alarm = Alarm()
        ch = engine.Choices(run_seed(cfg['seed'], pid, args.one))
        o = guarded(mod, pid, ch, tier, repo, args.one, alarm, cfg['timeout'])
        for e in o.events:
            print('  ' + e)
        print(o.status, o.kind, o.message, o.digest, o.faults, o.probes)
        if o.tb:
            print(o.tb)
        return 0 if o.status == 'ok' else 1

    agg = search(cfg, mod)
    wall = time.monotonic() - start
    if args.first:
        print('FOUND %s' % [(r['status'], r['kind'], r['message'][:200]) for r in agg['bad']][:1] if agg['bad'] or agg['dead'] else 'nothing in %d runs' % agg['runs'])
        return 3 if agg['bad'] or agg['dead'] else 0

    # Workers that died or hung: does the run do that again on its own?
    for wid, index, status in agg['dead']:
        if index < 0 or not os.WIFSIGNALED(status):
            raise engine.HarnessError('worker %d ended with status %d' % (wid, status))

        def again():
            alarm = Alarm()
            ch = engine.Choices(run_seed(cfg['seed'], pid, index))
            return guarded(mod, pid, ch, tier, repo, index, alarm, cfg['timeout']).as_dict()
        how, res = in_child(again, cfg['timeout'] + 60)
        # the choices of a run that kills its process are those of its seed
        if how == 'died':
            rng = engine.Choices(run_seed(cfg['seed'], pid, index))
            agg['bad'].append({'index': index, 'status': 'died', 'kind': 'process-crash:%d' % res,
                               'message': 'the process is killed by signal %d' % res, 'record': None,
                               'seedrun': True})
        elif how == 'ok' and res['status'] != 'ok':
            agg['bad'].append(res)
        else:
            raise engine.HarnessError('worker %d died in run %d, which passes on its own' % (wid, index))

    bad = sorted(agg['bad'], key=lambda r: (r['status'] == 'error', r['status'] == 'timeout', r['index']))
    violated = False
    error = None
    for rec in bad:
        if rec['status'] == 'error':
            error = rec
            continue
        if rec['status'] == 'timeout':
            # again, alone, with twice the time
            def again():
                alarm = Alarm()
                ch = engine.Choices(run_seed(cfg['seed'], pid, rec['index']))
                return guarded(mod, pid, ch, tier, repo, rec['index'], alarm, 2 * cfg['timeout']).as_dict()
            how, res = in_child(again, 2 * cfg['timeout'] + 60)
            if how == 'ok' and res['status'] == 'ok':
                continue
            if how == 'ok' and res['status'] == 'error':
                error = res
                continue
            if how == 'ok' and res['status'] == 'violation':
                rec = res
        if rec.get('seedrun'):
            violated = report_crash(cfg, rec)
        else:
            violated = report(cfg, mod, rec)
        if violated:
            break
        error = rec
    if not args.no_evidence:
        evidence(cfg, mod, agg, time.monotonic() - start, 1 if violated else 0,
                 'violated' if violated else 'error' if error else 'held')
    for ident, msg in sorted(agg['known'].items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, known.what(pid, ident) or msg))
    if violated:
        return 1
    if error:
        print('error of the check in run %s: %s' % (error.get('index'), error.get('message')))
        print(error.get('tb') or '')
        return 2
    print('%s held: %d runs (%d distinct, %d nontrivial, %d states), %d faults of %d kinds, %.0f simulated s, %.1f s' % (
        pid, agg['runs'], len(agg['digests']), len(agg['nontrivial']), len(agg['states']),
        sum(agg['faults'].values()), len(agg['faults']), agg['sim_time'], time.monotonic() - start))
    return 0


def report_crash(cfg, rec):
    """A run that kills its process: the replay file holds the seed's choices up to the crash"""
    # Record the choices in a child that writes them out as it draws them.
    path = os.path.join(ROOT, 'replays')
    os.makedirs(path, exist_ok=True)
    mod = load_prop(cfg['pid'])
    tmp = os.path.join(path, '.%s-%d.choices' % (cfg['pid'], os.getpid()))

    class Tee(engine.Choices):
        def below(self, n):
            v = super().below(n)
            if n > 1:
                os.write(fd, b'%d\n' % v)
            return v
    fd = os.open(tmp, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)

    def go():
        alarm = Alarm()
        ch = Tee(run_seed(cfg['seed'], cfg['pid'], rec['index']))
        guarded(mod, cfg['pid'], ch, cfg['tier'], cfg['repo'], rec['index'], alarm, cfg['timeout'])
    in_child(go, cfg['timeout'] + 60)
    os.close(fd)
    with open(tmp) as f:
        rec['record'] = [int(line) for line in f]
    os.unlink(tmp)
    return report(cfg, mod, rec)


if __name__ == '__main__':
    try:
        code = main()
    except engine.HarnessError as exc:
        print('error of the check: %s' % exc)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
