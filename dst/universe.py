"""Simulated processes: private copies of the code under test behind seams

A Universe is what one operating system process would have in memory: its own
instances of every module of the repository (and of those stdlib modules that
carry state or touch the outside world), executed from the current working
tree, with a private builtins dict.  The import statement inside of it hands
out stand-ins for everything nondeterministic: clocks, randomness, files,
sockets, threads, the terminal.  A restart of the process is a new Universe;
only what is in the simulated file system survives.
"""

import builtins
import ctypes
import ctypes.util
import errno
import io
import os
import random as _random
import sys
import threading as _threading
import time as _time
import types
import warnings

from .engine import HarnessError, SimCrash, RunTimeout
from . import simfs

TOP = ('bitcoin', 'proofmarshal', 'proofchains')

# Stdlib modules executed privately, so that their state is per process and
# their own use of files, sockets and clocks goes through the seams too.
PRIVATE = ('argparse', 'logging', 'http.client', 'posixpath', 'genericpath', 'pathlib', 'tempfile',
           'queue', 'fileinput')

_code = {}
_paths = {}
_repo = None
_libs = {}


def _roots(repo):
    return [repo, os.path.join(repo, 'lib', 'python-bitcoinlib'), os.path.join(repo, 'lib', 'python-proofmarshal')]


def _compile(path):
    code = _code.get(path)
    if code is None:
        with open(path, 'rb') as fd:
            src = fd.read()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = compile(src, path, 'exec', dont_inherit=True)
        except SyntaxError as exc:
            raise HarnessError('%s does not compile: %s' % (path, exc))
        _code[path] = code
    return code


def _locate(repo, name):
    """(path, is_package) of a module of the code under test, or None"""
    key = (repo, name)
    if key in _paths:
        return _paths[key]
    parts = name.split('.')
    r = None
    for root in _roots(repo):
        if not os.path.isdir(os.path.join(root, parts[0])):
            continue
        base = os.path.join(root, *parts)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            r = (os.path.join(base, '__init__.py'), True)
        elif os.path.isfile(base + '.py'):
            r = (base + '.py', False)
        elif os.path.isdir(base):
            r = (base, None)    # namespace package
        break
    _paths[key] = r
    return r


def _stdlib_path(name):
    import importlib.util
    key = ('stdlib', name)
    if key not in _paths:
        spec = importlib.util.find_spec(name)
        origin = spec.origin
        if not os.path.isfile(origin):      # frozen
            origin = os.path.join(os.path.dirname(os.__file__), *name.split('.')) + '.py'
        _paths[key] = (origin, spec.submodule_search_locations is not None)
    return _paths[key]


def prepare(repo):
    """Compile the code under test once, before the workers are forked"""
    global _repo
    _repo = repo
    n = 0
    for top in TOP:
        loc = _locate(repo, top)
        if loc is None:
            raise HarnessError('package %s not found in %s' % (top, repo))
        base = os.path.dirname(loc[0])
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('test', 'tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    _compile(os.path.join(d, f))
                    n += 1
    _compile(os.path.join(repo, 'sus-tool.py'))
    for name in PRIVATE:
        _compile(_stdlib_path(name)[0])
    for lib in ('ssl', 'crypto'):
        _libs[lib] = ctypes.util.find_library(lib)
    import http.client, ssl, email.parser, email.message, urllib.parse, json, decimal, json.decoder, encodings.idna  # noqa
    import logging, traceback, datetime, uuid, hashlib, base64, platform, stringprep  # noqa
    platform.system()
    platform.machine()
    return n


class Exit:
    def __init__(self, status, how, exc=None):
        self.status = status
        self.how = how      # 'exit', 'exception', 'crash'
        self.exc = exc

    def __repr__(self):
        return 'Exit(%r, %s%s)' % (self.status, self.how, ', %s' % type(self.exc).__name__ if self.exc else '')


class Process:
    """Identity of a simulated process for the file system"""

    def __init__(self, name):
        self.name = name
        self.dead = False
        self.files = []


class Universe:
    def __init__(self, sim, name='p', fs=None, net=None, clock=None, argv=('prog',), env=None, sched=None,
                 cwd='/w', stdout=None, stderr=None):
        self.sim = sim
        self.name = name
        self.repo = sim.repo
        self.fs = fs if fs is not None else simfs.FS(sim)
        self.net = net
        self.clock = clock if clock is not None else Clock(sim)
        self.sched = sched
        self.cwd = cwd
        self.system = 'Linux'   # what platform.system() says
        self.env = dict(env or {'HOME': '/home/user', 'PATH': '/bin', 'LANG': 'C.UTF-8'})
        self.proc = Process(name)
        self.modules = {}
        self._entropy = None
        self._urandom_n = 0
        self.urandom_hook = None
        self.atexit = []
        self.argv = list(argv)
        self._make_std(stdout, stderr)
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self._import
        self.builtins['open'] = self.open
        self.builtins['print'] = self._print
        self.builtins['input'] = self._input
        self.builtins['exit'] = self.builtins['quit'] = self._exit
        self._shims = {}

    # -- entropy ---------------------------------------------------------

    def urandom(self, n):
        import hashlib
        if self.urandom_hook is not None:
            self.urandom_hook(n)
        if self._entropy is None:
            self._entropy = self.sim.below(1 << 32)
        self._urandom_n += 1
        out = b''
        i = 0
        while len(out) < n:
            out += hashlib.sha256(('%d/%s/%d/%d' % (self._entropy, self.name, self._urandom_n, i)).encode()).digest()
            i += 1
        return out[:n]

    # -- std streams -----------------------------------------------------

    def _make_std(self, stdout, stderr):
        self.out_raw = stdout if stdout is not None else simfs.SinkRaw(self, 'stdout')
        self.err_raw = stderr if stderr is not None else simfs.SinkRaw(self, 'stderr')
        self.stdout = io.TextIOWrapper(io.BufferedWriter(self.out_raw, 8192), 'utf-8', 'strict', newline='\n')
        self.stderr = io.TextIOWrapper(io.BufferedWriter(self.err_raw, 8192), 'utf-8', 'backslashreplace',
                                       newline='\n', line_buffering=True, write_through=True)
        self.stdin = io.TextIOWrapper(io.BytesIO(b''), 'utf-8')

    def _print(self, *args, sep=' ', end='\n', file=None, flush=False):
        if file is None:
            file = self.module('sys').stdout
            if file is None:
                return
        file.write((' ' if sep is None else sep).join(str(a) for a in args) + ('\n' if end is None else end))
        if flush:
            file.flush()

    def _input(self, prompt=''):
        raise EOFError

    def _exit(self, code=None):
        raise SystemExit(code)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        return simfs.sim_open(self, file, mode, buffering, encoding, errors, newline, closefd, opener)

    # -- imports ---------------------------------------------------------

    def module(self, name):
        """A module as the code inside of this process would import it"""
        self._import(name, None, None, ('*',), 0)
        return self.modules[name]

    __call__ = module

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__')
            if pkg is None:
                pkg = globals['__name__']
                if '__path__' not in globals:
                    pkg = pkg.rpartition('.')[0]
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:1 - level]
            name = '.'.join(parts) + ('.' + name if name else '')
        top = name.partition('.')[0]
        if top not in TOP and not self._is_shimmed(name):
            if level:
                # relative import of a private stdlib module
                return builtins.__import__(name, None, None, fromlist, 0)
            m = builtins.__import__(name, None, None, fromlist, 0)
            self.modules.setdefault(name, sys.modules[name])
            return m
        mod = self._load(name)
        if fromlist:
            if top in TOP:
                for n in fromlist:
                    if n != '*' and not hasattr(mod, n):
                        try:
                            self._load(name + '.' + n)
                        except ModuleNotFoundError:
                            pass
            elif name in ('http', 'os'):
                for n in fromlist:
                    if n != '*' and self._is_shimmed(name + '.' + n):
                        self._load(name + '.' + n)
            return mod
        return self._load(top)

    def _is_shimmed(self, name):
        return name in PRIVATE or name in SHIMS or name == 'http'

    def _load(self, name):
        mod = self.modules.get(name)
        if mod is not None and (name in self._shims or name.partition('.')[0] in TOP):
            return mod
        parent, _, last = name.rpartition('.')
        if parent:
            self._load(parent)
            if name in self.modules and (name in self._shims or name.partition('.')[0] in TOP):
                return self.modules[name]
        if name.partition('.')[0] in TOP:
            mod = self._load_repo(name)
        elif name in SHIMS:
            self._shims[name] = True
            mod = SHIMS[name](self)
            self.modules[name] = mod
        elif name in PRIVATE:
            self._shims[name] = True
            mod = self._load_private(name)
        elif name == 'http':
            self._shims[name] = True
            import http
            mod = _copy(http)
            self.modules[name] = mod
        else:
            mod = builtins.__import__(name, None, None, ('*',), 0)
            self.modules[name] = mod
        if parent and parent in self.modules and self.modules[parent] is not sys.modules.get(parent):
            setattr(self.modules[parent], last, mod)
        return mod

    def _load_repo(self, name):
        loc = _locate(self.repo, name)
        if loc is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        path, is_pkg = loc
        mod = types.ModuleType(name)
        d = mod.__dict__
        d['__builtins__'] = self.builtins
        d['__file__'] = path
        if is_pkg is None:
            d['__path__'] = [path]
            d['__package__'] = name
            self.modules[name] = mod
            return mod
        if is_pkg:
            d['__path__'] = [os.path.dirname(path)]
            d['__package__'] = name
        else:
            d['__package__'] = name.rpartition('.')[0]
        self.modules[name] = mod
        try:
            exec(_compile(path), d)
        except BaseException:
            del self.modules[name]
            raise
        return mod

    def _load_private(self, name):
        path, is_pkg = _stdlib_path(name)
        mod = types.ModuleType(name)
        d = mod.__dict__
        d['__builtins__'] = self.builtins
        d['__file__'] = path
        d['__package__'] = name if is_pkg else name.rpartition('.')[0]
        if is_pkg:
            d['__path__'] = [os.path.dirname(path)]
        self.modules[name] = mod
        exec(_compile(path), d)
        return mod

    # -- running a program ----------------------------------------------

    def run_main(self, path, argv):
        """Run a script as the process's main program; returns an Exit"""
        self.argv = list(argv)
        self.module('sys').argv = self.argv
        mod = types.ModuleType('__main__')
        d = mod.__dict__
        d['__builtins__'] = self.builtins
        d['__file__'] = path
        d['__name__'] = '__main__'
        self.modules['__main__'] = mod
        try:
            exec(_compile(path), d)
            ex = Exit(0, 'exit')
        except SystemExit as exc:
            code = exc.code
            if code is None:
                ex = Exit(0, 'exit')
            elif isinstance(code, int):
                ex = Exit(code & 0xff, 'exit')
            else:
                self._quiet_err('%s\n' % (code,))
                ex = Exit(1, 'exit')
        except SimCrash:
            self.kill()
            return Exit(None, 'crash')
        except (RunTimeout, HarnessError):
            raise
        except BaseException as exc:
            self._quiet_err('Traceback (most recent call last):\n%s: %s\n' % (type(exc).__name__, exc))
            ex = Exit(1, 'exception', exc)
        # the frames of the script keep files alive until here
        if ex.exc is not None:
            ex.exc.__traceback__ = None
            ex.exc.__context__ = ex.exc.__cause__ = None
        try:
            for f, a, k in reversed(self.atexit):
                try:
                    f(*a, **k)
                except SimCrash:
                    raise
                except Exception as exc:
                    self._quiet_err('Exception ignored in atexit callback: %s\n' % exc)
            # Interpreter finalization: the std streams are flushed, then
            # remaining file objects are closed with errors ignored.
            for s in (self.stdout, self.stderr):
                try:
                    if not s.closed:
                        s.flush()
                except OSError as exc:
                    if s is self.stdout:
                        ex.status = 120
                        self._quiet_err('Exception ignored in: <stdout>\nOSError: %s\n' % exc)
                except ValueError:
                    pass
            self.end_files()
        except SimCrash:
            self.kill()
            return Exit(None, 'crash')
        if self.proc.dead:
            return Exit(None, 'crash')
        self.proc.dead = True
        return ex

    def end_files(self):
        for wrap in list(self.proc.files):
            f = wrap()
            if f is not None:
                try:
                    f.close()
                except (OSError, ValueError):
                    pass

    def _quiet_err(self, s):
        try:
            self.stderr.write(s)
            self.stderr.flush()
        except (OSError, ValueError):
            pass

    def kill(self):
        """The process is gone; whatever it had buffered is lost"""
        self.proc.dead = True

    def out_text(self):
        return bytes(self.out_raw.data).decode('utf8', 'backslashreplace')

    def err_text(self):
        return bytes(self.err_raw.data).decode('utf8', 'backslashreplace')


class Clock:
    """Simulated time of one machine: true time plus skew"""

    def __init__(self, sim, start=1441843200.0):
        self.sim = sim
        self.now = start
        self.skew = 0.0
        self.mono = 1000.0

    def time(self):
        return self.now + self.skew

    def monotonic(self):
        return self.mono

    def advance(self, dt):
        if dt < 0:
            raise HarnessError('time goes backwards')
        self.now += dt
        self.mono += dt
        self.sim.elapse(dt)


# -- stand-ins for stdlib modules ------------------------------------------

def _copy(real, **over):
    m = types.ModuleType(real.__name__)
    d = dict(real.__dict__)
    d.pop('__spec__', None)
    d.pop('__loader__', None)
    m.__dict__.update(d)
    m.__dict__.update(over)
    return m


def _shim_time(u):
    c = u.clock

    def conv(f):
        return lambda secs=None: f(c.time() if secs is None else secs)
    return _copy(_time, time=lambda: c.time(), time_ns=lambda: int(c.time() * 10 ** 9),
                 monotonic=lambda: c.monotonic(), monotonic_ns=lambda: int(c.monotonic() * 10 ** 9),
                 perf_counter=lambda: c.monotonic(), perf_counter_ns=lambda: int(c.monotonic() * 10 ** 9),
                 process_time=lambda: c.monotonic(), sleep=lambda s: c.advance(s),
                 clock_gettime=lambda k: c.time() if k == 0 else c.monotonic(),
                 gmtime=conv(_time.gmtime), localtime=conv(_time.gmtime), ctime=conv(
                     lambda s: _time.asctime(_time.gmtime(s))),
                 strftime=lambda fmt, t=None: _time.strftime(fmt, _time.gmtime(c.time()) if t is None else t))


def _shim_datetime(u):
    import datetime as real
    c = u.clock

    class datetime(real.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(c.time(), tz if tz is not None else None) if tz else cls.utcfromtimestamp(c.time())

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(c.time())

        @classmethod
        def today(cls):
            return cls.utcfromtimestamp(c.time())
    return _copy(real, datetime=datetime)


def _shim_random(u):
    inst = []

    class Random(_random.Random):
        def __init__(self, x=None):
            if x is None:
                x = int.from_bytes(u.urandom(16), 'big')
            super().__init__(x)

    class SystemRandom(_random.SystemRandom):
        def random(self):
            return (int.from_bytes(u.urandom(7), 'big') >> 3) * 2 ** -53

        def getrandbits(self, k):
            n = (k + 7) // 8
            return int.from_bytes(u.urandom(n), 'big') >> (n * 8 - k)

    def get():
        if not inst:
            inst.append(Random())
        return inst[0]

    over = {'Random': Random, 'SystemRandom': SystemRandom}
    for n in ('random', 'getrandbits', 'randrange', 'randint', 'choice', 'choices', 'shuffle', 'sample', 'uniform',
              'seed', 'getstate', 'setstate', 'gauss', 'randbytes', 'triangular', 'betavariate', 'expovariate'):
        over[n] = (lambda n: lambda *a, **k: getattr(get(), n)(*a, **k))(n)
    return _copy(_random, **over)


def _shim_secrets(u):
    import secrets
    r = u._load('random').SystemRandom()
    return _copy(secrets, token_bytes=lambda n=32: u.urandom(n or 32), token_hex=lambda n=32: u.urandom(n or 32).hex(),
                 randbits=r.getrandbits, choice=r.choice, SystemRandom=u._load('random').SystemRandom,
                 randbelow=lambda n: r.randrange(n))


def _shim_sys(u):
    return _copy(sys, argv=u.argv, stdout=u.stdout, stderr=u.stderr, stdin=u.stdin, __stdout__=u.stdout,
                 __stderr__=u.stderr, modules=u.modules)


def _shim_io(u):
    return _copy(io, open=u.open, open_code=lambda p: u.open(p, 'rb'))


def _shim_codecs(u):
    import codecs

    def copen(filename, mode='r', encoding=None, errors='strict', buffering=-1):
        if encoding is not None and 'b' not in mode:
            return u.open(filename, mode, buffering, encoding, errors)
        return u.open(filename, mode, buffering)
    return _copy(codecs, open=copen)


def _shim_builtins(u):
    m = types.ModuleType('builtins')
    m.__dict__.update(u.builtins)
    return m


def _shim_os(u):
    m = _copy(os)
    m.__dict__.update(simfs.os_functions(u))
    m.environ = u.env
    m.getenv = lambda k, d=None: u.env.get(k, d)
    m.urandom = u.urandom
    m.getrandom = lambda n, flags=0: u.urandom(n)
    m.getpid = lambda: 4242
    m.register_at_fork = lambda **k: None
    m.isatty = lambda fd: False
    m.get_terminal_size = lambda *a: os.terminal_size((80, 24))

    def stop(*a, **k):
        raise HarnessError('the code under test uses an operating system call that is not simulated')
    for n in ('fork', 'execv', 'execve', 'kill', 'system', 'popen', 'posix_spawn', 'chmod', 'chown', 'symlink',
              'truncate', 'setuid', 'mkfifo', 'sendfile', 'rmdir', 'removedirs', 'walk', 'mknod'):
        if hasattr(m, n) and n not in simfs.OS_NAMES:
            setattr(m, n, stop)

    def _exit(code):
        raise HarnessError('os._exit')
    m._exit = _exit
    u.modules['os'] = m
    u.modules['posix'] = m
    u._shims['os'] = True
    m.path = u._load('posixpath')
    u.modules['os.path'] = m.path
    u._shims['os.path'] = True
    return m


def _shim_os_path(u):
    return u._load('os').path


def _shim_shutil(u):
    import shutil
    osm = u._load('os')

    def copyfileobj(src, dst, length=65536):
        while True:
            b = src.read(length)
            if not b:
                break
            dst.write(b)

    def move(a, b):
        osm.rename(a, b)
        return b

    def copyfile(a, b, **k):
        with u.open(a, 'rb') as f, u.open(b, 'wb') as g:
            copyfileobj(f, g)
        return b
    return _copy(shutil, get_terminal_size=lambda fallback=(80, 24): os.terminal_size((80, 24)),
                 copyfileobj=copyfileobj, move=move, copyfile=copyfile, copy=copyfile, copy2=copyfile)


def _shim_gettext(u):
    import gettext
    return _copy(gettext, gettext=lambda s: s, ngettext=lambda a, b, n: a if n == 1 else b)


def _shim_atexit(u):
    import atexit

    def register(f, *a, **k):
        u.atexit.append((f, a, k))
        return f
    return _copy(atexit, register=register, unregister=lambda f: None)


def _shim_threading(u):
    from . import sched
    return sched.threading_module(u)


def _shim__thread(u):
    import _thread
    t = u._load('threading')
    return _copy(_thread, allocate_lock=t.Lock, RLock=t.RLock, get_ident=t.get_ident)


def _shim_socket(u):
    from . import simnet
    return simnet.socket_module(u)


def _shim_ssl(u):
    from . import simnet
    return simnet.ssl_module(u)


def _shim_select(u):
    import select

    def stop(*a, **k):
        raise HarnessError('the code under test uses an operating system call that is not simulated')
    return _copy(select, select=stop, poll=stop)


def _shim_ctypes(u):
    m = _copy(ctypes)
    m.util = _copy(ctypes.util, find_library=_find_library)
    u.modules['ctypes'] = m
    u._shims['ctypes'] = True
    u.modules['ctypes.util'] = m.util
    u._shims['ctypes.util'] = True

    # A fresh CDLL object per process: restype and errcheck are set on it
    class Loader:
        def LoadLibrary(self, name):
            return ctypes.CDLL(name)

        def __getattr__(self, name):
            return ctypes.CDLL(name)
    m.cdll = Loader()
    return m


def _shim_ctypes_util(u):
    return u._load('ctypes').util


def _find_library(name):
    if name not in _libs:
        _libs[name] = ctypes.util.find_library(name)
    return _libs[name]


def _shim_platform(u):
    import platform
    return _copy(platform, system=lambda: u.system, node=lambda: 'sim')


def _shim_uuid(u):
    import uuid
    return _copy(uuid, uuid4=lambda: uuid.UUID(bytes=u.urandom(16), version=4),
                 uuid1=lambda *a: uuid.UUID(bytes=u.urandom(16), version=1), getnode=lambda: 1)


SHIMS = {
    'time': _shim_time, 'datetime': _shim_datetime, 'random': _shim_random, 'secrets': _shim_secrets,
    'sys': _shim_sys, 'io': _shim_io, 'builtins': _shim_builtins, 'os': _shim_os, 'os.path': _shim_os_path,
    'gettext': _shim_gettext, 'atexit': _shim_atexit, 'threading': _shim_threading, '_thread': _shim__thread,
    'socket': _shim_socket, 'ssl': _shim_ssl, 'select': _shim_select, 'ctypes': _shim_ctypes,
    'ctypes.util': _shim_ctypes_util, 'platform': _shim_platform, 'uuid': _shim_uuid, 'codecs': _shim_codecs,
    'shutil': _shim_shutil, 'posix': lambda u: u._load('os'),
}
