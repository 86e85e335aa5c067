"""Simulated file system and the file objects on top of it

Everything above the system calls is real: io.BufferedWriter and friends run
on top of SimRaw.  Faults are decided by the hook `FS.inject`, which is asked
before every call that a process makes.
"""

import errno
import io
import os
import posixpath
import stat as _stat
import weakref

from .engine import HarnessError, SimCrash

OS_NAMES = {'open', 'close', 'read', 'write', 'fsync', 'fdatasync', 'stat', 'lstat', 'fstat', 'unlink', 'remove',
            'rename', 'replace', 'link', 'listdir', 'mkdir', 'makedirs', 'getcwd', 'access', 'ftruncate', 'lseek',
            'fdopen', 'scandir', 'chmod', 'rmdir', 'sync', 'utime', 'chdir', 'getcwdb', 'path', 'truncate', 'umask',
            'readlink', 'fspath', 'set_inheritable'}


def err(no, path=None):
    e = OSError(no, os.strerror(no), path) if path is not None else OSError(no, os.strerror(no))
    return e


class Inode:
    __slots__ = ('data', 'ino', 'kind', 'synced', 'mode')

    def __init__(self, ino, kind='file'):
        self.data = bytearray()
        self.ino = ino
        self.kind = kind
        self.synced = b''
        self.mode = 0o644


class FS:
    """One disk, shared by the processes of a machine and kept across crashes"""

    def __init__(self, sim):
        self.sim = sim
        self.names = {}
        self.next_ino = 100
        self.inject = None      # callable(proc, op, path, nbytes) -> None or fault tuple
        self.yield_point = None
        self.ops = 0
        self.trace = True
        self.dirs = {'/', '/w', '/home', '/home/user', '/tmp', '/home/user/.bitcoin'}

    # convenience for scenarios (no faults, no process)
    def put(self, path, data):
        ino = Inode(self.next_ino)
        self.next_ino += 1
        ino.data[:] = data
        ino.synced = bytes(data)
        self.names[path] = ino

    def get(self, path):
        ino = self.names.get(path)
        return None if ino is None else bytes(ino.data)

    def listing(self):
        return {p: bytes(i.data) for p, i in sorted(self.names.items())}

    # system calls
    def call(self, proc, op, path, nbytes=0):
        if proc.dead:
            raise SimCrash(proc.name)
        self.ops += 1
        if self.yield_point is not None:
            self.yield_point()
            if proc.dead:
                raise SimCrash(proc.name)
        f = None
        if self.inject is not None:
            f = self.inject(proc, op, path, nbytes)
        if self.trace:
            self.sim.log('%s %s %s%s%s', proc.name, op, path, ' %d' % nbytes if nbytes else '', ' -> %r' % (f,) if f else '')
        if f is not None:
            if f[0] == 'errno':
                raise err(f[1], path if op in ('open', 'unlink', 'rename', 'stat', 'link') else None)
            if f[0] == 'crash' and (len(f) == 1 or op != 'write'):
                proc.dead = True
                raise SimCrash(proc.name)
        return f


class SimRaw(io.RawIOBase):
    """An open file description"""

    def __init__(self, u, path, flags, inode=None):
        self.u = u
        self.fs = u.fs
        self.proc = u.proc
        self.path = path
        self.flags = flags
        self.name = path
        self.mode = 'rb'
        self.pos = 0
        self.inode = inode
        self.broken = False
        acc = flags & os.O_ACCMODE
        self._r = acc in (os.O_RDONLY, os.O_RDWR)
        self._w = acc in (os.O_WRONLY, os.O_RDWR)
        self.closed_fd = False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.u.fd_of(self) if hasattr(self.u, 'fd_of') else fd_of(self.u, self)

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        f = self.fs.call(self.proc, 'read', self.path, len(b))
        n = len(b)
        if f is not None and f[0] == 'short':
            n = min(n, max(1, f[1]))
        chunk = bytes(self.inode.data[self.pos:self.pos + n])
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        if self.proc.dead:
            return len(b)       # lost with the process
        b = bytes(b)
        f = self.fs.call(self.proc, 'write', self.path, len(b))
        n = len(b)
        if f is not None and f[0] in ('short', 'crash', 'torn'):
            n = min(n, f[1])
            if f[0] == 'short':
                n = max(1, n)
        if self.flags & os.O_APPEND:
            self.pos = len(self.inode.data)
        if self.pos > len(self.inode.data):
            self.inode.data.extend(b'\x00' * (self.pos - len(self.inode.data)))
        self.inode.data[self.pos:self.pos + n] = b[:n]
        self.pos += n
        if f is not None and f[0] == 'crash':
            self.proc.dead = True
            raise SimCrash(self.proc.name)
        if f is not None and f[0] == 'torn':
            raise err(f[2])
        return n

    def seek(self, off, whence=0):
        if whence == 0:
            p = off
        elif whence == 1:
            p = self.pos + off
        else:
            p = len(self.inode.data) + off
        if p < 0:
            raise err(errno.EINVAL)
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        self.fs.call(self.proc, 'truncate', self.path)
        cur = len(self.inode.data)
        if size < cur:
            del self.inode.data[size:]
        else:
            self.inode.data.extend(b'\x00' * (size - cur))
        return size

    def sync(self):
        self.fs.call(self.proc, 'fsync', self.path)
        self.inode.synced = bytes(self.inode.data)

    def close(self):
        if not self.closed:
            try:
                if not self.closed_fd and not self.proc.dead:
                    self.closed_fd = True
                    self.fs.call(self.proc, 'close', self.path)
            finally:
                super().close()


class SinkRaw(io.RawIOBase):
    """Where the standard streams of a process end"""

    def __init__(self, u, name):
        self.u = u
        self.name = '<%s>' % name
        self.data = bytearray()
        self.mode = 'wb'

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def write(self, b):
        u = self.u
        b = bytes(b)
        if u.proc.dead:
            return len(b)
        f = u.fs.call(u.proc, 'write', self.name, len(b)) if self.name == '<stdout>' else None
        n = len(b)
        if f is not None and f[0] in ('short', 'crash', 'torn'):
            n = min(n, f[1])
            if f[0] == 'short':
                n = max(1, n)
        self.data += b[:n]
        if f is not None and f[0] == 'crash':
            u.proc.dead = True
            raise SimCrash(u.proc.name)
        if f is not None and f[0] == 'torn':
            raise err(f[2])
        return n


def norm(u, path):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if '\x00' in path:
        raise ValueError('embedded null byte')
    if path == '':
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    return posixpath.normpath(posixpath.join(u.cwd, path))


def raw_open(u, path, flags, mode=0o777):
    fs = u.fs
    full = norm(u, path)
    excl = ' excl' if flags & os.O_EXCL else ''
    creat = ' creat' if flags & os.O_CREAT else ''
    fs.call(u.proc, 'open', full + excl + creat if fs.trace and 0 else full)
    if full in fs.dirs:
        if flags & os.O_ACCMODE != os.O_RDONLY:
            raise err(errno.EISDIR, path)
        if not flags & os.O_DIRECTORY:
            raise err(errno.EISDIR, path)
        ino = Inode(0, 'dir')
        return SimRaw(u, full, flags, ino)
    if posixpath.dirname(full) not in fs.dirs:
        raise err(errno.ENOENT, path)
    ino = fs.names.get(full)
    if ino is not None:
        if flags & os.O_CREAT and flags & os.O_EXCL:
            raise err(errno.EEXIST, path)
        if flags & os.O_TRUNC:
            ino.data = bytearray()
    else:
        if not flags & os.O_CREAT:
            raise err(errno.ENOENT, path)
        ino = Inode(fs.next_ino)
        fs.next_ino += 1
        fs.names[full] = ino
    return SimRaw(u, full, flags, ino)


def fd_table(u):
    t = u.__dict__.get('_fds')
    if t is None:
        t = u._fds = {}
    return t


def fd_of(u, raw):
    t = fd_table(u)
    for n, r in t.items():
        if r is raw:
            return n
    n = 3
    while n in t:
        n += 1
    t[n] = raw
    return n


def by_fd(u, fd):
    r = fd_table(u).get(fd)
    if r is None or r.closed:
        if fd == 1:
            return u.out_raw
        if fd == 2:
            return u.err_raw
        raise err(errno.EBADF)
    return r


def sim_open(u, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError('invalid mode: %r' % mode)
    creating, reading, writing, appending = 'x' in modes, 'r' in modes, 'w' in modes, 'a' in modes
    updating, text, binary = '+' in modes, 't' in modes, 'b' in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode doesn\'t take these arguments')
    rw = os.O_RDWR if updating else os.O_RDONLY if reading else os.O_WRONLY
    flags = rw
    if creating:
        flags |= os.O_CREAT | os.O_EXCL
    if writing:
        flags |= os.O_CREAT | os.O_TRUNC
    if appending:
        flags |= os.O_CREAT | os.O_APPEND
    if isinstance(file, int):
        raw = by_fd(u, file)
    elif opener is not None:
        raw = by_fd(u, opener(file, flags))
    else:
        raw = raw_open(u, file, flags)
        raw.name = os.fspath(file)
    if appending and isinstance(raw, SimRaw):
        raw.pos = len(raw.inode.data)
    raw.mode = mode
    line_buffering = False
    if buffering == 1:
        line_buffering = True
    if buffering < 0 or buffering == 1:
        buffering = 8192
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        u.proc.files.append(weakref.ref(raw))
        return raw
    if updating:
        buf = io.BufferedRandom(raw, buffering)
    elif raw.writable():
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if binary:
        u.proc.files.append(weakref.ref(buf))
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering)
    t.mode = mode
    u.proc.files.append(weakref.ref(t))
    return t


class DirEntry:
    def __init__(self, path, name):
        self.path = path
        self.name = name

    def is_file(self, **k):
        return True

    def is_dir(self, **k):
        return False

    def is_symlink(self):
        return False

    def __fspath__(self):
        return self.path


def os_functions(u):
    fs = u.fs
    proc = u.proc

    def f_open(path, flags, mode=0o777, *, dir_fd=None):
        raw = raw_open(u, path, flags, mode)
        return fd_of(u, raw)

    def f_close(fd):
        raw = by_fd(u, fd)
        fd_table(u).pop(fd, None)
        raw.close()

    def f_read(fd, n):
        raw = by_fd(u, fd)
        b = bytearray(n)
        k = raw.readinto(b)
        return bytes(b[:k])

    def f_write(fd, data):
        return by_fd(u, fd).write(bytes(data))

    def f_fsync(fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        raw = by_fd(u, fd)
        if isinstance(raw, SimRaw):
            raw.sync()

    def mkstat(ino, full):
        if ino is None:
            return os.stat_result((_stat.S_IFDIR | 0o755, 2, 1, 2, 0, 0, 4096, 0, 0, 0))
        return os.stat_result((_stat.S_IFREG | ino.mode, ino.ino, 1, 1, 0, 0, len(ino.data), 0, 0, 0))

    def f_stat(path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return f_fstat(path)
        full = norm(u, path)
        fs.call(proc, 'stat', full)
        if full in fs.dirs:
            return mkstat(None, full)
        if full not in fs.names:
            raise err(errno.ENOENT, path)
        return mkstat(fs.names[full], full)

    def f_fstat(fd):
        raw = by_fd(u, fd)
        if isinstance(raw, SimRaw):
            return mkstat(raw.inode if raw.inode.kind == 'file' else None, raw.path)
        return os.stat_result((_stat.S_IFIFO | 0o600, 9, 1, 1, 0, 0, 0, 0, 0, 0))

    def f_unlink(path, *, dir_fd=None):
        full = norm(u, path)
        fs.call(proc, 'unlink', full)
        if full not in fs.names:
            raise err(errno.ENOENT, path)
        del fs.names[full]

    def f_rename(src, dst, **k):
        a, b = norm(u, src), norm(u, dst)
        fs.call(proc, 'rename', '%s %s' % (a, b))
        if a not in fs.names:
            raise err(errno.ENOENT, src)
        if posixpath.dirname(b) not in fs.dirs:
            raise err(errno.ENOENT, dst)
        fs.names[b] = fs.names.pop(a)

    def f_link(src, dst, **k):
        a, b = norm(u, src), norm(u, dst)
        fs.call(proc, 'link', '%s %s' % (a, b))
        if a not in fs.names:
            raise err(errno.ENOENT, src)
        if b in fs.names:
            raise err(errno.EEXIST, dst)
        fs.names[b] = fs.names[a]

    def f_listdir(path='.'):
        full = norm(u, path)
        fs.call(proc, 'listdir', full)
        if full not in fs.dirs:
            raise err(errno.ENOENT, path)
        pre = full.rstrip('/') + '/'
        return sorted({p[len(pre):].split('/')[0] for p in list(fs.names) + list(fs.dirs) if p.startswith(pre) and p != pre})

    class Scan:
        def __init__(self, path):
            self.it = iter([DirEntry(posixpath.join(path, n), n) for n in f_listdir(path)])

        def __iter__(self):
            return self.it

        def __enter__(self):
            return self.it

        def __exit__(self, *a):
            pass

    def f_mkdir(path, mode=0o777, **k):
        full = norm(u, path)
        fs.call(proc, 'mkdir', full)
        if full in fs.dirs or full in fs.names:
            raise err(errno.EEXIST, path)
        fs.dirs.add(full)

    def f_makedirs(path, mode=0o777, exist_ok=False):
        full = norm(u, path)
        if full in fs.dirs and not exist_ok:
            raise err(errno.EEXIST, path)
        while full not in fs.dirs:
            fs.dirs.add(full)
            full = posixpath.dirname(full)

    def f_rmdir(path):
        fs.dirs.discard(norm(u, path))

    def f_access(path, mode, **k):
        full = norm(u, path)
        fs.call(proc, 'stat', full)
        return full in fs.names or full in fs.dirs

    def f_lseek(fd, off, whence):
        return by_fd(u, fd).seek(off, whence)

    def f_ftruncate(fd, n):
        by_fd(u, fd).truncate(n)

    def f_truncate(path, n):
        raw = raw_open(u, path, os.O_WRONLY)
        raw.truncate(n)

    def f_readlink(path, *a, **k):
        raise err(errno.EINVAL, path)

    def f_chdir(path):
        u.cwd = norm(u, path)

    return {'open': f_open, 'close': f_close, 'read': f_read, 'write': f_write, 'fsync': f_fsync,
            'fdatasync': f_fsync, 'stat': f_stat, 'lstat': f_stat, 'fstat': f_fstat, 'unlink': f_unlink,
            'remove': f_unlink, 'rename': f_rename, 'replace': f_rename, 'link': f_link, 'listdir': f_listdir,
            'scandir': lambda p='.': Scan(p), 'mkdir': f_mkdir, 'makedirs': f_makedirs, 'rmdir': f_rmdir,
            'getcwd': lambda: u.cwd, 'getcwdb': lambda: u.cwd.encode(), 'access': f_access, 'lseek': f_lseek,
            'ftruncate': f_ftruncate, 'truncate': f_truncate, 'chmod': lambda *a, **k: None,
            'utime': lambda *a, **k: None, 'sync': lambda: None, 'umask': lambda m: 0o22, 'chdir': f_chdir,
            'readlink': f_readlink, 'set_inheritable': lambda *a: None,
            'fdopen': lambda fd, *a, **k: sim_open(u, fd, *a, **k)}
