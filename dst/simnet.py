"""Simulated network: stream sockets between the code under test and services

A service lives outside of any simulated process and reacts to the bytes that
reach it; what it sends arrives at chosen times of the simulated clock, in
chosen pieces.  The hook `Service.fault` decides about everything that goes
wrong.
"""

import errno
import io
import os
import socket as _s
import ssl as _ssl

from .engine import HarnessError, SimInterrupt, Violation


class Conn:
    """One TCP connection, seen from the network"""

    def __init__(self, net, service, ident):
        self.net = net
        self.service = service
        self.ident = ident
        self.inbox = []         # (time, bytes | None for EOF | 'reset' | 'interrupt' for a signal to the client)
        self.server_open = True
        self.client_open = True
        self.tls = False
        self.buf = b''
        self.dead_sends = 0

    def deliver(self, data, delay=0.0):
        """Bytes (or None, 'reset') on their way to the client"""
        t = self.net.clock.monotonic() + delay
        if self.inbox:
            t = max(t, self.inbox[-1][0])
        self.inbox.append((t, data))

    def end(self, how=None, delay=0.0):
        if self.server_open:
            self.server_open = False
            self.deliver(how, delay)


class Service:
    """Base class of what listens at an address"""
    tls = False

    def __init__(self):
        self.up = True
        self.fault = None       # callable(event, conn) -> None or a fault tuple

    def on_connect(self, conn):
        pass

    def on_data(self, conn, data):
        raise NotImplementedError

    def on_close(self, conn):
        pass


class Net:
    def __init__(self, sim, clock):
        self.sim = sim
        self.clock = clock
        self.services = {}
        self.conns = []
        self.longest_wait = 0.0
        self.names = {'localhost', '127.0.0.1', '::1'}

    def listen(self, host, port, service):
        self.services[(host, port)] = service
        self.names.add(host)

    def drop_idle(self, service, how=None):
        """The service closes (None) or loses ('reset') its connections"""
        n = 0
        for c in self.conns:
            if c.service is service and c.server_open:
                c.end(how)
                n += 1
        return n

    def connect(self, host, port, timeout):
        sim = self.sim
        if host not in self.names:
            raise _s.gaierror(_s.EAI_NONAME, 'Name or service not known')
        host = 'localhost' if host in ('127.0.0.1', '::1') else host
        sv = self.services.get((host, port))
        if sv is None or not sv.up:
            self.clock.advance(0.001)
            raise ConnectionRefusedError(errno.ECONNREFUSED, os.strerror(errno.ECONNREFUSED))
        f = sv.fault('connect', None) if sv.fault else None
        if f is not None:
            sim.fault('connect:' + f[0])
            if f[0] == 'refuse':
                raise ConnectionRefusedError(errno.ECONNREFUSED, os.strerror(errno.ECONNREFUSED))
            if f[0] == 'unreachable':
                raise OSError(errno.EHOSTUNREACH, os.strerror(errno.EHOSTUNREACH))
            if f[0] == 'timeout':
                if timeout is None:
                    raise Violation('hang', 'connects without a timeout')
                self.wait(timeout)
                raise _s.timeout('timed out')
            raise HarnessError(f[0])
        self.clock.advance(0.001)
        c = Conn(self, sv, len(self.conns))
        self.conns.append(c)
        sv.on_connect(c)
        return c

    def wait(self, dt):
        self.longest_wait = max(self.longest_wait, dt)
        self.clock.advance(dt)


class SimSocketIO(io.RawIOBase):
    def __init__(self, sock, mode):
        self._sock = sock
        self._mode = mode
        self._timeout_occurred = False
        sock._refs += 1

    def readable(self):
        return 'r' in self._mode

    def writable(self):
        return 'w' in self._mode

    def readinto(self, b):
        if self._timeout_occurred:
            raise OSError('cannot read from timed out object')
        try:
            d = self._sock._recv(len(b))
        except _s.timeout:
            self._timeout_occurred = True
            raise
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        return self._sock.send(b)

    def fileno(self):
        return self._sock.fileno()

    @property
    def name(self):
        return -1

    @property
    def mode(self):
        return self._mode + 'b'

    def close(self):
        if not self.closed:
            super().close()
            self._sock._unref()


class SimSocket:
    def __init__(self, net, conn=None, timeout=None, family=_s.AF_INET, type=_s.SOCK_STREAM):
        self._net = net
        self._conn = conn
        self._timeout = timeout
        self._refs = 0
        self._closed = False
        self._wr_shut = False
        self.family, self.type, self.proto = family, type, 0

    # set up
    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, a):
        pass

    def connect(self, addr):
        self._conn = self._net.connect(addr[0], addr[1], self._timeout)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as exc:
            return exc.errno or errno.ETIMEDOUT
        return 0

    def getpeername(self):
        return ('127.0.0.1', 1)

    getsockname = getpeername

    def fileno(self):
        return 77 if not self._closed else -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # data
    def _check(self):
        if self._conn is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def sendall(self, data, flags=0):
        if self._closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        self._check()
        if self._wr_shut:
            raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
        data = bytes(data)
        c, net = self._conn, self._net
        sv = c.service
        if not c.server_open:
            # nobody is there any more: the first bytes seem to get through
            c.dead_sends += 1
            if c.dead_sends > 1 or net.sim.chance(50):
                e = net.sim.choice((BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE)),
                                    ConnectionResetError(errno.ECONNRESET, os.strerror(errno.ECONNRESET))))
                raise e
            return
        f = sv.fault('send', c) if sv.fault else None
        net.clock.advance(0.0005)
        if f is not None:
            net.sim.fault('send:' + f[0])
            n = min(f[1], len(data)) if len(f) > 1 else 0
            if f[0] == 'cut':
                sv.on_data(c, data[:n])
                c.inbox = []
                c.end('reset')
                raise ConnectionResetError(errno.ECONNRESET, os.strerror(errno.ECONNRESET))
            if f[0] == 'lost':
                # seems to have been sent but the server never sees the rest of it
                sv.on_data(c, data[:n])
                c.end(f[2])
                return
            if f[0] == 'interrupt':
                sv.on_data(c, data[:n])
                raise SimInterrupt
            if f[0] == 'timeout':
                if self._timeout is None:
                    raise Violation('hang', 'sends without a timeout')
                sv.on_data(c, data[:n])
                net.wait(self._timeout)
                raise _s.timeout('timed out')
            raise HarnessError(f[0])
        if sv.tls != c.tls:
            c.end('reset' if sv.tls else None)
            return
        sv.on_data(c, data)

    def _recv(self, n):
        self._check()
        if n == 0:
            return b''
        c, net = self._conn, self._net
        if not c.inbox:
            if c.__dict__.get('ended'):
                return b''
            if self._timeout is None:
                raise Violation('hang', 'waits for a peer that says nothing, without a timeout')
            net.wait(self._timeout)
            raise _s.timeout('timed out')
        t, d = c.inbox[0]
        dt = t - net.clock.monotonic()
        if dt > 0:
            if self._timeout is not None and dt > self._timeout:
                net.wait(self._timeout)
                raise _s.timeout('timed out')
            net.wait(dt)
        if d is None:
            c.ended = True
            c.inbox = []
            return b''
        if d == 'reset':
            c.ended = True
            c.inbox = []
            raise ConnectionResetError(errno.ECONNRESET, os.strerror(errno.ECONNRESET))
        if d == 'interrupt':
            c.inbox.pop(0)
            raise SimInterrupt
        if len(d) <= n:
            c.inbox.pop(0)
            return d
        c.inbox[0] = (t, d[n:])
        return d[:n]

    def recv(self, n, flags=0):
        if self._closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return self._recv(n)

    def recv_into(self, b, nbytes=0, flags=0):
        d = self.recv(nbytes or len(b))
        b[:len(d)] = d
        return len(d)

    def makefile(self, mode='r', buffering=None, *, encoding=None, errors=None, newline=None):
        raw = SimSocketIO(self, mode.replace('b', '').replace('t', ''))
        if buffering is None or buffering < 0:
            buffering = 8192
        if buffering == 0:
            return raw
        if 'r' in mode and 'w' in mode:
            buf = io.BufferedRWPair(raw, raw, buffering)
        elif 'w' in mode:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)

    def shutdown(self, how):
        if how in (_s.SHUT_WR, _s.SHUT_RDWR):
            self._wr_shut = True

    def _unref(self):
        self._refs -= 1
        if self._closed and self._refs <= 0:
            self._gone()

    def close(self):
        if not self._closed:
            self._closed = True
            if self._refs <= 0:
                self._gone()

    def detach(self):
        self._closed = True
        return 77

    def _gone(self):
        c = self._conn
        if c is not None and c.client_open:
            c.client_open = False
            c.service.on_close(c)


def socket_module(u):
    from .universe import _copy

    def net():
        if u.net is None:
            raise HarnessError('the code under test uses the network in a scenario without one')
        return u.net

    def create_connection(address, timeout=_s._GLOBAL_DEFAULT_TIMEOUT, source_address=None, *, all_errors=False):
        t = m._default if timeout is _s._GLOBAL_DEFAULT_TIMEOUT else timeout
        return SimSocket(net(), net().connect(address[0], address[1], t), t)

    class socket(SimSocket):
        def __init__(self, family=_s.AF_INET, type=_s.SOCK_STREAM, proto=0, fileno=None):
            super().__init__(net(), None, m._default, family, type)

    def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
        if host not in net().names:
            raise _s.gaierror(_s.EAI_NONAME, 'Name or service not known')
        return [(_s.AF_INET, _s.SOCK_STREAM, 6, '', (host, port))]

    def setdefaulttimeout(t):
        m._default = t

    def stop(*a, **k):
        raise HarnessError('the code under test uses a network call that is not simulated')
    m = _copy(_s, create_connection=create_connection, socket=socket, SocketType=socket, getaddrinfo=getaddrinfo,
              gethostbyname=lambda h: h, gethostname=lambda: 'sim', getfqdn=lambda n='': 'sim',
              setdefaulttimeout=setdefaulttimeout, getdefaulttimeout=lambda: m._default, create_server=stop,
              socketpair=stop, fromfd=stop)
    m._default = None
    return m


def ssl_module(u):
    from .universe import _copy

    class SSLContext:
        def __init__(self, *a, **k):
            self.check_hostname = True
            self.verify_mode = _ssl.CERT_REQUIRED
            self.post_handshake_auth = None

        def wrap_socket(self, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True,
                        server_hostname=None, session=None):
            sock._check()
            c = sock._conn
            sock._net.clock.advance(0.002)
            if not c.service.tls:
                c.end(None)
                sock.close()
                raise _ssl.SSLError(1, '[SSL: WRONG_VERSION_NUMBER] wrong version number')
            c.tls = True
            return sock

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return lambda *a, **k: None

    def ctx(*a, **k):
        return SSLContext()
    return _copy(_ssl, SSLContext=SSLContext, create_default_context=ctx, _create_default_https_context=ctx,
                 _create_unverified_context=ctx, _create_stdlib_context=ctx)


# -- HTTP ------------------------------------------------------------------

class Request:
    __slots__ = ('method', 'path', 'headers', 'body')


class HttpService(Service):
    """HTTP/1.1 server; `handle(conn, request)` answers by respond()"""

    def on_data(self, conn, data):
        conn.buf += data
        while conn.server_open:
            i = conn.buf.find(b'\r\n\r\n')
            if i < 0:
                return
            lines = conn.buf[:i].decode('latin1').split('\r\n')
            headers = {}
            for ln in lines[1:]:
                k, _, v = ln.partition(':')
                headers[k.strip().lower()] = v.strip()
            try:
                n = int(headers.get('content-length', '0'))
            except ValueError:
                n = -1
            if n < 0 or len(lines[0].split(' ')) != 3:
                self.respond(conn, 400, b'bad request', close=True)
                return
            if len(conn.buf) < i + 4 + n:
                return
            r = Request()
            r.method, r.path, _ = lines[0].split(' ')
            r.headers = headers
            r.body = conn.buf[i + 4:i + 4 + n]
            conn.buf = conn.buf[i + 4 + n:]
            self.handle(conn, r)

    def handle(self, conn, req):
        raise NotImplementedError

    REASON = {200: 'OK', 400: 'Bad Request', 401: 'Authorization Required', 403: 'Forbidden', 404: 'Not Found',
              500: 'Internal Server Error', 503: 'Service Unavailable', 502: 'Bad Gateway', 302: 'Found', 204: 'No Content'}

    def encode(self, status, body, ctype='application/json', close=False, framing='length', version='1.1'):
        h = 'HTTP/%s %d %s\r\nDate: Thu, 10 Sep 2015 00:00:00 +0000\r\n' % (version, status, self.REASON.get(status, 'X'))
        if close:
            h += 'Connection: close\r\n'
        elif version == '1.0':
            h += 'Connection: keep-alive\r\n'
        if framing == 'length':
            h += 'Content-Length: %d\r\n' % len(body)
        elif framing == 'chunked':
            h += 'Transfer-Encoding: chunked\r\n'
            out = b''
            k = max(1, len(body) // 3)
            for i in range(0, len(body), k):
                p = body[i:i + k]
                out += b'%x\r\n' % len(p) + p + b'\r\n'
            body = out + b'0\r\n\r\n'
        h += 'Content-Type: %s\r\nServer: sim\r\n\r\n' % ctype
        return h.encode('latin1') + body

    def respond(self, conn, status, body, **kw):
        close = kw.get('close', False)
        conn.deliver(self.encode(status, body, **kw))
        if close:
            conn.end(None)
