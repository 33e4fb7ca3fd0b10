"""The real status fetcher, loaded afresh for a run, in front of simulated responders."""
import errno
import os
import socket
import sys
import threading
import types

from . import core, net, threads
from .core import HarnessError, Violation

_code = None
CURRENT = None      # the web of the run in progress
NAME = 'siotls.ocsp_over_http'
_real_create = socket.create_connection


def _create_connection(address, timeout=None, source_address=None, **kw):
    if CURRENT is None:
        if core.CUR is not None:
            raise HarnessError(f'connection to {address} outside of a simulated network')
        return _real_create(address, timeout, source_address, **kw)
    if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
        timeout = None
    return CURRENT.connect(address, timeout)


def _cheap_https():
    """every opener makes a context for https and reads the trust store of the system: once is enough"""
    import http.client
    if getattr(http.client._create_https_context, 'sim', False):
        return
    real, made = http.client._create_https_context, {}

    def create(version):
        if version not in made:
            made[version] = real(version)
        return made[version]
    create.sim = True
    http.client._create_https_context = create


def load(sched_of):
    """a fresh copy of the fetcher module"""
    global _code
    core.install()
    socket.create_connection = _create_connection
    _cheap_https()
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    path = os.path.join(core.REPO, 'src', 'siotls', 'ocsp_over_http.py')
    if _code is None:
        with open(path, 'rb') as f:
            _code = compile(f.read(), path, 'exec')
    mod = types.ModuleType(NAME)
    mod.__file__ = path
    mod.__package__ = 'siotls'
    fake = threads.module_for(sched_of)
    saved = sys.modules['threading']
    sys.modules['threading'] = fake
    try:
        exec(_code, mod.__dict__)
    finally:
        sys.modules['threading'] = saved
    core.patch_module(mod)
    return mod


_warm = False


def warm():
    """what takes time and is the same for all the children of a process"""
    global _warm
    if not _warm:
        _warm = True
        load(lambda: None)


class Answer:
    """how a responder behaves for one request"""
    def __init__(self, data, *, pieces=None, after='close', delay=0, stall_at=None, reset_at=None):
        self.data = data            # raw HTTP response bytes
        self.after = after          # close / keep
        self.delay = delay
        self.stall_at = stall_at    # stops sending there, keeps the connection open
        self.reset_at = reset_at    # resets the connection there
        self.pieces = pieces        # delay between pieces


class Web:
    """the network the fetcher sees"""
    def __init__(self, run, sched, answer, route=None):
        self.run = run
        self.sched = sched
        self.net = net.Net(run, sched)
        self.answer = answer        # f(request) -> Answer
        self.route = route or (lambda host, port: 'ok')
        self.requests = []
        self.attempts = []
        self.socks = []
        self.problem = None

    def __enter__(self):
        global CURRENT
        CURRENT = self
        return self

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None

    def connect(self, address, timeout):
        host, port = address
        self.attempts.append((host, port))
        self.run.ev('connect', host, port)
        self.sched.pause()
        how = self.route(host, port)
        if how == 'refused':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if how == 'unknown host':
            raise socket.gaierror(-2, 'Name or service not known')
        if how == 'unreachable':
            raise OSError(errno.EHOSTUNREACH, 'No route to host')
        if how == 'timeout':
            if timeout is None:
                self.problem = self.problem or 'connects without a timeout'
            self.sched.sleep(timeout or 3600)
            raise TimeoutError('timed out')
        a, b = self.net.pair(f'c{len(self.socks)}', f'r{len(self.socks)}')
        a.timeout = timeout
        self.socks.append(a)
        t = self.sched.spawn(f'responder{len(self.socks)}', lambda: self.serve(b, host, port), daemon=True)
        t.thread.start()
        return a

    def serve(self, sock, host, port):
        ans = None
        try:
            buf = b''
            while b'\r\n\r\n' not in buf:
                d = sock.recv(65536)
                if not d:
                    return
                buf += d
            head, body = buf.split(b'\r\n\r\n', 1)
            lines = head.decode('latin-1').split('\r\n')
            headers = {}
            for line in lines[1:]:
                k, _, v = line.partition(':')
                k = k.strip().lower()
                if k in headers:
                    self.problem = self.problem or f'header {k} twice'
                headers[k] = v.strip()
            n = int(headers.get('content-length', '0'))
            while len(body) < n:
                d = sock.recv(65536)
                if not d:
                    break
                body += d
            req = dict(line=lines[0], headers=headers, body=body, host=host, port=port)
            self.requests.append(req)
            self.run.ev('request', lines[0], core.short(body))
            ans = self.answer(req)
            if ans.delay:
                self.sched.sleep(ans.delay)
            data = ans.data
            stop = min([x for x in (ans.stall_at, ans.reset_at, len(data)) if x is not None])
            i = 0
            while i < stop:
                k = stop - i
                if ans.pieces:
                    k = min(k, max(1, ans.pieces[0]))
                    if i:
                        self.sched.sleep(ans.pieces[1])
                sock.sendall(data[i:i + k])
                i += k
            if ans.reset_at is not None and i >= ans.reset_at:
                sock.abort()
                return
            if ans.stall_at is not None or ans.after == 'keep':
                self.sched.wait(lambda: sock.rx.eof or sock.rx.reset or sock.tx.gone, None, 'responder stalls')
        except OSError:
            pass
        finally:
            sock.close()


def http(body, status='200 OK', ctype='application/ocsp-response', length=True, extra=(), chunked=False, version='1.1'):
    """raw bytes of an HTTP response"""
    head = [f'HTTP/{version} {status}']
    if ctype is not None:
        head.append(f'Content-Type: {ctype}')
    if chunked:
        head.append('Transfer-Encoding: chunked')
        out = b''
        for i in range(0, len(body), 1000):
            part = body[i:i + 1000]
            out += b'%x\r\n' % len(part) + part + b'\r\n'
        body = out + b'0\r\n\r\n'
    elif length is True:
        head.append(f'Content-Length: {len(body)}')
    elif length is not False:
        head.append(f'Content-Length: {length}')
    head += list(extra)
    return '\r\n'.join(head).encode('latin-1') + b'\r\n\r\n' + body
