"""The real example programs, loaded afresh for a run, with simulated sockets."""
import os
import socket
import sys
import types

from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import ec, rsa

from . import core, pki, threads

_code = {}


def _load_key(data, password, *a, **kw):
    """signatures of the keys that the programs read are deterministic too"""
    k = _real_load(data, password, *a, **kw)
    if isinstance(k, ec.EllipticCurvePrivateKey):
        return pki.DetEC(k)
    if isinstance(k, rsa.RSAPrivateKey):
        return pki.DetRSA(k)
    return k


_real_load = serialization.load_pem_private_key


def load(name, sched_of, **over):
    """a fresh copy of siotls.examples.<name>; `over` replaces functions of the socket module"""
    core.install()
    path = os.path.join(core.REPO, 'src', 'siotls', 'examples', name + '.py')
    if path not in _code:
        with open(path, 'rb') as f:
            _code[path] = compile(f.read(), path, 'exec')
    mod = types.ModuleType('siotls.examples.' + name)
    mod.__file__ = path
    mod.__package__ = 'siotls.examples'
    fakes = {'socket': core._ModProxy(socket, **over), 'threading': threads.module_for(sched_of)}
    saved = {k: sys.modules.get(k) for k in fakes}
    sys.modules.update(fakes)
    serialization.load_pem_private_key = _load_key
    try:
        exec(_code[path], mod.__dict__)
    finally:
        serialization.load_pem_private_key = _real_load
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    core.patch_module(mod)
    return mod


def pem_files(where, chain, key):
    """-> paths of a chain and a private key"""
    a, b = os.path.join(where, 'chain.pem'), os.path.join(where, 'key.pem')
    with open(a, 'wb') as f:
        f.write(b''.join(c.public_bytes(serialization.Encoding.PEM) for c in chain))
    with open(b, 'wb') as f:
        f.write(pki.key(key).private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()))
    return a, b


class Listener:
    """a listening socket in front of scripted clients"""
    def __init__(self, run, sched, more, aborted=None):
        self.run, self.sched = run, sched
        self.more = more            # whether somebody may still come
        self.backlog = []           # sockets, or exceptions
        self.accepted = []
        self.closed = False
        self.bound = self.listening = None
        self.timeout = None

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, address):
        self.bound = address

    def listen(self, backlog=None):
        self.listening = True

    def getsockname(self):
        return self.bound

    def settimeout(self, t):
        self.timeout = t

    def setblocking(self, flag):
        self.timeout = None if flag else 0

    def fileno(self):
        return -1 if self.closed else 999

    def accept(self):
        if self.closed or not self.listening:
            raise OSError(9, 'Bad file descriptor')
        self.sched.wait(lambda: self.backlog or not self.more(), None, 'accept')
        if not self.backlog:
            self.run.ev('interrupted')
            raise KeyboardInterrupt
        x = self.backlog.pop(0)
        if isinstance(x, BaseException):
            self.run.ev('accept raises', type(x).__name__)
            raise x
        self.accepted.append(x)
        x.accepted_at = self.run.now
        self.run.ev('accepted', x.name)
        return x, x.peer_addr

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
