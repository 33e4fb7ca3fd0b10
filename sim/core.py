"""Simulation core: run context, seams (randomness, clock, certificate clock), log capture."""
import collections
import datetime as _dt
import hashlib
import importlib
import logging
import os
import pkgutil
import random
import sys
import time as _time
import types
import warnings

from .choice import Choices

REPO = os.environ.get('SIM_REPO', '/repo')
EPOCH = 1907755200.0  # 2030-06-15T12:00:00Z: where every simulated clock starts

CUR = None  # the run in progress


class Violation(BaseException):
    def __init__(self, kind, msg):
        if len(msg) > 4000:
            msg = msg[:2000] + ' ... ' + msg[-1500:]
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg


class HarnessError(BaseException):
    """the harness itself is wrong: never a verdict on the code"""


class Run:
    """Everything one simulated execution owns."""

    def __init__(self, seed, trace=None):
        self.seed = seed
        self.ch = Choices(seed=f'choice-{seed}', trace=trace)
        self.rand = random.Random(f'crypto-{seed}')
        self.now = EPOCH
        self.log = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.sig = []           # abstract schedule signature
        self.keylog = []
        self.steps = 0
        self.real = collections.Counter()
        self.dh_queue = []      # forced finite field exponents
        self.nontrivial = False
        self.opts = {}

    def ev(self, *parts):
        self.log.append(' '.join(map(str, parts)))

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.sig.append('!' + kind)
        self.nontrivial = True

    def probe(self, name):
        self.probes[name] += 1

    def st(self, *state):
        self.states.add('/'.join(map(str, state)))

    def step(self, name):
        self.steps += 1
        self.sig.append(name)

    def advance(self, dt):
        self.now += dt

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def randbytes(self, n):
        return self.rand.randbytes(n)

    def digest(self):
        h = hashlib.sha256()
        for line in self.log:
            h.update(line.encode('utf-8', 'replace') + b'\n')
        return h.hexdigest()

    def sigdigest(self):
        return hashlib.sha256('|'.join(self.sig).encode()).hexdigest()[:16]


def short(b):
    b = bytes(b)
    return f'{len(b)}:{hashlib.sha256(b).hexdigest()[:10]}'


# ---------------------------------------------------------------------------------------------
# seams
# ---------------------------------------------------------------------------------------------
_real_urandom = os.urandom
_real_datetime = _dt.datetime


def sim_urandom(n=32):
    if n is None:
        n = 32
    if CUR is None:
        return _real_urandom(n)
    return CUR.rand.randbytes(n)


def sim_time():
    return CUR.now if CUR is not None else _time.time()


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class SimDatetime(_real_datetime, metaclass=_Meta):
    """datetime whose now is the simulated clock; its instances are plain datetimes"""
    def __new__(cls, *a, **kw):
        return _real_datetime(*a, **kw)

    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(sim_time(), tz) if tz else \
            _real_datetime.fromtimestamp(sim_time(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(sim_time(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def fromtimestamp(cls, *a, **kw):
        return _real_datetime.fromtimestamp(*a, **kw)

    @classmethod
    def utcfromtimestamp(cls, ts):
        return _real_datetime.fromtimestamp(ts, _dt.timezone.utc).replace(tzinfo=None)


def utcdt(ts):
    return _real_datetime.fromtimestamp(ts, _dt.timezone.utc).replace(tzinfo=None)


class _ModProxy(types.ModuleType):
    def __init__(self, mod, **over):
        super().__init__(mod.__name__)
        self.__dict__['_mod'] = mod
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self._mod, name)


def ephemeral(x):
    """private values made during the run, for the checks that look for them where they should not be"""
    if 'ephemeral' in CUR.opts:
        CUR.opts['ephemeral'].append(x)
    return x


def _patch_crypto():
    import secrets
    secrets.token_bytes = sim_urandom
    secrets.token_hex = lambda n=None: sim_urandom(n).hex()
    os.urandom = sim_urandom

    from cryptography.hazmat.primitives.asymmetric import dh, ec, x448, x25519

    def gen(cls_, size):
        real = cls_.generate
        def generate(cls):
            if CUR is None:
                return real()
            return cls_.from_private_bytes(ephemeral(CUR.rand.randbytes(size)))
        return classmethod(generate)
    x25519.X25519PrivateKey.generate = gen(x25519.X25519PrivateKey, 32)
    x448.X448PrivateKey.generate = gen(x448.X448PrivateKey, 56)

    real_ec_gen = ec.generate_private_key

    def ec_generate(curve, backend=None):
        if CUR is None:
            return real_ec_gen(curve)
        n = curve.key_size - 8
        return ec.derive_private_key(ephemeral(CUR.rand.getrandbits(n) | 1), curve)
    ec.generate_private_key = ec_generate

    RealPN, RealPub = dh.DHParameterNumbers, dh.DHPublicNumbers

    class ParamNumbers:
        def __init__(self, p, g, q=None):
            self._real = RealPN(p, g, q)
            self.p, self.g, self.q = p, g, q

        def parameters(self, backend=None):
            return Params(self)

        def __eq__(self, other):
            return self._real == getattr(other, '_real', other)

    class Params:
        def __init__(self, pn):
            self._pn = pn

        def parameter_numbers(self):
            return self._pn

        def generate_private_key(self):
            p, g = self._pn.p, self._pn.g
            if CUR is None:
                return self._pn._real.parameters().generate_private_key()
            if CUR.dh_queue:
                x = CUR.dh_queue.pop(0)
            else:
                x = ephemeral(CUR.rand.getrandbits(400) | (1 << 399))
            pub = RealPub(pow(g, x, p), self._pn._real)
            return dh.DHPrivateNumbers(x, pub).private_key()

    def PubNumbers(y, pn):
        return RealPub(y, getattr(pn, '_real', pn))
    dh.DHParameterNumbers = ParamNumbers
    dh.DHPublicNumbers = PubNumbers

    from cryptography.x509 import verification
    RealPB = verification.PolicyBuilder

    class SimPolicyBuilder:
        """the real builder, with the simulated clock as validation time"""
        def __init__(self, _real=None, _timed=False):
            self._real = _real if _real is not None else RealPB()
            self._timed = _timed

        def store(self, s):
            return SimPolicyBuilder(self._real.store(s), self._timed)

        def max_chain_depth(self, d):
            return SimPolicyBuilder(self._real.max_chain_depth(d), self._timed)

        def time(self, t):
            return SimPolicyBuilder(self._real.time(t), True)

        def extension_policies(self, *a, **kw):
            return SimPolicyBuilder(self._real.extension_policies(*a, **kw), self._timed)

        def _final(self):
            if self._timed or CUR is None:
                return self._real
            return self._real.time(utcdt(CUR.now))

        def build_server_verifier(self, *a):
            return self._final().build_server_verifier(*a)

        def build_client_verifier(self, *a):
            return self._final().build_client_verifier(*a)
    verification.PolicyBuilder = SimPolicyBuilder


class _KeyLogHandler(logging.Handler):
    def emit(self, record):
        if CUR is not None:
            CUR.keylog.append(record.getMessage())


class _TextHandler(logging.Handler):
    """collects the ordinary log of the library (only when the run asks for it)"""
    def emit(self, record):
        if CUR is not None and CUR.opts.get('textlog') is not None:
            text = record.getMessage()
            if record.exc_info:
                text += '\n' + logging.Formatter().formatException(record.exc_info)
            CUR.opts['textlog'].append((record.name, text))


KEYLOG_HANDLER = _KeyLogHandler()
TEXT_HANDLER = _TextHandler()
_installed = False


_simdtmod = _ModProxy(_dt, datetime=SimDatetime)
_simtime = _ModProxy(_time, time=sim_time, monotonic=sim_time, perf_counter=sim_time, sleep=lambda s: CUR and CUR.advance(s))


def patch_module(mod):
    """clocks of one module"""
    for k, v in list(vars(mod).items()):
        if v is _real_datetime:
            setattr(mod, k, SimDatetime)
        elif v is _dt:
            setattr(mod, k, _simdtmod)
        elif v is _time:
            setattr(mod, k, _simtime)
        elif v is _time.time or v is _time.monotonic or v is _time.perf_counter:
            setattr(mod, k, sim_time)


def install(need_examples=False):
    """Load siotls from the tree under test with every seam in place."""
    global _installed
    if _installed:
        return
    _installed = True
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, 'src'))
    from . import pki
    pki.build()
    _patch_crypto()
    import siotls
    where = os.path.realpath(siotls.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f'siotls loaded from {where}, not from {REPO}')
    mods = [siotls]
    for m in pkgutil.walk_packages(siotls.__path__, 'siotls.'):
        if m.name.endswith('__main__') or m.name == 'siotls.trust_store':
            continue
        mods.append(importlib.import_module(m.name))
    for mod in mods:
        patch_module(mod)
    siotls.key_logger.addHandler(KEYLOG_HANDLER)
    siotls.logger.addHandler(TEXT_HANDLER)
    siotls.logger.propagate = False
    siotls.logger.setLevel(logging.CRITICAL + 1)
    # the usual recursion/GC settings are left alone: runs are short


def set_textlog(run, on):
    import siotls
    run.opts['textlog'] = [] if on else None
    siotls.logger.setLevel(logging.DEBUG if on else logging.CRITICAL + 1)


def begin(seed, trace=None):
    global CUR
    CUR = Run(seed, trace)
    set_textlog(CUR, False)
    return CUR


def end():
    global CUR
    CUR = None
