"""Failing allocations, system calls and cryptography, and interruptions: at chosen moments a call that the library makes to
anything outside of itself raises instead of being made.  Uses the interpreter's own call events; the library is untouched."""
import builtins
import os
import sys

from .core import REPO

TOOL = 4
SRC = os.path.join(os.path.realpath(REPO), 'src') + os.sep
# what cannot fail, or is no work at all
HARMLESS = {getattr(builtins, n) for n in ('isinstance', 'issubclass', 'len', 'type', 'callable', 'hasattr', 'getattr', 'setattr', 'bool',
                                          'id', 'hash', 'iter', 'next', 'super', 'object', 'any', 'all', 'ord')}
HARMLESS_NAMES = {'clear', 'pop', 'popleft', '__setattr__', '__init_subclass__', 'setdefault', '__exit__', 'release'}
# where memory, randomness and cryptography come from
HEAVY = ('cryptography', '_hashlib', 'hashlib', 'hmac', '_hmac', 'secrets', 'sim.', 'os', 'posix', 'random', 'idna', 'ipaddress')
HEAVY_NAMES = {'join', 'to_bytes', 'from_bytes', 'pack', 'unpack', 'pack_into', 'unpack_from', 'bytes', 'bytearray', 'digest', 'update',
               'extend', 'copy', 'hexdigest', 'encrypt', 'decrypt', 'encode', 'decode'}
INF = 1 << 60


class Injector:
    def __init__(self):
        self.armed = False
        self.count = 0          # calls made so far that could fail
        self.at = self.until = INF
        self.make = None        # the exception to raise
        self.fired = []         # what failed
        self.whole_call = self.only_heavy = False
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'sim.inject')
        mon.register_callback(TOOL, mon.events.CALL, self.on_call)
        mon.set_events(TOOL, mon.events.CALL)
        self.disable = mon.DISABLE
        self.known = {}

    def own(self, f):
        """whether f is a part of the library, or harmless"""
        if isinstance(f, type):
            return issubclass(f, BaseException) or f in HARMLESS or (f.__module__ or '').startswith('siotls')
        try:
            if f in HARMLESS:
                return True
        except TypeError:
            pass
        if getattr(f, '__name__', '') in HARMLESS_NAMES or (getattr(f, '__module__', '') or '').startswith('logging'):
            return True          # (logging looks after its own failures)
        inner = getattr(f, '__func__', f)
        code = getattr(inner, '__code__', None)
        if code is not None:
            return os.path.realpath(code.co_filename).startswith(SRC)
        return (getattr(f, '__module__', '') or '').startswith('siotls')

    def heavy(self, f):
        return (getattr(f, '__name__', '') in HEAVY_NAMES
                or (getattr(f, '__module__', None) or type(f).__module__ or '').startswith(HEAVY))

    def on_call(self, code, offset, f, arg0):
        if not self.armed:
            if code not in self.known:
                self.known[code] = os.path.realpath(code.co_filename).startswith(SRC)
            return None if self.known[code] else self.disable
        inside = self.known.get(code)
        if inside is None:
            inside = self.known[code] = os.path.realpath(code.co_filename).startswith(SRC)
        if not inside:
            return self.disable
        if self.own(f) or self.only_heavy and not self.heavy(f):
            return None
        self.count += 1
        if self.at <= self.count < self.until:
            self.fired.append((os.path.basename(code.co_filename) + ':' + code.co_name, getattr(f, '__name__', str(type(f)))))
            raise self.make()

    def plan(self, after, span, make, whole_call):
        """the calls number after.. from now on fail, `span` of them (all until the current public call is over if whole_call)"""
        self.at = self.count + after
        self.until = INF if whole_call else self.at + span
        self.make = make
        self.whole_call = whole_call

    def enter(self):
        self.armed = True

    def leave(self):
        self.armed = False
        if self.whole_call and self.count >= self.at:
            self.at = INF

    def reset(self):
        self.armed = False
        self.count = 0
        self.at = self.until = INF
        self.fired = []
        self.whole_call = self.only_heavy = False


_the = None


def injector():
    global _the
    if _the is None:
        _the = Injector()
    _the.reset()
    return _the
