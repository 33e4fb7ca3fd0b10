"""Drives the real TLSConnection through its public interface only, and carries bytes around."""
import random

from . import core, pki, ref
from .core import Violation, short


def _siotls():
    import siotls
    return siotls


class EP:
    """One end: a real TLSConnection.  Each end owns its random stream, so that the same calls
    give the same bytes whatever happens around it."""

    def __init__(self, run, name, config, hostname=None, ocsp=None, rseed=None):
        self.run = run
        self.name = name
        self.side = config.side
        self.config = config
        self.rseed = rseed if rseed is not None else f'{run.seed}/{name}'
        self.rand = random.Random(f'ep-{self.rseed}')
        self.rcvd = bytearray()        # what the application read
        self.sent = bytearray()        # what the application wrote (accepted writes)
        self.out = bytearray()         # not yet on the wire
        self.out_total = 0
        self.errors = []               # exceptions of receive_data
        self.calls = []                # (kind, arg, now): replayable
        self.refused = []              # refused writes
        self.ever_connected = False
        self.first_connected_at = None
        self.outputs = []
        self.conn = self._call(_siotls().TLSConnection, config, server_hostname=hostname,
                               ocsp_service=ocsp)
        run.real['TLSConnection ' + config.side] += 1

    # every entry into the code under test goes through here
    def _call(self, f, *a, **kw):
        run = self.run
        saved, run.rand = run.rand, self.rand
        try:
            return f(*a, **kw)
        finally:
            run.rand = saved

    def _collect(self):
        o = bytes(self._call(self.conn.data_to_send))
        self.out += o
        self.out_total += len(o)
        self.outputs.append(o)
        d = bytes(self._call(self.conn.data_to_read))
        self.rcvd += d
        if self.connected and not self.ever_connected:
            self.ever_connected = True
            self.first_connected_at = len(self.calls)
            self.run.ev(self.name, 'connected')
        return o, d

    def start(self):
        self.calls.append(('start', None, self.run.now))
        self._call(self.conn.initiate_connection)
        self._collect()

    def deliver(self, data):
        """-> (new output, newly readable bytes, exception or None)"""
        data = bytes(data)
        if not data:
            return b'', b'', None
        self.calls.append(('deliver', data, self.run.now))
        exc = None
        try:
            self._call(self.conn.receive_data, data)
        except Exception as e:
            exc = e
            self.errors.append(e)
        o, d = self._collect()
        self.run.ev(self.name, '<', short(data), '>', short(o), 'app', short(d),
                    type(exc).__name__ if exc else '-', 'C' if self.connected else 'c')
        return o, d, exc

    def write(self, data):
        self.calls.append(('write', bytes(data), self.run.now))
        try:
            self._call(self.conn.send_data, bytes(data))
        except Exception as e:
            self.refused.append((bytes(data), e))
            self._collect()
            self.run.ev(self.name, 'write refused', short(data), type(e).__name__)
            return False
        self.sent += data
        o, _ = self._collect()
        self.run.ev(self.name, 'write', short(data), '>', short(o))
        return True

    def _simple(self, kind, meth):
        self.calls.append((kind, None, self.run.now))
        exc = None
        try:
            self._call(meth)
        except Exception as e:
            exc = e
        o, _ = self._collect()
        self.run.ev(self.name, kind, '>', short(o), type(exc).__name__ if exc else '-')
        return exc

    def close_send(self):
        return self._simple('close_send', self.conn.close_sending_end)

    def close_recv(self):
        return self._simple('close_recv', self.conn.close_receiving_end)

    def take(self, n=None):
        n = len(self.out) if n is None else n
        o = bytes(self.out[:n])
        del self.out[:n]
        return o

    @property
    def connected(self):
        return bool(self.conn.is_connected())

    @property
    def failed(self):
        return bool(self.errors)

    @property
    def nconfig(self):
        return self.conn.nconfig

    def replay(self, hostname, ocsp, config=None):
        """the same calls, alone, on a fresh connection"""
        run = self.run
        saved = run.now
        other = EP(run, self.name + "'", config or self.config, hostname, ocsp, rseed=self.rseed)
        try:
            for kind, arg, now in self.calls:
                run.now = now
                if kind == 'start':
                    other.start()
                elif kind == 'deliver':
                    other.deliver(arg)
                elif kind == 'write':
                    other.write(arg)
                else:
                    getattr(other, kind)()
        finally:
            run.now = saved
        return other

    # uniform interface with the reference peers
    def feed(self, data):
        self.deliver(data)

    @property
    def app(self):
        return self.rcvd


def reason(exc):
    """a stable one-word description of an exception (its type)"""
    return type(exc).__name__ if exc is not None else None


class RecordSplitter:
    """cuts a byte stream into TLS records (header included)"""
    def __init__(self):
        self.buf = b''

    def push(self, data):
        self.buf += bytes(data)
        out = []
        while len(self.buf) >= 5:
            n = 5 + int.from_bytes(self.buf[3:5], 'big')
            if len(self.buf) < n:
                break
            out.append(self.buf[:n])
            self.buf = self.buf[n:]
        return out


def cut(run, data, style):
    """cut a byte string into delivery chunks"""
    if style == 'whole' or len(data) <= 1:
        return [data] if data else []
    if style == 'bytes' and len(data) <= 1500:
        return [data[i:i + 1] for i in range(len(data))]
    out, i = [], 0
    few = 0
    while i < len(data):
        few += 1
        left = len(data) - i
        if few > 24:
            n = left
        elif style == 'edges':
            # cut around record boundaries: header and tail split off
            n = run.ch.pick('cut.edge', [min(left, v) for v in (1, 4, 5, 6, 21, left)])
        else:
            n = run.ch.size('cut.len', 1, left)
        out.append(data[i:i + max(n, 1)])
        i += max(n, 1)
    return out


CUTS = ('whole', 'random', 'edges', 'bytes')


def settle(run, a, b, styles=('whole', 'whole'), limit=400, tap=None):
    """Carry everything both ways until both are quiet.  a and b are EP or reference peers.
    `tap(direction, data) -> data` sees each batch.  Returns the number of rounds."""
    for rounds in range(limit):
        moved = False
        first = run.ch.flip('settle.order', .5)
        for src, dst, d in ((a, b, 0), (b, a, 1)) if not first else ((b, a, 1), (a, b, 0)):
            data = src.take()
            if tap is not None and data:
                data = tap(d, data)
            if data:
                moved = True
                run.step('ab'[d])
                for chunk in cut(run, data, styles[d]):
                    dst.feed(chunk)
        if not moved:
            return rounds
    raise Violation('livelock', f'the two ends still exchange bytes after {limit} rounds')
