"""Simulated stream sockets: short reads and writes, delays, timeouts, resets, ends of file, full buffers."""
import errno
import io
import socket as _socket

from .core import HarnessError


class Stream:
    """one direction of a connection"""
    def __init__(self, name, capacity=None):
        self.name = name
        self.buf = bytearray()
        self.capacity = capacity
        self.eof = False        # the writer is done
        self.gone = False       # the reader is gone
        self.reset = False
        self.total = bytearray()   # everything that ever got in
        self.read_total = 0
        self.fly = []           # (arrival, bytes) still travelling
        self.cut_at = None      # everything past this offset is lost and the stream ends there

    def room(self):
        return 1 << 30 if self.capacity is None else max(0, self.capacity - len(self.buf) - sum(len(d) for _, d in self.fly))


class Sock:
    """one end.  `faults(sock, op, n)` may return None, ('short', k) or ('raise', exc)"""
    family, type, proto = _socket.AF_INET, _socket.SOCK_STREAM, 6

    def __init__(self, net, name, rx, tx, peer_addr=('192.0.2.9', 443)):
        self.net = net
        self.sched = net.sched
        self.name = name
        self.rx, self.tx = rx, tx
        self.timeout = None
        self.closed = False
        self.faults = None
        self.ops = 0
        self.peer_addr = peer_addr
        self.raised = []          # faults raised to the caller
        self.eofs = 0             # times the end of file was reported
        self.recvs = 0
        self.sends = 0
        self.failed_at = None     # bytes that had got through when a send first failed
        self.latency = None
        self.shut_wr = False
        self._refs = 0
        self._want_close = False

    # -- helpers ---------------------------------------------------------------------------------
    def _fail(self, exc):
        self.raised.append(exc)
        self.net.run.ev(self.name, 'raises', type(exc).__name__)
        raise exc

    send_failed = property(lambda self: self.failed_at is not None)

    def _sendfail(self):
        if self.failed_at is None:
            self.failed_at = len(self.tx.total)

    def _alive(self):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def _fault(self, op, n):
        self.ops += 1
        self.sched.pause()
        act = self.faults(self, op, n) if self.faults else None
        if act and act[0] == 'raise':
            if op == 'send':
                self._sendfail()
            self._fail(act[1])
        return act[1] if act else None

    # -- the socket interface -----------------------------------------------------------------------
    def recv(self, n, flags=0):
        self._alive()
        if n < 0:
            raise ValueError('negative buffersize in recv')
        self.recvs += 1
        short = self._fault('recv', n)
        self._alive()
        rx = self.rx
        if n == 0:
            return b''
        if not self.sched.wait(lambda: rx.buf or rx.eof and not rx.fly or rx.reset or self.closed, self.timeout, f'{self.name} recv'):
            if self.timeout == 0:
                self._fail(BlockingIOError(errno.EAGAIN, 'would block'))
            self._fail(TimeoutError('timed out'))
        self._alive()
        if rx.reset:
            self._fail(ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'))
        if not rx.buf:
            self.eofs += 1
            return b''
        k = min(n, len(rx.buf))
        if short:
            k = max(1, min(k, short))
        data = bytes(rx.buf[:k])
        if not flags & _socket.MSG_PEEK:
            del rx.buf[:k]
            rx.read_total += k
        return data

    def recv_into(self, buffer, nbytes=0, flags=0):
        view = memoryview(buffer).cast('B')
        data = self.recv(nbytes or len(view), flags)
        view[:len(data)] = data
        return len(data)

    def _push(self, data):
        tx = self.tx
        if tx.gone:
            return
        data = bytes(data)
        before = len(tx.total)
        tx.total += data
        if tx.cut_at is not None and len(tx.total) >= tx.cut_at:
            data = data[:max(0, tx.cut_at - before)]
            if not tx.eof:
                self.net.run.fault('stream cut')
            tx.eof = True
            if not data:
                return
        d = self.latency(self) if self.latency else 0
        if d or tx.fly:
            last = tx.fly[-1][0] if tx.fly else 0
            tx.fly.append((max(self.net.run.now + d, last), data))
            self.net.wake_at(tx)
        else:
            tx.buf += data

    def send(self, data, flags=0):
        self._alive()
        data = memoryview(data).cast('B')
        self.sends += 1
        short = self._fault('send', len(data))
        self._alive()
        tx = self.tx
        if self.shut_wr:
            self._sendfail()
            self._fail(BrokenPipeError(errno.EPIPE, 'Broken pipe'))
        if not data:
            return 0
        if not self.sched.wait(lambda: tx.room() or tx.gone or tx.reset or self.closed, self.timeout, f'{self.name} send'):
            self._sendfail()
            self._fail(TimeoutError('timed out'))
        self._alive()
        if tx.reset or self.rx.reset:
            self._sendfail()
            self._fail(ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'))
        if tx.gone:
            # the other side went away: this write is lost, the next one knows
            if getattr(tx, 'told', False):
                self._sendfail()
                self._fail(BrokenPipeError(errno.EPIPE, 'Broken pipe'))
            tx.told = True
            self.rx.reset = True
            tx.total += data
            return len(data)
        k = min(len(data), tx.room())
        if short:
            k = max(1, min(k, short))
        self._push(data[:k])
        return k

    def sendall(self, data, flags=0):
        data = memoryview(data).cast('B')
        i = 0
        while i < len(data):
            i += self.send(data[i:], flags)
        return None

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return self.peer_addr

    def getsockname(self):
        return ('192.0.2.1', 40000)

    def fileno(self):
        return -1 if self.closed else 1000 + id(self) % 1000

    def shutdown(self, how):
        self._alive()
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
            self.shut_wr = True
            self.tx.eof = True

    def close(self):
        if self._refs > 0:
            self._want_close = True
            return
        self._real_close()

    def _real_close(self):
        if self.closed:
            return
        self.closed = True
        self.tx.eof = True
        self.rx.gone = True
        if self.rx.buf:
            # unread input: the other side gets a reset
            self.tx.reset = self.tx.reset or self.net.reset_on_unread
        self.net.run.ev(self.name, 'closed')

    def abort(self):
        """reset the connection"""
        self.closed = True
        self.tx.reset = True
        self.tx.eof = True
        self.rx.gone = True

    def detach(self):
        raise HarnessError('detach')

    def makefile(self, mode='r', buffering=None, **kw):
        raw = _Raw(self, mode)
        if 'r' in mode and 'w' not in mode:
            return io.BufferedReader(raw, buffering or io.DEFAULT_BUFFER_SIZE) if buffering != 0 else raw
        if 'w' in mode and 'r' not in mode:
            return io.BufferedWriter(raw) if buffering != 0 else raw
        return io.BufferedRWPair(raw, raw)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Raw(io.RawIOBase):
    def __init__(self, sock, mode):
        self.sock = sock
        sock._refs += 1
        self.mode_ = mode

    def readable(self):
        return 'r' in self.mode_

    def writable(self):
        return 'w' in self.mode_

    def readinto(self, b):
        return self.sock.recv_into(b)

    def write(self, b):
        return self.sock.send(b)

    def close(self):
        if not self.closed:
            super().close()
            s = self.sock
            s._refs -= 1
            if s._refs <= 0 and s._want_close:
                s._real_close()


class Net:
    """all the streams of a run; wakes travelling data up"""
    def __init__(self, run, sched):
        self.run = run
        self.sched = sched
        self.reset_on_unread = False
        self.flying = []
        self.n = 0
        self.pump = None

    def pair(self, a, b, cap=None, addr=('192.0.2.9', 443)):
        up, down = Stream(f'{a}>{b}', cap), Stream(f'{b}>{a}', cap)
        return Sock(self, a, down, up, addr), Sock(self, b, up, down, ('192.0.2.1', 40000))

    def wake_at(self, stream):
        if stream not in self.flying:
            self.flying.append(stream)
        if self.pump is None:
            self.pump = self.sched.spawn('wire', self._carry, daemon=True)
            self.pump.thread.start()

    def _carry(self):
        s = self.sched
        while True:
            s.wait(lambda: bool(self.flying), None, 'wire')
            t = min(x.fly[0][0] for x in self.flying)
            if t > self.run.now:
                s.wait(lambda: False, t - self.run.now, 'flight')
            for x in list(self.flying):
                while x.fly and x.fly[0][0] <= self.run.now:
                    x.buf += x.fly.pop(0)[1]
                if not x.fly:
                    self.flying.remove(x)
