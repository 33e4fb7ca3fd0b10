"""C22: a refused call, a look, and a buffer leave no trace on the connection."""
import random

from checks.c15 import Traced
from sim import gen, pairs, ref
from sim.core import Violation
from sim.ep import EP

RULE = ('One run: one connection, honest or attacked, whose application also makes calls that must be refused, looks at everything at '
        'any moment, gives buffers it then reuses and scribbles over those it gets; then each real end again without any of that.')
QUICK = 24000
THOROUGH = 500000
STUBS = ['network: in-memory byte queues', 'in half of the runs one end is the reference peer']
PROBES = ['refused write', 'wrong type', 'empty input', 'initiated twice', 'rekey', 'looked', 'buffer reused', 'output scribbled',
          'before the start', 'during the handshake', 'connected', 'half closed', 'failed', 'closed again', 'foreign constructor',
          'honest', 'attacked', 'seldom drained']

NONSENSE = [None, 'text', 7, 3.5, [1, 2], {}, ('a',), object]


class Clumsy(EP):
    """an end whose application misuses it; whatever is refused stays out of `calls`"""

    def __init__(self, run, name, config, hostname=None, ocsp=None, rseed=None):
        self.marks = []              # what every entry of `calls` gave
        self.host = hostname
        self.up = False
        self.out_i = self.in_i = 0
        self.scribbles = run.ch.flip('scribbles', .5)
        super().__init__(run, name, config, hostname, ocsp, rseed)

    def _collect(self):
        run = self.run
        o = self._call(self.conn.data_to_send)
        d = self._call(self.conn.data_to_read)
        ob, db = bytes(o), bytes(d)
        for buf in (o, d):
            if self.scribbles and isinstance(buf, bytearray):
                run.probe('output scribbled')
                buf[:] = bytes(b ^ 0x55 for b in buf)
                buf += b'scribble'
        self.out += ob
        self.out_total += len(ob)
        self.outputs.append(ob)
        self.rcvd += db
        if self.connected:
            self.ever_connected = True
        if not self.errors and self.conn.is_post_handshake() and not self.kinds() & {'close_send', 'close_recv'}:
            self.up = True           # the handshake completed
        return ob, db

    def reused(self, f, data):
        """hand over a buffer that changes as soon as the call returns"""
        run = self.run
        if not run.ch.flip('reused', .4):
            return self._call(f, bytes(data))
        run.probe('buffer reused')
        buf = bytearray(data)
        try:
            return self._call(f, buf)
        finally:
            try:
                buf[:] = b'\xee' * len(buf)
                buf += b'more'
                del buf[:3]
            except BufferError:
                raise Violation('buffer kept', f'{self.name}: the buffer given to {f.__name__}() is still in use') from None

    def deliver(self, data):
        data = bytes(data)
        if not data:
            return b'', b'', None
        self.calls.append(('deliver', data, self.run.now))
        exc = None
        try:
            self.reused(self.conn.receive_data, data)
        except Exception as e:
            exc = e
            self.errors.append(e)
        o, d = self._collect()
        self.marks.append((o, d, self.connected, show(exc)))
        return o, d, exc

    def start(self):
        self.calls.append(('start', None, self.run.now))
        self._call(self.conn.initiate_connection)
        o, d = self._collect()
        self.marks.append((o, d, self.connected, None))

    def write(self, data):
        try:
            self.reused(self.conn.send_data, data)
        except Exception as e:
            self.refused.append((bytes(data), e))
            return False
        self.sent += data
        self.calls.append(('write', bytes(data), self.run.now))
        o, d = self._collect()
        self.marks.append((o, d, self.connected, None))
        return True

    def _simple(self, kind, meth):
        self.calls.append((kind, None, self.run.now))
        exc = None
        try:
            self._call(meth)
        except Exception as e:
            exc = e
        o, d = self._collect()
        self.marks.append((o, d, self.connected, show(exc)))
        return exc

    def kinds(self):
        return {k for k, _a, _n in self.calls}

    def phase(self):
        if self.errors:
            return 'failed'
        kinds = self.kinds()
        if not kinds:
            return 'before the start'
        if not self.up:
            return 'failed' if kinds & {'close_send', 'close_recv'} else 'during the handshake'
        return 'half closed' if kinds & {'close_send', 'close_recv'} else 'connected'


def show(exc):
    return None if exc is None else (type(exc).__name__, str(exc.args))


summary = Traced.summary


def misuse(run, x):
    """one call that must change nothing"""
    ch = run.ch
    conn = x.conn
    phase = x.phase()
    run.probe(phase)
    kinds = ['wrong write', 'wrong input', 'no input', 'look', 'rekey', 'wrap', 'other']
    started = 'start' in x.kinds()
    if started:
        kinds += ['initiate'] * 2
    can_write = phase == 'connected' or phase == 'half closed' and not 'close_send' in x.kinds()
    if not can_write:
        kinds += ['write'] * 3
    if phase == 'failed' or 'close_send' in x.kinds():
        kinds += ['close again']
    kind = ch.pick('misuse', kinds)
    run.fault(kind)
    run.st(x.side, phase, kind)
    own = x.rand
    x.rand = run.rand           # whatever it draws is not taken from the connection's own stream
    must = True                 # whether it has to be refused with an error
    before = x.connected, bool(conn.is_post_handshake())
    try:
        if kind == 'wrong write':
            must = False
            run.probe('wrong type')
            x._call(conn.send_data, ch.pick('nonsense', NONSENSE))
        elif kind == 'wrong input':
            must = False
            run.probe('wrong type')
            x._call(conn.receive_data, ch.pick('nonsense', NONSENSE))
        elif kind == 'no input':
            run.probe('empty input')
            must = False
            x._call(conn.receive_data, ch.pick('nothing', [b'', bytearray()]))
        elif kind == 'look':
            must = False
            run.probe('looked')
            for _ in range(ch.int('looks', 1, 3)):
                what = ch.pick('at', ['drain', 'status', 'report', 'limit', 'repr'])
                if what == 'drain':
                    more = bytes(x._call(conn.data_to_send)), bytes(x._call(conn.data_to_read))
                    if any(more):
                        raise Violation('again', f'{x.name} ({phase}): drained twice in a row, it gave {len(more[0])} and {len(more[1])} '
                                        'bytes more')
                elif what == 'status':
                    x._call(conn.is_connected), x._call(conn.is_post_handshake)
                elif what == 'limit':
                    conn.max_fragment_length
                elif what == 'report':
                    conn.nconfig is not None and summary(x)
                else:
                    repr(conn), str(conn), repr(conn.config)
        elif kind == 'rekey':
            run.probe('rekey')
            must = False
            x._call(conn.rekey)
            x.calls.append(('rekey', None, run.now))      # should it ever be implemented
            o, d = x._collect()
            x.marks.append((o, d, x.connected, None))
            return
        elif kind == 'wrap':
            must = False
            x._call(conn.wrap, None)
        elif kind == 'other':
            # somebody else's mistake with the same configuration
            from siotls import TLSConnection
            run.probe('foreign constructor')
            must = False
            other = x._call(TLSConnection, x.config, 'mistake' if ch.flip('named', .7) else None)
            if x.side == 'client' and ch.flip('started', .5):
                x._call(other.initiate_connection)
            for f, a in ch.shuffle('others', [(other.send_data, (b'x',)), (other.receive_data, (b'\x17\x03\x03\x00\x00' * 3,)),
                                              (other.close_sending_end, ())]):
                try:
                    x._call(f, *a)
                except Exception:
                    pass
        elif kind == 'initiate':
            run.probe('initiated twice')
            x._call(conn.initiate_connection)
        elif kind == 'write':
            run.probe('refused write')
            x._call(conn.send_data, run.rand.randbytes(ch.pick('len', [0, 1, 40, 20000])))
        elif kind == 'close again':
            run.probe('closed again')
            must = False
            x._call(conn.close_sending_end)
            if phase == 'failed' and ch.flip('both', .5):
                x._call(conn.close_receiving_end)
    except Violation:
        raise
    except Exception as e:
        must = False
        run.ev(x.name, phase, kind, 'refused', type(e).__name__)
    finally:
        x.rand = own
    if must:
        raise Violation('not refused', f'{x.name} ({phase}): {kind} is not refused')
    more = x._collect()
    if any(more):
        raise Violation('trace', f'{x.name} ({phase}): {kind} makes it emit {len(more[0])} bytes and deliver {len(more[1])}')
    after = x.connected, bool(conn.is_post_handshake())
    if before != after:
        raise Violation('trace', f'{x.name} ({phase}): {kind} changed it: connected, past the handshake {before} -> {after}')


def life(run):
    ch = run.ch
    mode = ch.pick('mode', ['rr', 'cr', 'sr'], [2, 1, 1])
    attacked = ch.flip('attacked', .35)
    run.probe('attacked' if attacked else 'honest')
    c, s, deal = pairs.compatible(run, simple=ch.flip('simple', .6))
    ends = []
    if mode in ('rr', 'sr'):
        ends.append(Clumsy(run, 'client', gen.build(c), c.host))
    else:
        ends.append(ref.RefClient(run, gen.ref_client_opts(c), None))
    if mode in ('rr', 'cr'):
        ends.append(Clumsy(run, 'server', gen.build(s)))
    else:
        ends.append(ref.RefServer(run, gen.ref_server_opts(s), None))
    client, server = ends
    pipes = [bytearray(), bytearray()]       # towards the server, towards the client

    def move():
        for d in (0, 1):
            pipes[d] += ends[d].take()

    def clumsy(p=.5):
        while ch.flip('clumsy', p):
            real = [x for x in ends if isinstance(x, Clumsy)]
            misuse(run, ch.pick('who', real))
            run.step('misuse')

    def spoil():
        if not attacked or not ch.flip('spoil', .15):
            return
        d = ch.int('dir', 0, 1)
        what = ch.pick('how', ['flip', 'drop', 'insert'])
        run.fault('network ' + what)
        if what == 'insert':
            pipes[d] += ch.pick('junk', [b'\x16\x03\x03\x00\x04\x00\x00\x00\x00', b'\x15\x03\x03\x00\x02\x02\x28', b'\xff' * 9,
                                         b'\x15\x03\x03\x00\x02\x01\x00', b'\x17\x03\x03\x00\x01\x17'])
        elif pipes[d]:
            if what == 'flip':
                pipes[d][ch.int('at', 0, len(pipes[d]) - 1)] ^= 1 << ch.int('bit', 0, 7)
            else:
                del pipes[d][ch.int('from', 0, len(pipes[d]) - 1):]

    clumsy(.4)
    if isinstance(server, Clumsy):
        server.start()
    clumsy(.4)
    client.start()
    move()
    if not attacked and len(client.out):
        raise Violation('bytes', 'left over')
    steps = ch.int('steps', 4, 22)
    closed = [False, False]

    def shut(d, x):
        """its application closes"""
        if isinstance(x, Clumsy):
            exc = x.close_send()
            if exc is not None:
                raise Violation('close raises', f'{x.name}: {exc!r}')
        elif x.connected:
            x.close()
        closed[d] = True

    for _ in range(steps):
        clumsy(.35)
        spoil()
        d = ch.int('side', 0, 1)
        x = ends[d]
        act = ch.pick('act', ['deliver', 'write', 'close_send', 'close_recv'], [10, 4, .5, .2])
        if act == 'deliver':
            if not pipes[1 - d]:
                d = 1 - d
                x = ends[d]
            pipe = pipes[1 - d]
            if pipe:
                k = len(pipe) if ch.flip('all', .6) else ch.size('k', 1, len(pipe))
                data = bytes(pipe[:k])
                del pipe[:k]
                x.feed(data)
                run.step('deliver')
        elif act == 'write':
            if x.connected and not closed[d] and not (isinstance(x, Clumsy) and x.errors):
                data = pairs.data(run, hi=ch.pick('hi', [300, 5000, 40000], [6, 2, .3]))
                ok = x.write(data)
                run.step('write')
                if isinstance(x, Clumsy) and not ok and not attacked and 'close_recv' not in x.kinds():
                    raise Violation('refused', f'{x.name}: {x.refused[-1][1]!r}')
        elif act == 'close_send':
            if x.connected or attacked:
                run.step('close')
                shut(d, x)
        elif isinstance(x, Clumsy) and (x.connected or attacked):
            run.step('close_recv')
            x.close_recv()
            closed[1 - d] = True
        move()
    clumsy(.3)
    if not attacked:
        for _ in range(60):
            moved = False
            for d in (0, 1):
                if pipes[d]:
                    moved = True
                    data = bytes(pipes[d])
                    pipes[d].clear()
                    ends[1 - d].feed(data)
                    clumsy(.15)
                move()
            if not moved:
                break
        for d, x in enumerate(ends):
            err = x.errors if isinstance(x, Clumsy) else x.error
            if err:
                raise Violation('broken', f'{x.name if isinstance(x, Clumsy) else "the reference peer"} failed on an honest network: {err!r}')
            if not any(closed) and not x.connected:
                raise Violation('no handshake', f'{mode} {c} {s}: the ends did not connect')
            if not any(closed) and bytes(ends[1 - d].app) != bytes(x.sent):
                raise Violation('lost', f'{len(ends[1 - d].app)} of {len(x.sent)} bytes arrived')
        if not any(closed):
            for d, x in enumerate(ends):
                if isinstance(x, Clumsy):
                    for _ in range(2):
                        misuse(run, x)
                    if not x.write(b'still alive'):
                        raise Violation('refused', f'{x.name}: {x.refused[-1][1]!r}')
                    move()
                    ends[1 - d].feed(bytes(pipes[d]))
                    pipes[d].clear()
                    if not bytes(ends[1 - d].app).endswith(b'still alive'):
                        raise Violation('lost', 'what was written after refused calls did not arrive')
    for x in ends:
        if isinstance(x, Clumsy):
            again(run, x)


def again(run, x):
    seldom = run.ch.flip('seldom', .4)
    if seldom:
        run.probe('seldom drained')
    saved = run.now
    config = x.config
    from siotls import TLSConnection
    y = EP.__new__(EP)
    y.run, y.rand, y.name = run, random.Random(f'ep-{x.rseed}'), x.name + "'"
    y.conn = y._call(TLSConnection, config, server_hostname=x.host, ocsp_service=None)
    total, got = [bytearray(), bytearray()], [bytearray(), bytearray()]
    for i, ((kind, arg, now), mark) in enumerate(zip(x.calls, x.marks)):
        run.now = now
        exc = None
        meth = {'start': y.conn.initiate_connection, 'deliver': y.conn.receive_data, 'write': y.conn.send_data,
                'close_send': y.conn.close_sending_end, 'close_recv': y.conn.close_receiving_end, 'rekey': y.conn.rekey}[kind]
        try:
            y._call(meth, *(() if arg is None else (arg,)))
        except Exception as e:
            exc = e
        for k in (0, 1):
            total[k] += mark[k]
        if not seldom or i == len(x.calls) - 1 or run.ch.flip('drain', .1):
            got[0] += y._call(y.conn.data_to_send)
            got[1] += y._call(y.conn.data_to_read)
            for k, what in ((0, 'emitted'), (1, 'delivered')):
                if total[k] != got[k]:
                    at = next((j for j, (a, b) in enumerate(zip(total[k], got[k])) if a != b), min(len(total[k]), len(got[k])))
                    raise Violation('trace', f'{x.name}: after call {i} ({kind}), {len(total[k])} bytes {what} with the refused calls, '
                                    f'{len(got[k])} without, different from byte {at} on')
        if show(exc) != mark[3] or bool(y.conn.is_connected()) != mark[2]:
            raise Violation('trace', f'{x.name}: call {i} ({kind}) gives {mark[3]}, connected {mark[2]} with the refused calls, '
                            f'{show(exc)}, connected {y.conn.is_connected()} without')
    run.now = saved
    if summary(x) != summary(y):
        raise Violation('trace', f'{x.name} reports {summary(x)} with the refused calls, {summary(y)} without')


SCENARIOS = [('misuse', 1, life)]
