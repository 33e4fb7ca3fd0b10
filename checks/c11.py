"""C11: the blocking socket wrapper neither loses nor invents bytes under socket faults."""
import errno

from sim import gen, net, pairs, ref, threads
from sim.core import HarnessError, Violation
from sim.ep import _siotls

RULE = ('One run: one conversation between two ends over simulated blocking sockets, at least one through the real wrapper, '
        'each end in its own thread under a seeded scheduler, with a seeded fault plan for every socket call.')
QUICK = 25000
THOROUGH = 500000
STUBS = ['sockets and network: simulated streams with capacity, delays, short operations, timeouts, resets and ends of file',
         'threads: real threads, one running at a time, chosen by the seeded scheduler',
         'in two thirds of the runs one end is the reference peer']
PROBES = ['no fault', 'short operations', 'recv timeout', 'recv timeout retried', 'send timeout', 'recv reset', 'send reset', 'stream cut',
          'handshake interrupted', 'hostile peer', 'half close', 'small buffers', 'delays', 'peer vanishes',
          'fault in mid-conversation', 'clean end', 'error reached the caller', 'closed twice', 'data with the last flight',
          'read after the end', 'stalled peer', 'error in the with block']


class Real:
    """one end through the wrapper"""
    def __init__(self, run, name, config, host, sock):
        self.run, self.name, self.sock = run, name, sock
        self.conn = _siotls().TLSConnection(config, server_hostname=host)
        self.side = config.side
        self.produced = bytearray()
        self.sent = bytearray()
        self.rcvd = bytearray()
        self.secured = False
        self.ever = False
        self.error = None
        self.ended = False          # read reported the end of the stream
        self.calls = 0
        real = self.conn.data_to_send

        def tracked():
            data = real()
            self.produced += data
            if self.conn.is_connected():
                self.ever = True
            return data
        self.conn.data_to_send = tracked
        self.ws = self.conn.wrap(sock)
        run.real['TLSConnection ' + self.side] += 1
        run.real['WrappedSocket'] += 1

    def api(self, what, fn, *args):
        raised, eofs, recvs, got = len(self.sock.raised), self.sock.eofs, self.sock.recvs, self.sock.rx.read_total
        self.calls += 1
        self.run.step(f'{self.name[0]}.{what}')
        try:
            out = fn(*args)
        except (threads.Killed, Violation, HarnessError):
            raise
        except BaseException as exc:
            self.run.ev(self.name, what, 'raises', type(exc).__name__)
            if len(self.sock.raised) > raised:
                self.run.probe('error reached the caller')
                seen, e = [], exc
                while e is not None and e not in seen:
                    seen.append(e)
                    e = e.__cause__ or e.__context__
                if self.sock.raised[raised] not in seen:
                    raise Violation('masked', f'{self.name}: {what} met {self.sock.raised[raised]!r} but raises {exc!r}') from None
            self.conform(what, eofs, recvs, got)
            raise
        self.run.ev(self.name, what, 'returns', len(out) if isinstance(out, (bytes, bytearray)) else '')
        if len(self.sock.raised) > raised:
            raise Violation('swallowed', f'{self.name}: {what} returns although the socket raised {self.sock.raised[raised:]}')
        self.conform(what, eofs, recvs, got)
        return out

    def conform(self, what, eofs, recvs, got):
        if self.sock.eofs - eofs > 2:
            raise Violation('spins', f'{self.name}: {what} saw the end of file {self.sock.eofs - eofs} times')
        if self.sock.recvs - recvs > self.sock.rx.read_total - got + 3:
            raise Violation('spins', f'{self.name}: {what} called recv {self.sock.recvs - recvs} times for '
                            f'{self.sock.rx.read_total - got} bytes')
        out = bytes(self.sock.tx.total)
        if self.sock.send_failed:
            if not self.produced.startswith(out[:self.sock.failed_at]):
                raise Violation('garbled', f'{self.name}: what reached the socket is not a beginning of what was produced')
        elif out != self.produced:
            raise Violation('unsent', f'{self.name}: {what} ended with {len(out)} bytes handed to the socket, '
                            f'{len(self.produced)} were produced')

    def enter(self):
        self.api('handshake', self.ws.__enter__)
        self.secured = True

    def read(self):
        data = self.api('read', self.ws.read)
        self.rcvd += data
        if not data:
            self.ended = True
            if self.conn.is_connected():
                raise Violation('false end', f'{self.name}: read returns nothing on a connection that is still up')
        elif self.ended:
            raise Violation('after the end', f'{self.name}: read returns {len(data)} bytes after it reported the end')
        return data

    def main(self, plan):
        def body():
            try:
                self.enter()
                try:
                    self.plan(plan)
                except (threads.Killed, Violation, HarnessError):
                    raise
                except BaseException as exc:
                    if self.api('exit', self.ws.__exit__, type(exc), exc, exc.__traceback__):
                        raise Violation('swallowed', f'{self.name}: leaving the with block hides {exc!r}') from None
                    if isinstance(exc, Own):
                        self.conn.data_to_send()
                        try:
                            self.conn.send_data(b'more')
                        except Exception:
                            pass
                        else:
                            raise Violation('left open', f'{self.name}: the sending end is still open after the with block '
                                            'was left by an error')
                    raise
                else:
                    self.api('exit', self.ws.__exit__, None, None, None)
            except (threads.Killed, Violation, HarnessError):
                raise
            except Exception as exc:
                self.error = exc
            finally:
                self.sock.close()
        return body

    def plan(self, plan):
        ch = self.run.ch
        for op, n in plan:
            if op == 'w':
                left = n
                while left > 0:
                    k = ch.int('piece', 1, left) if ch.flip('split', .3) else left
                    data = self.run.rand.randbytes(k)
                    self.sent += data
                    self.api('write', self.ws.write, data)
                    left -= k
            elif op == 'r':
                tries = 0
                while len(self.rcvd) < n:
                    try:
                        if not self.read():
                            return
                    except TimeoutError:
                        tries += 1
                        if tries > 3 or self.sock.send_failed:
                            raise
                        self.run.probe('recv timeout retried')
            elif op == 'x':
                raise Own('the application fails')
            elif op == 'c':
                self.api('close', self.ws.close)
                if ch.flip('again', .2):
                    self.run.probe('closed twice')
                    self.api('close', self.ws.close)
            elif op == 'e':
                tries = 0
                while True:
                    try:
                        if not self.read():
                            break
                    except TimeoutError:
                        tries += 1
                        if tries > 3 or self.sock.send_failed:
                            raise
                        self.run.probe('recv timeout retried')
                if ch.flip('more', .2):
                    self.run.probe('read after the end')
                    self.read()


class Own(Exception):
    """raised by the application inside the with block"""


class Peer:
    """one end that is the reference peer, over the raw socket"""
    def __init__(self, run, name, peer, sock, sched):
        self.run, self.name, self.p, self.sock, self.sched = run, name, peer, sock, sched
        self.error = None
        self.secured = False
        self.stop = None
        self.eof = False

    sent = property(lambda self: self.p.sent)
    rcvd = property(lambda self: self.p.app)

    def pump(self, until):
        """move bytes until the condition holds; -> False when the stream ended first"""
        s, p = self.sock, self.p
        pend = bytearray()
        while True:
            pend += p.take()
            if until() and not pend:
                return True
            if self.eof and not pend or p.error:
                return until()

            def can():
                return (s.rx.buf or s.rx.eof and not s.rx.fly or s.rx.reset) and not self.eof or \
                    pend and (s.tx.room() or s.tx.gone or s.tx.reset) or p.out
            self.sched.wait(can, None, self.name + ' pump')
            try:
                if pend and (s.tx.room() or s.tx.gone or s.tx.reset):
                    k = s.send(pend)
                    del pend[:k]
                elif not self.eof and (s.rx.buf or s.rx.eof or s.rx.reset):
                    data = s.recv(65536)
                    if not data:
                        self.eof = True
                    p.feed(data)
            except OSError:
                return False

    def main(self, plan):
        def body():
            p = self.p
            try:
                if isinstance(p, ref.RefClient):
                    p.start()
                if self.stop == 'before':
                    return
                if not self.pump(lambda: p.complete):
                    return
                self.secured = True
                for op, n in plan:
                    if op == 'w':
                        p.write(self.run.rand.randbytes(n))
                    elif op == 'r':
                        if not self.pump(lambda: len(p.app) >= n):
                            return
                    elif op == 'c':
                        p.close()
                        self.pump(lambda: True)
                    elif op == 'e':
                        self.pump(lambda: p.peer_closed)
                    elif op == 'break':
                        if n == 'alert':
                            p.alert(2, 40)
                        elif n == 'garbage':
                            p.raw(b'\x17\3\3\0\x30' + bytes(48))
                        elif n == 'clear':
                            p.raw(b'\x17\3\3\0\4oops')
                        elif n == 'message':
                            p.put(ref.HS, ref.hsmsg(ref.EE, b'\0\0'))
                        self.pump(lambda: self.eof)
                        return
                    elif op == 'stall':
                        self.pump(lambda: True)
                        self.sched.wait(lambda: bool(self.sock.rx.eof or self.sock.rx.reset), None, self.name + ' stalls')
                        return
                self.pump(lambda: True)
            finally:
                self.sock.close()
        return body


def conversation(run):
    """turns -> the plans of both ends"""
    ch = run.ch
    plans = ([], [])
    totals = [0, 0]
    for _ in range(ch.int('turns', 0, 5)):
        who = ch.int('who', 0, 1)
        n = ch.size('n', 1, ch.pick('scale', [200, 3000, 40000], [5, 3, 1]))
        totals[who] += n
        plans[who].append(('w', n))
        plans[1 - who].append(('r', totals[who]))
    first = ch.int('first', 0, 1)
    half = ch.flip('half', .4)
    plans[first].append(('c', 0))
    plans[1 - first].append(('e', 0))
    if half:
        run.probe('half close')
        n = ch.size('n', 1, 3000)
        totals[1 - first] += n
        plans[1 - first].append(('w', n))
    plans[1 - first].append(('c', 0))
    plans[first].append(('e', 0))
    return plans, totals


HARD = {'recv timeout': ('recv', lambda: TimeoutError('timed out')),
        'send timeout': ('send', lambda: TimeoutError('timed out')),
        'recv reset': ('recv', lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')),
        'send reset': ('send', lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe')),
        'interrupted': ('recv', lambda: OSError(errno.EHOSTUNREACH, 'No route to host'))}


def talk(run):
    ch = run.ch
    mode = ch.pick('mode', ['rr', 'cr', 'sr'])
    c, s, d = pairs.compatible(run, simple=ch.flip('simple', .7))
    sched = threads.Sched(run, prefer=ch.pick('sticky', [0, .5, .9]))
    wire = net.Net(run, sched)
    cap = ch.pick('capacity', [None, 4096, 600, 70], [5, 2, 1, .5])
    plans, totals = conversation(run)
    fault = ch.pick('fault', ['none', 'short', 'cut', 'break', 'stall', 'vanish', 'own'] + list(HARD),
                    [3, 4, 3, 1.5, .7, 1, .7] + [1] * len(HARD))
    if fault not in ('none', 'short'):
        cap = None      # two blocking ends that both stop reading may wait for each other: not what is looked for
    elif cap:
        run.probe('small buffers')
    csock, ssock = wire.pair('client', 'server', cap)
    shorty = fault == 'short' or ch.flip('shorty', .3)
    where = ch.int('faulty', 0, 1)
    if mode == 'cr':
        where = 1
    elif mode == 'sr':
        where = 0
    if mode == 'rr' and fault in ('break', 'stall', 'vanish'):
        fault = 'short'
        shorty = True
    hard = HARD.get(fault)
    at = ch.int('at', 0, 3) if ch.flip('soon', .4) else ch.int('at', 0, 40)
    count = {'recv': 0, 'send': 0}
    soft = fault == 'recv timeout'
    fired = []
    ends = []

    def plan_for(i):
        def decide(sock, op, n):
            if hard and i == where and op == hard[0]:
                count[op] += 1
                if count[op] == at + 1:
                    run.fault(fault)
                    run.probe(fault)
                    fired.append(fault)
                    run.probe('fault in mid-conversation' if ends[i].secured else 'handshake interrupted')
                    return 'raise', hard[1]()
            if shorty and ch.flip('short', .3):
                run.fault('short ' + op)
                run.probe('short operations')
                return 'short', ch.pick('k', [1, 2, 5, 17, 100, 1000])
            return None
        return decide
    if shorty or hard:
        csock.faults, ssock.faults = plan_for(0), plan_for(1)
    if ch.flip('delay', .3):
        run.probe('delays')
        base = ch.pick('latency', [.01, .2, 2])
        lat = lambda sock: base * ch.pick('lat', [0, 1, 1, 3])
        csock.latency = ssock.latency = lat
        run.fault('delays')
    cut = None
    if fault == 'cut':
        cut = (ssock, csock)[ch.int('cut dir', 0, 1)]
        cut.tx.cut_at = ch.int('cut', 0, 200) if ch.flip('early', .25) else ch.int('cut', 0, 12000)
        run.probe('stream cut')
    wire.reset_on_unread = ch.flip('rst', .3)
    peer = None
    for i, sock in ((0, csock), (1, ssock)):
        if 'cs'[i] == mode[0]:
            p = ref.RefClient(run, gen.ref_client_opts(c)) if i == 0 else ref.RefServer(
                run, gen.ref_server_opts(s, nst=ch.pick('nst', [0, 1, 3])))
            peer = Peer(run, ('client', 'server')[i], p, sock, sched)
            ends.append(peer)
        else:
            spec = (c, s)[i]
            ends.append(Real(run, ('client', 'server')[i], gen.build(spec), c.host if i == 0 else None, sock))
            if fault == 'stall':
                sock.settimeout(ch.pick('timeout', [1, 5]))
    if peer is not None and fault in ('break', 'stall'):
        i = ends.index(peer)
        k = ch.int('break at', 0, len(plans[i]))
        del plans[i][k:]
        plans[i].append((fault, ch.pick('how', ['alert', 'garbage', 'clear', 'message'])))
        run.fault(fault)
        run.probe('hostile peer' if fault == 'break' else 'stalled peer')
    if peer is not None and fault == 'vanish':
        i = ends.index(peer)
        if ch.flip('at once', .3):
            peer.stop = 'before'
        else:
            del plans[i][ch.int('vanish at', 0, len(plans[i])):]
        run.fault('vanish')
        run.probe('peer vanishes')
    if fault == 'own':
        k = next(j for j, op in enumerate(plans[where]) if op[0] == 'c') if ch.flip('late', .6) else ch.int('own at', 0, len(plans[where]))
        plans[where][k:] = [('x', 0)]
        run.fault('error in the with block')
        run.probe('error in the with block')
    for i, e in enumerate(ends):
        t = sched.spawn(e.name, e.main(plans[i]))
        t.rand = __import__('random').Random(f'{run.seed}/{i}')
    ok = sched.go()
    what = f'{mode}, fault {fault} at {at}, plans {plans}'
    for t in sched.tasks:
        if t.exc is not None:
            raise HarnessError(f'{t.name} died: {t.exc!r}') from t.exc
    if not ok:
        raise Violation('blocked', f'nobody can go on: {sched.deadlocked}; {what}')
    reals = [e for e in ends if isinstance(e, Real)]
    a, b = ends
    # every byte
    for e in reals:
        e.conn.data_to_send()
        e.conform('the end', e.sock.eofs, e.sock.recvs, e.sock.rx.read_total)
    for x, y in ((a, b), (b, a)):
        if not pairs.is_prefix(x.rcvd, y.sent):
            raise Violation('prefix', f'{x.name} read bytes {y.name} did not write; {what}')
    # the handshake helper
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Real) and x.secured:
            if isinstance(y, Real):
                fine = y.ever or x.side == 'client' and len(y.produced) > 500
            else:
                fine = y.p.complete or x.side == 'client' and y.p.state in ('fin', 'done')
            if not fine:
                raise Violation('unsecured', f'the handshake helper of {x.name} returned although the handshake did not complete; {what}')
    lossless = fault in ('none', 'short') or (hard and not fired) or (cut is not None and len(cut.tx.total) < cut.tx.cut_at)
    if soft and fired and 'handshake interrupted' not in run.probes:
        lossless = True
    if lossless:
        for e in ends:
            err = e.error if isinstance(e, Real) else e.p.error
            if err:
                raise Violation('error', f'{e.name} ends with {err!r} although nothing but short operations happened; {what}')
        if len(a.rcvd) != totals[1] or len(b.rcvd) != totals[0]:
            raise Violation('lost', f'client read {len(a.rcvd)}/{totals[1]} bytes, server {len(b.rcvd)}/{totals[0]}; {what}')
        run.probe('clean end')
        if fault == 'none':
            run.probe('no fault')
    if fault == 'own' and ends[where].secured:
        if not isinstance(ends[where].error, Own) and not csock.send_failed and not ssock.send_failed:
            raise Violation('masked', f'{ends[where].name} was left by an error of its own, its caller sees {ends[where].error!r}; {what}')
        if peer is not None and peer.eof and not peer.p.error and not peer.p.peer_closed and not (csock.send_failed or ssock.send_failed):
            raise Violation('no notice', f'the peer of {ends[where].name} reached the end of the stream without a closing notice; {what}')
    if fault in HARD and fired and not lossless:
        x = ends[where]
        if x.error is None and not (x.ended and fault.startswith('send')):
            raise Violation('silent', f'{x.name} met {fired[0]} but its caller saw no error; {what}')
    if peer is not None and peer.secured and fault == 'break' and not peer.p.error:
        x = reals[0]
        if x.error is None and ('c', 0) not in plans[ends.index(peer)]:
            raise Violation('masked', f'{x.name} ended without error although its peer broke the protocol '
                            f'({plans[ends.index(peer)][-1]}); {what}')
    if fault == 'cut' and not lossless:
        for x in reals:
            if not x.secured and x.error is None:
                raise Violation('silent', f'the handshake of {x.name} neither completed nor failed; {what}')
    for e in reals:
        if len(e.rcvd) and e.secured and e.side == 'client':
            run.probe('data with the last flight')
    run.st(mode, fault, cap, [type(e.error).__name__ if isinstance(e, Real) and e.error else '' for e in ends], a.secured, b.secured)


SCENARIOS = [('talk', 1, talk)]
