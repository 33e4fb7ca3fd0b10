"""C19: the example server survives every client and serves the next one."""
import email.utils
import errno
import os
import tempfile

from checks import c12, c14, c17
from sim import core, example, fetch, gen, mutate, net, observer, pairs, pki, ref, threads
from sim.core import HarnessError, Violation

RULE = ('One run: the real example server in one thread, two to six scripted clients in theirs (well-behaved ones, the real example '
        'client, and clients that misbehave in seeded ways at seeded points) over simulated sockets, with simulated certificate status '
        'responders; or the server is interrupted at a seeded socket call.')
QUICK = 11000
THOROUGH = 300000
STUBS = ['sockets, listening socket and network: simulated', 'clients: reference peer with scripted misbehaviour, raw bytes, or the real example client',
         'status responders: simulated', 'clock: simulated', 'threads: real threads, one at a time, chosen by the seeded scheduler',
         'certificate and key files: real files in a scratch folder']
PROBES = ['served', 'not found', 'not allowed', 'bad request', 'served after a bad client', 'real client served', 'refused a client', 'stalled client',
          'client reset', 'client closed', 'client tampered', 'aborted before accept', 'reset before accept', 'never reads', 'odd hello',
          'incompatible', 'forged end', 'junk under keys', 'no request', 'flood', 'interrupted', 'waits behind another', 'request with the last flight',
          'responder consulted', 'slow client', 'plain http']

PLAIN = ['leaf-ec256', 'leaf-ec384', 'leaf-rsa', 'leaf-ed25519', 'leaf-ed448', 'leaf-direct', 'leaf-deep1']
PATIENCE = 4.5             # simulated seconds: after a client goes silent or away the server is done with it
WITH_RESPONDER = 30
HELLO = 'Hello from siotls\n'


class ServerSock(net.Sock):
    """the server's end of an accepted connection"""
    accepted_at = closed_at = None

    def _real_close(self):
        if not self.closed:
            self.closed_at = self.net.run.now
        super()._real_close()


class Listener(example.Listener):
    def close(self):
        super().close()
        for x in self.backlog:
            if isinstance(x, net.Sock):
                x.abort()
        self.backlog.clear()


class Visit:
    """one client"""
    def __init__(self, world, i, kind):
        self.w, self.i, self.kind = world, i, kind
        self.run = world.run
        self.name = f'c{i}'
        self.started = self.done = False
        self.sock = self.server_sock = None
        self.peer = None
        self.last = None           # last simulated time at which it did anything
        self.eof = False
        self.broken = False
        self.filter = None
        self.sent_n = 0
        self.story = kind

    # -- plumbing ------------------------------------------------------------------------------------
    def connect(self, cap=None, latency=None):
        w = self.w
        up, down = net.Stream(f'{self.name}>s'), net.Stream(f's>{self.name}', cap)
        addr = ('192.0.2.9', 40000 + self.i)
        self.sock = net.Sock(w.net, self.name, down, up)
        self.server_sock = ServerSock(w.net, 's' + self.name, up, down, addr)
        self.server_sock.faults = w.server_faults
        if latency:
            self.sock.latency = self.server_sock.latency = lambda s: latency
        self.last = self.run.now
        w.socks.append(self.server_sock)
        w.listener.backlog.append(self.server_sock)
        if w.listener.closed:
            self.server_sock.abort()
        return self.sock

    def touch(self):
        self.last = self.run.now

    def send(self, data):
        """raw bytes, until they are out or the server went away"""
        s = self.sock
        if self.filter:
            data = self.filter(data)
        try:
            while data:
                k = s.send(data)
                data = data[k:]
                self.touch()
        except OSError:
            self.broken = True
        return not self.broken

    def recv(self, timeout=None):
        """-> bytes, b'' at the end, None when nothing came"""
        s = self.sock
        s.timeout = timeout
        try:
            data = s.recv(65536)
            if data:
                if not self.server_sock.closed:
                    self.touch()
            else:
                self.eof = True
        except TimeoutError:
            return None
        except OSError:
            self.broken = self.eof = True
            return b''
        return data

    def linger(self):
        """do nothing until the server goes away"""
        s = self.sock
        self.w.sched.wait(lambda: s.rx.eof or s.rx.reset or s.closed, None, self.name + ' lingers')

    def drain(self):
        while not self.eof:
            self.recv()

    def pump(self, until, patient=None):
        """let the reference peer talk until the condition holds; -> whether it does"""
        p = self.peer
        while True:
            out = p.take()
            if out and not self.send(out):
                # what the server said before it went is still there
                while not self.eof:
                    d = self.recv()
                    if d:
                        p.feed(d)
                return until()
            if until():
                return True
            if self.eof or p.error:
                return False
            data = self.recv(patient)
            if data is None:
                return False
            if data:
                p.feed(data)

    # -- what clients do -----------------------------------------------------------------------------
    def main(self):
        try:
            self.started = True
            getattr(self, 'do_' + self.kind)()
        finally:
            if self.sock is not None and not self.sock.closed:
                self.sock.close()
            if self.last is not None and not self.server_sock.closed:
                self.touch()
            self.done = True

    def spec(self):
        run, ch = self.run, self.run.ch
        c = gen.Spec('client', gen._mix(run, 'suites', gen.SUITES), list(gen.GROUPS_FAST), list(gen.SIGS), [], store='AB', host=pki.HOST)
        c.groups = gen._mix(run, 'groups', gen.GROUPS_FAST)
        if ref.X25519 not in c.groups and ref.P256 not in c.groups:
            c.groups.append(ch.pick('must', [ref.X25519, ref.P256]))
        c.sigs = ch.shuffle('sigs', c.sigs)
        if ch.flip('alpn', .5):
            c.alpn = ch.pick('alpns', [['http/1.1'], ['http/1.0'], ['h2', 'http/1.1'], ['http/1.0', 'http/1.1']])
        if ch.flip('mfl', .25):
            c.mfl = ch.pick('mflv', gen.MFLS[1:])
        return c

    def client(self, spec=None, mut=None, cls=ref.RefClient, layout=None):
        self.peer = cls(self.run, gen.ref_client_opts(spec or self.spec()), layout, mut=mut)
        self.peer.start()
        return self.peer

    def request(self):
        """-> (request, expected code, expected body)"""
        ch = self.run.ch
        kind = ch.pick('request', ['/', '404', '405', '400'], [6, 1, 1, 1])
        version = ch.pick('version', ['HTTP/1.1', 'HTTP/1.0'])
        rest = '\r\n' + ch.pick('headers', ['', 'Host: x\r\n', f'Host: {pki.HOST}\r\nUser-Agent: x\r\nX-Pad: {"p" * 300}\r\n']) + '\r\n'
        if kind == '/':
            return f'GET / {version}{rest}'.encode(), 200, HELLO
        if kind == '404':
            return f'GET {ch.pick("path", ["/x", "/index.html", "*", "/%00", "//", "/é"])} {version}{rest}'.encode(), 404, ''
        if kind == '405':
            return f'{ch.pick("method", ["POST", "HEAD", "DELETE", "get", "BREW"])} {ch.pick("path", ["/", "/x"])} {version}{rest}'.encode(), 405, ''
        bad = ch.pick('bad', [b'\xff\xfe\x00', b'x', b'GET /', b'GET  \r\n\r\n', b'a b c d\r\n', b'\r\n\r\n', b'GET / HTTP/1.1 x\r\n\r\n', b'\x80' * 40])
        return bad, 400, ''

    def answered(self, code, body):
        """judge what came back"""
        if self.w.ended:
            return
        p = self.peer
        what = f'{self.name} ({self.story}) after {[v.story for v in self.w.visits[:self.i]]}'
        if not p.complete or p.error:
            raise Violation('not served', f'{what}: {pairs.why(p)}; end of file {self.eof}; server log {self.w.errors()}')
        text = bytes(p.app).decode('utf-8', 'replace')
        head, _, got = text.partition('\r\n\r\n')
        lines = head.split('\r\n')
        headers = {}
        for line in lines[1:]:
            k, _, v = line.partition(':')
            headers[k.strip().lower()] = v.strip()
        status = lines[0].split(' ')
        if status[0] != 'HTTP/1.1' or status[1:2] != [str(code)] or got != body:
            raise Violation('wrong answer', f'{what}: {text[:300]!r} instead of {code} {body!r}; alerts {p.alerts}; server log {self.w.errors()}')
        if headers.get('content-length') != str(len(body)) or headers.get('connection') != 'close':
            raise Violation('wrong answer', f'{what}: {text[:300]!r}')
        try:
            date = email.utils.parsedate_to_datetime(headers.get('date')).timestamp()
        except (TypeError, ValueError):
            date = 0
        if not self.server_sock.accepted_at - 1 <= date <= self.run.now + 1:
            raise Violation('wrong answer', f'{what}: Date: {headers.get("date")} at {core.utcdt(self.run.now)}')
        if not p.peer_closed:
            raise Violation('cut short', f'{what}: the answer came without a closing notice')
        self.run.probe({200: 'served', 404: 'not found', 405: 'not allowed', 400: 'bad request'}[code])
        if any(v.kind not in ('good', 'real') and v.done for v in self.w.visits[:self.i]):
            self.run.probe('served after a bad client')

    def do_good(self):
        run, ch, w = self.run, self.run.ch, self.w
        self.connect(latency=ch.pick('latency', [0, .01, .2], [4, 1, 1]))
        spec = self.spec()
        p = self.client(spec)
        req, code, body = self.request()
        self.story = f'good {req[:20]!r}'
        if any(not v.done and v.started for v in w.visits if v is not self):
            run.probe('waits behind another')
        ok = False
        p_frag = p.layout
        if ch.flip('early', .4):
            # the request goes with the last flight
            run.probe('request with the last flight')
            inner = p.finish

            def finish():
                inner()
                p.layout = ref.Layout(ch, wild=False)
                p.write(req)
            p.finish = finish
            self.pump(lambda: p.complete)
        else:
            self.pump(lambda: p.complete)
            if p.complete:
                p.layout = ref.Layout(ch, wild=False)
                p.write(req)
        ok = self.pump(lambda: p.peer_closed)
        self.answered(code, body)
        if not w.ended and [d for d, _ in p.certs] != [c.public_bytes(ref.serialization.Encoding.DER) for c in w.chain]:
            raise Violation('wrong certificate', self.name)
        if ch.flip('polite', .7):
            p.close()
            self.pump(lambda: True)
        if ok and ch.flip('wait', .5):
            self.drain()

    def do_real(self):
        """the example client itself"""
        run, w = self.run, self.w
        opened = []

        def create_connection(address, timeout=None, *a, **kw):
            if timeout is None:
                raise Violation('no timeout', 'the example client connects without a timeout')
            s = self.connect()
            s.timeout = timeout
            opened.append((address, s))
            return s
        said = []
        mod = example.load('simple_client', lambda: w.sched, create_connection=create_connection)
        mod.print = lambda *a, **kw: said.append(' '.join(map(str, a)))
        check = run.ch.flip('check', .5) and not w.responders
        if hasattr(mod, 'get_system_store'):
            mod.get_system_store = lambda: pki.STORES['AB']
        mod.ocsp_over_http = w.fetcher
        run.real['examples.simple_client'] += 1
        try:
            mod.connect(pki.HOST, 8446, check)
        except (threads.Killed, Violation, HarnessError):
            raise
        except BaseException as exc:
            if w.ended:
                return
            raise Violation('not served', f'the example client: {exc!r} after {[v.story for v in w.visits[:self.i]]}; server log {w.errors()}') from exc
        text = '\n'.join(said)
        if not w.ended and ('HTTP/1.1 200 OK' not in text or HELLO not in text):
            raise Violation('not served', f'the example client shows {text[:300]!r}')
        if not opened[0][1].closed:
            raise Violation('left open', 'the example client left its socket open')
        run.probe('real client served')

    def leave(self, how=None):
        ch = self.run.ch
        how = how or ch.pick('leave', ['stall', 'reset', 'close', 'half'], [3, 2, 2, 1])
        self.story += ' ' + how
        self.run.fault('client ' + how)
        if how == 'stall':
            self.run.probe('stalled client')
            self.linger()
        elif how == 'reset':
            self.run.probe('client reset')
            self.sock.abort()
        elif how == 'half':
            self.run.probe('client closed')
            self.sock.shutdown(net._socket.SHUT_WR)
            self.touch()
            self.drain()
        else:
            self.run.probe('client closed')
            self.sock.close()

    def nothing_for(self, who):
        """this client must not have been given anything"""
        if self.peer is not None and self.peer.app:
            raise Violation('answered', f'{self.name} ({self.story}) got {bytes(self.peer.app)[:60]!r}')
        self.run.probe('refused a client')

    def do_noise(self):
        run, ch = self.run, self.run.ch
        self.connect()
        kind = ch.pick('noise', ['nothing', 'random', 'http', 'sslv2', 'half', 'record', 'zero'])
        self.story = 'noise ' + kind
        run.fault('noise')
        rb = run.rand.randbytes
        data = {'nothing': b'', 'random': rb(ch.size('n', 1, 3000)), 'http': b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', 'sslv2': b'\x80\x2e\1\0\2' + rb(40),
                'half': b'\x16\3\1', 'record': bytes([ch.pick('t', [20, 21, 22, 23, 24])]) + b'\3\3' + ref.vec(2, rb(ch.size('n', 0, 300))),
                'zero': bytes(ch.size('n', 1, 400))}[kind]
        if kind == 'http':
            run.probe('plain http')
        self.send(data)
        self.leave()

    def do_cut(self):
        """well-behaved up to some byte"""
        run, ch = self.run, self.run.ch
        self.connect(latency=ch.pick('latency', [0, .2], [4, 1]))
        at = ch.int('at', 0, 400) if ch.flip('soon', .5) else ch.int('at', 0, 1200)
        how = ch.pick('then', ['stall', 'reset', 'close', 'half', 'tamper', 'slow'], [2, 2, 2, 1, 4, 1])
        self.story = f'cut at {at}: {how}'
        run.fault('client ' + how)
        gone = []
        p = self.client()

        class Cut(Exception):
            pass

        def filt(data):
            n = self.sent_n
            self.sent_n += len(data)
            if how == 'tamper':
                if n <= at < n + len(data):
                    run.probe('client tampered')
                    b = bytearray(data)
                    b[at - n] ^= 1 << ch.int('bit', 0, 7)
                    return bytes(b)
                return data
            if how == 'slow':
                if n < at:
                    run.probe('slow client')
                    k = min(at - n, len(data))
                    for i in range(0, k, max(1, k // 6)):
                        self.w.sched.sleep(.7)
                        self.sock.send(data[i:min(k, i + max(1, k // 6))])
                        self.touch()
                    gone.append(1)
                    self.sent_n = at
                    raise Cut
                return data
            if n + len(data) >= at:
                gone.append(1)
                d, self.sent_n = data[:at - n], at
                self.filter = None
                if d:
                    self.send(d)
                raise Cut
            return data
        self.filter = filt
        req, code, body = self.request()
        try:
            self.pump(lambda: p.complete)
            if p.complete and not p.error:
                p.write(req)
            self.pump(lambda: p.peer_closed)
        except (Cut, OSError):
            self.filter = None
            if how == 'slow':
                self.leave('stall')
            else:
                self.leave(how)
            return
        if how == 'tamper':
            self.leave(ch.pick('end', ['close', 'stall']))
        else:
            self.leave('close')

    def do_odd(self):
        """odd parameters"""
        run, ch = self.run, self.run.ch
        self.connect()
        kind = ch.pick('odd', ['hello', 'incompatible', 'mutated'])
        self.story = 'odd ' + kind
        run.fault('odd ' + kind)
        if kind == 'incompatible':
            run.probe('incompatible')
            spec = self.spec()
            what = ch.pick('what', ['suites', 'groups', 'sigs', 'alpn', 'version'])
            opts = {}
            if what == 'suites':
                spec.suites = [0x1304]
            elif what == 'groups':
                spec.groups = [ref.P384, ref.P521]
            elif what == 'sigs':
                spec.sigs = [0x0401]
            elif what == 'alpn':
                spec.alpn = ['h2', 'imap']
            else:
                opts = dict(versions=[0x0303])
            self.story += ' ' + what
            self.peer = ref.RefClient(run, gen.ref_client_opts(spec, **opts))
            self.peer.start()
        else:
            run.probe('odd hello')

            def mut(name, raw):
                if name != 'ClientHello':
                    return raw
                return (mutate.client_hello(run, raw) if kind == 'hello' else mutate.blob(run, raw))[0]
            self.client(mut=mut)
        p = self.peer
        self.pump(lambda: p.complete)
        if p.complete and not p.error:
            if kind == 'incompatible':
                raise Violation('answered', f'{self.name}: a handshake with incompatible {self.story} completed')
            p.write(b'GET / HTTP/1.1\r\n\r\n')
            self.pump(lambda: p.peer_closed)
        elif kind == 'incompatible':
            self.nothing_for(self.story)
        self.leave(ch.pick('end', ['close', 'stall', 'reset']))

    def do_forged(self):
        """does not complete the handshake as it must, and asks for the page"""
        run, ch = self.run, self.run.ch
        self.connect()
        how = ch.pick('forged', ['wrong', 'short', 'missing', 'early'])
        self.story = 'forged ' + how
        run.fault('forged end')
        run.probe('forged end')

        def mut(name, raw):
            if name != 'Finished' or how == 'early':
                return raw
            if how == 'missing':
                return None
            if how == 'short':
                return ref.hsmsg(ref.FIN, raw[4:-1])
            b = bytearray(raw)
            b[4 + ch.int('byte', 0, len(raw) - 5)] ^= 1 << ch.int('bit', 0, 7)
            return bytes(b)
        p = self.client(mut=mut)
        req = b'GET / HTTP/1.1\r\n\r\n'
        if how == 'early':
            inner = p.finish

            def finish():
                p.put(ref.APP, req)
                inner()
            p.finish = finish
        self.pump(lambda: p.complete)
        if p.complete and how != 'early':
            p.write(req)
        self.pump(lambda: p.peer_closed, 1)
        self.nothing_for(self.story)
        self.leave(ch.pick('end', ['close', 'stall', 'reset']))

    def do_after(self):
        """connects, then does something else than asking for a page"""
        run, ch = self.run, self.run.ch
        what = ch.pick('after', ['nothing', 'junk', 'notice', 'alert', 'app flood', 'ccs flood', 'big', 'empty', 'asks twice', 'unread'])
        self.connect(cap=ch.pick('cap', [60, 1, 200]) if what == 'unread' and ch.flip('tight', .5) else None)
        self.story = 'after: ' + what
        run.fault('after ' + what)
        p = self.client(layout=ref.Layout(ch, wild=False))
        if what == 'unread':
            run.probe('never reads')
            if self.sock.rx.capacity is None:
                self.pump(lambda: p.complete)
                p.write(b'GET / HTTP/1.1\r\n\r\n')
                self.sock.rx.capacity = ch.pick('cap', [1, 30, 200])
            self.send(p.take())
            self.leave(ch.pick('end', ['stall', 'close', 'reset'], [4, 1, 1]))
            return
        if not self.pump(lambda: p.complete):
            if self.w.ended:
                return
            raise Violation('not served', f'{self.name} ({self.story}) after {[v.story for v in self.w.visits[:self.i]]}: {pairs.why(p)}; '
                            f'server log {self.w.errors()}')
        if what == 'nothing':
            run.probe('no request')
        elif what == 'junk':
            run.probe('junk under keys')
            for _ in range(ch.int('times', 1, 3)):
                c17.junk(run, p)
            if ch.flip('ask', .4):
                p.write(b'GET / HTTP/1.1\r\n\r\n')
        elif what == 'notice':
            run.probe('no request')
            p.close()
        elif what == 'alert':
            p.alert(ch.pick('level', [1, 2, 0]), ch.pick('desc', [10, 20, 40, 80, 90, 255, 0]))
        elif what == 'app flood':
            run.probe('flood')
            for _ in range(ch.pick('n', [40, 400])):
                p.put(ref.APP, bytes(ch.pick('size', [0, 200])))
        elif what == 'ccs flood':
            run.probe('flood')
            p.out += b'\x14\3\3\0\1\1' * ch.pick('n', [40, 2000])
        elif what == 'big':
            p.put(ref.APP, b'GET / HTTP/1.1\r\n' + b'x' * 16000)
        elif what == 'empty':
            p.put(ref.APP, b'')
        elif what == 'asks twice':
            p.write(b'GET / HTTP/1.1\r\n\r\n')
            p.write(b'GET / HTTP/1.1\r\n\r\n')
        self.send(p.take())
        if ch.flip('look', .6):
            self.pump(lambda: p.peer_closed, ch.pick('for', [.3, 3]))
        self.leave()

    def do_backlog(self):
        """gone before it is accepted"""
        run, ch = self.run, self.run.ch
        how = ch.pick('backlog', ['reset', 'closed', 'hello then reset'] + ['aborted'] * 9 * self.w.aborts)
        self.story = 'backlog: ' + how
        run.fault('backlog ' + how)
        if how == 'aborted':
            run.probe('aborted before accept')
            abort = ConnectionAbortedError(errno.ECONNABORTED, 'Software caused connection abort')
            self.w.aborted.append(abort)
            self.w.listener.backlog.append(abort)
            return
        run.probe('reset before accept')
        self.connect()
        if how == 'hello then reset':
            p = self.client()
            s = self.sock
            s._push(p.take())
        if how == 'closed':
            self.sock.close()
        else:
            self.sock.abort()


BAD = ['noise', 'cut', 'odd', 'forged', 'after', 'backlog']


class World:
    def __init__(self, run, aborts):
        self.run = run
        ch = run.ch
        self.aborts = aborts       # whether accept may fail
        self.aborted = []
        self.sched = threads.Sched(run, prefer=ch.pick('sticky', [0, .5, .9]))
        self.net = net.Net(run, self.sched)
        self.net.reset_on_unread = False
        self.visits = []
        self.socks = []
        self.server_faults = None
        self.listener = Listener(run, self.sched, lambda: any(not v.done for v in self.visits))
        self.fetcher = fetch.load(lambda: self.sched)
        self.responders = ch.flip('responders', .25)
        self.chain_name = ch.pick('chain', c14.CHAINS[:-3] if self.responders else PLAIN)
        self.chain = pki.CHAINS[self.chain_name]
        self.resp = c14.Responder(run)
        self.resp.mod = self.fetcher
        self.ended = None

    def errors(self):
        return [t.split('\n')[-1] for n, t in (self.run.opts['textlog'] or []) if 'Traceback' in t][-3:]


def play(run, interrupt=False, aborts=False):
    ch = run.ch
    core.set_textlog(run, True)
    w = World(run, aborts)
    sched = w.sched
    n = ch.int('clients', 1, 4)
    for i in range(n):
        kind = ch.pick('kind', ['good', 'real'] + BAD, [2, 1, 2, 4, 2, 2, 4, 1 + 15 * aborts])
        w.visits.append(Visit(w, i, kind))
    w.visits.append(Visit(w, n, ch.pick('last', ['good', 'real'], [3, 1])))
    calls = [0]
    at = ch.int('interrupt at', 0, 40) if interrupt else None

    def faults(sock, op, k):
        calls[0] += 1
        if at is not None and calls[0] == at + 1:
            run.fault('interrupt')
            run.probe('interrupted')
            w.ended = 'interrupted'
            return 'raise', KeyboardInterrupt()
        if shorty and ch.flip('short', .2):
            return 'short', ch.pick('k', [1, 5, 17, 300])
        return None
    shorty = ch.flip('shorty', .25)
    w.server_faults = faults
    web = fetch.Web(run, sched, w.resp.answer, lambda h, p: w.resp.route(h, p))

    def make_socket(*a, **kw):
        return w.listener

    def create_server(address, *a, **kw):
        w.listener.bind(address)
        w.listener.listen()
        return w.listener
    mod = example.load('simple_server', lambda: sched, socket=make_socket, create_server=create_server)
    mod.ocsp_over_http = w.fetcher
    run.real['examples.simple_server'] += 1
    run.real['ocsp_over_http'] += 1
    tmp = tempfile.TemporaryDirectory(prefix='siotls-sim-')
    chain, key = example.pem_files(tmp.name, w.chain, c12.leaf_key(w.chain) if w.responders else pki.KEYOF[w.chain_name])
    result = []

    def server():
        try:
            result.append(mod.serve('192.0.2.1', 8446, chain, key))
        except BaseException as exc:
            if any(exc is x for x in w.aborted):
                w.ended = 'aborted'
            raise

    def clients():
        alone = ch.flip('one by one', .5)
        for v in w.visits:
            # the example client is not patient enough to wait behind anybody
            if alone or v.kind == 'real' or any(x.kind == 'real' and not x.done for x in w.visits[:v.i]):
                sched.wait(lambda: all(x.done for x in w.visits[:v.i]) and (w.listener.closed or all(s.closed for s in w.socks)), None, 'turn')
            elif ch.flip('gap', .4):
                sched.sleep(ch.pick('gap', [.01, .5, 3]))
            if w.listener.closed:
                v.done = True
                continue
            v.started = True
            t = sched.spawn(v.name, v.main, daemon=False)
            t.rand = __import__('random').Random(f'{run.seed}/{v.name}')
            t.thread.start()
    st = sched.spawn('server', server)
    st.rand = __import__('random').Random(f'{run.seed}/server')
    sched.spawn('clients', clients)
    try:
        with web:
            ok = sched.go()
    finally:
        tmp.cleanup()
    stories = [v.story for v in w.visits]
    run.st(*stories[:2], w.responders)
    what = f'{w.chain_name}: {stories}; server log {w.errors()}'
    for t in sched.tasks:
        if t is not st and t.exc is not None and not t.daemon:
            if w.ended:
                continue
            raise HarnessError(f'{t.name} died: {t.exc!r}') from t.exc
    if any(st.exc is x for x in w.aborted):
        raise Violation('died of an aborted connection', f'serve() raises {st.exc!r} from accept(): {what}') from st.exc
    if st.exc is not None:
        raise Violation('died', f'the server ended with {st.exc!r}: {what}') from st.exc
    if not ok:
        raise Violation('blocked', f'{sched.deadlocked}: {what}')
    if not result and not st.done:
        raise Violation('blocked', f'the server did not stop: {what}')
    if result and not w.listener.closed:
        raise Violation('left open', f'the listening socket: {what}')
    limit = WITH_RESPONDER if w.responders else PATIENCE
    run.steps += sched.switches
    for s in w.listener.accepted:
        run.ev(s.name, core.short(s.tx.total), core.short(s.rx.total), s.closed_at and round(s.closed_at - core.EPOCH, 6))
        if not s.closed:
            raise Violation('left open', f'{s.name}: {what}')
        clear(s, what, w.ended)
    for v in w.visits:
        s = v.server_sock
        if s is None or s.accepted_at is None or w.ended:
            continue
        took = s.closed_at - max(v.last, s.accepted_at)
        if took > limit:
            raise Violation('slow', f'{took:.1f} s after {v.name} ({v.story}) did anything: {what}')
    if web.requests:
        run.probe('responder consulted')
    if web.problem:
        raise Violation('request', web.problem)


def clear(sock, what, ended):
    """nothing but TLS goes out"""
    out = bytes(sock.tx.total)
    if b'HTTP/' in out or b'siotls' in out:
        raise Violation('in clear', f'{sock.name}: {what}')
    i, keyed = 0, False
    while i + 5 <= len(out) and not ended:
        t, n = out[i], int.from_bytes(out[i + 3:i + 5], 'big')
        if t not in (20, 21, 22, 23) or out[i + 1] != 3 or n > 16384 + 256:
            raise Violation('in clear', f'{sock.name} sent {out[i:i + 30]!r} where a record begins: {what}')
        if t == 23:
            keyed = True
        elif t == 22 and keyed:
            raise Violation('in clear', f'{sock.name} sent a clear handshake record under keys: {what}')
        i += 5 + n


def visitors(run):
    play(run)


def stopped(run):
    play(run, interrupt=True)


def aborted(run):
    play(run, aborts=True)


SCENARIOS = [('visitors', 6, visitors), ('stopped', 1, stopped), ('aborted', .2, aborted)]
