"""C17: hostile peers cannot derail the handshake, loop it, or make an end hold or emit without bound."""
import sys
import types

from sim import gen, mutate, observer, pairs, pki, ref
from sim.core import Violation
from sim.ep import CUTS, EP, cut

RULE = ('One run: the real end of one role against a reference peer of the other that knows all the keys and lies once or more: '
        'in the order of its messages, in what they say, in how they are laid over records and keys, or by sending junk or floods.')
QUICK = 80000
THOROUGH = 3000000
CPU_LIMIT = 20
STUBS = ['the hostile end is the reference peer', 'network: in memory']
PROBES = ['skipped', 'repeated', 'swapped', 'inserted', 'after the handshake', 'before keys', 'second retry', 'across a key change',
          'flood', 'fuzz under keys', 'client lie', 'server lie', 'still connected after fuzz', 'large message']
SLACK = 150_000      # bytes an end may hold beyond what it was given and cannot process yet
EMITTED = 150_000    # bytes an end may emit beyond application data


# ---------------------------------------------------------------------------------------------
# messages that have no place
# ---------------------------------------------------------------------------------------------
def plain_exts(*exts):
    return ref.vec(2, b''.join(ref.ext(t, d) for t, d in exts))


def message(run, peer, name):
    """a well-formed message of that name"""
    rb = run.rand.randbytes
    sid = b''
    if name == 'ClientHello':
        if isinstance(peer, ref.RefClient):
            g = peer.o['groups'][0]
            return peer.client_hello([(g, ref.KX(g, run.rand).share)])
        kx = ref.KX(ref.X25519, run.rand)
        return ref.RefClient(run, {}, peer.layout).client_hello([(ref.X25519, kx.share)])
    if name in ('ServerHello', 'HelloRetryRequest'):
        kx = ref.KX(ref.X25519, run.rand)
        retry = name != 'ServerHello'
        return ref.hsmsg(ref.SH, b'\3\3' + (ref.HRR_RANDOM if retry else rb(32)) + ref.vec(1, sid) + ref.u(2, peer.suite or 0x1301) + b'\0' +
                         plain_exts((43, b'\3\4'), (51, ref.u(2, ref.X25519) + (b'' if retry else ref.vec(2, kx.share)))))
    if name == 'EncryptedExtensions':
        return ref.hsmsg(ref.EE, b'\0\0')
    if name == 'CertificateRequest':
        return ref.hsmsg(ref.CR, b'\0' + plain_exts((13, b'\0\2\4\3')))
    if name == 'Certificate':
        der = pki.CHAINS['leaf-ec256'][0].public_bytes(ref.serialization.Encoding.DER)
        return ref.hsmsg(ref.CERT, b'\0' + ref.vec(3, ref.vec(3, der) + b'\0\0'))
    if name == 'CertificateVerify':
        return ref.hsmsg(ref.CV, ref.u(2, 0x0403) + ref.vec(2, rb(70)))
    if name == 'Finished':
        n = 48 if peer.suite == 0x1302 else 32
        return ref.hsmsg(ref.FIN, rb(n))
    if name == 'NewSessionTicket':
        return ref.hsmsg(ref.NST, ref.u(4, 7200) + rb(4) + ref.vec(1, b'\0') + ref.vec(2, rb(32)) + b'\0\0')
    if name == 'EndOfEarlyData':
        return ref.hsmsg(ref.EOED, b'')
    if name == 'KeyUpdate':
        return ref.hsmsg(ref.KU, bytes([run.ch.int('ku', 0, 1)]))
    if name == 'HelloRequest':
        return ref.hsmsg(0, b'')
    if name == 'ServerHelloDone':
        return ref.hsmsg(14, b'')
    if name == 'ClientKeyExchange':
        return ref.hsmsg(16, ref.vec(1, rb(32)))
    if name == 'MessageHash':
        return ref.hsmsg(254, rb(32))
    return ref.hsmsg(99, rb(5))


NAMES = ['ClientHello', 'ServerHello', 'HelloRetryRequest', 'EncryptedExtensions', 'CertificateRequest', 'Certificate', 'CertificateVerify',
         'Finished', 'NewSessionTicket', 'EndOfEarlyData', 'KeyUpdate', 'HelloRequest', 'ServerHelloDone', 'ClientKeyExchange', 'MessageHash',
         'Unknown']
FLIGHT = ['ServerHello', 'EncryptedExtensions', 'Certificate', 'CertificateVerify', 'Finished']


def note(run, *what):
    run.st(*what)
    run.step('/'.join(map(str, what)))


class Shown(EP):
    """an end whose every call is bounded in what it emits"""
    def __init__(self, *a, **kw):
        self.budget = EMITTED
        super().__init__(*a, **kw)

    def _collect(self):
        out = super()._collect()
        if self.out_total > self.budget + 3 * len(self.sent):
            raise Violation('emits', f'{self.name} emitted {self.out_total} bytes')
        return out


def pair(run, side, c, s, **kw):
    """the real end of `side`, and its hostile peer"""
    layout = kw.pop('layout', None) or ref.Layout(run.ch, wild=not run.ch.flip('tidy', .6))
    if side == 'client':
        real = Shown(run, 'client', gen.build(c), c.host)
        peer = kw.pop('cls', ref.RefServer)(run, gen.ref_server_opts(s, **kw.pop('sopts', {})), layout, mut=kw.pop('mut', None), flight=kw.pop('flight', None))
        real.start()
    else:
        real = Shown(run, 'server', gen.build(s), None)
        real.start()
        cls = kw.pop('cls', ref.RefClient)
        peer = cls(run, gen.ref_client_opts(c, **kw.pop('copts', {})), layout, mut=kw.pop('mut', None))
        peer.start()
    return real, peer


def carry(run, real, peer, rounds=30):
    """everything both ways until nothing moves"""
    style = run.ch.pick('style', CUTS[:3])
    for _ in range(rounds):
        moved = False
        data = peer.take()
        if data:
            moved = True
            for chunk in cut(run, data, style):
                real.deliver(chunk)
        data = real.take()
        if data:
            moved = True
            peer.feed(data)
        if not moved:
            return
    raise Violation('livelock', 'the two ends never come to rest')


def must_fail(run, real, peer, what, connected_ok=False):
    if real.ever_connected and not connected_ok:
        raise Violation('derailed', f'{real.name} becomes connected although its peer {what}')
    if not real.errors:
        raise Violation('tolerated', f'{real.name} does not fail although its peer {what}')
    if real.connected:
        raise Violation('tolerated', f'{real.name} is still connected although its peer {what}')
    hellos(run, real)
    held(run, real, 0)


def hellos(run, real):
    """how many hellos it put on the wire"""
    clear = b''
    for rec in observer.RecordsLenient(b''.join(real.outputs)):
        if rec[0] == 22:
            clear += rec[5:]
    n, i, retries = 0, 0, 0
    while i + 4 <= len(clear):
        n += 1
        retries += clear[i + 6:i + 38] == ref.HRR_RANDOM
        i += 4 + int.from_bytes(clear[i + 1:i + 4], 'big')
    if n > 2 or retries > 1:
        raise Violation('retries', f'{real.name} emitted {n} hellos, {retries} of them retries')
    return n


# ---------------------------------------------------------------------------------------------
# memory
# ---------------------------------------------------------------------------------------------
_ATOM = (int, float, bool, type(None), type(...))
_STOP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, property)


def weigh(root, skip):
    """bytes reachable from an object, by content"""
    seen = set(map(id, skip))
    todo = [root]
    total = 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, _ATOM) or isinstance(o, _STOP):
            continue
        seen.add(id(o))
        if isinstance(o, (bytes, bytearray, str, memoryview)):
            total += len(o)
            continue
        total += 16
        if isinstance(o, dict):
            todo += list(o.keys()) + list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)) or type(o).__name__ == 'deque':
            todo += list(o)
        else:
            d = getattr(o, '__dict__', None)
            if d:
                todo += list(d.values())
            for cls in type(o).__mro__:
                for n in getattr(cls, '__slots__', ()) if not isinstance(getattr(cls, '__slots__', ()), str) else ():
                    try:
                        todo.append(getattr(o, n))
                    except AttributeError:
                        pass
            if hasattr(o, 'getbuffer'):
                total += o.getbuffer().nbytes
    return total


def modules_weight():
    return sum(weigh({k: v for k, v in vars(m).items() if not k.startswith('__')}, []) for n, m in list(sys.modules.items())
               if n.split('.')[0] == 'siotls')


def held(run, real, pending):
    w = weigh(real.conn, [real.conn.config])
    if w > SLACK + 3 * pending:
        raise Violation('holds', f'{real.name} holds {w} bytes, {pending} of them wait for more to come')


# ---------------------------------------------------------------------------------------------
# order
# ---------------------------------------------------------------------------------------------
def spec_for(run):
    auth = run.ch.pick('auth', ['store', 'none', 'rpk', 'both'], [4, 4, 1, 1])
    return pairs.compatible(run, simple=run.ch.flip('simple', .6), auth=auth, ff=run.ch.flip('ff', .15))


def scramble(run, names):
    """another order than the standard's -> (names, what was done)"""
    ch = run.ch
    k = ch.pick('scramble', ['skip', 'repeat', 'swap', 'insert', 'early', 'tail'], [3, 2, 2, 4, 2, 1])
    names = list(names)
    i = ch.int('at', 0, len(names) - 1)
    if k == 'skip':
        for _ in range(ch.pick('skipped', [1, 2, 3], [3, 2, 1])):
            i = ch.int('at', 0, len(names) - 1)
            if len(names) > 1:
                del names[i]
        run.probe('skipped')
    elif k == 'repeat':
        names.insert(ch.int('to', i, len(names)), names[i])
        run.probe('repeated')
    elif k == 'swap':
        j = ch.int('with', 0, len(names) - 1)
        names[i], names[j] = names[j], names[i]
        run.probe('swapped')
    elif k == 'insert':
        for _ in range(ch.pick('inserted', [1, 2], [4, 1])):
            names.insert(ch.int('at', 0, len(names) - 1), 'x:' + ch.pick('odd', NAMES))
        run.probe('inserted')
    elif k == 'early':
        x = names.pop()
        names.insert(i, x)
    else:
        names = names[:i] + ['x:' + ch.pick('odd', NAMES)]
    return names


def legal(names):
    """whether the standard allows this flight (a request for client authentication is left out of account)"""
    bare = [n[2:] if n.startswith('x:') else n for n in names]
    if bare == FLIGHT and not any(n.startswith('x:') for n in names):
        return True
    return 'x:CertificateRequest' in names


def act(run, name):
    """one step of a flight: the peer's own message, or another one that enters the transcript too"""
    if not name.startswith('x:'):
        return name

    def emit(peer):
        raw = message(run, peer, name[2:])
        peer.transcript += raw
        peer.put_hs([raw])
    return emit


def told(run, transcript):
    """the conversation, or the part of it a peer vouches for: an end that skips what it does not expect may not notice"""
    ch = run.ch
    view = ch.pick('view', ['all', 'but the last', 'but one', 'up to'], [3, 2, 1, 1])
    if view == 'all':
        return transcript
    out, i = [], 0
    while i + 4 <= len(transcript):
        n = 4 + int.from_bytes(transcript[i + 1:i + 4], 'big')
        out.append(transcript[i:i + n])
        i += n
    if view == 'but the last':
        out = out[:-1]
    elif view == 'but one':
        del out[ch.int('one', 0, len(out) - 1)]
    else:
        out = out[:ch.int('one', 1, len(out))]
    return b''.join(out)


class Vouching:
    """vouches for a part of the conversation only"""
    partial = False

    def th(self):
        if not self.partial:
            return super().th()
        kept, self.transcript = self.transcript, told(self.run, self.transcript)
        try:
            return super().th()
        finally:
            self.transcript = kept

    def vouch(self, build):
        self.partial = True
        try:
            return build()
        finally:
            self.partial = False


class Disordered(Vouching, ref.RefServer):
    def b_CertificateVerify(self):
        return self.vouch(super().b_CertificateVerify)

    def b_Finished(self):
        if not hasattr(self, 'ks'):
            return ref.hsmsg(ref.FIN, bytes(32))     # before there is any key
        return self.vouch(super().b_Finished)


def server_order(run):
    c, s, d = spec_for(run)
    plan = scramble(run, FLIGHT)
    if legal(plan):
        return
    run.fault('order')

    def flight(names):
        return [act(run, n) for n in plan]
    real, peer = pair(run, 'client', c, s, flight=flight, cls=Disordered)
    peer.feed(real.take())
    # a peer that could not even build its flight (no key for a signature, say) told nothing
    carry(run, real, peer)
    if not peer.error or real.errors or real.ever_connected:
        note(run, 'server order', plan[:6], len(real.calls))
        bare = [n.removeprefix('x:') for n in plan]
        if bare == FLIGHT[:len(bare)] and len(bare) < len(FLIGHT):
            # it merely waits for the rest
            if real.ever_connected:
                raise Violation('derailed', f'{real.name} is connected after {plan} only')
            held(run, real, 0)
            return
        # what comes after a proper flight finds the client connected already, when it comes on its own
        must_fail(run, real, peer, f'sent the flight {plan}', plan[:len(FLIGHT)] == FLIGHT)


class Talker(Vouching, ref.RefClient):
    """a client that says other things than Finished at the end"""
    plan = None

    def finish(self):
        for name in self.plan:
            if name == 'Finished':
                raw = ref.hsmsg(ref.FIN, self.vouch(lambda: self.ks.finished(self.ks.c_hs, self.th())))
                self.put_hs([raw])
                self.transcript += raw
            elif name == 'keys':
                self.wr = ref.Prot(self.suite, self.ks.c_ap)
            elif name == 'app':
                self.put(ref.APP, b'too early')
            elif name == 'clear app':
                self.out += b'\x17\3\3\0\5hello'
            elif name == 'ccs':
                self.put_ccs()
            else:
                raw = message(self.run, self, name[2:])
                self.transcript += raw
                self.put_hs([raw])
        self.complete = True


def client_order(run):
    """after the server's flight"""
    ch = run.ch
    c, s, d = spec_for(run)
    k = ch.pick('scramble', ['skip', 'insert', 'twice', 'app', 'other', 'several', 'same key'], [2, 5, 2, 2, 3, 1, 2])
    odd = [n for n in NAMES]
    x = 'x:' + ch.pick('odd', odd)
    ok = False
    if k == 'skip':
        plan = ['keys', 'app']
        run.probe('skipped')
    elif k == 'insert':
        plan = [x, 'Finished', 'keys', 'app']
        run.probe('inserted')
    elif k == 'twice':
        plan = ['Finished'] + (['keys'] if ch.flip('keys', .7) else []) + ['x:Finished' if ch.flip('other', .5) else 'Finished']
        run.probe('repeated')
        ok = True
    elif k == 'app':
        plan = [ch.pick('which', ['app', 'clear app']), 'Finished', 'keys']
    elif k == 'other':
        plan = [x]
    elif k == 'several':
        plan = ['x:Certificate', 'x:CertificateVerify', 'Finished', 'keys', 'app']
    else:
        plan = ['Finished', ch.pick('more', ['app', x])]
        ok = True
    run.fault('order')
    cls = type('Talker', (Talker,), dict(plan=plan))
    real, peer = pair(run, 'server', c, s, cls=cls)
    carry(run, real, peer)
    if peer.error and not peer.complete:
        return
    note(run, 'client order', plan)
    must_fail(run, real, peer, f'sent {plan} at the end', ok)


def first_words(run):
    """before any key: the first message is not the one expected, or comes again"""
    ch = run.ch
    c, s, d = spec_for(run)
    side = ch.pick('side', ['client', 'server'])
    run.probe('before keys')
    run.fault('order')
    layout = ref.Layout(ch, wild=not ch.flip('tidy', .6))
    if side == 'server':
        real = Shown(run, 'server', gen.build(s), None)
        real.start()
        peer = ref.RefClient(run, gen.ref_client_opts(c), layout)
        k = ch.pick('first', ['odd', 'hello twice', 'app', 'alert', 'heartbeat', 'empty'])
    else:
        real = Shown(run, 'client', gen.build(c), c.host)
        real.start()
        peer = ref.RefServer(run, gen.ref_server_opts(s), layout)
        k = ch.pick('first', ['odd', 'app', 'alert', 'heartbeat', 'empty', 'nothing but keys'])
    right = 'ClientHello' if side == 'server' else 'ServerHello'
    if k == 'odd':
        n = ch.pick('odd', [n for n in NAMES if n != right and not (side == 'client' and n == 'HelloRetryRequest')])
        peer.put_hs([message(run, peer, n)])
        k += ' ' + n
    elif k == 'hello twice':
        peer.start()
        raw = peer.transcript
        peer.put_hs([raw])
    elif k == 'app':
        peer.put(ref.APP, run.rand.randbytes(ch.size('n', 0, 200)))
    elif k == 'alert':
        peer.put(ref.ALERT, ch.pick('alert', [b'', b'\2', b'\2\x28', b'\2\x28\0', b'\1\x32', b'\3\x0a', b'\2\xc8']))
    elif k == 'heartbeat':
        peer.put(ref.HB, b'\1\0\4beat' + bytes(16))
    elif k == 'empty':
        peer.put(ref.HS, b'')
    else:
        peer.out += b'\x17\3\3\0\x30' + run.rand.randbytes(48)
    for chunk in cut(run, peer.take(), ch.pick('style', CUTS[:3])):
        real.deliver(chunk)
    note(run, 'first', side, k)
    must_fail(run, real, peer, f'began with {k}')


def later(run):
    """messages that have no place after the handshake"""
    ch = run.ch
    c, s, d = spec_for(run)
    side = ch.pick('side', ['client', 'server'])
    real, peer = pair(run, side, c, s)
    if side == 'client':
        peer.feed(real.take())
    carry(run, real, peer)
    if not real.connected or not peer.connected:
        raise Violation('no-handshake', f'{c} {s}: {pairs.why(real)} {pairs.why(peer)}')
    run.probe('after the handshake')
    run.fault('order')
    k = ch.pick('late', ['odd', 'empty', 'no type', 'type', 'alert', 'partial', 'clear', 'bad ticket', 'marker'], [5, 1, 1, 2, 2, 3, 2, 1, 1])
    for _ in range(ch.pick('before', [0, 1, 3])):
        peer.write(run.rand.randbytes(30))
    if k == 'odd':
        allowed = {'KeyUpdate', 'CertificateRequest'} | ({'NewSessionTicket'} if side == 'client' else set())
        n = ch.pick('odd', [n for n in NAMES if n not in allowed])
        peer.put_hs([message(run, peer, n)])
        k += ' ' + n
    elif k == 'empty':
        peer.put(ref.HS, b'', ch.pick('pad', [0, 9]))
    elif k == 'no type':
        peer.out += peer.wr.seal_raw(bytes(ch.pick('n', [0, 1, 16, 400])))
    elif k == 'type':
        peer.put(ch.pick('t', [1, 20, 25, 99, 255]), b'\1')
    elif k == 'alert':
        peer.put(ref.ALERT, ch.pick('alert', [b'', b'\2', b'\2\x28\0', b'\2\x28', b'\1\x32', b'\2\xc8', b'\1\0\1\0']))
    elif k == 'partial':
        raw = message(run, peer, 'NewSessionTicket')
        peer.put(ref.HS, raw[:ch.int('cut', 1, len(raw) - 1)])
        peer.put(*ch.pick('inter', [(ref.APP, b'x'), (ref.ALERT, b'\1\0'), (ref.APP, b'')]))
        peer.put(ref.HS, raw[-3:])
    elif k == 'clear':
        t = ch.pick('t', [ref.HS, ref.ALERT, ref.APP, 99])
        body = {ref.HS: message(run, peer, 'NewSessionTicket'), ref.ALERT: b'\1\0', ref.APP: b'hello'}.get(t, b'??')
        peer.out += ref.u(1, t) + b'\3\3' + ref.vec(2, body)
    elif k == 'bad ticket':
        if side == 'client':
            raw = message(run, peer, 'NewSessionTicket')
            body = ch.pick('body', [raw[4:-1], raw[4:] + b'\0', raw[4:9], b'', raw[4:-2] + b'\0\5'])
            peer.put_hs([ref.hsmsg(ref.NST, body)])
        else:
            peer.put_hs([ref.hsmsg(ref.NST, b'')])
    else:
        peer.out += ch.pick('ccs', [b'\x14\3\3\0\1\2', b'\x14\3\3\0\2\1\1', b'\x14\3\3\0\0'])
    carry(run, real, peer)
    note(run, 'later', side, k)
    must_fail(run, real, peer, f'sent {k} after the handshake', True)


# ---------------------------------------------------------------------------------------------
# layout
# ---------------------------------------------------------------------------------------------
def across(run):
    """bytes of a message under keys other than its own"""
    ch = run.ch
    c, s, d = spec_for(run)
    run.probe('across a key change')
    run.fault('layout')
    side = ch.pick('side', ['client', 'server'])
    tidy = ref.Layout(ch, wild=False)
    k = ch.pick('where', ['hello+', 'finished+', 'interleaved', 'empty'])
    n = ch.pick('tail', [1, 3, 4, 30])
    odd = ch.pick('tail.odd', NAMES)

    def cuts(peer, raw):
        """one message in two records with something in between"""
        i = ch.int('cut', 1, len(raw) - 1)
        peer.put(ref.HS, raw[:i])
        if k == 'empty':
            peer.put(ref.HS, b'')
        else:
            t, b = ch.pick('inter', [(ref.ALERT, b'\1\0'), (ref.ALERT, b'\1\x5a'), (ref.APP, b'x'), (ref.APP, b''), (ref.HB, b'\1\0\1x' + bytes(16)), (77, b'?')])
            peer.put(t, b)
        peer.put(ref.HS, raw[i:])
    if side == 'server':
        if k == 'finished+':
            class Client(ref.RefClient):
                def finish(self):
                    raw = ref.hsmsg(ref.FIN, self.ks.finished(self.ks.c_hs, self.th()))
                    self.put(ref.HS, raw + message(run, self, odd)[:n])
                    self.transcript += raw
                    self.wr = ref.Prot(self.suite, self.ks.c_ap)
                    self.complete = True
        elif k == 'hello+':
            class Client(ref.RefClient):
                def put_hs(self, msgs):
                    self.put(ref.HS, msgs[0] + message(run, self, odd)[:n])
        else:
            late = ch.flip('late', .5)

            class Client(ref.RefClient):
                def put_hs(self, msgs):
                    if (self.wr is not None) == late:
                        cuts(self, msgs[0])
                    else:
                        super().put_hs(msgs)
        real, peer = pair(run, 'server', c, s, cls=Client, layout=tidy)
    else:
        at = 0 if k == 'hello+' else 4 if k == 'finished+' else ch.int('at', 0, 4)

        class Server(ref.RefServer):
            count = 0

            def put_hs(self, msgs):
                for m in msgs:
                    if m[0] == ref.SH and m[6:38] == ref.HRR_RANDOM:
                        self.put(ref.HS, m)
                        continue
                    i, self.count = self.count, self.count + 1
                    if i != at:
                        self.put(ref.HS, m)
                    elif k.endswith('+'):
                        self.put(ref.HS, m + message(run, self, odd)[:n])
                    else:
                        cuts(self, m)
        real = Shown(run, 'client', gen.build(c), c.host)
        peer = Server(run, gen.ref_server_opts(s), tidy)
        real.start()
        peer.feed(real.take())
    carry(run, real, peer)
    note(run, 'across', side, k, n)
    must_fail(run, real, peer, f'laid its messages wrongly over records ({k}, {odd}[:{n}])')


# ---------------------------------------------------------------------------------------------
# lies
# ---------------------------------------------------------------------------------------------
def hello_lies(run, c, s, raw, second):
    """another ServerHello (or retry) that no client may accept -> (raw, what)"""
    ch = run.ch
    h = mutate.Hello(raw)
    retry = h.is_hrr
    offered = set(c.suites)
    table = ['suite', 'version', 'no version', 'legacy', 'sid', 'compression', 'no share', 'unoffered ext', 'group', 'tail', 'short', 'ext tail',
             'version tail']
    if not retry:
        table += ['share size', 'share point', 'psk']
    else:
        table += ['same group']
    if second and not retry:
        table += ['suite after retry', 'group after retry']
    k = ch.pick('lie', table)
    share = h.get(51) or b''
    if k == 'suite':
        h.suites = [ch.pick('suite', [x for x in (0x1301, 0x1302, 0x1303, 0x1304, 0x1305, 0xc02f, 0, 0x2a2a) if x not in offered])]
    elif k == 'suite after retry':
        others = [x for x in c.suites if x != h.suites[0]]
        if not others:
            return raw, None
        h.suites = [others[0]]
    elif k == 'group after retry':
        other = next((g for g in c.groups if g != int.from_bytes(share[:2], 'big') and g in (ref.X25519, ref.X448)), None)
        if other is None:
            return raw, None
        h.set(51, ref.u(2, other) + ref.vec(2, ref.KX(other, run.rand).share))
    elif k == 'version':
        h.set(43, ch.pick('v', [b'\3\3', b'\3\2', b'\x7f\x1c', b'\0\0', b'\3\5']))
    elif k == 'no version':
        h.drop(43)
    elif k == 'legacy':
        h.version = ch.pick('v', [b'\3\4', b'\3\1', b'\2\0'])
    elif k == 'sid':
        h.sid = run.rand.randbytes(ch.pick('n', [1, 16, 32]))
    elif k == 'compression':
        h.comp = b'\1'
    elif k == 'no share':
        h.drop(51)
    elif k == 'unoffered ext':
        t = ch.pick('t', [0x3a3a, 41, 17, 18, 27, 45, 42, 49] + ([] if c.alpn else [16]) + ([1] if c.mfl == 16384 else []) + ([] if retry else [44]))
        h.exts.insert(ch.int('at', 0, len(h.exts)), (t, {16: b'\0\3\2h2', 1: b'\1', 41: b'\0\0', 44: b'\0\1a', 45: b'\1', 49: b'', 42: b'',
                                                        17: b'', 18: b'\0\3\0\1x', 27: b'\0\1'}.get(t, b'')))
    elif k == 'group':
        g = ch.pick('g', [x for x in (0x17, 0x18, 0x19, 0x1d, 0x1e, 0x100, 0x2a2a, 0) if x not in c.groups])
        h.set(51, ref.u(2, g) + share[2:])
    elif k == 'same group':
        h.set(51, ref.u(2, c.groups[0]))
    elif k == 'tail':
        raw = h.raw()
        return ref.hsmsg(raw[0], raw[4:] + bytes(ch.pick('n', [1, 4]))), k
    elif k == 'short':
        raw = h.raw()
        return ref.hsmsg(raw[0], raw[4:4 + ch.int('n', 0, len(raw) - 5)]), k
    elif k == 'ext tail':
        t, d = ch.pick('ext', h.exts)
        h.set(t, d + b'\0')
    elif k == 'version tail':
        h.set(43, b'\3')
    elif k == 'share size':
        h.set(51, share[:2] + ref.vec(2, ch.pick('share', [share[4:-1], share[4:] + b'\0', b'', share[4:20]])))
    elif k == 'share point':
        g = int.from_bytes(share[:2], 'big')
        n = len(share) - 4
        if g in (ref.X25519, ref.X448):
            bad = ch.pick('point', [bytes(n), b'\1' + bytes(n - 1)])
        elif g in ref.EC_GROUPS:
            bad = ch.pick('point', [b'\4' + bytes(n - 1), b'\4' + b'\xff' * (n - 1), b'\0' * n, share[4:-1] + bytes([share[-1] ^ 1]), b'\5' + share[5:]])
        else:
            p = ref.FF_P[g]
            bad = ch.pick('point', [0, 1, p - 1, p, p + 1 if p.bit_length() == (p + 1).bit_length() else 0]).to_bytes(n, 'big')
        h.set(51, share[:4] + bad)
    elif k == 'psk':
        h.exts.append((41, b'\0\0'))
    return h.raw(), k


def ee_lies(run, c, s, raw):
    ch = run.ch
    exts = []
    rr = ref.R(ref.R(raw[4:]).vec(2))
    while not rr.eof():
        t = rr.u(2)
        exts.append((t, rr.vec(2)))
    opts = ['unoffered', 'misplaced', 'tail', 'short', 'alpn', 'mfl', 'type', 'own type', 'ext tail']
    k = ch.pick('lie', opts)

    def put(t, d):
        exts[:] = [(a, b) for a, b in exts if a != t]
        exts.insert(ch.int('at', 0, len(exts)), (t, d))
    if k == 'unoffered':
        t = ch.pick('t', [0x3a3a, 17, 18, 42, 14, 0xff01, 35] + ([] if c.alpn else [16]) + ([1] if c.mfl == 16384 else []) +
                    ([] if c.trusted else [20]) + ([] if c.own in ('rpk', 'both') else [19]) + ([] if c.host and not c.host[0].isdigit() else [0]))
        put(t, {16: b'\0\3\2h2', 1: b'\1', 20: b'\0', 19: b'\0', 0: b'', 42: b'', 14: b'\0\2\0\1\0', 18: b'\0\3\0\1x'}.get(t, b''))
    elif k == 'misplaced':
        put(*ch.pick('ext', [(43, b'\3\4'), (51, ref.u(2, ref.X25519) + ref.vec(2, bytes(32))), (44, b'\0\1a'), (13, b'\0\2\4\3'), (41, b'\0\0'),
                             (45, b'\1\1')]))
    elif k == 'alpn':
        if not c.alpn:
            return raw, None
        put(16, ch.pick('alpn', [b'\0\0', b'\0\5\4nope', b'\0\6\2h2\2h2', b'\0\1\0', b'\0\4\2h2', ref.vec(2, b''.join(ref.vec(1, a.encode()) for a in c.alpn + ['zz']))]))
    elif k == 'mfl':
        if c.mfl == 16384:
            return raw, None
        put(1, ch.pick('mfl', [bytes([x]) for x in (0, 1, 2, 3, 4, 5, 255) if ref.MFL.get(x) != c.mfl] + [b'', b'\1\1']))
    elif k == 'type':
        if not c.trusted:
            return raw, None
        put(20, ch.pick('type', [b'\1', b'\3', b'', b'\2\2', b'\xff'] + ([] if c.store else [b'\0'])))
    elif k == 'own type':
        if c.own not in ('rpk', 'both'):
            return raw, None
        put(19, ch.pick('type', [b'\1', b'\3', b'', b'\2\2', b'\xff'] + ([] if c.own == 'both' else [b'\0'])))
    elif k == 'ext tail':
        if not exts:
            return raw, None
        i = ch.int('which', 0, len(exts) - 1)
        exts[i] = (exts[i][0], exts[i][1] + b'\0')
    body = ref.vec(2, b''.join(ref.ext(t, d) for t, d in exts))
    if k == 'tail':
        body += b'\0'
    elif k == 'short':
        body = body[:ch.int('n', 0, len(body) - 1)]
    return ref.hsmsg(ref.EE, body), k


def cert_lies(run, c, s, raw):
    ch = run.ch
    k = ch.pick('lie', ['empty', 'tail', 'short', 'garbage', 'unoffered ext', 'list length', 'entry tail', 'empty entry'])
    r = ref.R(raw[4:])
    r.vec(1)
    entries = r.vec(3)
    e = ref.R(entries)
    first, exts = e.vec(3), e.vec(2)
    rest = entries[3 + len(first) + 2 + len(exts):]
    body = None
    if k == 'empty':
        entries = b''
    elif k == 'tail':
        body = raw[4:] + b'\0'
    elif k == 'short':
        body = raw[4:4 + ch.int('n', 0, len(raw) - 5)]
    elif k == 'garbage':
        entries = ref.vec(3, run.rand.randbytes(ch.pick('n', [1, 100, 700]))) + ref.vec(2, exts) + rest
    elif k == 'unoffered ext':
        t, d = ch.pick('ext', [(0x3a3a, b''), (18, b'\0\3\0\1x'), (17, b''), (16, b'\0\3\2h2') if not c.alpn else (17, b'')] +
                       ([] if c.store else [(5, b'\1' + ref.vec(3, b'0123'))]))
        entries = ref.vec(3, first) + ref.vec(2, exts + ref.ext(t, d)) + rest
    elif k == 'list length':
        body = b'\0' + ref.u(3, len(entries) + ch.pick('by', [-1, 1, 1000])) + entries
    elif k == 'entry tail':
        entries += b'\0\0'
    else:
        entries += b'\0\0\0\0\0'
    return ref.hsmsg(ref.CERT, body if body is not None else b'\0' + ref.vec(3, entries)), k


def cv_lies(run, c, s, raw):
    ch = run.ch
    k = ch.pick('lie', ['scheme', 'signature', 'tail', 'short', 'empty', 'legacy', 'context'])
    scheme, sig = int.from_bytes(raw[4:6], 'big'), raw[8:]
    if k == 'scheme':
        scheme = ch.pick('scheme', [x for x in (0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808, 0x0809, 0x080a, 0x080b, 0x2a2a, 0)
                                    if x != scheme])
    elif k == 'legacy':
        scheme = ch.pick('scheme', [0x0401, 0x0501, 0x0601, 0x0201, 0x0203])
    elif k == 'signature':
        sig = mutate.flip_bit(ch, sig)
    elif k == 'empty':
        sig = b''
    elif k == 'context':
        return None, k       # made by the peer itself: see below
    body = ref.u(2, scheme) + ref.vec(2, sig)
    if k == 'tail':
        body += b'\0'
    elif k == 'short':
        body = body[:ch.int('n', 0, len(body) - 1)]
    return ref.hsmsg(ref.CV, body), k


def fin_lies(run, raw):
    ch = run.ch
    k = ch.pick('lie', ['bit', 'tail', 'short', 'empty', 'zeros', 'other hash'])
    body = raw[4:]
    body = {'bit': lambda: mutate.flip_bit(ch, body), 'tail': lambda: body + b'\0', 'short': lambda: body[:ch.int('n', 1, len(body) - 1)],
            'empty': lambda: b'', 'zeros': lambda: bytes(len(body)), 'other hash': lambda: body[::-1]}[k]()
    return ref.hsmsg(ref.FIN, body), k


def server_lie(run):
    ch = run.ch
    c, s, d = spec_for(run)
    sopts = {}
    if len(c.groups) > 1 and ch.flip('retry', .3):
        sopts['force_hrr'] = True
    which = ch.pick('which', ['ServerHello', 'HelloRetryRequest', 'EncryptedExtensions', 'Certificate', 'CertificateVerify', 'Finished'],
                    [4, 2, 3, 2, 2, 1])
    if which == 'HelloRetryRequest':
        sopts['force_hrr'] = True
    told = []
    box = {}

    def mut(name, raw):
        if name != which or told:
            return raw
        if name in ('ServerHello', 'HelloRetryRequest'):
            out, k = hello_lies(run, c, s, raw, box['peer'].hrr is not None)
        elif name == 'EncryptedExtensions':
            out, k = ee_lies(run, c, s, raw)
        elif name == 'Certificate':
            out, k = cert_lies(run, c, s, raw)
        elif name == 'CertificateVerify':
            out, k = cv_lies(run, c, s, raw)
            if out is None:
                content = ch.pick('context', [b' ' * 64 + b'TLS 1.3, client CertificateVerify\0', b'', ref.CV_SERVER[1:]])
                p = box['peer']
                out = ref.hsmsg(ref.CV, ref.u(2, p.sig) + ref.vec(2, ref.sign(p.o['key'], p.sig, content + p.th())))
        else:
            out, k = fin_lies(run, raw)
        if k is not None and out != raw:
            told.append(f'{name}: {k}')
            run.fault('lie')
        return out
    real, peer = pair(run, 'client', c, s, mut=mut, sopts=sopts)
    box['peer'] = peer
    peer.feed(real.take())
    carry(run, real, peer)
    if not told:
        return
    run.probe('server lie')
    note(run, 'server lie', told)
    must_fail(run, real, peer, f'lied in its {told}')


def ch_lies(run, c, s, raw, d, name):
    ch = run.ch
    h = mutate.Hello(raw)
    table = ['no version', 'versions', 'no groups', 'no sigs', 'no common suite', 'no common group', 'no common sig', 'compression', 'legacy', 'tail',
             'short', 'ext tail', 'share size', 'share point', 'suites odd', 'no suites', 'list tail', 'dup', 'psk first', 'alpn', 'two names', 'two shares', 'types']
    k = ch.pick('lie', table)
    if name == 'ClientHello2' and ch.flip('other random', .2):
        k = 'random'
    share = h.get(51) or b''
    if k == 'random':
        h.random = mutate.flip_bit(ch, h.random)
    elif k == 'no version':
        h.drop(43)
    elif k == 'versions':
        h.set(43, ch.pick('v', [b'\2\3\3', b'\4\3\3\3\2', b'\2\x7f\x1c', b'\0', b'\1\3', b'\3\3\4\3']))
    elif k == 'no groups':
        h.drop(10)
    elif k == 'no sigs':
        h.drop(13)
    elif k == 'no common suite':
        h.suites = [x for x in (0x1304, 0x1305, 0xc02f, 0x1301, 0x1302, 0x1303) if x not in s.suites]
    elif k == 'no common group':
        gs = [x for x in (0x17, 0x18, 0x19, 0x1d, 0x1e, 0x2a2a) if x not in s.groups]
        h.set(10, ref.vec(2, b''.join(ref.u(2, g) for g in gs)))
    elif k == 'no common sig':
        h.set(13, b'\0\4\2\1\2\3')
    elif k == 'compression':
        h.comp = ch.pick('comp', [b'\1', b'', b'\1\0', b'\0\0'])
    elif k == 'legacy':
        h.version = ch.pick('v', [b'\3\1', b'\2\0', b'\3\0'])
    elif k == 'tail':
        raw = h.raw()
        return ref.hsmsg(raw[0], raw[4:] + bytes(ch.pick('n', [1, 4]))), k
    elif k == 'short':
        raw = h.raw()
        return ref.hsmsg(raw[0], raw[4:4 + ch.int('n', 0, len(raw) - 5)]), k
    elif k == 'ext tail':
        t, b = ch.pick('ext', [e for e in h.exts if e[0] in (43, 10, 13, 51, 16, 1, 20, 15)])
        h.set(t, b + b'\0')
    elif k == 'list tail':
        t = ch.pick('ext', [10, 13, 43])
        b = h.get(t)
        h.set(t, ref.vec(1 if t == 43 else 2, b[1 if t == 43 else 2:] + b'\0'))
    elif k == 'share size':
        if d.group not in (int.from_bytes(share[2:4], 'big'),) or len(share) < 20:
            return raw, None
        body = share[6:]
        h.set(51, ref.vec(2, share[2:4] + ref.vec(2, ch.pick('share', [body[:-1], body + b'\0', body[:10]]))))
    elif k == 'share point':
        g = int.from_bytes(share[2:4], 'big')
        if g != d.group or len(share) < 20:
            return raw, None
        n = len(share) - 6
        if g in (ref.X25519, ref.X448):
            bad = ch.pick('point', [bytes(n), b'\1' + bytes(n - 1)])
        elif g in ref.EC_GROUPS:
            bad = ch.pick('point', [b'\4' + bytes(n - 1), b'\4' + b'\xff' * (n - 1), b'\0' * n, share[6:-1] + bytes([share[-1] ^ 1]), b'\5' + share[7:]])
        else:
            p = ref.FF_P[g]
            bad = ch.pick('point', [0, 1, p - 1, p]).to_bytes(n, 'big')
        h.set(51, share[:6] + bad)
    elif k == 'suites odd':
        raw = h.raw()
        i = 4 + 34 + 1 + len(h.sid)
        n = int.from_bytes(raw[i:i + 2], 'big')
        return ref.hsmsg(1, raw[4:i] + ref.u(2, n + 1) + raw[i + 2:i + 2 + n] + b'\x13' + raw[i + 2 + n:]), k
    elif k == 'no suites':
        h.suites = []
    elif k == 'dup':
        t, b = next(e for e in h.exts if e[0] == 10)
        h.exts.append((10, ref.vec(2, b[2:] + b'\x2a\x2a')))
    elif k == 'psk first':
        h.exts.insert(0, (41, b'\0\x08\0\x02id\0\0\0\0\0\x21\x20' + bytes(32)))
    elif k == 'two names':
        h.drop(0)
        h.exts.insert(0, (0, ref.vec(2, b'\0' + ref.vec(2, b'a.sim') + b'\0' + ref.vec(2, b'b.sim'))))
    elif k == 'types':
        if d.retry and name == 'ClientHello':
            return raw, None        # settled from the second hello
        h.drop(20)
        h.exts.insert(0, (20, ch.pick('types', [b'', b'\0', b'\1\1', b'\1\x2a', b'\2\0'])))
    elif k == 'two shares':
        if len(share) < 20:
            return raw, None
        h.set(51, ref.vec(2, share[2:] + share[2:4] + ref.vec(2, run.rand.randbytes(len(share) - 6))))
    elif k == 'alpn':
        if not s.alpn or d.retry and name == 'ClientHello':
            # (which protocol is spoken is settled after a retry, from the second hello)
            return raw, None
        x = b'\0\5\4nope'
        h.drop(16)
        h.exts.append((16, ch.pick('alpn', [x, b'\0\1\0', b'\0\4\2h2'])))
    return h.raw(), k


def client_lie(run):
    ch = run.ch
    c, s, d = spec_for(run)
    which = ch.pick('which', ['ClientHello', 'Finished', 'ClientHello2'], [5, 1, 1])
    copts = {}
    if which == 'ClientHello2':
        copts['shares'] = []
    told = []

    def mut(name, raw):
        if name != which or told:
            return raw
        out, k = fin_lies(run, raw) if name == 'Finished' else ch_lies(run, c, s, raw, d, name)
        if k is not None and out != raw:
            told.append(f'{name}: {k}')
            run.fault('lie')
        return out
    real, peer = pair(run, 'server', c, s, mut=mut, copts=copts)
    carry(run, real, peer)
    if not told:
        return
    run.probe('client lie')
    note(run, 'client lie', told)
    must_fail(run, real, peer, f'lied in its {told}')


def retries(run):
    """asked again and again"""
    ch = run.ch
    c, s, d = spec_for(run)
    run.probe('second retry')
    run.fault('retry')
    side = ch.pick('side', ['client', 'server'])
    layout = ref.Layout(ch, wild=not ch.flip('tidy', .6))
    n = ch.int('times', 1, 3)
    if side == 'server':
        # a client that never shares the group it was asked for
        class Client(ref.RefClient):
            def server_hello(self, r, raw):
                if raw[6:38] != ref.HRR_RANDOM:
                    return super().server_hello(r, raw)
                for _ in range(n):
                    g = ch.pick('share', [None] + [g for g in (ref.X25519, ref.X448) if g != int.from_bytes(raw[-2:], 'big')])
                    shares = [(g, ref.KX(g, self.rand).share)] if g else []
                    self.put_hs([self.client_hello(shares)])
        real = Shown(run, 'server', gen.build(s), None)
        real.start()
        peer = Client(run, gen.ref_client_opts(c, shares=[]), layout)
        peer.start()
    else:
        groups = list(c.groups)
        if len(groups) < 2:
            return
        real = Shown(run, 'client', gen.build(c), c.host)
        real.start()

        class Server(ref.RefServer):
            asked = 0

            def client_hello(self, r, raw):
                sid = b''
                self.asked += 1
                g = groups[self.asked % len(groups)] if ch.flip('other', .7) else groups[1]
                if self.asked > n + 1:
                    return
                self.put_hs([ref.hsmsg(ref.SH, b'\3\3' + ref.HRR_RANDOM + ref.vec(1, sid) + ref.u(2, c.suites[0]) + b'\0' +
                                       plain_exts((43, b'\3\4'), (51, ref.u(2, g))))])
        peer = Server(run, gen.ref_server_opts(s), layout)
        if ch.flip('at once', .3):
            peer.client_hello(None, None)
            peer.client_hello(None, None)
        peer.feed(real.take())
    carry(run, real, peer)
    k = hellos(run, real)
    note(run, 'retries', side, n, k)
    if real.ever_connected:
        raise Violation('derailed', f'{real.name} becomes connected')
    if side == 'server' or peer.asked > 1:
        must_fail(run, real, peer, 'goes on retrying')


# ---------------------------------------------------------------------------------------------
# fuzz and floods
# ---------------------------------------------------------------------------------------------
def junk(run, peer):
    """a piece of hostile input -> (bytes for the wire, of which some wait for more)"""
    ch = run.ch
    rb = run.rand.randbytes
    k = ch.pick('junk', ['noise', 'record', 'message', 'body', 'mutated', 'truncated', 'big message', 'ccs', 'wide', 'app', 'alert'],
                [1, 2, 3, 3, 3, 2, 1, 1, 1, 1, 1])
    start = len(peer.out)
    if k == 'noise':
        peer.out += rb(ch.size('n', 1, 300))
    elif k == 'record':
        n = ch.size('n', 0, 400)
        peer.out += ref.u(1, ch.pick('t', [20, 21, 22, 23, 24, 0, 255])) + rb(2) + ref.u(2, ch.pick('len', [n, n + 1, 0, 0xffff, 16384, 16640])) + rb(n)
    elif k == 'message':
        peer.put_hs([message(run, peer, ch.pick('odd', NAMES))])
    elif k == 'body':
        peer.put_hs([ref.hsmsg(ch.pick('t', [1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254, 3, 6]), rb(ch.size('n', 0, 300)))])
    elif k == 'mutated':
        raw = message(run, peer, ch.pick('odd', NAMES))
        for _ in range(ch.pick('times', [1, 2, 5])):
            raw, _ = mutate.blob(run, raw)
        if raw:
            peer.put_hs([raw])
    elif k == 'truncated':
        raw = message(run, peer, ch.pick('odd', NAMES))
        peer.put(ref.HS, raw[:ch.int('n', 0, len(raw))])
    elif k == 'big message':
        run.probe('large message')
        peer.put(ref.HS, ref.u(1, ch.pick('t', [1, 2, 4, 8, 11, 20])) + b'\xff\xff\xff' + rb(40))
    elif k == 'ccs':
        peer.out += b'\x14\3\3\0\1\1' * ch.size('n', 1, 50)
    elif k == 'wide':
        # valid framing, arbitrary extension bodies
        t = ch.pick('t', [1, 2, 8, 11, 13, 4])
        exts = plain_exts(*[(ch.pick('x', [0, 1, 5, 10, 13, 14, 15, 16, 18, 19, 20, 21, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51, 99]), rb(ch.size('n', 0, 20)))
                            for _ in range(ch.int('exts', 1, 4))])
        body = {1: b'\3\3' + rb(32) + b'\0' + b'\0\2\x13\1' + b'\1\0' + exts, 2: b'\3\3' + rb(32) + b'\0' + b'\x13\1\0' + exts, 8: exts,
                11: b'\0' + ref.vec(3, ref.vec(3, pki.CHAINS['leaf-ec256'][0].public_bytes(ref.serialization.Encoding.DER)) + exts), 13: b'\0' + exts,
                4: rb(8) + b'\1\0' + b'\0\1x' + exts}[t]
        peer.put_hs([ref.hsmsg(t, body)])
    elif k == 'app':
        peer.put(ref.APP, rb(ch.size('n', 0, 100)))
    else:
        peer.put(ref.ALERT, rb(ch.pick('n', [2, 0, 1, 3])))
    return len(peer.out) - start


def fuzz(run):
    """anything, at any moment"""
    ch = run.ch
    c, s, d = spec_for(run)
    side = ch.pick('side', ['client', 'server'])
    run.fault('fuzz')
    at = ch.pick('at', ['start', 'hello', 'end', 'mid'], [2, 2, 3, 2])
    box = {'peer': None, 'done': at != 'mid'}
    if side == 'client':
        def flight(names):
            i = ch.int('where', 0, len(names))

            def do(peer):
                for _ in range(ch.pick('times', [1, 2, 4])):
                    junk(run, peer)
            return names[:i] + [do] + names[i:]
        real, peer = pair(run, 'client', c, s, flight=flight if at == 'mid' else None)
    else:
        class Client(ref.RefClient):
            def finish(self):
                if at == 'mid':
                    for _ in range(ch.pick('times', [1, 2, 4])):
                        junk(run, self)
                super().finish()
        real, peer = pair(run, 'server', c, s, cls=Client)
    if at == 'start':
        if side == 'server':
            peer.out.clear()
        junk(run, peer)
        for _ in range(ch.int('more', 0, 4)):
            junk(run, peer)
    elif side == 'client':
        peer.feed(real.take())
    if at in ('end', 'mid'):
        carry(run, real, peer)
        if peer.wr is not None:
            run.probe('fuzz under keys')
        before = len(real.rcvd)
        for _ in range(ch.int('more', 1, 5)):
            junk(run, peer)
    elif at == 'hello':
        data = bytes(peer.take())
        data, _ = mutate.blob(run, data) if data else (run.rand.randbytes(5), '')
        for chunk in cut(run, data, ch.pick('style', CUTS[:3])):
            real.deliver(chunk)
    for _ in range(4):
        data = peer.take()
        if not data:
            break
        for chunk in cut(run, data, ch.pick('style', CUTS[:3])):
            real.deliver(chunk)
        real.take()
    if real.connected:
        run.probe('still connected after fuzz')
    total = sum(len(a) for k_, a, _ in real.calls if k_ == 'deliver')
    held(run, real, total)
    hellos(run, real)
    note(run, 'fuzz', side, at, type(real.errors[0]).__name__ if real.errors else None, real.connected)
    if real.errors and real.connected:
        raise Violation('continues', f'{real.name} is connected after {real.errors[0]!r}')


def flood(run):
    """a lot of the same"""
    ch = run.ch
    c, s, d = spec_for(run)
    side = ch.pick('side', ['client', 'server'])
    run.probe('flood')
    run.fault('flood')
    real, peer = pair(run, side, c, s, layout=ref.Layout(ch, wild=False))
    if side == 'client':
        peer.feed(real.take())
    when = ch.pick('when', ['connected', 'early', 'failed', 'closed', 'half'], [4, 2, 2, 1, 2])
    if when != 'early':
        carry(run, real, peer)
        if not real.connected:
            raise Violation('no-handshake', f'{pairs.why(real)} {pairs.why(peer)}')
    else:
        peer.take()
    if when == 'failed':
        real.deliver(b'\x17\3\3\0\x40' + run.rand.randbytes(64))
    elif when == 'closed':
        peer.close()
        carry(run, real, peer)
    elif when == 'half':
        real.close_send()
        real.take()
    kinds = ['ccs', 'app', 'empty app']
    if when in ('failed', 'closed'):
        kinds += ['noise', 'message', 'ticket']
    elif side == 'client' and when == 'connected':
        kinds += ['ticket'] * 2
    elif when == 'connected':
        kinds += ['user canceled']
    if when == 'early':
        kinds = ['ccs', 'user canceled', 'one message']
    k = ch.pick('kind', kinds)
    base = modules_weight()
    emitted = real.out_total
    rcvd = 0
    for i in range(ch.pick('batches', [4, 16, 40], [4, 2, .5])):
        if k == 'ccs':
            data = b'\x14\3\3\0\1\1' * 1500
        elif k == 'noise':
            data = run.rand.randbytes(9000)
        elif k == 'one message':
            # a hello that never ends
            data = (b'\x16\3\3' + ref.vec(2, (ref.u(1, 1 if side == 'server' else 2) + b'\xff\xff\xff' if not i else b'') + bytes(9000)))
        else:
            for _ in range(60):
                if k in ('app', 'empty app'):
                    peer.put(ref.APP, bytes(150 if k == 'app' else 0))
                elif k == 'user canceled':
                    peer.put(ref.ALERT, b'\1\x5a')
                else:
                    peer.put_hs([message(run, peer, 'NewSessionTicket')])
            data = peer.take()
        real.deliver(data)
        rcvd += len(data)
    pending = rcvd if k == 'one message' else 0
    del real.rcvd[:]
    held(run, real, pending)
    grown = modules_weight() - base
    if grown > SLACK + pending:
        raise Violation('holds', f'the library holds {grown} bytes more after a flood of {k}')
    if real.out_total - emitted > 20000:
        raise Violation('emits', f'{real.name} emitted {real.out_total - emitted} bytes upon a flood of {k}')
    note(run, 'flood', side, when, k, bool(real.errors))


SCENARIOS = [('server order', 3, server_order), ('client order', 2, client_order), ('first words', 1, first_words), ('later', 2, later),
             ('across', 2, across), ('server lie', 5, server_lie), ('client lie', 3, client_lie), ('retries', 1, retries), ('fuzz', 4, fuzz),
             ('flood', .4, flood)]
