"""C10: fragment limits are negotiated, obeyed and enforced."""
from sim import gen, mutate, observer, pairs, ref, steps
from sim.core import Violation
from sim.ep import CUTS, EP, cut, settle

RULE = ('One run: one connection with or without a negotiated limit; either both ends write at sizes around the limit and '
        'every record is measured by an observer, or a reference peer emits records at or over the limit at a chosen point.')
QUICK = 20000
THOROUGH = 700000
STUBS = ['network: in-memory byte queues', 'one end is the reference peer, except in a third of the measuring runs']
PROBES = ['limit 512', 'limit 1024', 'limit 2048', 'limit 4096', 'limit 16384', 'asked but not accepted', 'full record',
          'edge accepted', 'over by content', 'over by padding', 'over in clear', 'over in the handshake', 'over by alert',
          'over the expansion', 'many fragments', 'bogus limit', 'retry', 'cookie', 'huge write', 'whole clear record accepted']


def code(limit):
    return {512: 1, 1024: 2, 2048: 3, 4096: 4}[limit]


def negotiated(run):
    """mode, specs, options"""
    ch = run.ch
    mode = ch.pick('mode', ['cr', 'sr', 'rr'])
    c, s, d = pairs.compatible(run, simple=ch.flip('simple', .6))
    c.mfl = ch.pick('limit', gen.MFLS)
    c.log_keys = s.log_keys = True
    sopts = {}
    if mode == 'sr' and c.mfl != 16384 and ch.flip('refuse', .25):
        sopts['mfl_ok'] = False
        run.fault('limit not accepted')
        run.probe('asked but not accepted')
    if mode == 'sr' and ch.flip('ask again', .3):
        sopts['force_hrr'] = True
        if ch.flip('with a cookie', .7):
            sopts['cookie'] = run.rand.randbytes(ch.pick('cookie len', [1, 32, 300]))
            run.probe('cookie')
    limit = c.mfl if sopts.get('mfl_ok', True) else 16384
    run.probe(f'limit {c.mfl}')
    return mode, c, s, d, sopts, limit


def sizes_ok(name, s, limit, agreed):
    for enc, phase, wire, content, pad in s.sizes:
        if not enc:
            if wire > 16384:
                raise Violation('clear size', f'{name} emits a clear record of {wire} bytes')
            continue
        if content + pad > limit:
            raise Violation('plaintext size', f'{name} emits a record of {content} bytes and {pad} of padding in phase {phase}, '
                            f'the limit is {limit}')
        if wire > limit + 256:
            raise Violation('ciphertext size', f'{name} emits {wire} encrypted bytes in one record, the limit is {limit}')


def obey(run):
    ch = run.ch
    mode, c, s, d, sopts, limit = negotiated(run)
    client, server = pairs.make(run, mode, c, s, sopts=sopts)
    wires = {0: b'', 1: b''}

    def tap(i, data):
        wires[i] += data
        return data
    client.start()
    if isinstance(client, EP):
        raw = bytes(client.out)
        h = mutate.Hello(b''.join(r[5:] for r in observer.RecordsLenient(raw)))
        asked = h.get(1)
        if c.mfl != 16384 and asked != bytes([code(c.mfl)]):
            raise Violation('not asked', f'the client wants {c.mfl} but its hello says {asked!r}')
        if c.mfl == 16384 and asked is not None:
            raise Violation('asked', f'the client has the standard limit but its hello says {asked!r}')
    settle(run, client, server, tap=tap)
    if not (client.connected and server.connected):
        raise Violation('no-handshake', f'limit {c.mfl}, {mode}: {pairs.why(client)} {pairs.why(server)}')
    if getattr(client, 'hrr', None) or getattr(server, 'hrr', None):
        run.probe('retry')
    if mode == 'cr' and c.mfl != 16384 and client.mfl != c.mfl:
        raise Violation('not accepted', f'the server does not accept the limit {c.mfl}: {client.mfl}')
    for x in (client, server):
        if isinstance(x, EP):
            got = x.nconfig.max_fragment_length
            if got != limit:
                raise Violation('reported', f'{x.name} reports a limit of {got}, it is {limit}')
    for _ in range(ch.int('writes', 1, 6)):
        i = ch.int('who', 0, 1)
        x = (client, server)[i]
        k = ch.pick('size', ['edge', 'small', 'multiple', 'any', 'huge'], [5, 1, 2, 1, .01])
        if k == 'edge':
            n = limit + ch.int('off', -40, 40)
        elif k == 'small':
            n = ch.int('n', 0, 40)
        elif k == 'multiple':
            n = limit * ch.int('times', 1, 4 if limit > 4096 else 12) + ch.int('off', -40, 40)
            run.probe('many fragments')
        elif k == 'huge':
            n = ch.pick('huge', [1 << 18, 1 << 20, 1 << 21]) + ch.int('off', -2, 2)
            run.probe('huge write')
        else:
            n = ch.size('n', 0, 3 * limit)
        data = run.rand.randbytes(n)
        run.step(f'w{i}{k}{n * 8 // limit}')
        if isinstance(x, EP):
            if not x.write(data):
                raise Violation('refused', f'{x.name} refuses to write {n} bytes')
            if ch.flip('settle', .6):
                settle(run, client, server, tap=tap)
        else:
            x.write(data)
            settle(run, client, server, tap=tap)
    settle(run, client, server, tap=tap)
    for x in (client, server):
        if isinstance(x, EP):
            if ch.flip('close', .5):
                x.close_send()
    settle(run, client, server, tap=tap)
    for x, y in ((client, server), (server, client)):
        if not isinstance(x, EP) and x.error:
            raise Violation('peer', f'limit {limit}: the reference peer refuses what it reads: {x.error}')
        if bytes(x.rcvd) != bytes(y.sent):
            raise Violation('lost', f'{x.name} read {len(x.rcvd)} bytes out of {len(y.sent)}; {pairs.why(x)}')
    peer = server if mode == 'sr' else client if mode == 'cr' else None
    suite = int((client if isinstance(client, EP) else server).nconfig.cipher_suite)
    if peer is not None:
        secrets = peer.keylog
    else:
        secrets = observer.secrets_of(run.keylog, wires[0][11:43])
    for i, side in ((0, 'client'), (1, 'server')):
        x = (client, server)[i]
        if isinstance(x, EP):
            st = observer.read(x.name, wires[i], side, suite, secrets, 1)
            sizes_ok(x.name, st, limit, True)
            if any(wire == limit for _, _, wire, content, pad in st.sizes):
                run.probe('full record')
    run.st('obey', mode, limit, suite)
    run.nontrivial = True


class Swell(ref.Layout):
    """pads the n-th encrypted handshake record to a chosen size"""
    def __init__(self, ch, at):
        super().__init__(ch, wild=False)
        self.at = at
        self.total = 0
        self.seen = 0
        self.hit = False
        self.frags = []

    def records(self, data, limit):
        self.frags = super().records(data, limit)
        return list(self.frags)

    def padding(self, room):
        frag = self.frags.pop(0) if self.frags else b''
        self.seen += 1
        if self.seen == self.at + 1 and len(frag) <= self.total:
            self.hit = True
            return self.total - len(frag)
        return 0


def excess_of(run, limit, over=None):
    ch = run.ch
    if not (ch.flip('over', .7) if over is None else over):
        return -ch.pick('under', [0, 1, 2, 16])
    top = 65535 - 17 - limit
    return min(top, ch.pick('excess', [1, 2, 3, 15, 16, 17, 100, 238, 239, 240, 241, 255, 256, 257, 300, 1000, limit, 40000]))


def overflowed(x, what):
    if getattr(x.errors[0], 'description', None) != 22:
        raise Violation('misnamed', f'{x.name} refuses {what}, but not as an overflow: {x.errors[0]!r}')


def must(run, x, excess, before, expect, what):
    """the verdict on one record"""
    if excess <= 0:
        if x.errors:
            raise Violation('edge refused', f'{x.name} refuses {what}: {x.errors[0]!r}')
        if bytes(x.rcvd) != expect:
            raise Violation('edge lost', f'{x.name} read {len(x.rcvd)} bytes upon {what}, {len(expect)} were sent')
        run.probe('edge accepted')
        return
    if excess > 256 - 17:
        run.probe('over the expansion')
    if bytes(x.rcvd) != before:
        raise Violation('delivered', f'{x.name} delivered {len(x.rcvd) - len(before)} bytes out of {what}')
    if not x.errors or x.connected:
        raise Violation('over accepted', f'{x.name} does not refuse {what}: errors {x.errors}, connected {x.connected}')
    overflowed(x, what)


def feed(run, x, data):
    for chunk in cut(run, data, run.ch.pick('style', CUTS[:3])):
        x.feed(chunk)


def enforce(run):
    ch = run.ch
    mode, c, s, d, sopts, limit = negotiated(run)
    if mode == 'rr':
        mode = ch.pick('mode2', ['cr', 'sr'])
    if mode == 'cr':
        limit = c.mfl
    elif not sopts.get('mfl_ok', True):
        limit = 16384
    layout = ref.Layout(ch, wild=False)
    client, server = pairs.make(run, mode, c, s, sopts=sopts, layout=layout)
    client.start()
    settle(run, client, server)
    real, peer = (client, server) if mode == 'sr' else (server, client)
    if not (client.connected and server.connected):
        raise Violation('no-handshake', f'limit {c.mfl}, {mode}: {pairs.why(client)} {pairs.why(server)}')
    for turn in range(ch.int('turns', 1, 4)):
        excess = excess_of(run, limit)
        total = limit + excess
        kind = ch.pick('carrier', ['content', 'padding', 'mixed', 'alert', 'ticket'], [4, 3, 3, 1, 1])
        before = bytes(real.rcvd)
        if kind == 'ticket' and mode == 'cr':
            kind = 'content'
        if kind in ('content', 'padding', 'mixed'):
            n = {'content': total, 'padding': ch.int('n', 0, min(3, total)), 'mixed': ch.int('n', 0, total)}[kind]
            data = run.rand.randbytes(n)
            ctype = ref.APP
            if excess > 0:
                run.probe('over by content' if n > limit else 'over by padding')
        elif kind == 'alert':
            data, ctype = b'\1\0', ref.ALERT
        else:
            data, ctype = peer.b_NewSessionTicket(), ref.HS
        if excess > 0:
            run.fault('oversize ' + kind)
            run.probe('over by alert' if kind == 'alert' else 'over ' + kind)
        else:
            run.fault('edge ' + kind)
        peer.put(ctype, data, total - len(data))
        run.step(f'{kind}{(excess > 0) - (excess < 0)}')
        feed(run, real, peer.take())
        expect = before + (data if ctype == ref.APP else b'')
        must(run, real, excess, before, expect, f'a record of {len(data)} bytes of type {ctype} padded to {total}, limit {limit}')
        if excess > 0 or kind == 'alert':
            break
    if excess > 0 or kind == 'alert':
        final = bytes(real.rcvd)
        peer.put(ref.APP, b'late', 0)
        feed(run, real, peer.take())
        if bytes(real.rcvd) != final or real.connected:
            raise Violation('revived', f'{real.name} goes on after the failure')
    run.st('enforce', mode, limit, kind, excess > 0, excess > 239, d.suite)


def handshake(run):
    """an oversized record among the encrypted handshake messages"""
    ch = run.ch
    mode, c, s, d, sopts, limit = negotiated(run)
    if mode == 'rr':
        mode = ch.pick('mode2', ['cr', 'sr'])
    if mode == 'cr':
        limit = c.mfl
    # index of the encrypted record; the first of the server flight comes before the limit is agreed
    at = 0 if mode == 'cr' else ch.int('at', 0, 3)
    base = 16384 if mode == 'sr' and at == 0 else limit
    excess = excess_of(run, base)
    layout = Swell(ch, at)
    layout.total = base + excess
    client, server = pairs.make(run, mode, c, s, sopts=sopts, layout=layout)
    client.start()
    settle(run, client, server)
    real, peer = (client, server) if mode == 'sr' else (server, client)
    what = f'encrypted handshake record {at} padded to {base}+{excess}, {mode}'
    if not layout.hit:
        return
    run.fault('oversize handshake' if excess > 0 else 'edge handshake')
    if excess > 0:
        run.probe('over in the handshake')
        if not real.errors or real.connected or real.ever_connected:
            raise Violation('over accepted', f'{real.name} does not refuse {what}')
        overflowed(real, what)
    else:
        run.probe('edge accepted')
        if not (client.connected and server.connected):
            raise Violation('edge refused', f'{what}: {pairs.why(client)} {pairs.why(server)}')
    run.st('handshake', mode, limit, at, excess > 0)


def clear(run):
    """oversized or exactly full clear records"""
    ch = run.ch
    mode, c, s, d, sopts, limit = negotiated(run)
    side = ch.pick('side', ['client', 'server'])
    excess = excess_of(run, 16384)
    if side == 'server' and ch.flip('full hello', .4):
        # a hello that fills a whole record
        n = 16384 - ch.pick('short', [0, 1, 2])
        probe, _ = pairs.make(run, 'cr', c, s)
        probe.start()
        size = len(probe.take()) - 5 + 4
        opts = dict(extra_exts=[(21, bytes(n - size))]) if n > size else {}
        state = run.rand.getstate()
        client, server = pairs.make(run, 'cr', c, s, copts=opts, layout=ref.Layout(ch, wild=False))
        client.start()
        run.fault('full clear record')
        settle(run, client, server)
        if not (client.connected and server.connected):
            raise Violation('edge refused', f'a hello of {n} bytes in one record: {pairs.why(client)} {pairs.why(server)}')
        run.probe('whole clear record accepted')
        return
    client, server = pairs.make(run, 'rr', c, s)
    real = client if side == 'client' else server
    client.start()
    excess = max(excess, 1)
    n = min(16384 + excess, 65535)
    t = ch.pick('type', [22, 22, 21, 23, 20, 24])
    body = bytes(n) if ch.flip('zeros') else run.rand.randbytes(n)
    if t == 22 and ch.flip('hello like'):
        kind = ref.CH if side == 'server' else ref.SH
        body = ref.u(1, kind) + ref.u(3, n - 4 if ch.flip('fits') else 100000) + run.rand.randbytes(n - 4)
    run.fault('oversize clear record')
    run.probe('over in clear')
    feed(run, real, ref.u(1, t) + b'\3\3' + ref.u(2, n) + body)
    if not real.errors or real.connected:
        raise Violation('over accepted', f'{real.name} does not refuse a clear record of type {t} and {n} bytes')
    overflowed(real, f'a clear record of type {t} and {n} bytes')
    if real.rcvd:
        raise Violation('delivered', f'{real.name} delivered clear bytes')
    run.st('clear', side, t, n - 16384)


def bogus(run):
    """a limit that was not asked, not the one asked, or not one at all"""
    ch = run.ch
    mode = ch.pick('mode', ['cr', 'sr'])
    c, s, d = pairs.compatible(run, simple=True)
    c.mfl = ch.pick('limit', gen.MFLS)
    run.probe(f'limit {c.mfl}')
    bad = ch.pick('bad', [b'\0', b'\5', b'\xff', b'', b'\1\1', b'\2', b'\1', b'\3', b'\4'])
    mine = b'' if c.mfl == 16384 else bytes([code(c.mfl)])
    if mode == 'cr' and len(bad) == 1 and 1 <= bad[0] <= 4:
        bad = b'\0'
    if mode == 'sr' and bad == mine and mine:
        bad = b'\0'
    run.fault('bogus limit')
    run.probe('bogus limit')
    if mode == 'cr':
        c.mfl = 16384
        client, server = pairs.make(run, 'cr', c, s, copts=dict(extra_exts=[(1, bad)]))
        real = server
    else:
        def smut(name, raw):
            if name != 'EncryptedExtensions':
                return raw
            r = ref.R(raw[4:])
            exts = ref.parse_exts(r.vec(2))
            exts[1] = bad
            return ref.hsmsg(ref.EE, ref.vec(2, b''.join(ref.ext(t, v) for t, v in exts.items())))
        client, server = pairs.make(run, 'sr', c, s, smut=smut)
        real = client
    client.start()
    settle(run, client, server)
    if not real.errors or real.ever_connected:
        raise Violation('bogus accepted', f'{real.name} accepts the limit {bad!r} (asked: {mine!r})')
    run.st('bogus', mode, c.mfl, bad)


SCENARIOS = [('obey', 4, obey), ('enforce', 4, enforce), ('handshake', 2, handshake), ('clear', 1, clear), ('bogus', .5, bogus)]
