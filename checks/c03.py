"""C03: delivery is complete and does not depend on how the byte stream is cut."""
from sim import gen, pairs, pki, ref
from sim.core import Violation
from sim.ep import CUTS, EP, RecordSplitter, cut, settle

RULE = ('One run: one connection carrying a seeded sequence of writes both ways, both input streams cut into '
        'seeded chunks, reference peers laying out, padding and packing their records at will; afterwards each '
        'real end is run again alone on the same bytes cut differently.')
QUICK = 7000
THOROUGH = 200000
STUBS = ['network: in-memory reliable byte queues', 'in two thirds of the runs one end is the reference peer']
PROBES = ['padding', 'tiny fragments', 'coalesced', 'byte by byte', 'large write', 'empty write', 'ticket', 'tickets in one record', 'huge handshake message',
          'empty record', 'rechunked handshake', 'several records in one chunk', 'huge write']


def noisy(run, peer):
    """legal things a peer may add between application records"""
    ch = run.ch
    if not isinstance(peer, ref.Base) or not ch.flip('noise', .35):
        return
    k = ch.pick('noise.kind', ['ticket', 'empty', 'padded-empty', 'huge ticket'], [3, 3, 3, .2])
    if k == 'huge ticket' and isinstance(peer, ref.RefServer):
        peer.put_hs([ref.hsmsg(ref.NST, ref.u(4, 60) + run.rand.randbytes(4) + ref.vec(1, b'') +
                               ref.vec(2, bytes(ch.pick('huge', [65000, 65535, 300]))) +
                               ref.vec(2, ref.ext(0xfff3, bytes(ch.pick('huge.ext', [65000, 520, 515])))))])
        run.probe('huge handshake message')
        run.fault('huge ticket')
    if k == 'ticket' and isinstance(peer, ref.RefServer):
        n = ch.pick('tickets', [1, 2, 3], [5, 3, 1])
        peer.put_hs([peer.b_NewSessionTicket() for _ in range(n)])
        run.probe('ticket')
        run.fault('ticket')
        if n > 1 and peer.layout.coalesce:
            run.probe('tickets in one record')
    elif k == 'empty':
        peer.put(ref.APP, b'')
        run.probe('empty record')
        run.fault('empty record')
    elif k == 'padded-empty':
        peer.put(ref.APP, b'', ch.size('noise.pad', 1, 300))
        run.fault('padding only')


class Pump:
    """delivers, and checks after every chunk that no complete record is left unprocessed"""
    def __init__(self, run, src, dst, style):
        self.run, self.src, self.dst, self.style = run, src, dst, style
        self.split = RecordSplitter()
        self.marks = []        # (bytes on the wire, application bytes they complete), reference sender
        self.wire = 0

    def go(self):
        data = self.src.take()
        if not data:
            return False
        run, dst = self.run, self.dst
        for chunk in cut(run, data, self.style):
            dst.feed(chunk)
            recs = self.split.push(chunk)
            if len(recs) > 1:
                run.probe('several records in one chunk')
            if isinstance(dst, EP):
                if dst.errors:
                    raise Violation('failed', f'{dst.name} failed on an honest stream: {dst.errors[0]!r}')
                if isinstance(self.src, ref.Base):
                    self.wire += len(chunk)
                    due = max((n for w, n in self.src.marks if w <= self.wire), default=0)
                    if dst.connected and len(dst.rcvd) < due:
                        raise Violation('held back', f'{dst.name} holds {self.wire} bytes of complete records worth '
                                        f'{due} bytes of data but delivered only {len(dst.rcvd)}')
            elif dst.error:
                raise Violation('peer', f'the reference peer refuses what {self.src.name} sent: {dst.error}')
            if not pairs.is_prefix(dst.rcvd, self.src.sent):
                raise Violation('order', f'{dst.name} delivered other bytes than written')
        return True


def track(peer):
    """note, for each record a reference peer emits, how much application data is complete by then"""
    peer.marks = []
    if isinstance(peer, ref.Base):
        peer.emitted = 0
        peer.appsent = 0
        put = peer.put

        def put2(ctype, data, pad=0):
            before = len(peer.out)
            put(ctype, data, pad)
            peer.emitted += len(peer.out) - before
            if ctype == ref.APP:
                peer.appsent += len(data)
            peer.marks.append((peer.emitted, peer.appsent))
        peer.put = put2
        ccs = peer.put_ccs

        def ccs2():
            ccs()
            peer.emitted += 6
        peer.put_ccs = ccs2


def sizes(run):
    ch = run.ch
    k = ch.pick('size.kind', ['small', 'edge', 'large', 'empty'], [6, 3, 1, .5])
    if k == 'small':
        return ch.size('size', 0, 600)
    if k == 'empty':
        run.probe('empty write')
        return 0
    if k == 'edge':
        base = ch.pick('edge.base', [16384, 512, 1024, 2048, 4096, 16384 - 17, 4096 - 17, 512 - 17, 8192, 495, 1007])
        return max(base + ch.int('edge.d', -2, 2), 0) * ch.pick('edge.n', [1, 1, 2, 3])
    run.probe('large write')
    return ch.int('large', 16385, 70000)


def rechunk(run, ep, host):
    """the same bytes, cut differently: same outputs, same data, same outcome"""
    ch = run.ch
    calls = []
    for kind, arg, now in ep.calls:
        if kind == 'deliver' and calls and calls[-1][0] == 'deliver' and ch.flip('merge', .7):
            calls[-1] = ('deliver', calls[-1][1] + arg, now)
        else:
            calls.append((kind, arg, now))
    style = ch.pick('restyle', CUTS)
    if style == 'bytes':
        run.probe('byte by byte')
    new = []
    for kind, arg, now in calls:
        if kind == 'deliver':
            new += [(kind, c, now) for c in cut(run, arg, style)]
        else:
            new.append((kind, arg, now))
    other = EP(run, ep.name + "'", ep.config, host, None, rseed=ep.rseed)
    for kind, arg, now in new:
        if kind == 'start':
            other.start()
        elif kind == 'deliver':
            other.deliver(arg)
        elif kind == 'write':
            other.write(arg)
        else:
            getattr(other, kind)()
    run.fault('recut ' + style)
    if ep.first_connected_at and other.first_connected_at:
        run.probe('rechunked handshake')
    a = (b''.join(ep.outputs), bytes(ep.rcvd), [type(e).__name__ for e in ep.errors], ep.connected)
    b = (b''.join(other.outputs), bytes(other.rcvd), [type(e).__name__ for e in other.errors], other.connected)
    for name, x, y in zip(('wire output', 'data read', 'errors', 'connected'), a, b):
        if x != y:
            raise Violation('chunking', f'{ep.name}: {name} depends on how the input is cut: '
                            f'{len(ep.calls)} calls gave {len(x) if isinstance(x, bytes) else x}, '
                            f'{len(new)} calls ({style}) gave {len(y) if isinstance(y, bytes) else y}')


def scenario(run):
    ch = run.ch
    mode = ch.pick('mode', ['rr', 'cr', 'sr'])
    simple = ch.flip('simple', .5)
    c, s, d = pairs.compatible(run, simple=simple)
    if simple and ch.flip('mfl', .3):
        c.mfl = ch.pick('mflv', gen.MFLS[1:])
    sopts = {'nst': ch.int('nst', 0, 2)} if mode == 'sr' else {}
    client, server = pairs.make(run, mode, c, s, sopts=sopts)
    for x in (client, server):
        if isinstance(x, ref.Base):
            track(x)
            for k in ('coalesce', 'pad', 'tiny'):
                if getattr(x.layout, k):
                    run.probe({'coalesce': 'coalesced', 'pad': 'padding', 'tiny': 'tiny fragments'}[k])
                    run.fault('layout ' + k)
        else:
            x.marks = []
    styles = (ch.pick('style', CUTS), ch.pick('style', CUTS))
    if 'bytes' in styles:
        run.fault('byte by byte')
    up = Pump(run, client, server, styles[0])
    down = Pump(run, server, client, styles[1])
    client.start()
    rounds = 0
    while up.go() | down.go():
        rounds += 1
        if rounds > 40:
            raise Violation('livelock', 'the handshake does not end')
    if not (client.connected and server.connected):
        raise Violation('no-handshake', f'{c} {s}; {pairs.why(client)}; {pairs.why(server)}')
    total = 0
    for _ in range(ch.int('steps', 1, 14)):
        act = ch.pick('act', ['write', 'up', 'down'], [3, 2, 2])
        run.step(act)
        if act == 'write':
            x = ch.pick('who', [client, server])
            n = min(sizes(run), max(140000 - total, 0))
            total += n
            if isinstance(x, EP):
                if not x.write(run.rand.randbytes(n)):
                    raise Violation('write refused', f'{x.name} refuses {n} bytes on an open connection: '
                                    f'{x.refused[-1][1]!r}')
            else:
                x.write(run.rand.randbytes(n))
            noisy(run, x)
            run.st(mode, x.name[:6], n.bit_length(), c.mfl, styles)
        else:
            (up if act == 'up' else down).go()
    if ch.flip('final close', .3):
        ch.pick('closer', [client, server]).close_send()
    rounds = 0
    while up.go() | down.go():
        rounds += 1
        if rounds > 10:
            raise Violation('livelock', 'the ends keep talking')
    for src, dst in ((client, server), (server, client)):
        if bytes(dst.rcvd) != bytes(src.sent):
            raise Violation('lost', f'{dst.name} received {len(dst.rcvd)} of the {len(src.sent)} bytes written '
                            f'({pairs.MODES[mode]}, limit {c.mfl})')
    for x in (client, server):
        if isinstance(x, EP):
            rechunk(run, x, c.host if x is client else None)


def bulk(n, limit, piece):
    """one write of n bytes, handed over in pieces"""
    def f(run):
        c, s, d = pairs.compatible(run, simple=True)
        c.mfl = limit
        client, server = pairs.make(run, 'rr', c, s)
        pairs.handshake(run, client, server)
        for src, dst in ((client, server), (server, client)):
            data = run.rand.randbytes(n)
            if not src.write(data):
                raise Violation('write refused', f'{src.name} refuses {n} bytes on an open connection: {src.refused[-1][1]!r}')
            out = src.take()
            for i in range(0, len(out), piece):
                dst.feed(out[i:i + piece])
            if dst.errors:
                raise Violation('failed', f'{dst.name} failed on an honest stream: {dst.errors[0]!r}')
            if bytes(dst.rcvd) != data:
                raise Violation('lost', f'{dst.name} received {len(dst.rcvd)} of the {n} bytes written at once, limit {limit}')
        run.probe('huge write')
        run.fault('huge write')
        run.st('bulk', n, limit, piece)
        run.nontrivial = True
    return f


def chain(mode, n):
    """a server that shows many more certificates than it needs"""
    def f(run):
        c, s, d = pairs.compatible(run, simple=True, auth='store', leafs=['leaf-ec256'])
        c.mfl = run.ch.pick('mfl', [512, 4096, 16384])
        extra = [pki.C['rootB'], pki.C['intB']]
        certs = list(pki.CHAINS[s.chain]) + [extra[i % 2] for i in range(n)]
        sconfig = gen.dataclasses.replace(gen.build(s), certificate_chain=certs) if mode == 'rr' else None
        client, server = pairs.make(run, mode, c, s, sconfig=sconfig, sopts={'chain': certs} if mode == 'sr' else {})
        client.start()
        settle(run, client, server, (run.ch.pick('style', CUTS[:3]), run.ch.pick('style', CUTS[:3])))
        if not (client.connected and server.connected):
            raise Violation('no-handshake', f'with {len(certs)} certificates, limit {c.mfl}: {pairs.why(client)}; {pairs.why(server)}')
        data = run.rand.randbytes(3000)
        server.write(data)
        settle(run, client, server)
        if bytes(client.rcvd) != data:
            raise Violation('lost', f'after a handshake with {len(certs)} certificates')
        run.probe('huge handshake message')
        run.fault('many certificates')
        run.st('chain', mode, n, c.mfl)
        run.nontrivial = True
    return f


SCENARIOS = [('deliver', 1, scenario)]
SPECIAL = [('bulk', bulk((1 << 24) + 7, 16384, 1 << 18)), ('bulk in pieces', bulk((1 << 20) + 1, 16384, 1460)),
           ('bulk at once', bulk(3 << 20, 16384, 1 << 30)), ('bulk, small limit', bulk((1 << 20) + 3, 512, 9000)),
           ('many certificates', chain('rr', 300)), ('many certificates, reference server', chain('sr', 300))]
