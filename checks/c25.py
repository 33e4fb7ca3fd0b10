"""C25: a server told to authenticate its clients serves nobody who did not prove a trusted identity."""
import dataclasses

from sim import gen, pairs, pki, ref
from sim.core import Violation
from sim.ep import CUTS, EP, cut

RULE = ('One run: one server configuration with a trust store, trusted public keys or both, one or several connections made from it, '
        'each client of one of several kinds of impostor (reference peers, or real clients), with seeded retries, cuts, closures and '
        'noise; each time the same client is also tried on the same configuration without the authentication, and has to connect.')
QUICK = 14000
THOROUGH = 300000
STUBS = ['network: in-memory byte queues', 'the clients are mostly reference peers']
PROBES = ['store', 'keys', 'both', 'retry', 'asked', 'finished only', 'nothing to show', 'stranger', 'stolen', 'no proof', 'old proof',
          'spontaneous', 'real client', 'offers a type', 'closures', 'tampered', 'writes tried', 'twin connected', 'several connections']
CV_CLIENT = ref.CV_SERVER.replace(b'server', b'client')
KINDS = ['finished only', 'nothing to show', 'stranger', 'stolen', 'no proof', 'old proof', 'spontaneous', 'data first', 'wrong finished',
         'real client']


class Impostor(ref.RefClient):
    """answers the request for a certificate in its own way"""

    def __init__(self, run, opts, kind, types, raw):
        super().__init__(run, opts)
        self.kind, self.types, self.use_raw = kind, types, raw
        self.asked = None
        if types is not None:
            self.o['extra_exts'] = [(19, ref.vec(1, bytes(types)))]

    def enc_exts(self, r, raw):
        body = ref.R(raw[4:]).vec(2)
        keep = b''
        rr = ref.R(body)
        while not rr.eof():
            t, d = rr.u(2), rr.vec(2)
            if t == 19:
                if self.types is None:
                    raise ref.PeerError('client certificate type not offered')
                if len(d) != 1 or d[0] not in self.types:
                    raise ref.PeerError('client certificate type not offered')
            else:
                keep += ref.ext(t, d)
        super().enc_exts(ref.R(ref.vec(2, keep)), raw)

    def message(self, t, r, raw):
        if self.state == 'cert' and t == ref.CR and self.asked is None:
            if r.vec(1):
                raise ref.PeerError('context in the handshake')
            exts = ref.parse_exts(r.vec(2))
            r.done()
            if 13 not in exts:
                raise ref.PeerError('certificate request without signature algorithms')
            self.asked = exts
            self.run.probe('asked')
            self.transcript += raw
            return
        super().message(t, r, raw)

    def show(self, context, entries):
        m = ref.hsmsg(ref.CERT, ref.vec(1, context) + ref.vec(3, b''.join(ref.vec(3, e) + ref.vec(2, b'') for e in entries)))
        self.transcript += m
        return m

    def proof(self, keyname, msg):
        scheme = ref.SIG_FOR[keyname.split(':')[0]][0]
        m = ref.hsmsg(ref.CV, ref.u(2, scheme) + ref.vec(2, ref.sign(keyname, scheme, msg)))
        self.transcript += m
        return m

    def finish(self):
        ch, kind = self.run.ch, self.kind
        msgs = []
        if self.asked is not None and kind not in ('finished only', 'data first', 'wrong finished') or kind == 'spontaneous':
            theirs, mine = ('leaf-ec256', 'ec256:leaf'), ('leaf-evil', 'ec256:evilleaf')
            if self.use_raw:
                trusted = 'ec256:rpk'
                entries = {n: [pki.key(n).public_key().public_bytes(ref.serialization.Encoding.DER,
                                                                    ref.serialization.PublicFormat.SubjectPublicKeyInfo)]
                           for n in (trusted, mine[1])}
                theirs = (trusted, trusted)
                mine = (mine[1], mine[1])
            else:
                entries = {n: [c.public_bytes(ref.serialization.Encoding.DER) for c in pki.CHAINS[n]] for n in (theirs[0], mine[0])}
            before = self.th()
            if kind == 'nothing to show':
                msgs.append(self.show(b'', []))
            elif kind in ('stranger', 'spontaneous'):
                msgs.append(self.show(b'', entries[mine[0]]))
                msgs.append(self.proof(mine[1], CV_CLIENT + self.th()))
            elif kind == 'stolen':           # somebody's certificate, signed with another key
                msgs.append(self.show(b'', entries[theirs[0]]))
                msgs.append(self.proof(mine[1], CV_CLIENT + self.th()))
            elif kind == 'no proof':
                msgs.append(self.show(b'', entries[theirs[0]]))
            elif kind == 'old proof':        # signed by the right one, but something else
                msgs.append(self.show(b'', entries[theirs[0]]))
                what = ch.pick('signed', ['context', 'before', 'garbage'])
                msgs.append(self.proof(theirs[1], {'context': ref.CV_SERVER + self.th(), 'before': CV_CLIENT + before,
                                                   'garbage': CV_CLIENT + b'\0' * len(before)}[what]))
        if kind == 'data first':
            self.put(ref.APP, b'let me in')
        fin = self.ks.finished(self.ks.c_hs, self.th())
        if kind == 'wrong finished':
            fin = self.ks.finished(self.ks.s_hs, self.th())
        fin = ref.hsmsg(ref.FIN, fin)
        self.put_hs(msgs + [fin])
        self.transcript += fin
        self.wr = ref.Prot(self.suite, self.ks.c_ap)
        self.complete = True
        self.write(b'let me in' + self.rand.randbytes(ch.size('more', 0, 300)))


def watch(server, mode):
    """what must never have happened"""
    conn = server.conn
    if server.connected or server.ever_connected:
        raise Violation('served', f'{server.name} ({mode}) is connected to a client which proved no identity')
    if server.rcvd:
        raise Violation('served', f'{server.name} ({mode}) delivered {len(server.rcvd)} bytes of a client which proved no identity')
    if conn.is_post_handshake() and not server.calls[-1][0].startswith('close') and not server.errors and not any(
            k.startswith('close') for k, _a, _n in server.calls):
        raise Violation('served', f'{server.name} ({mode}) takes the handshake for complete, without an identity')


def meet(run, config, plain, s, mode, nth):
    ch = run.ch
    c, kind = None, ch.pick('kind', KINDS, [3, 3, 3, 3, 2, 2, 2, 2, 1, 1])
    for _ in range(20):
        c = gen.client(run, ff=False, simple=ch.flip('simple', .5), auth=ch.pick('its auth', ['none', 'store', 'both'], [3, 2, 1]))
        c.own = ''
        if gen.deal(c, s).ok:
            break
    else:
        c = gen.Spec('client', list(gen.SUITES), [ref.P256, ref.X25519], list(gen.SIGS), [])
        if not gen.deal(c, s).ok:
            run.probe('no deal')
            return
    types = raw = None
    if kind == 'real client':
        c.own = ch.pick('own', ['', 'x509', 'rpk', 'both'])
        config_c = gen.build(c)
        client = EP(run, f'client{nth}', config_c, c.host)
        twin = EP(run, f'twin{nth}', config_c, c.host)
    else:
        opts = gen.ref_client_opts(c)
        opts['shares'] = ch.pick('shares', [None, []], [2, 1])
        if opts['shares'] == []:
            opts['shares'] = []
            run.probe('retry')
            run.fault('retry')
        if ch.flip('types', .6):
            types = ch.pick('types', [[0], [2], [0, 2], [2, 0], [1, 0], [1, 2], [0xe0, 2, 0]])
            run.probe('offers a type')
        raw = ch.flip('raw', .75 if types and 2 in types else .1)
        client = Impostor(run, opts, kind, types, raw)
        twin = Impostor(run, opts, 'finished only', types, raw)
    run.probe(kind)
    run.fault(kind)
    run.st(mode, kind, tuple(types or ()), bool(raw))
    server = EP(run, f'server{nth}', config)
    server.start()
    eager = ch.flip('eager', .6)
    closures = ch.flip('closures', .15)
    tamper = ch.flip('tamper', .12)
    style = ch.pick('cut', CUTS, [4, 3, 2, .3])

    def attempts():
        if eager and ch.flip('try', .5):
            run.probe('writes tried')
            if server.write(b'secret page'):
                raise Violation('served', f'{server.name} ({mode}) accepted to send data to a client which proved no identity')
        if closures and ch.flip('close', .1):
            run.probe('closures')
            run.fault('closure')
            ch.pick('which', [server.close_recv, server.close_send, server.close_recv])()

    attempts()
    client.start()
    for _ in range(40):
        moved = False
        data = client.take()
        if data:
            moved = True
            run.step('to server')
            if tamper and ch.flip('spoil', .4):
                run.probe('tampered')
                run.fault('tampered')
                what = ch.pick('how', ['flip', 'junk', 'double', 'cut'])
                data = bytearray(data)
                if what == 'flip':
                    data[ch.int('at', 0, len(data) - 1)] ^= 1 << ch.int('bit', 0, 7)
                elif what == 'junk':
                    data = b'\x15\x03\x03\x00\x02\x01\x5a' + data
                elif what == 'double':
                    data = data * 2
                else:
                    del data[ch.int('from', 0, len(data)):]
                data = bytes(data)
            for chunk in cut(run, data, style):
                server.feed(chunk)
                watch(server, f'{mode}, {kind}')
                attempts()
                watch(server, f'{mode}, {kind}')
        data = server.take()
        if data:
            moved = True
            run.step('to client')
            client.feed(data)
        if not moved:
            break
    if ch.flip('end', .4):
        (server.close_send if ch.flip('which end', .5) else server.close_recv)()
        watch(server, f'{mode}, {kind}')
        if server.write(b'secret page'):
            raise Violation('served', f'{server.name} ({mode}) accepted data after it was closed')
    # the same, where nothing was asked
    if ch.flip('twin', .4):
        other = EP(run, f'plain{nth}', plain)
        other.start()
        pairs.handshake(run, twin, other)
        if not other.connected or not twin.connected:
            raise Violation('no handshake', f'without the authentication the same client does not connect: {pairs.why(twin)}; '
                            f'{pairs.why(other)}')
        run.probe('twin connected')


def scenario(run):
    ch = run.ch
    s = gen.server(run, ff=False, simple=ch.flip('s.simple', .5))
    plain = gen.build(s)
    mode = ch.pick('mode', ['store', 'keys', 'both'])
    run.probe(mode)
    kw = {}
    if mode != 'keys':
        kw['trust_store'] = pki.STORES[ch.pick('store', ['AB', 'A'])]
    if mode != 'store':
        kw['trusted_public_keys'] = [pki.key(k).public_key() for k in ch.pick('keys', [['ec256:rpk'], ['rsa:2', 'ec256:rpk']])]
    config = dataclasses.replace(plain, **kw)
    n = ch.pick('connections', [1, 2, 3], [5, 2, 1])
    if n > 1:
        run.probe('several connections')
    for i in range(n):
        meet(run, config, plain, s, mode, i)


SCENARIOS = [('impostors', 1, scenario)]
