"""C09: the bytes on the wire are conforming records that never leak or reuse."""
from sim import gen, mutate, observer, pairs, ref, steps
from sim.core import Violation
from sim.ep import CUTS, EP

CPU_LIMIT, WALL_LIMIT = 300, 500
RULE = ('One run: one to three connections between the same parties, with seeded writes, closes and failures; both byte '
        'streams are afterwards decrypted by an observer that holds the session secrets.')
QUICK = 16000
THOROUGH = 400000
STUBS = ['network: in-memory record queues', 'in two thirds of the runs one end is the reference peer']
PROBES = ['retry', 'failure', 'closing notice', 'application data', 'several connections', 'secrets of the reference peer',
          'secrets of the key log', 'handshake incomplete', 'failure in mid-handshake', 'refused write',
          'burst of records', 'more records than two bytes count']


class Conn:
    pass


def open_conn(run, mode, spec, tag, sopts, copts, confs=(None, None)):
    c, s, d = spec
    k = Conn()
    k.layout = ref.Layout(run.ch, wild=not run.ch.flip('tidy', .5))
    k.client, k.server = pairs.make(run, mode, c, s, tag=tag, layout=k.layout, sopts=sopts, copts=copts,
                                   cconfig=confs[0], sconfig=confs[1])
    k.line = steps.Line(run, k.client, k.server)
    k.hist = {0: b'', 1: b''}
    k.marks = []
    k.failed = False
    k.client.start()
    k.line.collect()
    return k


def wire(x):
    return b''.join(x.outputs) if isinstance(x, EP) else None


def judge(run, mode, k, what):
    client, server = k.client, k.server
    peer = server if mode == 'sr' else client if mode == 'cr' else None
    reals = [x for x in (client, server) if isinstance(x, EP)]
    for x in reals:
        side = x.config.side
        data = wire(x)
        for m in k.marks:
            if len(m) >= 12 and m in data:
                raise Violation('leak', f'{x.name} put application bytes in clear on the wire')
        for sec in run.opts.get('secret bytes', ()):
            if sec in data:
                raise Violation('leak', f'{x.name} put key material on the wire')
    # what the two hellos say
    hello_c = wire(client) if isinstance(client, EP) else k.sent[0]
    hello_s = wire(server) if isinstance(server, EP) else k.sent[1]
    cr = hello_c[11:43]
    suite = None
    server_clear = b''
    for rec in observer.RecordsLenient(hello_s):
        if rec[0] != 22:
            continue
        server_clear += rec[5:]
    if len(server_clear) > 44:
        try:
            suite = mutate.Hello(server_clear[:4 + int.from_bytes(server_clear[1:4], 'big')]).suites[0]
        except ref.PeerError:
            suite = None
    if peer is not None:
        ks = getattr(peer, 'ks', None)
        secrets = {label: getattr(ks, a) for label, a in (
            ('CLIENT_HANDSHAKE_TRAFFIC_SECRET', 'c_hs'), ('SERVER_HANDSHAKE_TRAFFIC_SECRET', 's_hs'),
            ('CLIENT_TRAFFIC_SECRET_0', 'c_ap'), ('SERVER_TRAFFIC_SECRET_0', 's_ap')) if hasattr(ks, a)}
        run.probe('secrets of the reference peer')
    else:
        secrets = observer.secrets_of(run.keylog, cr)
        run.probe('secrets of the key log')
    for x in reals:
        side = x.config.side
        s = observer.read(x.name, wire(x), side, suite, secrets, 1)
        types = [i[1] for i in s.items if i[0] == 'hs']
        if not observer.flight_ok(side, types):
            raise Violation('flight', f'{x.name} emitted the handshake messages {types}')
        if s.app != bytes(x.sent):
            raise Violation('content', f'{x.name}: the wire carries {len(s.app)} application bytes, {len(x.sent)} were written')
        alerts = [i for i in s.items if i[0] == 'alert']
        if alerts:
            run.probe('closing notice' if alerts[0][2] == 0 else 'failure')
        if not x.ever_connected:
            run.probe('handshake incomplete')
        if s.app:
            run.probe('application data')
        if s.items.count(('ccs',)) > 1:
            raise Violation('marker', f'{x.name} emitted {s.items.count(("ccs",))} compatibility markers')
        k.streams[side] = s
    if peer is not None and not k.tampered and peer.error and not peer.error.startswith(('no common', 'no certificate')):
        raise Violation('peer', f'the reference peer finds fault with what it read: {peer.error} ({what()})')


def burst(run, k, x, n):
    """many tiny records"""
    for i in range(n):
        data = b'%d.' % i
        if isinstance(x, EP):
            if not x.write(data):
                return
        elif x.complete and not x.error:
            x.write(data)
    run.probe('burst of records')


def long_life(n, suites):
    def long_life(run):
        """one connection that lives through more records than two bytes count"""
        spec = c, s, d = pairs.compatible(run, simple=True)
        c.suites = s.suites = suites
        c.log_keys = s.log_keys = True
        spec = c, s, gen.deal(c, s)
        k = open_conn(run, 'rr', spec, '', {}, {})
        k.sent = {0: b'', 1: b''}
        k.streams = {}
        k.tampered = False
        k.line.drain()
        if not (k.client.connected and k.server.connected):
            raise Violation('no-handshake', f'{pairs.why(k.client)} {pairs.why(k.server)}')
        done = 0
        while done < n:
            i = run.ch.int('who', 0, 1) if done < 2000 else n & 1
            m = run.ch.int('batch', 100, 900)
            burst(run, k, k.line.ends[i], m)
            done += m
            k.line.collect()
            k.line.drain()
        for x, y in ((k.client, k.server), (k.server, k.client)):
            if x.errors or bytes(x.rcvd) != bytes(y.sent):
                raise Violation('traffic', f'{x.name} received {len(x.rcvd)} bytes of {len(y.sent)}: {pairs.why(x)}')
        judge(run, 'rr', k, lambda: f'after {done} records')
        run.probe('more records than two bytes count')
        run.st('long', n)
    return long_life


def life(run):
    ch = run.ch
    mode = ch.pick('mode', ['cr', 'sr', 'rr'])
    c, s, d = spec = pairs.compatible(run, simple=ch.flip('simple', .5))
    if mode == 'rr':
        c.log_keys = s.log_keys = True
    sopts, copts = {}, {}
    if len(c.groups) > 1 and ch.flip('retry', .3):
        sopts['force_hrr'] = True
        copts['shares'] = []
    confs = (gen.build(c), gen.build(s)) if ch.flip('same configurations', .8) else (None, None)
    conns = []
    for i in range(ch.pick('conns', [1, 2, 3], [5, 3, 1])):
        k = open_conn(run, mode, spec, str(i) if i else '', sopts, copts, confs)
        k.sent = {0: b'', 1: b''}
        k.streams = {}
        k.tampered = False
        keep_wire(k)
        conns.append(k)
    if len(conns) > 1:
        run.probe('several connections')
    for step in range(ch.int('steps', 4, 40)):
        k = ch.pick('conn', conns)
        line = k.line
        act = ch.pick('act', ['deliver', 'write', 'close', 'break', 'eof', 'burst'], [9, 5, .5, .35, .1, .02])
        i = ch.int('dir', 0, 1)
        run.step(act + 'ab'[i])
        if act == 'deliver':
            f = line.flows[i]
            if f.queue:
                line.give(i, ch.int('n', 1, 4))
        else:
            x = line.ends[i]
            if act == 'burst':
                burst(run, k, x, ch.pick('burst', [254, 255, 256, 257, 300, 520, 700]))
            elif act == 'write':
                data = pairs.data(run, 'len', 20000 if ch.flip('big', .05) else 600)
                if isinstance(x, EP):
                    k.marks.append(data)
                    if not x.write(data):
                        run.probe('refused write')
                elif x.complete and not x.error:
                    x.write(data)
            elif act == 'close' and (isinstance(x, EP) or x.complete and not x.error and not getattr(x, 'closed', False)):
                x.closed = True
                x.close_send()
                run.fault('close')
                if not k.tampered and not (client_done(k)):
                    k.tampered = True
            elif act == 'eof' and isinstance(x, EP):
                x.close_recv()
                run.fault('end of file')
                k.tampered = True
            elif act == 'break' and isinstance(x, EP):
                junk = ch.pick('junk', [b'\x17\3\3\0\x40' + run.rand.randbytes(64), run.rand.randbytes(40),
                                        b'\x16\3\3\0\4\x0e\0\0\0', b'\x17\3\3\xff\xff' + bytes(9), b'\x15\3\3\0\2\2\x28'])
                if x.errors or junk[0] == 22 and not x.ever_connected:
                    continue      # (a clear handshake record would make up another hello)
                run.fault('broken')
                run.probe('failure in mid-handshake' if not x.ever_connected else 'broken connected')
                line.feed(x, junk)
                k.tampered = True
            line.collect()
    for k in conns:
        for _ in range(20):
            if not any(f.queue for f in k.line.flows):
                break
            k.line.drain(1)
        judge(run, mode, k, lambda: f'{c} {s} {pairs.why(k.client)} {pairs.why(k.server)}')
        if sopts.get('force_hrr') and getattr(k.server, 'hrr', None):
            run.probe('retry')
        run.st(mode, len(conns), sorted(run.faults), d.suite, d.group)
    # nothing is shared between connections
    seen = {}
    for n, k in enumerate(conns):
        for side in ('client', 'server'):
            s_ = k.streams.get(side)
            if s_ is None or not s_.msgs:
                continue
            for raw in s_.msgs:
                if raw[0] not in (1, 2):
                    continue
                try:
                    h = mutate.Hello(raw)
                except ref.PeerError:
                    raise Violation('hello', f'the {side} emitted a hello that does not parse') from None
                items = [] if h.is_hrr else [('random', h.random)]
                ks = h.get(51)
                if ks and not h.is_hrr:
                    items.append(('key share', ks[-32:]))
                for what, v in items:
                    if seen.setdefault((what, v), (n, side)) != (n, side):
                        raise Violation('reuse', f'the {side} of connection {n} uses the {what} of the {seen[(what, v)][1]} of '
                                        f'connection {seen[(what, v)][0]}')
                    if v.count(v[:1]) == len(v):
                        raise Violation('constant', f'the {side} uses a constant {what}')


def client_done(k):
    return all(k.line.done(x) for x in k.line.ends)


def keep_wire(k):
    """keep what reference peers put on the wire"""
    for i, x in enumerate(k.line.ends):
        if not isinstance(x, EP):
            real = x.take

            def take(i=i, real=real):
                data = real()
                k.sent[i] += data
                return data
            x.take = take
    first = k.line.flows
    for i in (0, 1):
        k.sent[i] += b''.join(first[i].queue)


SCENARIOS = [('life', 1, life)]
SPECIAL = [('long life', long_life(67000, [0x1301, 0x1302])), ('long life, chacha', long_life(67001, [0x1303]))]
