"""C06: no application data moves before the handshake is complete."""
from sim import gen, mutate, pairs, ref, steps
from sim.core import Violation
from sim.ep import EP

RULE = ('One run: one handshake delivered record by record, with writes, closes, early application data, alerts and '
        'closures, clear or under any key, thrown in at seeded places.')
QUICK = 50000
THOROUGH = 600000
STUBS = ['network: in-memory record queues', 'in most runs one end is the reference peer']
PROBES = ['write refused', 'write accepted', 'closed early', 'early data under keys', 'early data in clear', 'early closure',
          'connected', 'never connected', 'retry', 'zero rtt', 'early error alert',
          'early act of a client', 'early act of a server', 'refusals are harmless']

MARK = 48


def marker(run):
    return run.rand.randbytes(MARK)


class Watch:
    """the invariant, for one real end"""
    def __init__(self, run, line, x):
        self.run, self.line, self.x = run, line, x
        self.spoiled = None
        self.marks = []
        self.calls = 0

    def check(self, what):
        x, line = self.x, self.line
        # once closed or failed before the end, for good
        if not line.done(x) and self.spoiled is None:
            if x.errors:
                self.spoiled = 'it failed'
            elif x.connected:
                raise Violation('early', f'{x.name} is connected after {what}, before it received the final handshake '
                                f'message of its peer')
        if not line.done(x) or self.spoiled:
            why = self.spoiled or 'the handshake is not over'
            if x.connected:
                raise Violation('revived', f'{x.name} is connected after {what} although {why}')
            if x.rcvd:
                raise Violation('early-read', f'{x.name} delivered {bytes(x.rcvd[:20])!r} after {what} although {why}')

    def write(self):
        x = self.x
        m = marker(self.run)
        self.marks.append(m)
        before = x.out_total
        over = self.line.done(x) and not self.spoiled
        ok = x.write(m)
        if ok and not over:
            raise Violation('early-write', f'{x.name} accepted application data although '
                            + (self.spoiled or 'the handshake is not over'))
        if not ok and x.out_total != before:
            raise Violation('leak', f'{x.name} refused to send but emitted {x.out_total - before} bytes')
        self.run.probe('write accepted' if ok else 'write refused')

    def wire(self):
        out = b''.join(self.x.outputs)
        for m in self.marks:
            if m in out:
                raise Violation('clear', f'{self.x.name} sent application bytes in clear')


ALERTS = [(2, 10), (2, 20), (2, 40), (1, 40), (2, 80), (1, 50), (2, 255), (1, 120)]


def early_act(run, watchers, box):
    """something a peer must not do before its Finished, under the key it has by then"""
    ch = run.ch
    k = ch.pick('early', ['app', 'close', 'alert', 'empty app', 'canceled', 'app+close', 'big app'], [4, 2, 2, 1, 1, 1, 1])

    def act(p):
        for w in watchers:
            if k != 'canceled' and w.spoiled is None:
                box['spoil'] = f'its peer sent {k} before its Finished'
        if 'app' in k:
            n = {'app': MARK, 'empty app': 0, 'app+close': MARK, 'big app': 12000}[k]
            p.put(ref.APP, run.rand.randbytes(min(n, p.limit())))
            run.probe('early data under keys' if p.wr else 'early data in clear')
        if 'close' in k:
            p.put(ref.ALERT, b'\1\0')
            run.probe('early closure')
        if k == 'alert':
            p.put(ref.ALERT, bytes(ch.pick('early.alert', ALERTS)))
            run.probe('early error alert')
        if k == 'canceled':
            p.put(ref.ALERT, b'\1\x5a')
        run.fault('early ' + k + (' under keys' if p.wr else ' in clear'))
        run.probe('early act of a ' + ('client' if isinstance(p, ref.RefClient) else 'server'))
    return act


def histories(run):
    ch = run.ch
    mode = ch.pick('mode', ['cr', 'sr', 'rr'])
    c, s, d = pairs.compatible(run, simple=ch.flip('simple', .7))
    layout = ref.Layout(ch, wild=not ch.flip('tidy', .5))
    watchers, box = [], {}
    copts, sopts, cmut, flight = {}, {}, None, None
    if len(c.groups) > 1 and ch.flip('retry', .3):
        sopts['force_hrr'] = True
        copts['shares'] = []
    byz = mode != 'rr' and ch.flip('byzantine', .5)
    if byz and mode == 'sr':
        def flight(names):
            i = ch.int('early.at', 0, len(names) - 1)
            return names[:i] + [early_act(run, watchers, box)] + names[i:]
    elif byz:
        app_key = ch.flip('application key', .4)
        zero = ch.flip('0-rtt', .2)
        if zero:
            copts['extra_exts'] = [(42, b'')]
        early = early_act(run, watchers, box)

        def cmut(name, raw):
            p = client
            if name == 'Finished':
                saved = p.wr
                if app_key:
                    p.wr = ref.Prot(p.suite, p.ks.c_ap)
                early(p)
                p.wr = saved
            elif name == 'ClientHello2' and zero:
                p.raw(b'\x17\3\3\0\x40' + run.rand.randbytes(64))
                run.probe('zero rtt')
            return raw
    client, server = pairs.make(run, mode, c, s, layout=layout, copts=copts, sopts=sopts, cmut=cmut, flight=flight)
    line = steps.Line(run, client, server)
    watchers += [Watch(run, line, x) for x in (client, server) if isinstance(x, EP)]
    touched = byz
    # before anything happened
    for w in watchers:
        if ch.flip('write first', .3):
            w.write()
        w.check('nothing')
    client.start()
    line.collect()
    if byz and mode == 'cr' and copts.get('extra_exts'):
        line.flows[0].queue.append(b'\x17\3\3\0\x40' + run.rand.randbytes(64))
        run.fault('zero rtt')
        run.probe('zero rtt')
    for step in range(ch.int('steps', 2, 30)):
        act = ch.pick('act', ['deliver', 'write', 'close_send', 'close_recv', 'inject'], [8, 4, .35, .35, .5])
        dirn = ch.int('dir', 0, 1)
        run.step(act + 'ab'[dirn])
        if act == 'deliver':
            f = line.flows[dirn]
            if f.queue:
                line.give(dirn, ch.int('n', 1, min(len(f.queue), 3)))
        else:
            w = ch.pick('who', watchers)
            x = w.x
            over = line.done(x)
            if act == 'write':
                w.write()
            elif act == 'inject':
                kind = ch.pick('inject', ['app', 'alert', 'close', 'heartbeat', 'noise', 'ccs', 'empty', 'garbage', 'nul'])
                data = {'app': lambda: b'\x17\3\3' + ref.vec(2, marker(run)),
                        'alert': lambda: b'\x15\3\3\0\2' + bytes(ch.pick('alert', ALERTS)),
                        'close': lambda: b'\x15\3\3\0\2\1\0',
                        'heartbeat': lambda: b'\x18\3\3' + ref.vec(2, b'\1\0\4beat' + bytes(16)),
                        'noise': lambda: b'\x17\3\3\0\x40' + run.rand.randbytes(64),
                        'ccs': lambda: b'\x14\3\3\0\1\1',
                        'empty': lambda: b'\x17\3\3\0\0',
                        'garbage': lambda: run.rand.randbytes(40),
                        'nul': lambda: bytes(40)}[kind]()
                touched = touched or kind != 'ccs'
                line.feed(x, data)
                if not over and kind in ('app', 'close', 'empty', 'alert') and w.spoiled is None:
                    w.spoiled = f'{kind} was injected in clear'
                run.fault('inject ' + kind)
                if kind in ('app', 'empty'):
                    run.probe('early data in clear')
            else:
                exc = getattr(x, act)()
                line.collect()
                touched = True
                if not over and w.spoiled is None:
                    w.spoiled = f'{act} was called before the end of the handshake ({exc!r})'
                    run.probe('closed early')
                run.fault(act + (' late' if over else ' early'))
        for w in watchers:
            w.check(act)
            run.st(mode, act, w.x.name, type(w.x.conn._state).__name__ if hasattr(w.x.conn, '_state') else '',
                   bool(w.spoiled))
    line.drain()
    for w in watchers:
        x = w.x
        if box.get('spoil'):
            # the early record came before the Finished on the wire
            if x.connected or x.rcvd:
                raise Violation('early-peer', f'{x.name} connected={x.connected} delivered {len(x.rcvd)} bytes although '
                                + box['spoil'])
            w.spoiled = w.spoiled or box['spoil']
        w.check('the end')
        w.write()
        line.drain()
        w.check('the last write')
        w.wire()
        run.probe('connected' if x.ever_connected else 'never connected')
        if isinstance(line.peer_of(x), ref.Base) and 'application data before' in (line.peer_of(x).error or ''):
            raise Violation('early-wire', f'{x.name} put application data on the wire during the handshake')
    if sopts.get('force_hrr') and getattr(server, 'hrr', None):
        run.probe('retry')
    if not touched:
        run.probe('refusals are harmless')
        if not (client.connected and server.connected):
            raise Violation('broken', f'nothing but refused writes happened, yet no connection: {c} {s} '
                            f'{pairs.why(client)} {pairs.why(server)}')


SCENARIOS = [('history', 1, histories)]
