"""C07: a failed connection stays failed, silent and signalled by one alert."""
from sim import gen, mutate, pairs, ref, steps
from sim.core import HarnessError, Violation
from sim.ep import EP, RecordSplitter

RULE = ('One run: one connection brought to a seeded step and broken there in a seeded way (or told by its peer that it '
        'is), then put through a seeded sequence of deliveries and calls.')
QUICK = 50000
THOROUGH = 600000
STUBS = ['network: in-memory record queues', 'in most runs one end is the reference peer']
PROBES = ['failed locally', 'failed by alert', 'failed in clear', 'failed under keys', 'afterlife', 'failed after closing',
          'internal error', 'failed before keys at the peer', 'real peer told', 'reference peer told', 'never failed',
          'failed connected', 'failed by disagreement']
ERRORS = [(2, 10), (2, 20), (2, 40), (1, 40), (2, 80), (1, 50), (2, 255), (1, 120), (2, 0x31), (2, 86), (2, 1), (1, 255), (1, 41)]


def server_hello_given(line):
    """whether the client got a whole ServerHello"""
    return line.sh_given


class Watch:
    def __init__(self, run, line, x):
        self.run, self.line, self.x = run, line, x
        self.peer_alert = False       # the next failure is the doing of the peer's alert
        self.dead = None              # (output total, data total) at the failure
        self.closed = False           # its own closing notice is out
        self.keys = False
        self.diverged = self.unsure = False
        self.keys_at = False          # keys in force before the failing call
        self.was_connected = False
        self.second = False           # its peer failed before it
        self.splitter = RecordSplitter()
        self.n_out = 0

    def records(self):
        """records of the latest outputs"""
        out = b''.join(self.x.outputs[self.n_out:])
        self.n_out = len(self.x.outputs)
        return self.splitter.push(out)

    def before(self):
        x = self.x
        self.records()
        self.was_connected = x.connected
        self.keys_at = self.keys
        self.rcvd = len(x.rcvd)

    def after(self, what):
        x = self.x
        recs = self.records()
        if self.dead is None and x.errors:
            self.dead = (x.out_total, len(x.rcvd))
            self.failure(what, recs)
        elif self.dead is not None:
            if x.connected:
                raise Violation('undead', f'{x.name} is connected after {what} although it had failed with {x.errors[0]!r}')
            if len(x.errors) > 1:
                raise Violation('noisy', f'{x.name}, which had failed with {x.errors[0]!r}, raises {x.errors[1]!r} upon {what}')
            if x.out_total != self.dead[0]:
                raise Violation('talks', f'{x.name} emits {x.out_total - self.dead[0]} bytes upon {what} after it failed')
            if len(x.rcvd) != self.dead[1]:
                raise Violation('delivers', f'{x.name} delivers {len(x.rcvd) - self.dead[1]} bytes upon {what} after it failed')
        for r in recs:
            if r[0] == ref.APP:
                self.keys = True
        if self.x is self.line.ends[0] and self.dead is None and self.line.sh_given:
            self.keys = True

    def failure(self, what, recs):
        x, run = self.x, self.run
        y = self.line.peer_of(x)
        self.second = bool(y.errors) if isinstance(y, EP) else bool(y.error)
        if x.connected:
            raise Violation('still up', f'{x.name} is connected right after it raised {x.errors[0]!r} upon {what}')
        if self.unsure:
            return
        if self.peer_alert:
            run.probe('failed by alert')
            if recs:
                raise Violation('echo', f'{x.name} answers the alert of its peer with {len(recs)} records of type '
                                f'{[r[0] for r in recs]}')
            return
        run.probe('failed locally')
        if self.was_connected:
            run.probe('failed connected')
        if self.closed:
            run.probe('failed after closing')
            if recs:
                raise Violation('after close', f'{x.name} emits {[r[0] for r in recs]} upon {what} after its closing notice')
            return
        if not recs:
            raise Violation('mute', f'{x.name} raised {x.errors[0]!r} upon {what} without any alert on the wire')
        kind = recs[-1][0]
        if self.keys_at or any(r[0] == ref.APP for r in recs):
            run.probe('failed under keys')
            if kind != ref.APP:
                raise Violation('unprotected', f'{x.name} has keys but signals its failure upon {what} with a clear record of '
                                f'type {kind}')
        else:
            run.probe('failed in clear')
            if kind != ref.ALERT and not (self.line.ends[0] is x and kind == ref.APP):
                raise Violation('mute', f'{x.name} ended with a record of type {kind} instead of an alert upon {what}')
        self.clear_alert = kind == ref.ALERT


def description(exc):
    d = getattr(exc, 'description', None)
    try:
        return int(d)
    except (TypeError, ValueError):
        return 80


def gone(y):
    return bool(y.errors) if isinstance(y, EP) else y.alert_sent


def told(run, line, w):
    """what the peer makes of it"""
    x, y = w.x, line.peer_of(w.x)
    if w.dead is None or w.second or w.diverged or w.unsure:
        return
    if isinstance(y, EP):
        if y.closed_recv or not y.errors and not line.y_clean:
            return
        if w.peer_alert or w.closed:
            return
        if getattr(w, 'clear_alert', False) and y.keyed:
            run.probe('failed before keys at the peer')
            return
        if not y.errors:
            raise Violation('untold', f'{y.name} does not know that {x.name} failed with {x.errors[0]!r}')
        if run.faults.get('disagreement'):
            return
        if description(y.errors[0]) != description(x.errors[0]):
            raise Violation('other alert', f'{x.name} failed with {x.errors[0]!r} but {y.name} reports {y.errors[0]!r}')
        run.probe('real peer told')
        return
    fatal = [a for a in y.alerts if a[1] != 0]
    if w.peer_alert or w.closed:
        if fatal:
            raise Violation('echo', f'{x.name} sent {fatal} although it had to stay silent')
        return
    if y.error and run.faults.get('disagreement'):
        return
    if y.error:
        raise Violation('unreadable', f'the failure of {x.name} ({x.errors[0]!r}) makes its peer report: {y.error}')
    if len(fatal) != 1 or y.records[-1][1] != ref.ALERT:
        raise Violation('alerts', f'{x.name} failed with {x.errors[0]!r} and sent the alerts {y.alerts}, last record type '
                        f'{y.records[-1][1] if y.records else None}')
    if fatal[0][0] != 2:
        raise Violation('level', f'{x.name} failed with {x.errors[0]!r} and sent {fatal}')
    if fatal[0][1] != description(x.errors[0]):
        raise Violation('other alert', f'{x.name} failed with {x.errors[0]!r} but sent alert {fatal[0][1]}')
    if fatal[0][2] != (not w.clear_alert):
        raise HarnessError('alert protection')
    run.probe('reference peer told')


BAD = ['wrong message', 'junk message', 'short alert', 'long alert', 'empty handshake', 'unknown type', 'inner ccs', 'zeros',
       'corrupt', 'oversize', 'clear', 'interleave', 'heartbeat', 'huge message', 'alert', 'alert+data', 'key update']


PARTIAL = ['peer clear in clear', 'peer oversize in clear', 'peer interleave in clear', 'peer huge message in clear', 'peer junk message in clear', 'wire flip',
           'wire retype', 'wire replay', 'wire garbage']


def bad_act(run, w, k):
    ch = run.ch

    def act(p):
        if k == 'wrong message':
            t = ch.pick('bad.type', [0, 1, 2, 3, 4, 5, 8, 11, 13, 15, 20, 22, 25, 254])
            p.put(ref.HS, ref.hsmsg(t, run.rand.randbytes(ch.int('bad.len', 0, 50))))
        elif k == 'junk message':
            p.put(ref.HS, run.rand.randbytes(ch.int('bad.len', 4, 60)))
        elif k == 'short alert':
            p.put(ref.ALERT, b'\2')
        elif k == 'long alert':
            p.put(ref.ALERT, b'\2\x28\0')
        elif k == 'empty handshake':
            p.put(ref.HS, b'')
        elif k == 'unknown type':
            p.put(ch.pick('bad.ct', [0x19, 0x1a, 0, 255]), b'hello')
        elif k == 'inner ccs':
            p.put(ref.CCS, b'\1')
        elif k == 'zeros' and p.wr:
            p.raw(p.wr.seal_raw(bytes(ch.pick('zeros', [0, 1, 40]))))
        elif k == 'corrupt' and p.wr:
            p.raw(mutate.flip_bit(ch, p.wr.seal(ref.HS, b'\x14\0\0\x20' + bytes(32)), 5))
        elif k == 'oversize':
            n = p.limit() + ch.int('over', 1, 300)
            p.put(ch.pick('over.type', [ref.APP, ref.HS]), run.rand.randbytes(n))
        elif k == 'clear':
            t = ch.pick('clear.type', [21, 22, 23, 24, 0])
            p.raw(bytes([t]) + b'\3\3' + ref.vec(2, run.rand.randbytes(ch.int('clear.len', 2, 60))))
        elif k == 'interleave':
            p.put(ref.HS, b'\4\0\0\x20' + bytes(9))
            p.put(ch.pick('inter', [ref.APP, ref.ALERT]), b'\2\x28')
        elif k == 'heartbeat':
            p.put(24, b'\1\0\4beat' + bytes(16))
        elif k == 'huge message':
            p.put(ref.HS, b'\x0b\xff\xff\xff' + bytes(100))
        elif k == 'key update':
            p.put(ref.HS, ref.hsmsg(24, b'\0'))
        elif k in ('alert', 'alert+data'):
            # in an act of its own: whatever fails from here on is the doing of this alert
            p.put(ref.ALERT, bytes(ch.pick('alert', ERRORS)))
            if k == 'alert+data':
                p.put(ref.APP, b'more')
            w().peer_alert = p.wr is not None or not w().keys
        run.fault('peer ' + k + (' under keys' if p.wr else ' in clear'))
    return act


def life(run):
    ch = run.ch
    mode = ch.pick('mode', ['cr', 'sr', 'rr'])
    if ch.flip('disagree', .08):
        for _ in range(20):
            c, s = gen.client(run, ff=False), gen.server(run, ff=False)
            if not gen.deal(c, s).ok:
                run.fault('disagreement')
                break
    else:
        c, s, d = pairs.compatible(run, simple=ch.flip('simple', .7))
    layout = ref.Layout(ch, wild=not ch.flip('tidy', .6))
    copts, sopts = {}, {}
    if len(c.groups) > 1 and ch.flip('retry', .2):
        sopts['force_hrr'] = True
        copts['shares'] = []
    in_flight = mode != 'rr' and not run.faults.get('disagreement') and ch.flip('in flight', .4)
    cmut = smut = flight = None
    box = {}

    def victim():
        return box['w']
    if in_flight:
        k = ch.pick('bad', BAD)
        if mode == 'sr':
            hurt = ch.flip('hurt message', .3)
            if hurt:
                which = ch.pick('hurt.which', ['ServerHello', 'EncryptedExtensions', 'Certificate', 'CertificateVerify',
                                               'Finished', 'HelloRetryRequest'])

                def smut(name, raw):
                    if name != which:
                        return raw
                    raw, what = mutate.blob(run, raw)
                    box['w'].diverged = True
                    run.fault(f'{name} {what}')
                    return raw
            else:
                def flight(names):
                    # (past Finished it would be under the wrong key: not an alert at all)
                    i = ch.int('bad.at', 0, len(names) - k.startswith('alert'))
                    return names[:i] + [bad_act(run, victim, k)] + names[i:]
        else:
            hurt = ch.pick('hurt', ['ClientHello', 'Finished', 'act', 'ClientHello2'])

            def cmut(name, raw):
                if hurt == 'act' and name == 'Finished':
                    bad_act(run, victim, k)(box['peer'])
                elif name == hurt:
                    box['w'].diverged = True
                    raw, what = mutate.client_hello(run, raw) if name != 'Finished' and ch.flip('hello.op') \
                        else mutate.blob(run, raw)
                    run.fault(f'{name} {what}')
                return raw
    client, server = pairs.make(run, mode, c, s, layout=layout, copts=copts, sopts=sopts, cmut=cmut, smut=smut, flight=flight)
    line = steps.Line(run, client, server)
    line.sh_given = False
    line.hello = b''
    line.y_clean = True
    x = {'cr': server, 'sr': client, 'rr': ch.pick('victim', [client, server])}[mode]
    y = line.peer_of(x)
    y.closed_recv = y.keyed = y.alert_sent = False
    if isinstance(y, ref.Base):
        alert = y.alert

        def alert2(level, desc):
            alert(level, desc)
            y.alert_sent = True
        y.alert = alert2
    box['w'] = w = Watch(run, line, x)
    box['peer'] = y
    client.start()
    line.collect()
    break_at = ch.int('break at', 0, 16) if not in_flight else 99
    give_d = 0 if x is server else 1

    def deliver(dirn, n):
        f = line.flows[dirn]
        if not f.queue:
            return
        if dirn == give_d:
            for _ in range(min(n, len(f.queue))):
                r = f.queue[0]
                w.before()
                if not w.keys and w.dead is None and r[0] == ref.ALERT and len(r) == 7:
                    w.peer_alert = r[5] in (1, 2) and r[6] not in (0, 90)
                    # in the middle of a handshake message it is an error of its own
                    w.unsure = w.diverged or any(run.faults.get(k) for k in PARTIAL)
                elif r == f.last and w.dead is None and gone(y) and r[0] == ref.APP and w.keys:
                    w.peer_alert = True      # the peer failed first, this is its alert
                    w.unsure = w.diverged    # unless it cannot be read as such
                line.give(dirn, 1)
                if dirn == 1 and r[0] == ref.HS and not x.errors:
                    line.hello += r[5:]
                    n = 4 + int.from_bytes(line.hello[1:4], 'big')
                    if len(line.hello) >= n and line.hello[6:38] == ref.HRR_RANDOM:
                        line.hello = line.hello[n:]
                        n = 4 + int.from_bytes(line.hello[1:4], 'big')
                    line.sh_given = len(line.hello) >= max(n, 40) and not w.diverged and not any(
                        k.startswith('wire') or k.endswith('in clear') for k in run.faults)
                w.after('a delivery')
        else:
            line.give(dirn, n)
            if isinstance(y, EP):
                y.keyed = y.keyed or any(r[0] == 23 for o in y.outputs for r in RecordSplitter().push(o)) or y.connected
    steps_n = ch.int('steps', 3, 30)
    for step in range(steps_n):
        if step == break_at and w.dead is None:
            k = ch.pick('break', ['noise', 'garbage', 'flip', 'alert', 'close early', 'peer act', 'retype', 'replay', 'long', 'none'],
                        [2, 1, 2, 3, 1, 5, 1, 1, 1, .3])
            run.step('break ' + k)
            f = line.flows[give_d]
            if k == 'none':
                continue
            if k == 'peer act':
                if isinstance(y, EP) or y.error:
                    continue
                deliver(give_d, len(f.queue))
                if w.dead is not None:
                    continue
                if x.errors or (isinstance(y, ref.RefServer) and y.state != 'done' and y.wr is not None and y.state != 'fin'):
                    continue
                bad_act(run, victim, ch.pick('bad', BAD))(y)
                line.collect()
            elif k == 'close early':
                exc = ch.pick('close', [x.close_send, x.close_recv])
                w.before()
                if exc == x.close_send:
                    w.closed = True
                exc()
                line.collect()
                w.records()
                run.fault('close call')
            else:
                if k in ('flip', 'retype') and f.queue and f.queue[0][0] == ref.HS:
                    w.diverged = True     # another hello: the two ends may hold different keys from here on
                if k == 'flip' and f.queue:
                    f.queue[0] = mutate.flip_bit(ch, f.queue[0], 5)
                elif k == 'retype' and f.queue:
                    f.queue[0] = bytes([ch.pick('retype', [20, 21, 22, 23, 24, 99])]) + f.queue[0][1:]
                else:
                    data = {'noise': b'\x17\3\3\0\x40' + run.rand.randbytes(64),
                            'garbage': run.rand.randbytes(60),
                            'alert': b'\x15\3\3\0\2' + bytes(ch.pick('alert', ERRORS)),
                            'long': b'\x17\3\3\xff\xff' + bytes(20)}.get(k) or (ch.pick('which', f.queue) if f.queue else
                                                                                  b'\x16\3\3\0\4\x14\0\0\0')
                    if k == 'alert':
                        # obeyed only while no key protects what the victim reads
                        deliver(give_d, len(f.queue))
                        if w.dead is not None:
                            continue
                        w.peer_alert = not w.keys
                    if data[0] == ref.HS:
                        w.diverged = True
                    f.queue.insert(0, data)
                run.fault('wire ' + k)
            continue
        act = ch.pick('act', ['deliver', 'write', 'close'], [8, 3, .2])
        dirn = ch.int('dir', 0, 1)
        run.step(act + 'ab'[dirn])
        if act == 'deliver':
            deliver(dirn, ch.int('n', 1, 3))
        elif act == 'write':
            e = ch.pick('who', [x, y])
            if e is x:
                w.before()
                n = len(x.refused)
                ok = x.write(pairs.data(run, 'len', 300))
                if ok and w.dead is not None:
                    raise Violation('writes', f'{x.name} accepts application data after it failed with {x.errors[0]!r}')
                line.collect()
                w.after('a write')
            elif isinstance(y, EP) or y.complete and not y.error:
                y.write(pairs.data(run, 'len', 300))
                line.collect()
        elif w.dead is None and x.connected and dirn:
            w.before()
            x.close_send()
            w.closed = True
            line.collect()
            w.after('a close')
        run.st(mode, act, bool(w.dead), w.peer_alert, w.closed)
    for _ in range(12):
        if not any(f.queue for f in line.flows):
            break
        deliver(give_d, 99)
        deliver(1 - give_d, 99)
    if run.faults.get('disagreement') and w.dead is not None:
        run.probe('failed by disagreement')
    if w.dead is None:
        run.probe('never failed')
        return
    if not hasattr(x.errors[0], 'description'):
        run.probe('internal error')
    told(run, line, w)
    afterlife(run, line, w)


def afterlife(run, line, w):
    ch, x = run.ch, w.x
    run.probe('afterlife')
    history = b''.join(a for k, a, _ in x.calls if k == 'deliver')
    for _ in range(ch.int('after', 2, 8)):
        k = ch.pick('after.act', ['garbage', 'history', 'alert', 'close', 'write', 'close_send', 'close_recv', 'app', 'big', 'tail'])
        run.step('after ' + k)
        w.before()
        if k == 'write':
            if x.write(b'too late' * ch.int('after.n', 0, 3)):
                raise Violation('writes', f'{x.name} accepts application data after it failed with {x.errors[0]!r}')
        elif k in ('close_send', 'close_recv'):
            exc = getattr(x, k)()
            if exc is not None:
                raise Violation('noisy', f'{k} raises {exc!r} on {x.name} which had failed')
        else:
            data = {'garbage': run.rand.randbytes(ch.int('after.len', 1, 80)),
                    'history': history,
                    'alert': b'\x15\3\3\0\2\2\x28', 'close': b'\x15\3\3\0\2\1\0',
                    'app': b'\x17\3\3\0\x40' + run.rand.randbytes(64),
                    'big': bytes(20000),
                    'tail': history[-ch.int('after.tail', 1, 400):]}[k]
            x.deliver(data or b'\0')
        w.after('after ' + k)


SCENARIOS = [('life', 1, life)]
