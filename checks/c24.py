"""C24: a failure of memory, randomness or cryptography inside any call fails closed."""
import random

from sim import gen, inject, mutate, observer, pairs, ref, steps
from sim.core import Violation
from sim.ep import EP

RULE = ('One run: one connection and, in the middle of a seeded call of one real end, a seeded call the library makes to what is '
        'outside of itself (allocation, randomness, cryptography, logging) raises, once, for a while or until the call is over.')
QUICK = 14000
THOROUGH = 500000
STUBS = ['network: in-memory record queues', 'in most runs one end is the reference peer']
PROBES = ['while starting', 'while receiving', 'while writing', 'while closing', 'while draining', 'while created',
          'memory', 'system', 'interrupt', 'time out', 'once', 'a few', 'until the end', 'handshake interrupted', 'connected anyway',
          'bad peer', 'same configuration again', 'wire read', 'nothing failed']

ERRORS = {'memory': MemoryError, 'system': lambda: OSError(12, 'Cannot allocate memory'), 'interrupt': KeyboardInterrupt,
          'time out': lambda: TimeoutError('from a signal handler')}


class Victim(EP):
    """an end in which something fails; what the application was told is kept"""

    def __init__(self, run, name, config, hostname=None, inj=None):
        self.inj = inj
        self.what = 'created'
        self.log = []              # (data, accepted)
        self.dead = None           # why it can never be connected again
        self.started = False
        for _ in range(3):
            try:
                super().__init__(run, name, config, hostname, None)
                break
            except BaseException as exc:
                if isinstance(exc, Violation) or inj is None or not inj.fired:
                    raise
        else:
            inj.reset()
            super().__init__(run, name, config, hostname, None)

    def _call(self, f, *a, **kw):
        run, inj = self.run, self.inj
        saved, run.rand = run.rand, self.rand
        n = len(inj.fired) if inj else 0
        try:
            if inj:
                inj.enter()
            return f(*a, **kw)
        finally:
            if inj:
                inj.leave()
                if len(inj.fired) > n:
                    run.probe('while ' + self.what)
                    run.ev(self.name, 'failed inside', self.what, inj.fired[n:][:3])
            run.rand = saved

    def attempt(self, what, f, *a):
        """-> the exception, if any"""
        self.what = what
        try:
            self._call(f, *a)
        except (Exception, KeyboardInterrupt) as exc:
            return exc
        return None

    def drain(self, f):
        self.what = 'draining'
        for _ in range(4):
            try:
                return bytes(self._call(f))
            except (Exception, KeyboardInterrupt):
                pass
        self.inj.at = inject.INF
        return bytes(self._call(f))

    def _collect(self):
        o = self.drain(self.conn.data_to_send)
        d = self.drain(self.conn.data_to_read)
        self.out += o
        self.out_total += len(o)
        self.outputs.append(o)
        self.rcvd += d
        if self.connected:
            self.ever_connected = True
        return o, d

    @property
    def connected(self):
        inj = self.inj
        saved, inj.at = inj.at, inject.INF
        try:
            return bool(self.conn.is_connected())
        finally:
            inj.at = saved

    def start(self):
        exc = self.attempt('starting', self.conn.initiate_connection)
        self.run.ev(self.name, 'start', type(exc).__name__)
        self._collect()
        return exc

    def deliver(self, data):
        data = bytes(data)
        if not data:
            return b'', b'', None
        exc = self.attempt('receiving', self.conn.receive_data, data)
        o, d = self._collect()
        self.run.ev(self.name, '<', len(data), '>', len(o), 'app', len(d), type(exc).__name__, self.connected)
        if self.dead:
            if o or d:
                raise Violation('not silent', f'{self.name} emits {len(o)} bytes and delivers {len(d)} although {self.dead}')
        if exc is not None:
            self.errors.append(exc)
            if self.dead is None:
                self.dead = f'receiving raised {exc!r} after {self.inj.fired[:3]} failed'
            self.check_dead()
        return o, d, exc

    def write(self, data):
        exc = self.attempt('writing', self.conn.send_data, bytes(data))
        self.log.append((bytes(data), exc is None))
        if exc is None:
            self.sent += data
        o, _ = self._collect()
        self.run.ev(self.name, 'write', len(data), '>', len(o), type(exc).__name__)
        if self.dead and (exc is None or o):
            raise Violation('not failed', f'{self.name} accepts a write, emitting {len(o)} bytes, although {self.dead}')
        return exc is None

    def _simple(self, kind, meth):
        exc = self.attempt('closing', meth)
        o, _ = self._collect()
        self.run.ev(self.name, kind, '>', len(o), type(exc).__name__)
        if self.dead and o:
            raise Violation('not silent', f'{self.name} emits {len(o)} bytes at {kind} although {self.dead}')
        return exc

    def check_dead(self):
        if self.dead and self.connected:
            raise Violation('not failed', f'{self.name} is connected although {self.dead}')


def order(got, log, who):
    """got: what arrived.  Every accepted write in full and in order, of a refused one at most a beginning, until it ends."""
    ends = {0}
    for data, ok in log:
        after = set()
        for i in ends:
            n = 0
            left = got[i:i + len(data)]
            if ok:
                if data.startswith(left):
                    after.add(i + len(left))
                continue
            while n < len(left) and left[n] == data[n]:
                n += 1
            after.update(range(i, i + n + 1))
        if not after:
            return f'{who} delivers bytes that were not written there, from byte {min(ends)} on'
        ends = after
    if len(got) not in ends:
        return f'{who} delivers {len(got) - max(ends)} bytes more than were written'
    return None


def log_of(x):
    return x.log if isinstance(x, Victim) else [(bytes(x.sent), True)]


def read_wire(run, x, secrets, suite, marks):
    """every encrypted record of x opens under a key of this connection and a number not used before"""
    side = x.config.side
    data = b''.join(x.outputs)
    for m in marks:
        if len(m) >= 12 and m in data:
            raise Violation('clear', f'{x.name} put application bytes in clear on the wire after {x.inj.fired[:3]} failed')
    prots = []
    for label in (f'{side.upper()}_HANDSHAKE_TRAFFIC_SECRET', f'{side.upper()}_TRAFFIC_SECRET_0'):
        if label in secrets and suite is not None:
            prots.append((label, ref.Prot(suite, secrets[label])))
    complete = len(prots) == 2
    at = 0
    recs = observer.records(data, x.name)
    for n, (t, head, body) in enumerate(recs):
        if t != ref.APP:
            if at and t != ref.CCS:
                raise Violation('clear', f'{x.name} emits a clear record of type {t} after encrypted ones ({x.inj.fired[:3]} failed)')
            continue
        for i, (label, p) in enumerate(prots):
            if i < at - 1:
                continue
            first = p.seq
            for seq in range(first, first + 60):
                p.seq = seq
                try:
                    p.open(head, body)
                    break
                except ref.PeerError:
                    continue
            else:
                p.seq = first
                continue
            at = i + 1
            run.probe('wire read')
            break
        else:
            # (the last notice of an end that failed half way through a change of keys is for nobody)
            if complete and not (x.dead and n == len(recs) - 1):
                raise Violation('undecryptable', f'{x.name} emits a record no key of this connection opens under an unused number, '
                                f'after {x.inj.fired[:3]} failed')
            return


def bad_peer(run, mode):
    """a peer that must not be believed, whatever fails -> cmut, smut, sopts"""
    ch = run.ch

    def spoil(names):
        def mut(name, raw):
            if name in names:
                raw = bytearray(raw)
                raw[-1 - ch.int('bad.at', 0, 15)] ^= 1 << ch.int('bad.bit', 0, 7)
                return bytes(raw)
            return raw
        return mut
    if mode == 'cr':
        return spoil({'Finished'}), None
    return None, spoil({ch.pick('bad', ['Finished', 'CertificateVerify'])})


def life(run):
    ch = run.ch
    inj = inject.injector()
    mode = ch.pick('mode', ['cr', 'sr', 'rr'])
    hostile = mode != 'rr' and ch.flip('hostile', .2)
    c, s, d = pairs.compatible(run, simple=ch.flip('simple', .7), auth=True if hostile else None)
    c.log_keys = s.log_keys = mode == 'rr' or ch.flip('log keys', .3)
    cmut, smut = bad_peer(run, mode) if hostile else (None, None)
    if hostile:
        run.fault('bad peer')
        run.probe('bad peer')
    copts, sopts = {}, {}
    if len(c.groups) > 1 and ch.flip('retry', .3):
        sopts['force_hrr'] = True
        copts['shares'] = []
    cconf = gen.build(c) if mode != 'cr' else None
    sconf = gen.build(s) if mode != 'sr' else None
    who = {'cr': 1, 'sr': 0}.get(mode)
    if who is None:
        who = ch.int('who', 0, 1)
    # what fails, when
    kind = ch.pick('error', list(ERRORS), [5, 3, 2, 1])
    # everything can fail once; for longer, what needs much memory, randomness or cryptography
    span = ch.pick('span', ['once', 'a few', 'until the end'], [5, 2, 2]) if kind in ('memory', 'system') else 'once'
    inj.only_heavy = span != 'once'
    where = ch.pick('where', ['anywhere', 'call', 'connected'], [3, 2, 2])
    plan = [{'anywhere': 0, 'connected': -2}[where] if where != 'call' else ch.int('call', 0, 14),
            ch.int('at', 1, 600 if inj.only_heavy else 900) if where == 'anywhere' else ch.size('at.call', 1, 300)]

    def set_plan():
        inj.plan(plan[1], ch.int('n', 2, 9) if span == 'a few' else 1, ERRORS[kind], span == 'until the end')
        plan[0] = -1
    if plan[0] == 0:
        set_plan()

    def tick():
        """before every call of the victim"""
        if plan[0] == -2 and victim is not None and victim.connected:
            if ch.flip('now', .4):
                set_plan()
        elif plan[0] > 0:
            plan[0] -= 1
            if plan[0] == 0:
                set_plan()

    def make(side):
        conf, host = (cconf, c.host) if side == 0 else (sconf, None)
        if side == who:
            return Victim(run, 'client' if side == 0 else 'server', conf, host, inj)
        if conf is not None:
            return EP(run, 'client' if side == 0 else 'server', conf, host)
        if side == 0:
            return ref.RefClient(run, gen.ref_client_opts(c, **copts), mut=cmut)
        return ref.RefServer(run, gen.ref_server_opts(s, **sopts), mut=smut)
    victim = None
    client, server = ends = [make(0), make(1)]
    victim, peer = ends[who], ends[1 - who]
    desc = lambda: f'{mode}, {kind} {span}, {inj.fired[:4]} failed: {pairs.why(client)}; {pairs.why(server)}; {c} {s}'
    for x in (server, client):
        if isinstance(x, EP) or x is client:
            tick()
            exc = x.start()
            if exc is not None and ch.flip('again', .5):
                tick()
                x.start()
    line = steps.Line(run, client, server)
    closed = False
    marks = []
    for _ in range(ch.int('steps', 5, 30)):
        act = ch.pick('act', ['deliver', 'write', 'close_send', 'close_recv'], [10, 5, .25, .1])
        i = ch.int('dir', 0, 1)
        run.step(act + 'ab'[i])
        if act == 'deliver':
            if not line.flows[i].queue:
                i = 1 - i
            if line.flows[i].queue:
                if ends[1 - i] is victim:
                    tick()
                line.give(i, ch.int('n', 1, 4))
        else:
            x = ends[i]
            if x is victim:
                tick()
            if act == 'write':
                data = run.rand.randbytes(ch.pick('len', [1, 20, 300, 17000, 40000], [2, 5, 5, 1, .5]))
                if isinstance(x, EP):
                    if x.connected or ch.flip('write anyway', .2):
                        marks.append(data)
                        x.write(data)
                elif x.connected and not closed:
                    x.write(data)
            elif isinstance(x, EP) or x.connected and not closed:
                closed = True
                if act == 'close_recv':
                    if isinstance(x, EP):
                        x.close_recv()
                else:
                    x.close_send()
            line.collect()
        verdict(victim, line, hostile, desc)
        run.st(mode, act, victim.what, bool(victim.dead), victim.connected)
    if not inj.fired:
        inj.at = inject.INF
    line.drain()
    verdict(victim, line, hostile, desc)
    for x, y in ((victim, peer), (peer, victim)):
        bad = order(bytes(x.rcvd if isinstance(x, EP) else x.app), log_of(y), x.name)
        if bad:
            raise Violation('stream', f'{bad}: {desc()}')
    if inj.fired:
        run.fault(kind)
        for p in (kind, span):
            run.probe(p)
        run.st('at', *inj.fired[0])
        if not victim.ever_connected:
            run.probe('handshake interrupted')
        else:
            run.probe('connected anyway')
    else:
        run.probe('nothing failed')
        if not hostile and not closed and not (client.connected and server.connected):
            raise Violation('broken', f'nothing failed, yet no connection: {desc()}')
    # nothing is lost without a word
    inj.at = inject.INF
    err = peer.errors if isinstance(peer, EP) else peer.error
    if client.connected and server.connected and not closed and not victim.dead and not err:
        for x, y in ((victim, peer), (peer, victim)):
            got = bytes(x.rcvd if isinstance(x, EP) else x.app)
            want = b''.join(data for data, ok in log_of(y) if ok)
            if len(got) < len(want):
                raise Violation('lost', f'{x.name} got {len(got)} of {len(want)} bytes and nobody failed: {desc()}')
        for x, y in ((victim, peer), (peer, victim)):
            told = gen.summary(x.nconfig) if isinstance(x, EP) else None
            other = gen.summary(y.nconfig) if isinstance(y, EP) else None
            if told and other and told != other:
                raise Violation('disagree', f'{told} and {other}: {desc()}')
    # whatever it put on the wire
    suite, secrets = keys(run, mode, victim, peer)
    read_wire(run, victim, secrets, suite, marks)
    if victim.dead:
        victim.write(b'something more')
        victim.deliver(b'\x17\3\3\0\x20' + bytes(32))
        victim.close_send()
        victim.close_recv()
        victim.check_dead()
    # nothing the connections share was spoiled
    if ch.flip('again with the same', .5):
        inj.reset()
        run.probe('same configuration again')
        a, b = pairs.make(run, mode, c, s, tag='2', copts=copts, sopts=sopts, cconfig=cconf, sconfig=sconf)
        a.start()
        pairs.settle(run, a, b)
        if not (a.connected and b.connected):
            raise Violation('spoiled', f'the next connection with the same configuration fails: {pairs.why(a)}; {pairs.why(b)}; {desc()}')


def keys(run, mode, victim, peer):
    if mode == 'rr':
        client = victim if victim.side == 'client' else peer
        hello = b''.join(client.outputs)
        if len(hello) < 43:
            return None, {}
        secrets = observer.secrets_of(run.keylog, hello[11:43])
        server = peer if victim.side == 'client' else victim
        raw = b''.join(r[5:] for r in observer.RecordsLenient(b''.join(server.outputs)) if r[0] == 22)
        suite = None
        if len(raw) > 44:
            suite = mutate.Hello(raw[:4 + int.from_bytes(raw[1:4], 'big')]).suites[0]
        return suite, secrets
    ks = getattr(peer, 'ks', None)
    return peer.suite, {label: getattr(ks, a) for label, a in (
        ('CLIENT_HANDSHAKE_TRAFFIC_SECRET', 'c_hs'), ('SERVER_HANDSHAKE_TRAFFIC_SECRET', 's_hs'),
        ('CLIENT_TRAFFIC_SECRET_0', 'c_ap'), ('SERVER_TRAFFIC_SECRET_0', 's_ap')) if hasattr(ks, a)}


def verdict(victim, line, hostile, desc):
    if victim.connected:
        if hostile:
            raise Violation('believed', f'{victim.name} is connected to a peer whose proof is wrong: {desc()}')
        if not line.done(victim):
            raise Violation('early', f'{victim.name} is connected before the final message of its peer: {desc()}')
    elif victim.rcvd and (hostile or not line.done(victim)):
        raise Violation('early', f'{victim.name} delivers {len(victim.rcvd)} bytes before the final message of its peer: {desc()}')
    victim.check_dead()


SCENARIOS = [('life', 1, life)]
