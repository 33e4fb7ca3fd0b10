"""C05: any alteration of the handshake in flight prevents it from completing."""
from sim import core, gen, mutate, pairs, pki, ref
from sim.core import Violation
from sim.ep import CUTS, EP, RecordSplitter, cut

RULE = ('One run: one handshake between two compatible peers, with an attacker on the path who rewrites hello '
        'messages, records or whole flights; what each end saw is compared with what the other sent.')
QUICK = 30000
THOROUGH = 400000
STUBS = ['network: attacker-ruled byte queues', 'in two thirds of the runs one end is the reference peer']
PROBES = ['altered', 'unaltered', 'client saw altered hello', 'byzantine finished', 'relay', 'injected retry',
          'both connected']


def canon(data):
    """(handshake bytes sent in clear, encrypted records): what the two ends must agree on"""
    clear, enc = b'', []
    for rec in RecordSplitter().push(data):
        if rec[0] == ref.HS:
            clear += rec[5:]
        elif rec[0] == ref.APP:
            enc.append(rec)
        elif rec[0] not in (ref.CCS, ref.ALERT):
            enc.append(rec)
    return clear, enc


def prefix(a, b):
    return b[0].startswith(a[0]) and a[1] == b[1][:len(a[1])]


class Path:
    """both directions, with a full account of what was sent and what was delivered"""
    def __init__(self, run, client, server, attack):
        self.run = run
        self.ends = (client, server)
        self.tx = [b'', b'']
        self.rx = [b'', b'']
        self.attack = attack
        self.styles = (run.ch.pick('style', CUTS[:3]), run.ch.pick('style', CUTS[:3]))
        self.seen = {}
        self.split = (RecordSplitter(), RecordSplitter())

    def snapshot(self):
        for x in self.ends:
            if isinstance(x, EP) and x.connected and x not in self.seen:
                self.seen[x] = ([canon(b) for b in self.tx], [canon(b) for b in self.rx])

    def send(self, d, data):
        if not data:
            return
        self.rx[d] += data
        dst = self.ends[1 - d]
        for chunk in cut(self.run, data, self.styles[d]):
            dst.feed(chunk)
        self.snapshot()

    def pump(self):
        moved = False
        for d in (0, 1):
            data = self.ends[d].take()
            if data:
                moved = True
                self.tx[d] += data
                self.run.step('ab'[d])
                recs = self.split[d].push(data)
                tail = self.split[d].buf
                self.split[d].buf = b''
                recs = self.attack(d, recs + ([tail] if tail else []), self)
                self.send(d, b''.join(recs))
        return moved

    def run_out(self, limit=40):
        for _ in range(limit):
            if not self.pump():
                return
        raise Violation('livelock', 'the handshake does not settle')


def rewrap(raw):
    return b'\x16\x03\x03' + len(raw).to_bytes(2, 'big') + raw


def attacker(run, plan):
    """a stateful tap: changes one thing (or a few) at seeded places"""
    ch = run.ch
    state = dict(n=0, left=plan['times'], held=[])
    other = plan.get('other')

    def tap(d, recs, path):
        out = []
        for i, rec in enumerate(recs):
            state['n'] += 1
            if state['left'] <= 0 or not ch.flip('hit', plan['p']):
                out.append(rec)
                continue
            if len(rec) < 6:
                out.append(rec)
                continue
            hello = rec[0] == ref.HS and rec[5] in (ref.CH, ref.SH)
            kind = ch.pick('attack', plan['kinds'], [plan['w'][k] for k in plan['kinds']])
            if kind == 'hello':
                if not hello:
                    out.append(rec)
                    continue
                try:
                    f = mutate.client_hello if rec[5] == ref.CH else mutate.server_hello
                    raw, what = f(run, rec[5:])
                except ref.PeerError:
                    out.append(rec)
                    continue
                out.append(rewrap(raw))
                run.fault(what)
            elif kind == 'bit':
                out.append(mutate.flip_bit(ch, rec, ch.pick('from', [5, 0, 3])))
                run.fault('bit in ' + ('hello' if hello else 'encrypted' if rec[0] == 23 else 'other'))
            elif kind == 'drop':
                run.fault('drop')
            elif kind == 'dup':
                out += [rec, rec]
                run.fault('dup')
            elif kind == 'delay':
                out[:0] = [rec]
                run.fault('reorder')
            elif kind == 'swap-next' and i + 1 < len(recs):
                recs[i + 1], rec = rec, recs[i + 1]
                out.append(rec)
                run.fault('reorder')
            elif kind == 'inject':
                k = ch.pick('inject', ['hs-clear', 'fin-clear', 'noise', 'app-noise', 'self', 'hrr', 'alert-warning'])
                if k == 'hs-clear':
                    t = ch.pick('inj.type', [1, 2, 4, 8, 11, 13, 15, 20, 24, 0, 254])
                    x = rewrap(ref.hsmsg(t, run.rand.randbytes(ch.int('inj.len', 0, 40))))
                elif k == 'fin-clear':
                    x = rewrap(ref.hsmsg(20, run.rand.randbytes(32)))
                elif k == 'noise':
                    x = bytes([ch.pick('inj.ct', [20, 21, 22, 23, 24, 0])]) + b'\3\3\0\x20' + run.rand.randbytes(32)
                elif k == 'app-noise':
                    x = b'\x17\3\3\0\x40' + run.rand.randbytes(64)
                elif k == 'self':
                    x = path.tx[1 - d][:4000]
                    x = b''.join(RecordSplitter().push(x)[:1])
                elif k == 'hrr':
                    x = hrr(run, path)
                else:
                    x = b'\x15\3\3\0\2\1\x5a'
                out += ch.pick('inj.side', [[x, rec], [rec, x]])
                run.fault('inject ' + k)
            elif kind == 'splice' and other is not None and other[d]:
                # the same place of another handshake between the same two
                k = min(i, len(other[d]) - 1)
                out.append(other[d][k])
                run.fault('splice')
            elif kind == 'retype':
                out.append(bytes([ch.pick('retype', [20, 21, 22, 23, 24])]) + rec[1:])
                run.fault('retype')
            elif kind == 'resplit' and rec[0] == ref.HS and len(rec) > 8:
                # harmless: the same handshake bytes over more records
                k = ch.int('split.at', 6, len(rec) - 1)
                out += [rec[:3] + (k - 5).to_bytes(2, 'big') + rec[5:k],
                        rec[:3] + (len(rec) - k).to_bytes(2, 'big') + rec[k:]]
                run.fault('resplit')
                continue
            elif kind == 'ccs':
                out += [b'\x14\3\3\0\1\1', rec]
                run.fault('ccs')
                continue
            else:
                out.append(rec)
                continue
            state['left'] -= 1
        return out
    return tap


def hrr(run, path):
    clear, _ = canon(path.tx[0])
    try:
        h = mutate.Hello(clear)
        groups = mutate._lst(h.get(10), 2, 2)
        suite = run.ch.pick('hrr.suite', h.suites)
    except (ref.PeerError, TypeError):
        return b''
    g = run.ch.pick('hrr.group', groups)
    m = ref.hsmsg(ref.SH, b'\3\3' + ref.HRR_RANDOM + ref.vec(1, h.sid) + ref.u(2, suite) + b'\0'
                  + ref.vec(2, ref.ext(43, b'\3\4') + ref.ext(51, ref.u(2, g))))
    return rewrap(m)


KINDS = ['hello', 'bit', 'drop', 'dup', 'delay', 'swap-next', 'inject', 'splice', 'retype', 'resplit', 'ccs']


def judge(run, path, client, server, deal, desc):
    tx = [canon(b) for b in path.tx]
    rx = [canon(b) for b in path.rx]
    altered = tx != rx
    run.probe('altered' if altered else 'unaltered')
    both = client.connected and server.connected
    if both:
        run.probe('both connected')
    if altered and both:
        d = 0 if tx[0] != rx[0] else 1
        raise Violation('tampered', 'both ends are connected although the handshake from the %s was altered: %s'
                        % (('client', 'server')[d], desc()))
    if altered and rx[1][0] != tx[1][0] and isinstance(client, EP):
        run.probe('client saw altered hello')
    for x, (t, r) in path.seen.items():
        d = 1 if x is client else 0          # direction x reads
        if not prefix(r[d], t[d]):
            raise Violation('view', f'{x.name} connected after reading handshake bytes its peer did not send: {desc()}')
        # (what arrives on top of that, the peer will refuse later)
        if x is client and not r[0][0].startswith(t[0][0]):
            raise Violation('view', f'the client connected although the server read another hello: {desc()}')
        if x is server and not prefix(t[1], r[1]):
            raise Violation('view', f'the server connected although the client did not read its flight as sent: {desc()}')
    if both:
        for x in (client, server):
            if isinstance(x, EP):
                got = gen.summary(x.nconfig)
                if got != gen.expected(deal):
                    raise Violation('downgrade', f'{x.name} settled on {got} instead of {gen.expected(deal)}: {desc()}')
    if not altered and not both and not run.opts.get('harmful'):
        raise Violation('broken', 'an unaltered handshake did not complete: ' + desc())


def on_path(run):
    ch = run.ch
    c, s, d = pairs.compatible(run, simple=ch.flip('simple', .4), auth=ch.pick('auth', ['store', 'none', 'rpk'], [4, 2, 1]))
    mode = ch.pick('mode', ['rr', 'cr', 'sr'])
    layout = ref.Layout(ch, wild=False) if ch.flip('tidy', .7) else None
    sopts = {}
    if mode == 'sr' and len(c.groups) > 1 and ch.flip('retry', .3):
        sopts['force_hrr'] = True
    kinds = ch.pick('family', [['hello'], KINDS, ['bit', 'drop', 'dup', 'delay', 'swap-next', 'retype'],
                               ['inject', 'hello'], ['splice', 'hello'], ['resplit', 'ccs', 'hello']], [5, 4, 3, 2, 1, 1])
    plan = dict(times=ch.pick('times', [1, 2, 3], [6, 1, 1]), p=ch.pick('p', [.25, .5, .1, 1.]), kinds=kinds,
                w=dict(dict.fromkeys(KINDS, 1), hello=2))
    if 'splice' in kinds:
        c2, s2 = pairs.make(run, mode, c, s, tag='2', sopts=sopts, layout=layout)
        rec = ([], [])
        sp = (RecordSplitter(), RecordSplitter())
        c2.start()
        for _ in range(12):
            a, b = c2.take(), s2.take()
            rec[0].extend(sp[0].push(a))
            rec[1].extend(sp[1].push(b))
            if a:
                s2.feed(a)
            if b:
                c2.feed(b)
            if not a and not b:
                break
        plan['other'] = rec
    client, server = pairs.make(run, mode, c, s, layout=layout, sopts=sopts)
    path = Path(run, client, server, attacker(run, plan))
    client.start()
    path.run_out()
    desc = lambda: (f'{pairs.MODES[mode]}; {dict(run.faults)}; {c}; {s}; {d}; {pairs.why(client)}; {pairs.why(server)}')
    if sopts.get('force_hrr') and server.hrr:
        d.group = server.hrr
    # all the rest may legitimately end the handshake (a clear alert after the keys are in place too)
    harmful = set(run.faults) - ({'resplit', 'ccs'} if mode == 'rr' else {'resplit'})
    run.opts['harmful'] = bool(harmful)
    run.st(mode, sorted(run.faults), client.connected, server.connected)
    judge(run, path, client, server, d, desc)


FIN_OPS = ['bit', 'zero', 'empty', 'short', 'long', 'other-label', 'other-hash', 'reflect', 'twice', 'trailing',
           'skip', 'early-transcript']


def byzantine_finished(run):
    """an end that never proves it saw the same exchange"""
    ch = run.ch
    mode = ch.pick('mode', ['cr', 'sr'])
    c, s, d = pairs.compatible(run, simple=ch.flip('simple', .6))
    op = ch.pick('fin', FIN_OPS)
    box = {}

    def mut(name, raw):
        if name != 'Finished':
            return raw
        p = box['peer']
        data = raw[4:]
        n = len(data)
        if op == 'bit':
            data = mutate.flip_bit(ch, data)
        elif op == 'zero':
            data = b'\0' * n
        elif op == 'empty':
            data = b''
        elif op == 'short':
            data = data[:ch.int('fin.cut', 1, n - 1)]
        elif op == 'long':
            data = data + b'\0' * ch.int('fin.more', 1, 20)
        elif op == 'other-label':
            base = p.ks.s_hs if mode == 'cr' else p.ks.c_hs
            data = p.ks.finished(base, p.th())
        elif op == 'other-hash':
            base = p.ks.c_hs if mode == 'cr' else p.ks.s_hs
            data = p.ks.finished(base, ref.hashlib.new(p.ks.hn, p.transcript[:-1]).digest())
        elif op == 'early-transcript':
            # over the transcript before the certificate messages
            base = p.ks.c_hs if mode == 'cr' else p.ks.s_hs
            data = p.ks.finished(base, p.ks.empty)
        elif op == 'reflect':
            data = ref.hashlib.new(p.ks.hn, data).digest()
        elif op == 'skip':
            return None
        elif op == 'twice':
            # a wrong one, then the right one
            return ref.hsmsg(ref.FIN, mutate.flip_bit(ch, data)) + raw
        elif op == 'trailing':
            return raw[:1] + ref.u(3, n + 1) + data + b'\0'
        return ref.hsmsg(ref.FIN, data)
    client, server = pairs.make(run, mode, c, s, cmut=mut if mode == 'cr' else None,
                                smut=mut if mode == 'sr' else None)
    real, box['peer'] = (server, client) if mode == 'cr' else (client, server)
    run.fault('finished ' + op)
    run.probe('byzantine finished')
    client.start()
    for _ in range(20):
        a = client.take()
        if a:
            server.feed(a)
        b = server.take()
        if b:
            client.feed(b)
        if not a and not b:
            break
    if op != 'skip' or mode == 'cr':
        # data under the keys that only a completed handshake may use
        peer = box['peer']
        if peer.wr is not None:
            peer.write(b'after a wrong confirmation')
            real.feed(peer.take())
    run.st(mode, op)
    if real.ever_connected or real.rcvd:
        raise Violation('unconfirmed', f'{real.name} connected although its peer sent a {op} Finished; '
                        f'errors {real.errors}')
    if not real.errors and op != 'skip':
        raise Violation('unconfirmed', f'{real.name} does not fail upon a {op} Finished')


def relay(run):
    """a man in the middle with his own key shares, replaying the certificate and signature of the real server"""
    ch = run.ch
    c, s, d = pairs.compatible(run, simple=ch.flip('simple', .6), auth=ch.pick('auth', ['store', 'rpk']))
    client = EP(run, 'client', gen.build(c), c.host)
    real_server = ch.flip('real server', .5)
    if real_server:
        server = EP(run, 'server', gen.build(s))
        server.start()
    else:
        server = ref.RefServer(run, gen.ref_server_opts(s))
    # towards the server the attacker copies the client's offer
    client.start()
    hello = client.take()
    towards_server = ref.RefClient(run, gen.ref_client_opts(c, shares=[d.group]), ref.Layout(ch, wild=False))
    if ch.flip('copy random', .5):
        towards_server.random = mutate.Hello(hello[5:]).random
    got = {}
    orig = towards_server.message

    def message(t, r, raw):
        got[t] = raw
        orig(t, r, raw)
    towards_server.message = message
    towards_server.start()
    for _ in range(6):
        a, b = towards_server.take(), server.take()
        if a:
            server.feed(a)
        if b:
            towards_server.feed(b)
        if not a and not b:
            break
    if ref.CV not in got:
        raise core.HarnessError(f'relay did not reach the server: {towards_server.error}')

    def mut(name, raw):
        if name == 'EncryptedExtensions' and ch.flip('copy ee', .7):
            return got[ref.EE]
        if name == 'Certificate':
            return got[ref.CERT]
        if name == 'CertificateVerify':
            return got[ref.CV]
        return raw
    fake = ref.RefServer(run, gen.ref_server_opts(s, suites=[d.suite], groups=[d.group] + c.groups), mut=mut)
    if ch.flip('copy server random', .5):
        fake.random = towards_server.server_random
    run.fault('relay')
    run.probe('relay')
    data = hello
    for _ in range(8):
        if data:
            fake.feed(data)
        b = fake.take()
        if b:
            client.feed(b)
        data = client.take()
        if not data and not b:
            break
    if fake.wr is not None:
        fake.write(b'from the middle')
        client.feed(fake.take() or b'\0')
    if client.ever_connected or client.rcvd:
        raise Violation('relayed', f'the client connected to a man in the middle who relayed the certificate of the real '
                        f'server: {c} {s}')


def injected_retry(run):
    """an attacker asks the client for a retry the server never asked"""
    ch = run.ch
    c, s, d = pairs.compatible(run, simple=ch.flip('simple', .3))
    if len(c.groups) < 2:
        c.groups = [ref.X25519, ref.P256]
        s.groups = [ref.X25519, ref.P256, ref.P384]
        d = gen.deal(c, s)
    mode = ch.pick('mode', ['rr', 'sr'])
    client, server = pairs.make(run, mode, c, s)
    client.start()
    ch1 = client.take()
    path = Path(run, client, server, lambda d, recs, p: recs)
    path.tx[0] = ch1
    h = mutate.Hello(ch1[5:])
    g = ch.pick('hrr.group', c.groups)
    path.send(1, rewrap(ref.hsmsg(ref.SH, b'\3\3' + ref.HRR_RANDOM + ref.vec(1, h.sid) + ref.u(2, ch.pick('suite', c.suites))
                                  + b'\0' + ref.vec(2, ref.ext(43, b'\3\4') + ref.ext(51, ref.u(2, g))))))
    run.fault('injected retry')
    run.probe('injected retry')
    ch2 = client.take()
    path.tx[0] += ch2
    which = ch.pick('forward', ['first', 'second', 'both'])
    if which == 'first':
        path.send(0, ch1)
    elif which == 'second':
        path.send(0, b''.join(r for r in RecordSplitter().push(ch2)))
    else:
        path.send(0, ch1 + ch2)
    path.run_out()
    desc = lambda: f'injected retry for {g:#x}, forwarding {which}: {c} {s} {pairs.why(client)} {pairs.why(server)}'
    if client.ever_connected or (isinstance(server, EP) and server.ever_connected):
        raise Violation('injected retry', desc())


SCENARIOS = [('on-path', 8, on_path), ('byzantine finished', 1.5, byzantine_finished), ('relay', .7, relay),
             ('injected retry', .7, injected_retry)]
