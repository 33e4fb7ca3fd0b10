"""C16: session secrets are logged on request only, completely and correctly; nothing else leaks in logs."""
import base64
import re
import traceback

from cryptography.hazmat.primitives import serialization

from sim import core, gen, mutate, observer, pairs, pki, ref, status, steps
from sim.core import Violation
from sim.ep import EP

RULE = ('One run: one to three connections between parties of which some asked for a key log, interleaved, with writes, closes, '
        'tampering and failures; the key log lines are attributed to the call that emitted them and judged against the wire and the '
        'reference peer; the ordinary log, at its most verbose, and the errors are searched for anything secret.')
QUICK = 16000
THOROUGH = 400000
STUBS = ['network: in-memory record queues', 'in two thirds of the runs one end is the reference peer', 'log handlers: in memory']
PROBES = ['logged', 'not logged', 'one of two logged', 'several connections', 'retry', 'failed early', 'data logged', 'text searched',
          'errors searched', 'values compared with the reference', 'values compared with each other', 'status service fails']
LINE = re.compile(r'([A-Z0-9_]+) ([0-9a-f]{64}) ([0-9a-f]{64}|[0-9a-f]{96})')
HS = ('CLIENT_HANDSHAKE_TRAFFIC_SECRET', 'SERVER_HANDSHAKE_TRAFFIC_SECRET')
AP = ('CLIENT_TRAFFIC_SECRET_0', 'SERVER_TRAFFIC_SECRET_0', 'EXPORTER_SECRET')


class Logged(EP):
    """an end whose key log lines are told apart by the call in which they appear"""
    def __init__(self, *a, **kw):
        self.lines = []
        self.marks = []        # after each call: (bytes emitted, bytes of application data read, lines so far)
        self.told = []         # text of the errors
        super().__init__(*a, **kw)

    def _call(self, f, *a, **kw):
        n = len(self.run.keylog)
        try:
            return super()._call(f, *a, **kw)
        except Exception as exc:
            self.told.append(''.join(traceback.format_exception(exc, limit=0)))
            e = exc
            while e is not None:
                self.told.append(repr(e))
                e = e.__cause__ or e.__context__
            raise
        finally:
            self.lines += self.run.keylog[n:]

    def _collect(self):
        out = super()._collect()
        self.marks.append((self.out_total, len(self.rcvd), len(self.lines)))
        return out


def first_hello(data):
    """the client random of a stream of records"""
    hs = b''
    for rec in observer.RecordsLenient(data):
        if rec[0] == 22:
            hs += rec[5:]
    return hs[6:38] if len(hs) >= 38 and hs[0] == ref.CH else None


def got(x):
    return b''.join(arg for kind, arg, _ in x.calls if kind == 'deliver')


def parse(x):
    out = {}
    order = []
    for line in x.lines:
        m = LINE.fullmatch(line)
        if not m:
            raise Violation('format', f'{x.name}: {line[:60]!r} is no key log line')
        label, rand, secret = m.groups()
        if label not in HS + AP:
            raise Violation('format', f'{x.name}: unknown label {label}')
        if label in out:
            raise Violation('twice', f'{x.name} logs {label} twice')
        out[label] = bytes.fromhex(secret)
        order.append((label, rand))
    return out, order


def judge_end(run, x):
    """one end's key log against what it put on the wire"""
    if not x.config.log_keys:
        if x.lines:
            raise Violation('unasked', f'{x.name} did not ask for a key log and logs {x.lines[0].split(" ")[0]}')
        run.probe('not logged')
        return {}
    secrets, order = parse(x)
    side = x.config.side
    rand = first_hello(b''.join(x.outputs) if side == 'client' else got(x))
    for label, r in order:
        if rand is not None and r != rand.hex():
            raise Violation('client random', f'{x.name} labels {label} with {r}, the client random is {rand.hex()}')
    if secrets:
        run.probe('logged')
    if x.ever_connected and set(secrets) != set(HS + AP):
        raise Violation('incomplete', f'{x.name} is connected and logged {sorted(secrets)} only')
    # every record it emits, and every byte it gives to its application, can be decrypted with what it logged by then
    by = [[label for label, _ in order[:n]] for _, _, n in x.marks]
    wire = b''.join(x.outputs)
    suite = suite_of(wire if side == 'server' else got(x))
    at, call, prot, phase, buf = 0, 0, None, None, b''
    for t, head, body in observer.records(wire, x.name):
        at += 5 + len(body)
        while x.marks[call][0] < at:
            call += 1
        if t != ref.APP:
            continue
        if phase is None:
            phase, label = 'hs', HS[side == 'server']
        elif phase == 'fin':
            phase, label = 'ap', AP[side == 'server']
        if label not in by[call]:
            raise Violation('late', f'{x.name} emits a record protected under {label} before logging it')
        if prot is None:
            prot = ref.Prot(suite, secrets[label])
        try:
            it, data, _ = prot.open(head, body)
        except ref.PeerError:
            raise Violation('wrong', f'{x.name}: record at {at} cannot be decrypted with the logged {label}') from None
        if phase == 'hs' and it == ref.HS:
            buf += data
            while len(buf) >= 4 and len(buf) >= 4 + int.from_bytes(buf[1:4], 'big'):
                if buf[0] == ref.FIN:
                    phase, prot = 'fin', None
                buf = buf[4 + int.from_bytes(buf[1:4], 'big'):]
    for (_, n, _), labels in zip(x.marks, by):
        if n:
            run.probe('data logged')
            if AP[side == 'client'] not in labels:
                raise Violation('late', f'{x.name} delivers application data before logging {AP[side == "client"]}')
            break
    return secrets


def suite_of(data):
    hs = b''
    for rec in observer.RecordsLenient(data):
        if rec[0] == 22:
            hs += rec[5:]
    if len(hs) > 40 and hs[0] == ref.SH:
        try:
            return mutate.Hello(hs[:4 + int.from_bytes(hs[1:4], 'big')]).suites[0]
        except ref.PeerError:
            pass
    return None


# ---------------------------------------------------------------------------------------------
def forms(b):
    """what a secret looks like in a text"""
    head = bytes(b[:14])
    out = {repr(head)[2:-1], head.hex(), base64.b64encode(head[:12]).decode(), ', '.join(map(str, head)), ':'.join(f'{x:02x}' for x in head)}
    if head.isascii():
        out.add(head.decode())
    else:
        out.add(head.decode('latin-1'))
    return out | {head.hex().upper()}


def number(n):
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return forms(b) | {str(n)[:24], f'{n:x}'[:24]}


def private_needles(name):
    key = pki.key(name)
    raw = key.private_bytes(serialization.Encoding.DER, serialization.PrivateFormat.PKCS8, serialization.NoEncryption())
    pem = key.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption())
    out = {pem.split(b'\n')[2][:24].decode() or 'PRIVATE KEY-----', raw[-24:].hex(), base64.b64encode(raw[-24:]).decode(), 'PRIVATE KEY-----'}
    if hasattr(key, 'private_numbers'):
        nums = key.private_numbers()
        out |= number(getattr(nums, 'private_value', None) or nums.d)
    else:
        out |= forms(key.private_bytes_raw())
    return out


def search(run, conns, spec):
    text = '\n'.join(f'{n}: {t}' for n, t in run.opts['textlog'])
    if run.opts['textlog']:
        run.probe('text searched')
    told = [t for k in conns for x in (k.client, k.server) if isinstance(x, EP) for t in x.told]
    if told:
        run.probe('errors searched')
    hay = [('the ordinary log', text), ('an error', '\n'.join(told))]
    needles = {}
    for k in conns:
        for w in k.written:
            if len(w) >= 12:
                needles['application data'] = needles.get('application data', set()) | forms(w) | forms(w[-14:])
        peer = next((x for x in (k.client, k.server) if not isinstance(x, EP)), None)
        ks = getattr(peer, 'ks', None)
        known = dict(k.secrets)
        if getattr(peer, 'shared', None):
            known['shared'] = peer.shared
        for a in ('hs', 'ms', 'c_hs', 's_hs', 'c_ap', 's_ap', 'exp'):
            if hasattr(ks, a):
                known[a] = getattr(ks, a)
        for label, v in known.items():
            needles.setdefault('a session secret', set()).update(forms(v))
            if ks is not None and label in ('c_hs', 's_hs', 'c_ap', 's_ap'):
                p = ref.Prot(peer.suite, v)
                needles.setdefault('a session key', set()).update(forms(p.key) | forms(p.iv) | number(int.from_bytes(p.iv, 'big')))
                if label.endswith('_hs'):
                    needles['a session key'] |= forms(ref.hkdf_label(ks.hn, v, b'finished', b'', ks.n))
    for x in run.opts['ephemeral']:
        needles.setdefault('an ephemeral private key', set()).update(number(x) if isinstance(x, int) else forms(x))
    needles['the private key'] = private_needles(spec[1].key)
    for what, ns in needles.items():
        for where, h in hay:
            for n in ns:
                if n in h:
                    i = h.index(n)
                    raise Violation('leak', f'{what} appears in {where}: {h[max(0, i - 120):i + 60]!r}')


class Conn:
    pass


def text(run):
    """application bytes that cannot be there by chance"""
    n = run.ch.size('len', 1, 600)
    if run.ch.flip('ascii', .5):
        return ''.join(run.rand.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP') for _ in range(n)).encode()
    return run.rand.randbytes(n)


def failing(run):
    def reply(url, req):
        run.probe('status service fails')
        run.fault('status service fails')
        if run.ch.flip('raises', .5):
            raise OSError('no responder')
        return run.rand.randbytes(40)
    return status.Service(run, reply)


def make_end(run, mode, side, spec, conf, k, tag, sopts, copts, service):
    real = mode in ('rr', 'sr') if side == 'client' else mode in ('rr', 'cr')
    if real:
        return Logged(run, side + tag, conf, spec.host if side == 'client' else None, service)
    if side == 'client':
        return ref.RefClient(run, gen.ref_client_opts(spec, **copts), k.layout)
    return ref.RefServer(run, gen.ref_server_opts(spec, **sopts), k.layout)


def life(run):
    ch = run.ch
    run.opts['ephemeral'] = []
    core.set_textlog(run, ch.flip('verbose', .5))
    if run.opts['textlog'] is None:
        run.opts['textlog'] = []
        verbose = False
    else:
        verbose = True
    mode = ch.pick('mode', ['cr', 'sr', 'rr'])
    c, s, d = spec = pairs.compatible(run, simple=ch.flip('simple', .5), leafs=gen.LEAFS + ['leaf-ocsp'])
    sopts, copts = {}, {}
    if len(c.groups) > 1 and ch.flip('retry', .3):
        sopts['force_hrr'] = True
        copts['shares'] = []
    confs = {}
    for side, sp in (('client', c), ('server', s)):
        for on in (False, True):
            sp.log_keys = on
            confs[side, on] = gen.build(sp)
    conns = []
    for i in range(ch.pick('conns', [1, 2, 3], [4, 3, 1])):
        k = Conn()
        k.layout = ref.Layout(ch, wild=not ch.flip('tidy', .6))
        k.tampered = False
        k.written = []
        k.on = (ch.flip('client logs', .6), ch.flip('server logs', .6))
        service = failing(run) if ch.flip('service', .15) else None
        tag = str(i) if i else ''
        k.client = make_end(run, mode, 'client', c, confs['client', k.on[0]], k, tag, sopts, copts, None)
        k.server = make_end(run, mode, 'server', s, confs['server', k.on[1]], k, tag, sopts, copts, service)
        if isinstance(k.server, EP):
            k.server.start()
        k.line = steps.Line(run, k.client, k.server)
        k.client.start()
        k.line.collect()
        conns.append(k)
    if len(conns) > 1:
        run.probe('several connections')
    hostile = ch.flip('hostile', .5)
    for step in range(ch.int('steps', 4, 36)):
        k = ch.pick('conn', conns)
        line = k.line
        act = ch.pick('act', ['deliver', 'write', 'close', 'break', 'tamper', 'eof'], [9, 4, .4] + ([.4, .4, .1] if hostile else [0] * 3))
        i = ch.int('dir', 0, 1)
        run.step(act + 'ab'[i])
        x = line.ends[i]
        f = line.flows[i]
        if act == 'deliver':
            if f.queue:
                line.give(i, ch.int('n', 1, 4))
        elif act == 'tamper':
            if f.queue:
                r = bytearray(f.queue[0])
                r[ch.int('at', 0, len(r) - 1)] ^= 1 << ch.int('bit', 0, 7)
                f.queue[0] = bytes(r)
                k.tampered = True
                run.fault('tamper')
        elif act == 'write':
            data = text(run)
            if isinstance(x, EP):
                k.written.append(data)
                x.write(data)
            elif x.complete and not x.error:
                k.written.append(data)
                x.write(data)
        elif act == 'close':
            if isinstance(x, EP) or x.complete and not x.error and not getattr(x, 'closed', False):
                x.closed = True
                x.close_send()
                run.fault('close')
        elif isinstance(x, EP):
            if act == 'eof':
                x.close_recv()
            else:
                line.feed(x, ch.pick('junk', [b'\x17\3\3\0\x40' + run.rand.randbytes(64), run.rand.randbytes(40),
                                              b'\x16\3\3\0\4\x0e\0\0\0', b'\x17\3\3\xff\xff' + bytes(9), b'\x15\3\3\0\2\2\x28']))
            run.fault(act)
            k.tampered = True
        line.collect()
    for k in conns:
        for _ in range(20):
            if not any(f.queue for f in k.line.flows):
                break
            k.line.drain(1)
    seen = {}
    for n, k in enumerate(conns):
        k.secrets = {}
        both = []
        for x in (k.client, k.server):
            if not isinstance(x, EP):
                continue
            secrets = judge_end(run, x)
            if x.errors and not x.ever_connected:
                run.probe('failed early')
            both.append(secrets)
            k.secrets.update(secrets)
            for label, v in secrets.items():
                if seen.setdefault(v, (n, label)) != (n, label):
                    raise Violation('reused', f'{label} of connection {n} is {seen[v]}')
        peer = next((x for x in (k.client, k.server) if not isinstance(x, EP)), None)
        if peer is not None and peer.complete and not k.tampered:
            for label, v in peer.keylog.items():
                for secrets in both:
                    if secrets.get(label, v) != v:
                        raise Violation('wrong', f'connection {n}: the logged {label} is not the one of the reference peer')
                    if secrets:
                        run.probe('values compared with the reference')
        if len(both) == 2:
            if all(both) and not k.tampered:
                run.probe('values compared with each other')
                for label in both[0]:
                    if both[1].get(label, both[0][label]) != both[0][label]:
                        raise Violation('wrong', f'connection {n}: the two ends log a different {label}')
            elif any(both):
                run.probe('one of two logged')
        if getattr(peer, 'hrr', None):
            run.probe('retry')
        run.st(mode, k.on, getattr(k.client, 'connected', None), getattr(k.server, 'connected', None), k.tampered, d.suite)
    if not verbose:
        run.opts['textlog'] = []
    search(run, conns, spec)


SCENARIOS = [('life', 1, life)]
