"""C15: connections sharing a configuration or services never affect one another."""
import dataclasses

from checks import c12
from sim import core, fetch, fork, gen, mutate, pairs, pki, ref, status, threads
from sim.core import HarnessError, Violation
from sim.ep import CUTS, EP, cut

RULE = ('One run: two to six connections over shared configurations and a shared status service, driven in a seeded interleaving of '
        'calls, or by threads preempted at source lines; then some of them again, each alone in a pristine process.')
QUICK = 4500
THOROUGH = 120000
STUBS = ['network between ends: scripted', 'responders: simulated or scripted', 'threads: seeded scheduler', 'clock: simulated']
PROBES = ['shared client configuration', 'shared server configuration', 'default configuration', 'retry', 'failure beside others',
          'crossed wires', 'status shared', 'threads met', 'data', 'closed', 'several retries', 'fetcher shared', 'unknown extensions meet']


class Traced(EP):
    def __init__(self, run, name, config, host=None, *a, **kw):
        self.trace = []
        self.host = host
        super().__init__(run, name, config, host, *a, **kw)

    def _collect(self):
        o, d = super()._collect()
        self.trace.append((o, d, self.connected, bool(self.conn.is_post_handshake())))
        return o, d

    def deliver(self, data):
        out = super().deliver(data)
        if out[2] is not None:
            self.trace.append(('raises', type(out[2]).__name__, str(out[2].args)))
        return out

    def write(self, data):
        ok = super().write(data)
        if not ok:
            self.trace.append(('refused', type(self.refused[-1][1]).__name__, str(self.refused[-1][1].args)))
        return ok

    def _simple(self, kind, meth):
        exc = super()._simple(kind, meth)
        if exc is not None:
            self.trace.append((kind, type(exc).__name__, str(exc.args)))
        return exc

    def summary(self):
        nc = self.conn.nconfig
        if nc is None:
            return None
        out = gen.summary(nc)
        for k in ('can_send_heartbeat', 'can_echo_heartbeat', 'client_certificate_type', 'peer_want_ocsp_stapling'):
            out[k] = repr(getattr(nc, k, None))
        cert = nc.peer_certificate
        out['peer'] = cert.fingerprint(cert.signature_hash_algorithm or pki.hashes.SHA256()).hex() if cert is not None else None
        key = nc.peer_public_key
        out['key'] = key.public_bytes(pki.serialization.Encoding.DER, pki.serialization.PublicFormat.SubjectPublicKeyInfo).hex() \
            if key is not None else None
        return out


def build(spec, defaults):
    if not defaults:
        return gen.build(spec)
    from siotls import TLSConfiguration
    if spec.side == 'client':
        return TLSConfiguration('client', trust_store=pki.STORES[spec.store] if spec.store else None)
    kw = {}
    if spec.chain:
        kw['certificate_chain'] = list(pki.CHAINS[spec.chain])
    if spec.rpk or not spec.chain:
        kw['public_key'] = pki.key(spec.key).public_key()
    return TLSConfiguration('server', private_key=pki.private(spec.key), **kw)


def answers_for(run, names):
    """what the responders say, once and for all: request serial -> bytes or None"""
    ch = run.ch
    table = {}
    for name in names:
        chain = pki.CHAINS[name]
        for cert, issuer, ikey in c12.verified(chain):
            if c12.url_of(cert) and cert.serial_number not in table:
                kind = ch.pick('answer', ['good', 'revoked', 'expired', 'none'], [6, 1, 1, 1])
                table[cert.serial_number] = None if kind == 'none' else \
                    status.make(run, kind, cert, issuer, ikey, c12.leaf_key(chain))[0]
    return table


def table_service(run, table):
    kept = {}

    def reply(url, req):
        if req in kept:
            return kept[req]
        got = table[c12.serial(req)]
        if got is None:
            raise OSError('no responder')
        return got
    s = status.Service(run, reply)
    s.cache = lambda until, req, res: kept.__setitem__(bytes(req), bytes(res))
    s.uncache = lambda req: kept.pop(bytes(req), None)
    return s


def web_for(run, sched, table):
    def answer(req):
        got = table[c12.serial(req['body'])]
        return fetch.Answer(fetch.http(b'gone', '410 Gone') if got is None else fetch.http(got))
    return fetch.Web(run, sched, answer)


SNAP = [f for f in ('cipher_suites', 'key_exchanges', 'signature_algorithms', 'trusted_public_keys', 'certificate_chain', 'alpn',
                    'server_hostnames')]


def snapshot(config):
    """the fields of a configuration, lists by content and everything else by identity"""
    out = {}
    for f in dataclasses.fields(config):
        v = getattr(config, f.name)
        out[f.name] = [id(x) if not isinstance(x, (int, str)) else x for x in v] if isinstance(v, (list, tuple)) else \
            v if isinstance(v, (int, str, bool, type(None))) else id(v)
    return out


def twin(run, c, s):
    """a client that wants other things, for the same server"""
    ch = run.ch
    c, s = (dataclasses.replace(x, **{k: list(v) for k, v in vars(x).items() if isinstance(v, list)}) for x in (c, s))
    for what in ch.subset('twin', ['store', 'alpn', 'mfl', 'groups', 'suites', 'heartbeat', 'host'], .4):
        if what == 'store':
            c.store = None if c.store else 'all'
        elif what == 'alpn':
            c.alpn = list(s.alpn) if not c.alpn else []
        elif what == 'mfl':
            c.mfl = 512 if c.mfl == 16384 else 16384
        elif what == 'groups':
            c.groups = c.groups[1:] + c.groups[:1]
        elif what == 'suites':
            c.suites = c.suites[1:] + c.suites[:1]
        elif what == 'heartbeat':
            c.heartbeat = not c.heartbeat
        else:
            c.host = None if c.host else pki.HOST
    return c, s


HOSTS = [pki.HOST, 'other.sim', pki.IP, 'x.wild.sim', None]


def setting(run, calm):
    ch = run.ch
    specs = []
    for i in range(2 if calm else ch.int('deals', 1, 2)):
        if i and (calm or ch.flip('twin', .6)):
            specs.append(twin(run, *specs[0]))
            continue
        c, s, _d = pairs.compatible(run, ff=ch.flip('ff', .1), leafs=gen.LEAFS + ['leaf-ocsp', 'leaf-ocsp'],
                                    auth=ch.pick('auth', ['store', 'none', 'rpk', 'both'], [5, 3, 1, 1]))
        if calm and s.rpk and ch.flip('plain', .7):
            s = dataclasses.replace(s, rpk=False, chain='leaf-ocsp', key=pki.KEYOF['leaf-ocsp'])
        if c.store:
            c.store = 'all'
        specs.append((c, s))
    for c, s in specs:
        if s.chain:
            s.chain = ch.pick('chain', ['leaf-ocsp', 'leaf-ocsp-3', s.chain]) if s.key.startswith('ec256') and not s.rpk else s.chain
            s.key = pki.KEYOF[s.chain] if s.chain in pki.KEYOF else c12.leaf_key(pki.CHAINS[s.chain]) if not s.rpk else s.key
    defaults = ch.flip('defaults', .25)
    if defaults:
        run.probe('default configuration')
    return specs, defaults


def play(run, threaded, calm=False):
    """the connections together -> one record per end"""
    ch = run.ch
    specs, defaults = setting(run, calm)
    configs = [(build(c, defaults), build(s, defaults)) for c, s in specs]
    before = [(snapshot(a), snapshot(b)) for a, b in configs]
    table = answers_for(run, sorted({s.chain for c, s in specs if s.chain}))
    how = ch.pick('service', [None, 'table', 'http'], [.5 if calm else 2, 3 if calm else 2, 3 if threaded else .5])
    sched = threads.Sched(run, prefer=ch.pick('prefer', [0.0, .7])) if threaded or how == 'http' else None
    mod = web = None
    service = None
    if how == 'table':
        service = table_service(run, table)
        run.probe('status shared')
    elif how == 'http':
        service = mod = fetch.load(lambda: sched)
        web = web_for(run, sched, table)
        run.probe('fetcher shared')
    n = ch.pick('pairs', [2, 3, 4], [3, 3, 1])
    # (a number nobody heard of in this process either, most likely)
    dressed = ch.int('unknown', 0x1000, 0xfeff) if ch.flip('dressed', .3 if threaded else .04) else None
    if dressed == 17513:
        dressed = None
    lines = []
    for i in range(n):
        ci, si = ch.int('client config', 0, len(specs) - 1), ch.int('server config', 0, len(specs) - 1) if ch.flip('mixed', .4) else None
        si = ci if si is None else si
        host = specs[ci][0].host if ch.flip('own name', .8) else ch.pick('host', HOSTS)
        client = Traced(run, f'client{i}', configs[ci][0], host, service if ch.flip('asks', .6) else None)
        server = Traced(run, f'server{i}', configs[si][1], None, service)
        lines.append(dict(ends=(client, server), idx=(ci, si), pipes=[bytearray(), bytearray()], hostile=not calm and ch.flip('hostile', .4), started=False))
        run.real['connections'] += 2
    if len({line['idx'][0] for line in lines}) < n:
        run.probe('shared client configuration')
    if len({line['idx'][1] for line in lines}) < n:
        run.probe('shared server configuration')

    def move(line):
        for d in (0, 1):
            line['pipes'][d] += line['ends'][d].take()

    def act(line):
        if not line['started']:
            line['started'] = True
            line['ends'][1].start()
            line['ends'][0].start()
            move(line)
            if dressed is not None and len(line['pipes'][0]) == 5 + int.from_bytes(line['pipes'][0][3:5], 'big'):
                # an unknown extension on the way: the handshake will fail, further on
                h = mutate.Hello(bytes(line['pipes'][0][5:]))
                h.exts.insert(len(h.exts) // 2, (dressed, b'unheard of'))
                raw = h.raw()
                line['pipes'][0][:] = b'\x16\3\3' + len(raw).to_bytes(2, 'big') + raw
                run.fault('unknown extension')
            return True
        kinds = ['deliver', 'write', 'close', 'inject', 'tamper', 'cross', 'drop']
        kind = ch.pick('act', kinds, [12, 2, .4] + ([.3, .5, .5, .2] if line['hostile'] else [0] * 4))
        d = ch.int('side', 0, 1)
        x = line['ends'][d]
        pipe = line['pipes'][1 - d]
        run.step(kind)
        if kind == 'deliver':
            if not pipe:
                d = 1 - d
                x, pipe = line['ends'][d], line['pipes'][1 - d]
            if not pipe:
                return False
            k = len(pipe) if ch.flip('all', .6) else ch.size('some', 1, len(pipe))
            data = bytes(pipe[:k])
            del pipe[:k]
            x.deliver(data)
        elif kind == 'write':
            if x.write(pairs.data(run, hi=2500)):
                run.probe('data')
        elif kind == 'close':
            run.probe('closed')
            (x.close_send if ch.flip('send', .7) else x.close_recv)()
        elif kind == 'inject':
            run.fault('inject')
            x.deliver(ch.pick('junk', [b'\x16\x03\x03\x00\x04\x00\x00\x00\x00', b'\x15\x03\x03\x00\x02\x02\x28', b'\xff' * 9]))
        elif kind == 'tamper':
            if not pipe:
                return False
            run.fault('tamper')
            pipe[ch.int('at', 0, len(pipe) - 1)] ^= 1 << ch.int('bit', 0, 7)
        elif kind == 'cross':
            other = ch.pick('other', lines)
            if not other['pipes'][1 - d]:
                return False
            run.fault('crossed wires')
            run.probe('crossed wires')
            x.deliver(bytes(other['pipes'][1 - d]))
        elif kind == 'drop':
            run.fault('drop')
            del pipe[:]
        move(line)
        return True

    def meet(line):
        if line['pipes'][0]:
            data = bytes(line['pipes'][0])
            line['pipes'][0].clear()
            line['ends'][1].deliver(data)
            move(line)

    def drive(mine, steps):
        idle = 0
        if threaded and dressed is not None:
            meet(mine[0])
        for _ in range(steps):
            line = mine[0] if len(mine) == 1 else ch.pick('line', mine)
            idle = 0 if act(line) else idle + 1
            if idle > 6:
                break
        for line in mine:
            for _ in range(40):
                for d in (0, 1):
                    if line['pipes'][1 - d]:
                        data = bytes(line['pipes'][1 - d])
                        line['pipes'][1 - d].clear()
                        line['ends'][d].deliver(data)
                move(line)
                if not any(line['pipes']):
                    break

    if threaded and dressed is not None:
        for line in lines:
            act(line)
    if threaded:
        workers = [sched.spawn(f'p{i}', lambda line=line: drive([line], ch.int('steps', 6, 16))) for i, line in enumerate(lines)]
        inside = fork_dir()
        sched.trace_files(lambda f: f.startswith(inside), ch.pick('p', [.02, .1, .3]), 1200 if dressed is None else 4000)
        run.probe('threads met')
        if dressed is not None:
            run.probe('unknown extensions meet')
    elif sched:
        workers = [sched.spawn('main', lambda: drive(lines, ch.int('steps', 10 * n, 22 * n)))]
    else:
        drive(lines, ch.int('steps', 10 * n, 22 * n))
    if sched:
        if web:
            with web:
                ok = sched.go()
        else:
            ok = sched.go()
        for t in sched.tasks:
            if t.exc is not None and not t.daemon:
                raise HarnessError(f'{t.name} died: {t.exc!r}') from t.exc
        if not ok:
            raise Violation('blocked', str(sched.deadlocked))
    for i, (a, b) in enumerate(configs):
        for x, y, side in ((before[i][0], snapshot(a), 'client'), (before[i][1], snapshot(b), 'server')):
            if x != y:
                k = [k for k in x if x[k] != y.get(k)]
                raise Violation('configuration changed', f'{side}: {k}: {[x[j] for j in k]} became {[y.get(j) for j in k]}')
    out = []
    retries = 0
    for line in lines:
        ends = line['ends']
        if any(e.errors for e in ends):
            run.probe('failure beside others')
        if any(b'\xcf\x21\xad\x74\xe5\x9a\x61\x11' in o for o in ends[1].outputs[:3]):
            retries += 1
        for d, e in enumerate(ends):
            spec = specs[line['idx'][d]][d]
            run.st(e.side, e.connected, bool(e.errors), how, threaded)
            out.append(dict(spec=spec, defaults=defaults, host=e.host if d == 0 else None, rseed=e.rseed, name=e.name,
                            service=how if e.conn.ocsp_service is not None else None, table=table, calls=e.calls, trace=e.trace,
                            summary=e.summary()))
    if retries:
        run.probe('retry')
    if retries > 1:
        run.probe('several retries')
    return out


def fork_dir():
    import os
    return os.path.join(core.REPO, 'src') + os.sep


def alone(run, rec):
    """the same calls on a connection of its own, with a configuration and a service of its own"""
    run = fork.fresh(run, 'alone')
    config = build(rec['spec'], rec['defaults'])
    box = {}

    def go(service):
        x = Traced(run, rec['name'], config, rec['host'], service, rseed=rec['rseed'])
        box['x'] = x
        for kind, arg, now in rec['calls']:
            run.now = now
            if kind == 'start':
                x.start()
            elif kind == 'deliver':
                x.deliver(arg)
            elif kind == 'write':
                x.write(arg)
            else:
                getattr(x, kind)()
    if rec['service'] == 'http':
        sched = threads.Sched(run)
        mod = fetch.load(lambda: sched)
        sched.spawn('main', lambda: go(mod))
        with web_for(run, sched, rec['table']):
            sched.go()
        if sched.tasks[0].exc is not None:
            raise sched.tasks[0].exc
    else:
        go(table_service(run, rec['table']) if rec['service'] else None)
    return dict(trace=box['x'].trace, summary=box['x'].summary())


def compare(run, recs):
    ch = run.ch
    order = ch.shuffle('order', list(range(len(recs))))[:ch.pick('compared', [2, 3, 8], [3, 3, 1])]
    for i in order:
        rec = recs[i]
        got = fork.isolated(run, lambda r: alone(r, rec), absorb=False)
        if got['trace'] != rec['trace']:
            j = next((j for j, (a, b) in enumerate(zip(got['trace'], rec['trace'])) if a != b), min(len(got['trace']), len(rec['trace'])))

            def show(t):
                return repr([x[:24] if isinstance(x, bytes) else x for x in t[j]]) if j < len(t) else 'nothing'
            raise Violation('differs', f'{rec["name"]} ({rec["spec"]}): step {j} of {len(rec["trace"])}, among others {show(rec["trace"])}, '
                            f'alone {show(got["trace"])}')
        if got['summary'] != rec['summary']:
            raise Violation('differs', f'{rec["name"]}: among others {rec["summary"]}, alone {got["summary"]}')


def interleaved(run):
    fetch.warm()
    compare(run, fork.isolated(run, lambda r: play(r, False)))


def calm(run):
    """nobody misbehaves: clients that want different things of one server"""
    fetch.warm()
    compare(run, fork.isolated(run, lambda r: play(r, False, True)))


def threaded(run):
    fetch.warm()
    compare(run, fork.isolated(run, lambda r: play(r, True)))


SCENARIOS = [('interleaved', 3, interleaved), ('calm', 2, calm), ('threads', 2, threaded)]
