"""C14: a server keeps serving when its certificate status responder misbehaves."""
import http.client

from cryptography.x509 import ocsp as xocsp

from checks import c12, c13
from sim import core, fetch, gen, pairs, pki, ref, status, threads
from sim.core import HarnessError, Violation
from sim.ep import CUTS, settle

RULE = ('One run: one or several stapling servers, one after the other or each in its thread, over the real fetcher and simulated '
        'responders failing in seeded ways, or over a scripted service that raises or answers anything.')
QUICK = 12000
THOROUGH = 300000
STUBS = ['responders and network: simulated', 'client: reference peer, or a real one', 'clock: simulated', 'threads: seeded scheduler']
PROBES = ['stapled', 'stapled nothing', 'stapled from cache', 'odd responder', 'service raised', 'threads met', 'large answer',
          'raw public key', 'fetch failed then stapled', 'service answered oddly']

CHAINS = ['leaf-ocsp', 'leaf-ocsp-3', 'leaf-ocsp-both-3', 'leaf-ocspdirect-root', 'leaf-ocsp-R', 'leaf-ocsp-5', 'leaf-ocsp-B', 'leaf-ocsp-two', 'leaf-ocsp-both',
          'leaf-ec256', 'leaf-ocsp-only-int', 'leaf-ocspdirect', 'leaf-rsa']


def client_for(run, ch):
    c = gen.Spec('client', list(gen.SUITES), [ref.X25519, ref.P256], list(gen.SIGS), [], store='all', host=pki.HOST)
    if ch.flip('mfl', .3):
        c.mfl = ch.pick('mflv', gen.MFLS[1:])
    return c


def server_for(run, ch, name):
    return gen.Spec('server', list(gen.SUITES), [ref.X25519, ref.P256], list(gen.SIGS), [], chain=name, key=c12.leaf_key(pki.CHAINS[name]))


def genuine(run, link, lkey, big, kinds=status.GOOD):
    """a good answer; when `big`, with hundreds of other certificates in front of nothing of interest"""
    cert, issuer, ikey = link
    if not big:
        return status.make(run, run.ch.pick('kind', kinds), cert, issuer, ikey, lkey)
    now = run.now
    this, nxt = status.ts(now - 60), status.ts(now + 86400)
    data = pki.status_response(cert, issuer, ikey, this=this, nxt=nxt)
    pad = pki.der.tlv(0xa1, pki.der.seq(pki.der.seq(pki.der.oid('1.3.6.1.4.1.99999.1'), pki.der.octets(bytes(big)))))
    data = pki.status_response(cert, issuer, ikey, this=this, nxt=nxt,
                               tbs_sign=lambda tbs: pki.der.seq(*pki.der.children(tbs), pad))
    return data, int(now + 86400)


def connect(run, mode, name, c, s, service, asks, tag):
    copts = dict(status=asks) if mode == 'cr' else None
    client, server = pairs.make(run, mode, c, s, copts=copts, socsp=service, tag=tag)
    client.start()
    settle(run, client, server, (run.ch.pick('style', CUTS[:2]), 'whole'))
    return client, server


def served(run, client, server, what):
    if not (client.connected and server.connected):
        raise Violation('not served', f'{what}: client {pairs.why(client)}, server {pairs.why(server)}')
    data = run.rand.randbytes(run.ch.size('data', 1, 2000))
    client.write(data)
    settle(run, client, server)
    if bytes(server.app) != data:
        raise Violation('not served', f'{what}: {len(server.app)} of {len(data)} bytes arrived')
    server.write(data[::-1])
    settle(run, client, server)
    if bytes(client.app) != data[::-1]:
        raise Violation('not served', f'{what}: {len(client.app)} of {len(data)} bytes came back')


def names_responder(chain):
    return c12.url_of(chain[0]) is not None


class Responder:
    """what the responders do during a run"""
    def __init__(self, run):
        self.run = run
        self.mod = None
        self.log = []          # (request, kind, what a fetch may give, whether genuine and good, until)
        self.routes = []

    def route(self, host, port):
        return self.run.ch.pick('route', ['ok', 'refused', 'unknown host', 'unreachable', 'timeout'], [12, 1, 1, 1, 1])

    def find(self, body):
        for name in CHAINS:
            chain = pki.CHAINS[name]
            for link in c12.verified(chain):
                if xocsp.load_der_ocsp_request(bytes(body)).serial_number == link[0].serial_number:
                    return link, c12.leaf_key(chain)
        raise Violation('request', 'the responder is asked about a certificate nobody presented')

    def answer(self, req):
        run, ch = self.run, self.run.ch
        link, lkey = self.find(req['body'])
        how = ch.pick('how', ['good', 'bad status', 'bad transport', 'big'], [4, 3, 4, 1])
        if how in ('good', 'big'):
            big = ch.pick('big', [3000, 16000, 19000]) if how == 'big' else 0
            data, until = genuine(run, link, lkey, big)
            if big:
                run.probe('large answer')
            self.log.append((req['body'], how, data, True, until))
            run.fault('answer ' + how)
            return fetch.Answer(fetch.http(data, length=ch.flip('len', .7)), delay=ch.pick('delay', [0, .5]))
        if how == 'bad status':
            kind = ch.pick('kind', status.BAD)
            data, until = c12.build(run, kind, link, lkey)
            self.log.append((req['body'], kind, data, False, until))
            run.fault('answer ' + kind)
            return fetch.Answer(fetch.http(data))
        good, until = genuine(run, link, lkey, 0, ['good', 'good-fresh', 'no-end', 'long'])
        kinds, body = [], []
        a, allowed = c13.make_answer(run, self.mod, ch, kinds, good)
        self.log.append((req['body'], kinds[-1], good if allowed is ... or allowed == good else None, None if allowed is ... else allowed == good, until))
        return a


def over_http(run):
    ch = run.ch
    threaded = ch.flip('threads', .35)
    sched = threads.Sched(run, prefer=ch.pick('prefer', [0.0, .6]) if threaded else 0.0)
    mod = fetch.load(lambda: sched)
    run.real['ocsp_over_http'] += 1
    resp = Responder(run)
    resp.mod = mod
    routes = []

    def route(host, port):
        r = resp.route(host, port)
        routes.append(r)
        if r != 'ok':
            run.fault('route ' + r)
        return r
    web = fetch.Web(run, sched, resp.answer, route)
    kept = {}     # request -> answers that may be in the cache: (until, bytes)

    def one(tag):
        name = ch.pick('chain', CHAINS + pki.ODD, [4] * len(CHAINS) + [.6] * len(pki.ODD))
        chain = pki.CHAINS[name]
        c, s = client_for(run, ch), server_for(run, ch, name)
        mode = ch.pick('mode', ['cr', 'rr'], [3, 1])
        asks = mode == 'rr' or ch.flip('asks', .9)
        if mode == 'rr' and ch.flip('rpk', .15):
            s.rpk = True
            c.trusted = [s.key]
            c.store = None
            run.probe('raw public key')
        mark, rmark, amark = len(resp.log), len(routes), len(web.attempts)
        t0 = run.now
        client, server = connect(run, mode, name, c, s, mod, asks, tag)
        took = run.now - t0
        mine = resp.log[mark:] if not threaded else [x for x in resp.log if chain[0].serial_number == c12.serial(x[0])]
        what = (f'{name} {mode} asks={asks}: routes {routes[rmark:]}, answers {[x[1] for x in mine]}')
        run.st(name, mode, asks, tuple(x[1] for x in mine[-1:]), tuple(routes[rmark:][:1]))
        served(run, client, server, what)
        slow = any(x[1] in ('ok-slow', 'short-late') for x in resp.log[mark:])
        if took > 10 and not slow and not threaded:
            raise Violation('slow', f'{took} s: {what}')
        staple = getattr(client, 'staple', None) if mode == 'cr' else None
        want = asks and names_responder(chain) and len(chain) > 1 and name not in pki.ODD
        if name in pki.ODD:
            run.probe('odd responder')
        if len(web.attempts) - amark > 1 and not threaded:
            raise Violation('asked twice', f'{web.attempts[amark:]}: {what}')
        if mode != 'cr':
            return
        if not want:
            if staple is not None:
                raise Violation('stapled', what)
            return
        now = run.now
        genuine_ = [x for x in (resp.log if not threaded else mine) if x[2] is not None and x[2] == staple]
        if staple is not None:
            if not genuine_ or not any(x[3] is not False and c12.serial(x[0]) == chain[0].serial_number for x in genuine_):
                raise Violation('stapled', f'{len(staple)} bytes that no responder gave for it, or that are not acceptable; {what}')
            run.probe('stapled')
            if mark and resp.log[mark - 1][3] is False:
                run.probe('fetch failed then stapled')
            if len(web.attempts) == amark:
                run.probe('stapled from cache')
            return
        run.probe('stapled nothing')
        if threaded:
            return
        # nothing stapled: there must be a reason
        fresh = resp.log[mark:]
        if any(x[3] for x in fresh):
            raise Violation('not stapled', what)
        if len(web.attempts) == amark:
            raise Violation('not asked', what)

    def many(tag):
        n = ch.int('connections', 1, 4)
        for i in range(n):
            run.step('connection')
            one(f'{tag}{i}')
            if ch.flip('jump', .2):
                run.now += ch.pick('by', [.5, 3.5, 90.5, 86400 * 2])

    if threaded:
        workers = [sched.spawn(f't{t}', lambda t=t: one(f't{t}')) for t in range(ch.int('servers', 2, 4))]
        sched.trace_files(lambda f: f == mod.__file__, .3, 300)
        run.probe('threads met')
    else:
        workers = [sched.spawn('main', lambda: many('m'))]
    with web:
        ok = sched.go()
    for t in sched.tasks:
        if t.exc is not None and not t.daemon:
            raise HarnessError(f'{t.name} died: {t.exc!r}') from t.exc
    if not ok:
        raise Violation('blocked', str(sched.deadlocked))
    if web.problem:
        raise Violation('request', web.problem)


class Odd(Exception):
    pass


def scripted(run):
    """a service of the application's own making"""
    ch = run.ch
    name = ch.pick('chain', CHAINS)
    chain = pki.CHAINS[name]
    links = c12.verified(chain)
    lkey = c12.leaf_key(chain)
    c, s = client_for(run, ch), server_for(run, ch, name)
    raises = kind = None
    if ch.flip('raises', .5):
        raises = ch.pick('exc', [OSError('x'), TimeoutError(), ConnectionResetError('x'), ValueError('x'), RuntimeError('x'), KeyError('x'),
                                 http.client.IncompleteRead(b'x'), http.client.BadStatusLine('x'), Odd('%s %d'), EOFError(),
                                 UnicodeDecodeError('utf-8', b'x', 0, 1, 'bad'), AttributeError('x'), TypeError('x'), NotImplementedError(),
                                 LookupError(), StopIteration(), RecursionError('x'), MemoryError()])
    else:
        kind = ch.pick('kind', status.GOOD + status.BAD + ['none', 'text', 'array'])
    given = []

    def reply(url, req):
        if raises is not None:
            raise raises
        if kind in ('none', 'text', 'array'):
            given.append(None)
            run.probe('service answered oddly')
            return {'none': None, 'text': 'not bytes', 'array': bytearray(b'0')}[kind]
        given.append(c12.build(run, kind, c12.asked_for(req, links), lkey)[0])
        return given[-1]
    service = status.Service(run, reply)
    run.fault('service ' + (type(raises).__name__ if raises is not None else kind))
    if raises is not None:
        run.probe('service raised')
    client, server = connect(run, 'cr', name, c, s, service, True, '')
    what = f'{name}: service {"raises " + repr(raises) if raises is not None else "gives " + kind}'
    run.st(name, type(raises).__name__, kind)
    served(run, client, server, what)
    want = names_responder(chain) and len(chain) > 1 and raises is None and kind in status.GOOD
    if want and client.staple != given[-1]:
        raise Violation('not stapled', what)
    if not want and client.staple is not None:
        raise Violation('stapled', what)
    run.probe('stapled' if want else 'stapled nothing')


SCENARIOS = [('over http', 5, over_http), ('scripted service', 2, scripted)]
