"""C12: a certificate status is believed only if genuine, matching, good and current."""
from cryptography.x509 import ocsp as xocsp

from sim import core, fetch, gen, pairs, pki, ref, status, threads
from sim.core import HarnessError, Violation
from sim.ep import CUTS, EP, settle

RULE = ('One run: either one connection of a client or stapling server that is handed or fetches one status answer of a seeded '
        'quality, or a history of connections over the real fetcher and cache with evolving responders and a jumping clock.')
QUICK = 16000
THOROUGH = 450000
STUBS = ['other end: reference peer', 'responders: simulated HTTP servers (histories) or a scripted service', 'clock: simulated',
         'threads: seeded scheduler']
PROBES = ['client staple accepted', 'client staple rejected', 'client fetch accepted', 'client fetch rejected', 'server stapled',
          'server stapled nothing', 'both entries', 'cached answer used', 'cached answer expired', 'responder changed its mind',
          'fetch failed', 'clock jump', 'no end', 'intermediate fetched', 'strangers in the list']

CHAINS = ['leaf-ocsp', 'leaf-ocsp-3', 'leaf-ocsp-both-3', 'leaf-ocspdirect', 'leaf-ocspdirect-root', 'leaf-ocsp-R', 'leaf-ocsp-5',
          'leaf-ocsp-B', 'leaf-ocsp-two',
          'leaf-ocsp-both', 'leaf-ocsp-only-int', 'leaf-ec256', 'leaf-rsa', 'leaf-ocsp-alone']


def names_of(chain):
    return [next(n for n, c in pki.C.items() if c == x) for x in chain]


def verified(chain):
    """the chain a client verifies, root included: [(certificate, issuer, issuer key name)]"""
    out = []
    certs = list(chain)
    while True:
        last = certs[-1]
        parent = next(c for n, c in pki.C.items() if c.subject == last.issuer and n in ('rootA', 'rootB', 'rootR', 'root5', 'intA', 'intB',
                                                                                        'intO', 'intU'))
        if parent == last:
            break
        certs.append(parent)
    for a, b in zip(certs, certs[1:]):
        out.append((a, b, pki.KEYOF[next(n for n, c in pki.C.items() if c == b)]))
    return out


def url_of(cert):
    try:
        aia = cert.extensions.get_extension_for_class(core_aia).value
    except Exception:
        return None
    return next((d.access_location.value for d in aia if d.access_method.dotted_string == '1.3.6.1.5.5.7.48.1'), None)


from cryptography.x509 import AuthorityInformationAccess as core_aia  # noqa: E402


def asked_for(req, links):
    """which link of the chain a request asks about"""
    try:
        r = xocsp.load_der_ocsp_request(bytes(req))
    except ValueError as exc:
        raise Violation('request', f'the service is asked with garbage: {exc}') from None
    import hashlib
    for cert, issuer, key in links:
        if r.serial_number == cert.serial_number:
            h = {'sha1': hashlib.sha1, 'sha256': hashlib.sha256}.get(r.hash_algorithm.name)
            if h is None or r.issuer_name_hash == h(issuer.subject.public_bytes()).digest():
                return cert, issuer, key
    raise Violation('request', f'the service is asked about serial {r.serial_number}, which no certificate of the chain has')


def spec_client(run):
    c = gen.Spec('client', list(gen.SUITES), [ref.X25519, ref.P256], list(gen.SIGS), [], store='all', host=pki.HOST)
    return c


def leaf_key(chain):
    return pki.KEYOF[names_of(chain)[0]]


def build(run, kind, link, lkey):
    cert, issuer, ikey = link
    return status.make(run, kind, cert, issuer, ikey, lkey)


def judge_client(run):
    ch = run.ch
    name = ch.pick('chain', CHAINS)
    if name == 'leaf-ocsp-alone':
        name = 'leaf-ocspdirect'
    chain = pki.CHAINS[name]
    links = verified(chain)
    lkey = leaf_key(chain)
    c = spec_client(run)
    if ch.flip('clock', .3):
        run.now += ch.pick('jump', [1000, 86400 * 20, -86400 * 30])
    # what each link of the chain gets
    kinds = {}
    for i, link in enumerate(links):
        kinds[i] = ch.pick('kind', status.GOOD + status.BAD) if ch.flip('twist', .7 if i == 0 else .3) else 'good'
    staples = {}
    for i in range(len(links)):
        if i < len(chain) and ch.flip('stapled', .55 if i == 0 else .3):
            staples[i] = build(run, kinds[i], links[i], lkey)[0]
    if len(staples) > 1:
        run.probe('both entries')
    service = None
    raises = None
    if ch.flip('service', .6):
        raises = ch.pick('raises', [None, OSError('unreachable'), TimeoutError('slow'), ValueError('bad'), RuntimeError('no')], [7, 1, 1, 1, 1])

        def reply(url, req):
            link = asked_for(req, links)
            if url != url_of(link[0]):
                raise Violation('location', f'asks {url} instead of {url_of(link[0])}')
            if raises:
                raise raises
            return build(run, kinds[links.index(link)], link, lkey)[0]
        service = status.Service(run, reply)
    good = True
    used = []
    for i, link in enumerate(links):
        if i in staples:
            used.append(('staple', i))
            good = good and kinds[i] in status.GOOD
        elif service is not None and url_of(link[0]):
            used.append(('fetch', i))
            good = good and kinds[i] in status.GOOD and raises is None
            if i:
                run.probe('intermediate fetched')
    if not used:
        kinds = {}
    for how, i in used:
        run.fault(f'{how} {kinds[i]}')
        if kinds[i] == 'no-end':
            run.probe('no end')
    sent = [(x, staples.get(i)) for i, x in enumerate(chain)]
    strangers = []
    if ch.flip('strangers', .25):
        # certificates that have no part in the chain, with statuses of their own
        twins = [t for t in ('twin-' + n for n in names_of(chain)) if t in pki.C]
        for _ in range(ch.int('strangers', 1, 2)):
            t = ch.pick('stranger', twins + ['evilA', 'notca'])
            k = ch.pick('stranger kind', ['none', 'same good', 'same bad', 'own'])
            i = ch.int('of', 0, len(links) - 1)
            st = None
            if k != 'none':
                st = build(run, {'same good': 'good', 'same bad': 'revoked', 'own': 'sibling-signed'}[k], links[i], lkey)[0]
            strangers.append((t, k, i))
            run.fault('stranger')
            run.probe('strangers in the list')
            sent.insert(ch.int('where', 1, len(sent)), (pki.C[t], st))
    o = dict(suites=c.suites, groups=c.groups, chain=[x for x, _ in sent], key=lkey,
             entry_exts={i: ref.ext(5, b'\1' + ref.vec(3, s)) for i, (_, s) in enumerate(sent) if s is not None})
    client = EP(run, 'client', gen.build(c), c.host, service)
    server = ref.RefServer(run, o)
    client.start()
    settle(run, client, server, (ch.pick('style', CUTS[:3]), ch.pick('style', CUTS[:3])))
    what = (f'{name}: {[(h, i, kinds[i]) for h, i in used]}, service {"raises" if raises else bool(service)}, strangers {strangers}, connected={client.connected}, '
            f'errors {[repr(e) + "/" + repr(e.__cause__) for e in client.errors]}, {server.error}')
    run.st('client', name, tuple((h, i, kinds[i]) for h, i in used), bool(raises))
    if good:
        if not client.connected:
            raise Violation('refused', what)
        for how, i in used:
            run.probe(f'client {how} accepted')
    else:
        if client.ever_connected or not client.errors:
            raise Violation('believed', what)
        for how, i in used:
            run.probe(f'client {how} rejected')
    if service is not None:
        asked = [asked_for(r, links)[0] for _, r in service.asked]
        if len(asked) > len(set(c.serial_number for c in asked)):
            raise Violation('asked twice', what)
        expect = [links[i][0] for h, i in used if h == 'fetch']
        if any(a not in expect for a in asked):
            raise Violation('asked in vain', what)
        for req, (until, res) in service.cached.items():
            i = links.index(asked_for(req, links))
            if kinds[i] not in status.GOOD:
                raise Violation('kept', f'a {kinds[i]} answer was given to the cache; {what}')
            real = xocsp.load_der_ocsp_response(res)
            if real.next_update is None or until > real.next_update:
                raise Violation('kept too long', f'{until} vs {real.next_update}; {what}')


def judge_server(run):
    ch = run.ch
    name = ch.pick('chain', CHAINS)
    chain = pki.CHAINS[name]
    links = verified(chain)
    lkey = leaf_key(chain)
    kind = ch.pick('kind', status.GOOD + status.BAD)
    raises = ch.pick('raises', [None, OSError('unreachable'), ValueError('bad')], [7, 1, 1])
    if ch.flip('clock', .3):
        run.now += ch.pick('jump', [1000, 86400 * 20, -86400 * 30])
    s = gen.Spec('server', list(gen.SUITES), [ref.X25519, ref.P256], list(gen.SIGS), [], chain=name, key=lkey)
    given = []

    def reply(url, req):
        link = asked_for(req, links)
        if url != url_of(link[0]):
            raise Violation('location', f'asks {url} instead of {url_of(link[0])}')
        if raises:
            raise raises
        given.append(build(run, kind, link, lkey)[0])
        return given[-1]
    service = status.Service(run, reply)
    asks = ch.flip('asks', .85)
    c = gen.Spec('client', list(gen.SUITES), [ref.X25519, ref.P256], list(gen.SIGS), [], store='all')
    client, server = pairs.make(run, 'cr', c, s, copts=dict(status=asks), socsp=service)
    run.fault(f'server {kind}')
    client.start()
    settle(run, client, server)
    want = asks and url_of(chain[0]) is not None and len(chain) > 1 and not raises and kind in status.GOOD
    what = (f'{name}: responder {"raises" if raises else kind}, asked {asks}, staple {client.staple and len(client.staple)}, '
            f'{client.error} {server.errors}')
    run.st('server', name, kind, asks, bool(raises))
    if not (client.connected and server.connected):
        raise Violation('not served', what)
    if want:
        if client.staple != given[-1]:
            raise Violation('not stapled', what)
        run.probe('server stapled')
    else:
        if client.staple is not None or any(5 in e for _, e in client.certs):
            raise Violation('stapled', what)
        run.probe('server stapled nothing')
    for req, (until, res) in service.cached.items():
        if kind not in status.GOOD:
            raise Violation('kept', f'a {kind} answer was given to the cache; {what}')
        real = xocsp.load_der_ocsp_response(res)
        if real.next_update is None or until > real.next_update:
            raise Violation('kept too long', f'{until} vs {real.next_update}; {what}')


def history(run):
    """connections over time, real fetcher and cache, responders that change their mind"""
    ch = run.ch
    sched = threads.Sched(run)
    mod = fetch.load(lambda: sched)
    run.real['ocsp_over_http'] += 1
    pool = ch.subset('chains', ['leaf-ocsp', 'leaf-ocspdirect-root', 'leaf-ocsp-R', 'leaf-ocsp-B', 'leaf-ocsp-both'], .5) or ['leaf-ocsp']
    state = {'kind': 'good', 'mode': 'ok'}
    # every answer ever given: request -> [(until, kind)], and what may have been kept
    given = []
    kept = {}

    def answer(req):
        for name in pool:
            links = verified(pki.CHAINS[name])
            try:
                link = asked_for(req['body'], links)
            except Violation:
                continue
            data, until = build(run, state['kind'], link, leaf_key(pki.CHAINS[name]))
            given.append((req['body'], state['kind'], until, data))
            if state['mode'] == 'truncated':
                return fetch.Answer(fetch.http(data)[:-3])
            if state['mode'] == 'error':
                return fetch.Answer(fetch.http(data, '503 Busy'))
            return fetch.Answer(fetch.http(data))
        raise Violation('request', 'the responder is asked about a certificate nobody presented')

    web = fetch.Web(run, sched, answer, lambda h, p: 'refused' if state['mode'] == 'down' else 'ok')
    c = spec_client(run)
    configs = {}

    def main():
        for step in range(ch.int('steps', 2, 9)):
            act = ch.pick('act', ['client', 'server', 'jump', 'change'], [4, 2, 2, 2])
            run.step(act)
            if act == 'jump':
                d = ch.pick('jump', [.5, 59.5, 3600.5, 86400.5, 86400 * 29.5, 86400 * 31.5, -.5, 1.5, 3.5])
                if d < 0:
                    d = 30.5
                run.now += d
                run.fault('clock jump')
                run.probe('clock jump')
                continue
            if act == 'change':
                old = state['kind']
                state['kind'] = ch.pick('kind', ['good', 'good', 'revoked', 'expired', 'forged', 'no-end', 'edge-in', 'future', 'long',
                                                 'other-serial'])
                state['mode'] = ch.pick('mode', ['ok', 'down', 'truncated', 'error'], [5, 1, 1, 1])
                run.fault(f'responder {state["kind"]} {state["mode"]}')
                if old in status.GOOD and state['kind'] in status.BAD:
                    run.probe('responder changed its mind')
                continue
            name = ch.pick('name', pool)
            chain = pki.CHAINS[name]
            links = verified(chain)
            lkey = leaf_key(chain)
            if run.now >= pki.T1.timestamp() - 86400 * 60:
                break
            n = len(web.requests)
            m = len(given)
            before = dict(kept)
            if act == 'client':
                client = EP(run, f'client{step}', gen.build(c), c.host, mod)
                server = ref.RefServer(run, dict(suites=c.suites, groups=c.groups, chain=list(chain), key=lkey))
                need = [l for l in links if url_of(l[0])]
            else:
                s = gen.Spec('server', list(gen.SUITES), [ref.X25519, ref.P256], list(gen.SIGS), [], chain=name, key=lkey)
                client, server = pairs.make(run, 'cr', c, s, copts=dict(status=True), socsp=mod, tag=str(step))
                need = links[:1] if len(chain) > 1 and url_of(links[0][0]) else []
            client.start()
            settle(run, client, server)
            fresh = given[m:]
            bodies = [r['body'] for r in web.requests[n:]]
            if len(set(bodies)) != len(bodies):
                raise Violation('asked twice', f'{name}: the responder was asked {len(bodies)} times')
            # which answers were at hand
            ok = True
            for cert, issuer, key in need:
                mine = [g for g in fresh if serial(g[0]) == cert.serial_number]
                held = kept.get(cert.serial_number)
                usable = held is not None and (held > run.now)
                if usable and not mine:
                    run.probe('cached answer used')
                    continue
                if held is not None and not usable:
                    run.probe('cached answer expired')
                    kept.pop(cert.serial_number)
                if usable and mine and ok:
                    raise Violation('fetched again', f'{name}: a kept answer is good until {held}, it is {run.now}')
                if mine and mine[0][1] in status.GOOD and state['mode'] == 'ok':
                    if mine[0][2] is not None:
                        kept[cert.serial_number] = mine[0][2]
                    continue
                ok = False
                run.probe('fetch failed')
                if act == 'client':
                    break
            what = (f'{name} at {core.utcdt(run.now)}, responder {state}, kept {before}, given now {[(g[1], g[2]) for g in fresh]}, '
                    f'client {pairs.why(client)}, server {pairs.why(server)}')
            if act == 'client':
                if ok and not client.connected:
                    raise Violation('refused', what)
                if not ok and (client.ever_connected or not client.errors):
                    raise Violation('believed', what)
                run.probe('client fetch ' + ('accepted' if ok else 'rejected'))
            else:
                if not (client.connected and server.connected):
                    raise Violation('not served', what)
                if bool(client.staple) != bool(need and ok):
                    raise Violation('stapled' if client.staple else 'not stapled', what)
                if client.staple:
                    match = [g for g in given if g[3] == client.staple]
                    if not match or serial(match[-1][0]) != need[0][0].serial_number or match[-1][1] not in status.GOOD or \
                            match[-1][2] is not None and match[-1][2] < run.now:
                        raise Violation('stale staple', what)
                    run.probe('server stapled')
                else:
                    run.probe('server stapled nothing')
            run.st('history', act, name, state['kind'], state['mode'], ok)

    sched.spawn('main', main)
    with web:
        ok = sched.go()
    t = sched.tasks[0]
    if t.exc is not None:
        raise HarnessError(f'main died: {t.exc!r}') from t.exc
    if not ok:
        raise Violation('blocked', str(sched.deadlocked))
    if web.problem:
        raise Violation('request', web.problem)


def serial(req):
    return xocsp.load_der_ocsp_request(bytes(req)).serial_number


SCENARIOS = [('judge client', 3, judge_client), ('judge server', 1.5, judge_server), ('history', 2, history)]
