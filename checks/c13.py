"""C13: the status fetcher and its cache stay bounded, fresh and safe under concurrency."""
import gc
import sys

from sim import core, fetch, inject, threads
from sim.core import HarnessError, Violation

RULE = ('One run: one fetcher module, either a history of cache and fetch calls against a model, or one to several fetches from '
        'responders of seeded quality, or several threads calling it with preemption before its source lines, '
        'or calls in the middle of which memory or a system call fails or an interruption comes.')
QUICK = 24000
THOROUGH = 600000
STUBS = ['responders and network: simulated', 'threads: seeded scheduler, preemption at source lines', 'clock: simulated']
PROBES = ['full cache', 'evicted', 'expired entry asked', 'hit', 'fetched', 'refused answer', 'bad url', 'uncached',
          'threads met', 'failed inside', 'fetched after a failure', 'endless body', 'over the bound', 'redirected', 'exactly the bound']

BOUND = 20480
URLS = ['http://ocsp.sim/', 'http://ocsp.sim/a', 'http://ocsp.sim:8080/a/b?c=d', 'http://ocsp.sim', 'http://192.0.2.7/x',
        'http://[2001:db8::7]:81/', 'HTTP://ocsp.sim/']
BADURLS = ['https://ocsp.sim/', 'ftp://ocsp.sim/', 'file:///etc/hostname', '', 'ocsp.sim', 'http:///a', 'http:', '//ocsp.sim/',
           'ldap://ocsp.sim/', 'data:,x']


def alike(ch, keys):
    """requests for different certificates have much in common: the issuer, the serial number, the encoding"""
    common = b'\x30\x42' * ch.int('common', 4, 30)
    where = ch.pick('alike', ['nothing', 'end', 'start', 'both'], [2, 1, 1, 1])
    return [(common if where in ('start', 'both') else b'') + k + (common if where in ('end', 'both') else b'')
            for k in keys]


def bound_of(mod):
    n = getattr(mod, 'CACHE_ENTRIES', 64)
    return n if isinstance(n, int) and 0 < n <= 1024 else 64


def body_bound(mod):
    n = getattr(mod, 'OCSP_MAX_RESPONSE_SIZE', BOUND)
    return n if isinstance(n, int) and 0 < n <= 1 << 20 else BOUND


class Held:
    """answers handed to the cache, and how many of them something still refers to"""
    def __init__(self):
        self.items = []

    def make(self, run, n=24):
        self.items.append(run.rand.randbytes(n))
        return len(self.items) - 1

    def retained(self, bound):
        n = self._count()
        if n > bound:
            gc.collect()        # failed calls leave frames in cycles
            n = self._count()
        return n

    def _count(self):
        self.items.append(bytes(bytearray(b'x' * 24)))
        base = sys.getrefcount(self.items[-1])
        self.items.pop()
        n = 0
        for i in range(len(self.items)):
            if sys.getrefcount(self.items[i]) > base:
                n += 1
        return n


def main_only(run, fn, web_answer=None, route=None):
    """fn(mod, web) inside one simulated task"""
    sched = threads.Sched(run)
    mod = fetch.load(lambda: sched)
    run.real['ocsp_over_http'] += 1
    web = fetch.Web(run, sched, web_answer or (lambda req: fetch.Answer(b'')), route)
    sched.spawn('main', lambda: fn(mod, web))
    with web:
        ok = sched.go()
    t = sched.tasks[0]
    if t.exc is not None:
        raise HarnessError(f'main died: {t.exc!r}') from t.exc
    if not ok:
        raise Violation('blocked', str(sched.deadlocked))
    return web


def history(run):
    """cache calls against a model that follows what is kept by asking"""
    ch = run.ch
    held = Held()

    def main(mod, web):
        bound = bound_of(mod)
        live = {}           # req -> (until, set of answers given), known to be kept and not expired
        given = {}          # req -> [(until, answer)] since it was last removed
        nkeys = ch.pick('keys', [4, bound, bound + 1, bound + 6, bound * 2], [2, 2, 3, 4, 1])
        keys = alike(ch, [b'q%04d' % i for i in range(nkeys)])
        spread = ch.pick('spread', [5, 60, 100000])

        def ask(req):
            n = len(web.attempts)
            try:
                out = mod.request('http://ocsp.sim/', req)
            except OSError:
                if len(web.attempts) != n + 1:
                    raise Violation('attempts', f'{len(web.attempts) - n} connections for one fetch') from None
                given.pop(req, None)
                return None
            if len(web.attempts) != n:
                raise Violation('contacted', 'a kept answer was served, yet the responder was contacted')
            if not any(out == held.items[a] and u >= run.now for u, a in given.get(req, ())):
                mine = [(u - run.now, held.items[a]) for u, a in given.get(req, ())]
                other = [k for k, v in given.items() if any(held.items[a] == out for _, a in v) and k != req]
                raise Violation('stale' if mine else 'mixed up', f'{req} gets {out!r}: given {mine}, others {other}')
            run.probe('hit')
            return out

        def forget():
            for r in [r for r, (u, _) in live.items() if u <= run.now]:
                del live[r]

        def put(req):
            dt = ch.pick('dt', [ch.int('dt', 1, spread) + .5, spread + 1.5, .5]) if not ch.flip('late', .05) else -.5
            until = run.now + dt
            n = held.make(run)
            forget()
            was = dict(live)
            old = bool(given.get(req)) and req not in was      # an expired entry may be in the way
            try:
                mod.cache(core.utcdt(until), req, held.items[n])
            except Exception as exc:
                raise Violation('cache fails', f'{exc!r} with {len(was)} live entries') from exc
            given.setdefault(req, []).append((until, n))
            gone = [r for r in was if ask(r) is None]
            others = [r for r in gone if r != req]
            if others:
                run.probe('evicted')
            if req in gone:
                raise Violation('lost', f'caching {req} again removed it')
            if others and len(was) < bound:
                raise Violation('evicted early', f'{others} evicted with {len(was)} live entries out of {bound}')
            if len(others) > max(0, len(was) + 1 - bound):
                raise Violation('evicted too much', f'{len(others)} evicted with {len(was)} live entries')
            keep = [was[r][0] for r in was if r not in gone]
            for r in others:
                if keep and was[r][0] > min(keep) + 1e-6:
                    raise Violation('evicted fresher', f'{r} expires in {was[r][0] - run.now}, one kept in {min(keep) - run.now}')
                live.pop(r)
            if req not in was and dt > 0:
                kept = ask(req) is not None
                if not kept and not old and (len(was) < bound or others or until > min(v[0] for v in was.values()) + 1e-6):
                    raise Violation('not kept', f'{req} for {dt} s, {len(was)} live entries')
                if kept:
                    live[req] = (until, n)
            elif dt <= 0 and req not in was:
                if ask(req) is not None:
                    raise Violation('stale', 'an expired answer was served')
            if len(live) > bound:
                raise Violation('unbounded', f'{len(live)} live entries')
            if len(live) == bound:
                run.probe('full cache')

        if nkeys >= bound and ch.flip('fill', .8):
            for k in keys[:bound - ch.int('room', 0, 2)]:
                until = run.now + ch.int('dt', 1, spread) + .5
                n = held.make(run)
                mod.cache(core.utcdt(until), k, held.items[n])
                given[k] = [(until, n)]
                live[k] = (until, n)
            lost = [k for k in live if ask(k) is None]
            if lost:
                raise Violation('lost', f'{lost} after {len(live)} entries were given')
        for _ in range(ch.int('steps', 3, 24)):
            act = ch.pick('act', ['put', 'ask', 'uncache', 'jump', 'fetch'], [8, 4, 2, 2, 1])
            run.step(act)
            key = ch.pick('key', keys)
            if act == 'put':
                put(key)
            elif act == 'ask':
                forget()
                if key in given and key not in live:
                    run.probe('expired entry asked')
                if ask(key) is None and key in live:
                    raise Violation('lost', f'{key} was kept for {live[key][0] - run.now} s more')
            elif act == 'uncache':
                try:
                    mod.uncache(key)
                except Exception as exc:
                    raise Violation('uncache fails', repr(exc)) from exc
                live.pop(key, None)
                given.pop(key, None)
                run.probe('uncached')
                if ask(key) is not None:
                    raise Violation('kept', f'{key} is served after having been removed')
            elif act == 'jump':
                run.now += ch.pick('by', [1.5, 10.5, spread / 2 + .25, spread + 3.5])
                run.fault('clock jump')
            n = held.retained(bound)
            if n > bound:
                raise Violation('unbounded', f'{n} answers held, the bound is {bound}')
            run.st(min(len(live), 3), len(live) == bound, act)

    main_only(run, main, route=lambda h, p: 'refused')


def make_answer(run, mod, ch, state, body=None):
    """-> (Answer, body the caller may get or None)"""
    bound = body_bound(mod)
    kind = ch.pick('answer', ['ok', 'ok-nolength', 'ok-chunked', 'ok-keep', 'ok-slow', 'ok-notype', 'bound', 'bound-nolength',
                              'bound-chunked', 'over', 'over-nolength', 'over-chunked', 'endless', 'endless-chunked', 'short',
                              'short-chunked', 'short-late', 'reset', 'stall', 'slow', 'status', 'type', 'garbage', 'empty', 'nothing',
                              'badlength', 'redirect', 'huge-length', 'long-head'])
    if body is None:
        body = run.rand.randbytes(ch.size('body', 1, 3000))
    n = len(body)
    run.fault('answer ' + kind)
    state.append(kind)
    A, H = fetch.Answer, fetch.http
    if kind == 'ok':
        return A(H(body)), body
    if kind == 'ok-nolength':
        return A(H(body, length=False)), body
    if kind == 'ok-chunked':
        return A(H(body, chunked=True)), body
    if kind == 'ok-keep':
        return A(H(body), after='keep'), body
    if kind == 'ok-slow':
        return A(H(body, length=ch.flip('len'), extra=()), pieces=(ch.size('piece', len(body) // 8 + 1, 2000), .4), delay=.7), body
    if kind == 'ok-notype':
        return A(H(body, ctype=None)), body
    if kind.startswith('bound'):
        body = run.rand.randbytes(bound)
        run.probe('exactly the bound')
        return A(H(body, length=kind != 'bound-nolength', chunked=kind == 'bound-chunked')), body
    if kind.startswith('over'):
        body = run.rand.randbytes(bound + ch.pick('over', [1, 2, 100, 40000]))
        run.probe('over the bound')
        return A(H(body, length=kind == 'over', chunked=kind == 'over-chunked')), None
    if kind.startswith('endless'):
        run.probe('endless body')
        return A(H(bytes(bound * 30), length=False, chunked=kind == 'endless-chunked'), after='keep'), None
    if kind == 'short':
        d = H(body)
        return A(d[:-ch.size('missing', 1, n)], after=ch.pick('after', ['close', 'keep'])), None
    if kind == 'short-chunked':
        d = H(body, chunked=True)
        return A(d[:-ch.size('missing', 6, n + 5)]), None
    if kind == 'short-late':
        return A(H(body, length=n + ch.size('missing', 1, 3000)), pieces=(n // 3 + 1, .3)), None
    if kind == 'reset':
        d = H(body, length=ch.flip('len'))
        return A(d, reset_at=ch.int('at', 0, len(d) - 1)), None
    if kind == 'stall':
        d = H(body, length=ch.flip('len'))
        return A(d, stall_at=ch.int('at', 0, len(d) - 1)), None
    if kind == 'slow':
        return A(H(body), delay=5), None
    if kind == 'status':
        st = ch.pick('st', ['404 Not Found', '500 Error', '503 Busy', '400 Bad', '304 Not Modified', '301 Moved', '100'])
        if st == '100':
            return A(b'HTTP/1.1 100 Continue\r\n\r\n' + H(body)), body
        return A(H(b'' if st[0] == '3' and ch.flip('nobody') else body, st)), None
    if kind == 'type':
        return A(H(body, ctype=ch.pick('ct', ['text/html', 'application/ocsp-request', 'application/octet-stream']))), None
    if kind == 'garbage':
        return A(run.rand.randbytes(ch.size('len', 1, 4000))), None
    if kind == 'empty':
        return A(b''), None
    if kind == 'nothing':
        return A(H(b'')), b''
    if kind == 'badlength':
        return A(H(body, length=ch.pick('cl', ['x', str(bound + 1), '99999999999', '1e3', '', '5, 6']))), None
    if kind == 'redirect':
        run.probe('redirected')
        to = ch.pick('to', ['http://elsewhere.sim/', 'https://elsewhere.sim/', 'ftp://elsewhere.sim/x', '/again', 'file:///etc/hostname'])
        d = H(ch.pick('rb', [b'', body, bytes(bound * 20)]), ch.pick('rs', ['301 M', '302 F', '303 S', '307 T', '308 P']),
              extra=[f'Location: {to}'], length=ch.flip('len'))
        return A(d, after=ch.pick('after', ['close', 'keep'])), None
    if kind == 'huge-length':
        return A(H(body, length=1 << 40), after='keep'), None
    if kind == 'long-head':
        return A(H(body, extra=[f'X-{i}: ' + 'y' * 60000 for i in range(ch.pick('heads', [3, 99, 300]))])), ...
    raise AssertionError(kind)


def check_request(req, url, body):
    from urllib.parse import urlsplit
    u = urlsplit(url)
    path = (u.path or '/') + ('?' + u.query if u.query else '')
    want = f'POST {path} HTTP/1.1'
    if req['line'] != want:
        raise Violation('request', f'{req["line"]!r} instead of {want!r}')
    h = req['headers']
    if h.get('host') != u.netloc:
        raise Violation('request', f'Host: {h.get("host")} for {url}')
    if (req['host'], req['port']) != (u.hostname, u.port or 80):
        raise Violation('request', f'sent to {req["host"]}:{req["port"]} for {url}')
    if h.get('content-type') != 'application/ocsp-request':
        raise Violation('request', f'Content-Type: {h.get("content-type")}')
    if h.get('content-length') != str(len(body)) or req['body'] != body:
        raise Violation('request', f'Content-Length: {h.get("content-length")}, {len(req["body"])} bytes of {len(body)}')


def judge_fetch(run, mod, web, ch, url, req, state, mark, socks, out, exc, allowed, who=''):
    """one fetch, done alone"""
    kind = state[-1] if state else None
    if len(web.requests) - mark > 1 or len(web.socks) - socks > 1:
        raise Violation('requests', f'{who}{len(web.requests) - mark} requests for one fetch ({kind})')
    if len(web.requests) > mark:
        check_request(web.requests[mark], url, req)
    for s in web.socks[socks:]:
        head = 300 if kind != 'long-head' else 1 << 30
        extra = 70000 if kind in ('garbage', 'long-head') else 0
        if s.rx.read_total > body_bound(mod) * 1.1 + 20000 + head + extra:
            raise Violation('reads on', f'{s.rx.read_total} bytes read of a {kind} answer')
        if not s.closed and out is not None:
            raise Violation('left open', f'the socket is still open after a {kind} answer')
    if exc is not None:
        if allowed is not None and allowed is not ...:
            raise Violation('refused', f'{kind}: {exc!r}')
        run.probe('refused answer')
        return
    if len(out) > body_bound(mod):
        raise Violation('over the bound', f'{len(out)} bytes returned')
    if allowed is None:
        raise Violation('taken', f'{len(out)} bytes returned from a {kind} answer')
    if allowed is not ... and out != allowed:
        raise Violation('altered', f'{len(out)} bytes returned instead of {len(allowed)} ({kind})')
    run.probe('fetched')


def fetches(run):
    ch = run.ch
    state, allowed = [], []
    current = {}
    how = {'route': 'ok'}

    def answer(req):
        a, body = make_answer(run, current['mod'], ch, state)
        allowed.append(body)
        return a

    def main(mod, web):
        current['mod'] = mod
        for i in range(ch.int('fetches', 1, 4)):
            url = ch.pick('url', URLS)
            req = b'%d' % i + run.rand.randbytes(ch.pick('req', [1, 80, 5000, 40000], [1, 6, 1, .3]))
            if ch.flip('bad', .12):
                url = ch.pick('badurl', BADURLS)
                if ch.flip('emptyreq', .3):
                    url, req = ch.pick('url', URLS), b''
                run.probe('bad url')
                n = len(web.attempts)
                try:
                    mod.request(url, req)
                except ValueError:
                    pass
                except Exception as exc:
                    raise Violation('bad url', f'{url!r}: {exc!r} instead of a ValueError') from exc
                else:
                    raise Violation('bad url', f'{url!r}, {len(req)} bytes: accepted')
                if len(web.attempts) != n:
                    raise Violation('bad url', f'{url!r}: a connection was made')
                continue
            how['route'] = ch.pick('route', ['ok', 'refused', 'unknown host', 'unreachable', 'timeout'], [16, 1, 1, 1, 1])
            run.step(how['route'])
            mark, socks, na = len(web.requests), len(web.socks), len(web.attempts)
            t0 = run.now
            out = exc = None
            try:
                out = mod.request(url, req)
            except Exception as e:
                exc = e
            kind = state[-1] if len(web.requests) > mark else how['route']
            if len(web.attempts) - na > 1:
                raise Violation('requests', f'{len(web.attempts) - na} connections for one fetch ({kind}): {web.attempts[na:]}')
            if len(web.requests) == mark and exc is None:
                raise Violation('invented', 'an answer without a request')
            judge_fetch(run, mod, web, ch, url, req, state, mark, socks, out, exc,
                        allowed[-1] if len(web.requests) > mark else None)
            if kind not in ('ok-slow', 'short-late') and run.now - t0 > 2.5:
                raise Violation('slow', f'{run.now - t0} s for a {kind} answer')
            if how['route'] != 'ok':
                run.fault('route ' + how['route'])
            run.st(kind, type(exc).__name__)
            out = exc = None
            if ch.flip('again', .2):
                # a failed or uncached fetch leaves nothing behind
                how['route'] = 'refused'
                try:
                    mod.request(url, req)
                except OSError:
                    pass
                else:
                    raise Violation('kept', f'an answer nobody gave to the cache is served ({kind})')

    web = main_only(run, main, answer, lambda h, p: how['route'])
    if web.problem:
        raise Violation('request', web.problem)


def meeting(run):
    """several threads; what each is told must be explained by what was given"""
    ch = run.ch
    sched = threads.Sched(run, prefer=ch.pick('prefer', [0.0, .5, .9]))
    mod = fetch.load(lambda: sched)
    run.real['ocsp_over_http'] += 1
    bound = bound_of(mod)
    held = Held()
    calls = []          # t0, t1: positions in one global order; n: which answer
    clock = [0]
    down = ch.flip('down', .5)
    served = {}

    def answer(req):
        served.setdefault(req['body'], []).append(b'fetched %d ' % len(served) + req['body'])
        return fetch.Answer(fetch.http(served[req['body']][-1]))

    web = fetch.Web(run, sched, answer, lambda h, p: 'refused' if down else 'ok')
    keys = alike(ch, [b'k%03d' % i for i in range(ch.int('keys', 1, 5))])

    def tick():
        clock[0] += 1
        return clock[0]

    def call(kind, req, f, *a, **more):
        c = dict(kind=kind, req=req, t0=tick(), t1=None, now=run.now, out=None, **more)
        calls.append(c)
        run.ev(kind, req)
        try:
            c['out'] = f(*a)
        except OSError as exc:
            if kind != 'request' or not down:
                raise Violation('fails', f'{kind} {req}: {exc!r}') from exc
        except Exception as exc:
            raise Violation('fails', f'{kind} {req}: {exc!r}, on behalf of what another thread does') from exc
        c['t1'] = tick()
        run.ev(kind, req, 'done')
        return c

    def put(req, dt):
        n = held.make(run)
        call('cache', req, mod.cache, core.utcdt(run.now + dt), req, held.items[n], until=run.now + dt, n=n)

    def explain(c):
        out, req = c['out'], c['req']
        if out is None or out in served.get(req, ()):
            return
        mine = [x for x in calls if x['kind'] == 'cache' and x['req'] == req and held.items[x['n']] == out]
        if not mine:
            raise Violation('mixed up', f'{req} gets {out!r}')
        x = mine[0]
        if x['until'] < c['now']:
            raise Violation('stale', f'{req}: expired {c["now"] - x["until"]} s before the call')
        for u in calls:
            if u['kind'] == 'uncache' and u['req'] == req and u['t1'] and x['t1'] and x['t1'] < u['t0'] and u['t1'] < c['t0']:
                raise Violation('kept', f'{req} is served after having been removed')
        run.probe('hit')

    def ask(req):
        c = call('request', req, mod.request, 'http://ocsp.sim/', req)
        explain(c)
        c['out'] = c['out'] is not None
        return c

    plan = []
    for t in range(ch.int('threads', 2, 4)):
        ops = []
        for _ in range(ch.int('ops', 1, 6)):
            ops.append((ch.pick('op', ['put', 'ask', 'uncache', 'sleep', 'new'], [4, 5, 2, 1, 4]), ch.pick('key', keys),
                        ch.pick('dt', [.5, 2.5, 500.5, 3.5, 90.5])))
        plan.append(ops)

    def worker(t):
        for i, (op, key, dt) in enumerate(plan[t]):
            run.step(op)
            if op == 'put':
                put(key, dt)
            elif op == 'ask':
                ask(key)
            elif op == 'uncache':
                call('uncache', key, mod.uncache, key)
            elif op == 'sleep':
                sched.sleep(dt % 4)
            elif op == 'new':
                put(b'n%d-%d' % (t, i), dt + t * .01 + i * .1)

    if ch.flip('full', .5):
        for i in range(bound - ch.int('room', 0, 3)):
            put(b'f%03d' % i, 20.5 + i % 7 * 10)
    if ch.flip('expired', .4):
        for k in keys:
            put(k, .5)
        run.now += 1
        run.fault('clock jump')
    workers = [sched.spawn('w%d' % t, lambda t=t: worker(t)) for t in range(len(plan))]

    def last():
        nonlocal down
        sched.wait(lambda: all(w.done for w in workers), None, 'the others')
        down = True
        n = held.retained(bound)
        if n > bound:
            raise Violation('unbounded', f'{n} answers held, the bound is {bound}')
        reqs = sorted({c['req'] for c in calls})
        kept = {}
        for req in reqs:
            c = call('request', req, mod.request, 'http://ocsp.sim/', req)
            explain(c)
            kept[req] = c['out'] is not None
        puts = {r: [c for c in calls if c['kind'] == 'cache' and c['req'] == r] for r in reqs}
        gone = {c['req'] for c in calls if c['kind'] == 'uncache'}
        firm = [r for r in reqs if puts[r] and r not in gone and all(c['until'] > run.now for c in puts[r])]
        lost = [r for r in firm if not kept[r]]
        if lost and sum(1 for r in reqs if puts[r]) <= bound:
            raise Violation('lost', f'{lost}, with {sum(map(bool, puts.values()))} entries ever given')
        if sum(kept.values()) > bound:
            raise Violation('unbounded', f'{sum(kept.values())} entries kept')
        once = [r for r in firm if len(puts[r]) == 1]
        for e in lost:
            if e not in once:
                continue
            run.probe('evicted')
            for k in once:
                if kept[k] and puts[k][0]['until'] < puts[e][0]['until'] - 1e-6 and puts[k][0]['t1'] < puts[e][0]['t0']:
                    raise Violation('evicted fresher', f'{e} expires {puts[e][0]["until"] - puts[k][0]["until"]} s after {k}, which is kept '
                                    'and was there before')

    sched.spawn('last', last)
    path = mod.__file__
    sched.trace_files(lambda f: f == path, ch.pick('p', [.3, .7, .1]), 500)
    with web:
        ok = sched.go()
    for t in sched.tasks:
        if t.exc is not None and not t.daemon:
            raise HarnessError(f'{t.name} died: {t.exc!r}') from t.exc
    if not ok:
        raise Violation('blocked', str(sched.deadlocked))
    if web.problem:
        raise Violation('request', web.problem)
    run.probe('threads met')
    run.st(len(plan), down, len(calls) // 4)


def failures(run):
    """something fails in the middle of a call: it is that call's problem, and nobody else's"""
    ch = run.ch
    held = Held()
    inj = inject.injector()
    error = ch.pick('error', [MemoryError, lambda: OSError(24, 'Too many open files'), KeyboardInterrupt], [3, 2, 2])
    state, allowed = [], []
    current = {}
    how = {'route': 'ok'}

    def answer(req):
        a, body = make_answer(run, current['mod'], ch, state)
        allowed.append(body)
        return a

    def main(mod, web):
        current['mod'] = mod
        bound = bound_of(mod)
        given = {}          # req -> [(until, answer)] since it was last removed
        firm = {}           # req -> until: given while nothing failed
        nkeys = ch.pick('keys', [4, bound, bound + 3], [3, 1, 1])
        keys = alike(ch, [b'q%04d' % i for i in range(nkeys)])

        def call(f, *a):
            """-> (what it returned, what it raised)"""
            n = len(inj.fired)
            inj.enter()
            try:
                return f(*a), None
            except BaseException as exc:
                if isinstance(exc, (Violation, HarnessError)) or not isinstance(exc, Exception) and len(inj.fired) == n:
                    raise
                return None, exc
            finally:
                inj.leave()

        if nkeys >= bound:
            for k in keys[:bound]:
                until = run.now + ch.int('dt', 1, 60) + .5
                n = held.make(run)
                mod.cache(core.utcdt(until), k, held.items[n])
                given[k] = [(until, n)]
        for _ in range(ch.int('steps', 3, 20)):
            act = ch.pick('act', ['put', 'ask', 'uncache', 'jump'], [5, 5, 2, 1])
            key = ch.pick('key', keys)
            run.step(act)
            if ch.flip('fail', .4):
                inj.plan(ch.int('at', 1, 8), ch.pick('for', [1, 1, 1, 3]), error, ch.flip('all', .15))
            fired, mark, socks = len(inj.fired), len(web.requests), len(web.socks)
            failed = lambda: len(inj.fired) > fired
            if act == 'put':
                until = run.now + ch.pick('dt', [1.5, 20.5, 300.5])
                n = held.make(run)
                _, exc = call(mod.cache, core.utcdt(until), key, held.items[n])
                if exc is not None and not failed():
                    raise Violation('cache fails', f'{exc!r}, after {inj.fired} failed')
                given.setdefault(key, []).append((until, n))
                if exc is None and nkeys < bound and not any(u > run.now for u, _ in given[key][:-1]) and len(given[key]) == 1:
                    firm[key] = until
            elif act == 'uncache':
                _, exc = call(mod.uncache, key)
                if exc is not None and not failed():
                    raise Violation('uncache fails', f'{exc!r}, after {inj.fired} failed')
                firm.pop(key, None)
                if exc is None:
                    given.pop(key, None)
            elif act == 'jump':
                run.now += ch.pick('by', [1.5, 10.5, 100.5])
                run.fault('clock jump')
            else:
                how['route'] = ch.pick('route', ['ok', 'refused'], [4, 1])
                left = firm.get(key, 0) - run.now
                out, exc = call(mod.request, 'http://ocsp.sim/', key)
                asked = len(web.attempts) > 0 and len(web.requests) > mark
                if not failed():
                    if left > 1e-3 and (asked or exc is not None):
                        raise Violation('lost', f'{key} was kept for {left} s more; {inj.fired} failed before')
                    if asked:
                        judge_fetch(run, mod, web, ch, 'http://ocsp.sim/', key, state, mark, socks, out, exc, allowed[-1])
                        run.probe('fetched after a failure') if inj.fired and exc is None else None
                if out is not None and not asked:
                    if not any(out == held.items[a] and u >= run.now - 1e-3 for u, a in given.get(key, ())):
                        raise Violation('stale', f'{key} gets {out!r}: {[(u - run.now, held.items[a]) for u, a in given.get(key, ())]}; '
                                        f'{inj.fired} failed')
                    run.probe('hit')
                elif out is not None and allowed[-1] is not ... and out != allowed[-1]:
                    raise Violation('altered' if allowed[-1] is not None else 'taken', f'{len(out)} bytes of a {state[-1]} answer; '
                                    f'{inj.fired[fired:]} failed')
                if asked:
                    given.pop(key, None)     # nothing was kept that could be served
                    firm.pop(key, None)
                for s in web.socks[socks:]:
                    if not s.closed and out is not None:
                        raise Violation('left open', f'the socket is still open after a {state[-1] if asked else None} answer')
                out = exc = None
            if failed():
                run.fault('failure inside ' + act, len(inj.fired) - fired)
                run.probe('failed inside')
            inj.at = inject.INF
            exc = out = None         # (its traceback holds the answer)
            for x in web.socks:
                x.raised.clear()
            n = held.retained(bound)
            if n > bound:
                raise Violation('unbounded', f'{n} answers held, the bound is {bound}; {inj.fired} failed')
            run.st(act, failed(), min(len(firm), 3))

    try:
        web = main_only(run, main, answer, lambda h, p: how['route'])
    finally:
        inj.reset()
    if web.problem:
        raise Violation('request', web.problem)


SCENARIOS = [('history', 2, history), ('fetches', 3, fetches), ('threads', 3, meeting),
             ('failures', 2, failures)]
