"""C23: the command-line client talks only to whom it authenticated, tells the truth, and always ends."""
import contextlib
import errno
import io
import logging
import os
import platform
import random
import re
import sys
import tempfile
import types

from checks import c04, c12
from sim import core, example, fetch, fork, gen, net, pairs, pki, ref, status, threads
from sim.core import HarnessError, Violation

RULE = ('One run: the real `siotls client` command (argument parsing, system trust store, example client, status fetcher), in a process '
        'of its own, against one simulated server, system and responders of a seeded quality.')
QUICK = 9000
THOROUGH = 250000
STUBS = ['sockets, network and name service: simulated', 'server: reference peer with scripted misbehaviour', 'status responders: simulated',
         'operating system release and certificate bundles: simulated files', 'clock: simulated', 'threads: seeded scheduler']
PROBES = ['answered', 'authenticated', 'not authenticated', 'insecure', 'status fetched', 'status refused', 'unknown system', 'no bundle',
          'other system', 'unreachable', 'stalled before', 'stalled after', 'cut before', 'cut after', 'reset before', 'reset after',
          'flipped', 'plain answer', 'no answer', 'silent', 'debug', 'split answer', 'derived system', 'short operations']

# os-release -> where its bundle of authorities is (independent of the library)
SYSTEMS = [
    (dict(ID='debian'), '/etc/ssl/certs/ca-certificates.crt'),
    (dict(ID='ubuntu', ID_LIKE='debian'), '/etc/ssl/certs/ca-certificates.crt'),
    (dict(ID='linuxmint', ID_LIKE='ubuntu debian'), '/etc/ssl/certs/ca-certificates.crt'),
    (dict(ID='raspbian', ID_LIKE='debian'), '/etc/ssl/certs/ca-certificates.crt'),
    (dict(ID='alpine'), '/etc/ssl/certs/ca-certificates.crt'),
    (dict(ID='arch'), '/etc/ca-certificates/extracted/tls-ca-bundle.pem'),
    (dict(ID='manjaro', ID_LIKE='arch'), '/etc/ca-certificates/extracted/tls-ca-bundle.pem'),
    (dict(ID='fedora'), '/etc/pki/ca-trust/extracted/pem/tls-ca-bundle.pem'),
    (dict(ID='rocky', ID_LIKE='rhel centos fedora'), '/etc/pki/ca-trust/extracted/pem/tls-ca-bundle.pem'),
    (dict(ID='opensuse-leap', ID_LIKE='suse opensuse'), '/var/lib/ca-certificates/ca-bundle.pem'),
]
UNKNOWN = [dict(ID='nixos'), dict(ID='slackware', ID_LIKE=''), dict(ID='gentoo', ID_LIKE='none such')]
BUNDLES = sorted({p for _r, p in SYSTEMS})
_code = {}


def fresh(name, **over):
    """a fresh copy of a module of the library"""
    path = os.path.join(core.REPO, 'src', 'siotls', name + '.py')
    if path not in _code:
        with open(path, 'rb') as f:
            _code[path] = compile(f.read(), path, 'exec')
    mod = types.ModuleType('siotls.' + name)
    mod.__file__, mod.__package__ = path, 'siotls'
    mod.__dict__.update(over)
    exec(_code[path], mod.__dict__)
    return mod


def pem(names):
    out = b''
    for n in names:
        out += b'# ' + n.encode() + b'\n' + pki.C[n].public_bytes(example.serialization.Encoding.PEM)
    return out


class Text(io.StringIO):
    """what stands for the standard streams; not a terminal"""
    null = None

    def fileno(self):
        if Text.null is None:
            Text.null = os.open(os.devnull, os.O_RDWR)
        return Text.null


class World(fetch.Web):
    """one server and its responders"""
    def __init__(self, run, sched, host, port, serve, answer, route, server_route):
        super().__init__(run, sched, answer, route)
        self.where = host, port
        self.serve_tls = serve
        self.server_route = server_route
        self.client = self.server = None
        self.visits = 0

    def connect(self, address, timeout):
        host, port = address
        if (host, port) != self.where:
            return super().connect(address, timeout)
        self.visits += 1
        self.run.ev('connect', host, port, timeout)
        self.sched.pause()
        how = self.server_route
        if how == 'refused':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if how == 'unknown host':
            import socket
            raise socket.gaierror(-2, 'Name or service not known')
        if how == 'timeout':
            if timeout is None:
                raise Violation('hangs', 'the client waits for a connection without a timeout')
            self.sched.sleep(timeout)
            raise TimeoutError('timed out')
        if self.client is not None:
            raise Violation('twice', 'the client connects twice')
        a, b = self.net.pair('client', 'server')
        a.timeout = timeout
        a.faults = self.faults
        self.client, self.server = a, b
        t = self.sched.spawn('tls server', lambda: self.serve_tls(b), daemon=True)
        t.thread.start()
        return a


FORMS = ['good', 'flip', 'cut', 'reset', 'stall', 'plain', 'mute', 'deaf', 'alert', 'no answer', 'eof', 'garbage after']


def play(run):
    fetch.warm()
    fork.isolated(run, lambda r: inside(r))


def inside(run, keylog=False):
    ch = run.ch
    import siotls
    sched = threads.Sched(run, prefer=ch.pick('prefer', [0.0, .7]))
    run.now = ch.pick('clock', [core.EPOCH] * 5 + c04.CLOCKS)
    # --- the system
    roots = ch.pick('bundle', [['rootA', 'rootB', 'rootR', 'root5'], ['rootA'], ['rootB'], ['rootA', 'rootB'], ['rootB', 'rootR']],
                    [5, 2, 1, 1, 1])
    release, path = ch.pick('system', SYSTEMS)
    system = 'Linux'
    odd = None
    if ch.flip('odd system', .06) and not keylog:
        odd = ch.pick('odd', ['unknown', 'no bundle', 'other'])
        run.fault('system ' + odd)
        if odd == 'unknown':
            release, path = ch.pick('unknown', UNKNOWN), None
            run.probe('unknown system')
        elif odd == 'other':
            system = ch.pick('os', ['Windows', 'Darwin', 'Java', 'Plan9', ''])
            run.probe('other system')
        else:
            run.probe('no bundle')
    elif 'ID_LIKE' in release:
        run.probe('derived system')
    files = {p: pem(['evilroot', 'evilA']) for p in BUNDLES}
    if path:
        files[path] = pem(roots)
    if odd == 'no bundle':
        del files[path]

    def sim_open(name, mode='r', *a, **kw):
        name = os.fspath(name)
        run.ev('open', name, mode)
        if name not in files or 'b' not in mode:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', name)
        return io.BytesIO(files[name])
    store = fresh('trust_store', open=sim_open)
    store.platform = core._ModProxy(platform, system=lambda: system, freedesktop_os_release=lambda: dict(release))
    # --- whom it wants to see and whom it sees
    insecure = ch.flip('insecure', .15)
    host = ch.pick('host', [pki.HOST, pki.IP, 'x.wild.sim', pki.HOST2, 'SERVER.sim', '192.0.2.7'], [10, 2, 2, 1, .5, .5])
    port = ch.pick('port', [8446, 443, 4433])
    name = 'leaf-ec256' if keylog else ch.pick('chain', c04.CLEAN[:8] + ['leaf-ocsp', 'leaf-ocspdirect', 'leaf-ocsp-3'] * 2 + c04.DIRTY)
    if name == 'leaf-idn':
        name = 'leaf-ec256'
    chain = list(pki.CHAINS[name])
    keyname = pki.KEYOF.get(name) or pki.KEYOF[next(n for n, x in pki.C.items() if x == chain[0])]
    verdict = c04.YES
    if not insecure:
        verdict, good = c04.chain_verdict(chain, [pki.C[r] for r in roots], core.utcdt(run.now), 5, host)
        if ch.flip('stolen', .06):
            keyname = {'ec256': 'ec256:evil', 'ec384': 'ec384:rootB', 'ec521': 'ec521:evil', 'rsa': 'rsa:1', 'ed25519': 'ed25519:evil',
                       'ed448': 'ed448:evil'}[keyname.split(':')[0]]
            run.fault('stolen certificate')
            verdict = c04.NO
    if odd and not insecure:
        verdict = c04.NO
    # --- statuses
    asked = []
    table = {}
    if not insecure:
        links = []
        if verdict != c04.NO:
            p = good[0] if good else None
            links = [(a, b, pki.KEYOF[next(n for n, c in pki.C.items() if c == b)]) for a, b in zip(p, p[1:])] if p else []
            if len(good) > 1:
                verdict = c04.both(verdict, c04.MAYBE)
        for cert, issuer, ikey in links:
            if c12.url_of(cert) is None:
                continue
            kind = ch.pick('status', status.GOOD + status.BAD) if ch.flip('twist', .4) else 'good'
            how = ch.pick('responder', ['ok', 'refused', 'unknown host', 'timeout', '500', 'stall'], [8, .4, .4, .4, .4, .4])
            table[cert.serial_number] = (status.make(run, kind, cert, issuer, ikey, keyname)[0], how)
            fine = how == 'ok' and kind in status.GOOD
            if how != 'ok' or kind not in status.GOOD:
                run.fault('responder ' + (how if how != 'ok' else kind))
            if kind == 'edge-in':
                verdict = c04.both(verdict, c04.MAYBE)
            asked.append(fine)
        if asked:
            run.probe('status fetched')
        if not all(asked):
            run.probe('status refused')
            verdict = c04.NO

    def answer(req):
        try:
            serial = c12.xocsp.load_der_ocsp_request(bytes(req['body'])).serial_number
        except ValueError as exc:
            raise Violation('request', f'the responder is asked garbage: {exc}') from None
        body, how = table.get(serial, (b'', '500'))
        if how == '500':
            return fetch.Answer(fetch.http(b'oops', '500 Internal Server Error'))
        return fetch.Answer(fetch.http(body), stall_at=ch.size('stall', 0, 60) if how == 'stall' else None)

    def route(h, p):
        how = next((w for _b, w in table.values()), 'ok')
        return how if how in ('refused', 'unknown host', 'timeout') else 'ok'
    # --- the server
    form = 'good' if keylog else ch.pick('form', FORMS, [8, 2, 2, 1.5, 2, .5, .5, .5, .5, .7, .7, .5])
    server_route = ch.pick('route', ['ok', 'refused', 'unknown host', 'timeout'], [30, 1, .5, .5])
    opts = dict(suites=ch.shuffle('suites', list(gen.SUITES)), groups=ch.shuffle('groups', list(gen.GROUPS_FAST)), chain=chain, key=keyname,
                alpn=ch.pick('alpn', [[], ['http/1.1'], ['h2', 'http/1.0']]), nst=ch.pick('nst', [0, 1, 2]))
    srv = ref.RefServer(run, opts)
    body = ''.join(ch.pick('b', ['hello ', 'world\n', 'x' * 50]) for _ in range(ch.int('body', 1, 8)))
    response = f'HTTP/1.1 200 OK\r\nContent-Length: {len(body)}\r\n\r\n{body}'.encode()
    at = ch.size('at', 0, 4000) if form in ('flip', 'cut', 'reset', 'stall') else None
    late = form in ('flip', 'cut', 'reset', 'stall') and ch.flip('late', .35)    # after the handshake
    split = ch.flip('split', .3)
    last = [run.now]
    seen = dict(flight=False, broken=False, harmless=False)

    def serve(sock):
        sent = 0
        start = None

        def push(data):
            nonlocal sent, start
            if not data:
                return True
            if late and start is None and srv.complete:
                start = sent
            limit = None if at is None else at if not late else None if start is None else start + at % 90
            if limit is not None and sent + len(data) > limit and not seen['broken']:
                seen['broken'] = True
                run.fault('server ' + form)
                k = max(0, limit - sent)
                if form != 'flip':
                    run.probe({'cut': 'cut', 'reset': 'reset', 'stall': 'stalled'}[form] + (' after' if srv.complete else ' before'))
                if form == 'flip':
                    run.probe('flipped')
                    data = data[:k] + bytes([data[k] ^ 1 << ch.int('bit', 0, 7)]) + data[k + 1:]
                else:
                    sock.sendall(data[:k])
                    last[0] = run.now
                    if form == 'stall':
                        sched.wait(lambda: sock.rx.eof or sock.rx.reset, None, 'stalls')
                    elif form == 'reset':
                        sock.abort()
                    return False
            sock.sendall(data)
            sent += len(data)
            last[0] = run.now
            return True
        try:
            if form == 'mute':
                run.fault('server mute')
                sched.wait(lambda: sock.rx.eof or sock.rx.reset, None, 'mute')
                return
            if form == 'deaf':
                run.fault('server deaf')
                return
            while b'\r\n\r\n' not in srv.app:
                data = sock.recv(65536)
                if not data:
                    return
                if form == 'plain':
                    run.fault('server plain')
                    run.probe('plain answer')
                    sock.sendall(response)
                    last[0] = run.now
                    return
                srv.feed(data)
                if form == 'alert' and srv.state != 'ch' and not seen['broken']:
                    seen['broken'] = True
                    run.fault('server alert')
                    srv.alert(2, ch.pick('alert', [40, 48, 70, 80]))
                if not push(srv.take()):
                    return
                if srv.error:
                    return
            if form == 'no answer':
                run.probe('no answer')
            elif split:
                run.probe('split answer')
                k = ch.int('split at', 1, len(response) - 1)
                srv.write(response[:k])
                if not push(srv.take()):
                    return
                sched.sleep(ch.pick('pause', [0, .5, 4]))
                srv.write(response[k:])
            else:
                srv.write(response)
            if form == 'garbage after':
                srv.raw(run.rand.randbytes(40))
            if form != 'eof':
                srv.close()
            if not push(srv.take()):
                return
            seen['harmless'] = True
            while sock.recv(65536):
                pass
        except OSError:
            pass
        finally:
            sock.close()

    shorty = ch.flip('shorty', .2)

    def faults(sock, op, n):
        if shorty and ch.flip('short', .2):
            run.fault('short ' + op)
            run.probe('short operations')
            return 'short', ch.pick('k', [1, 5, 17, 300])
        return None
    world = World(run, sched, host, port, serve, answer, route, server_route)
    world.faults = faults
    # --- the command
    fetcher = fetch.load(lambda: sched)
    siotls.ocsp_over_http = fetcher
    sys.modules['siotls.ocsp_over_http'] = fetcher
    sys.modules['siotls.trust_store'] = siotls.trust_store = store
    mod = example.load('simple_client', lambda: sched, create_connection=fetch._create_connection)
    sys.modules['siotls.examples.simple_client'] = mod
    siotls.examples.simple_client = mod
    cli = fresh('__main__')
    for k in ('examples.simple_client', 'ocsp_over_http', 'trust_store', '__main__'):
        run.real[k] += 1
    verbosity = ch.pick('verbosity', [[], ['-v'], ['-vv'], ['-s'], ['-ss']], [5, 1, 1, 1, .5])
    tmp = tempfile.TemporaryDirectory(prefix='siotls-sim-')
    argv = ['siotls', *verbosity, 'client', '--host', host, '--port', str(port)]
    if insecure:
        argv.append('--insecure')
        run.probe('insecure')
    if keylog:
        argv += ['--keylogfile', os.path.join(tmp.name, 'keys')]
    result = []
    ended_at = []
    stdout, stderr = Text(), Text()
    siotls.logger.propagate = True
    siotls.logger.setLevel(logging.NOTSET)
    siotls.logger.removeHandler(core.TEXT_HANDLER)
    logging.getLogger().handlers.clear()

    def command():
        sys.argv = argv
        with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr):
            try:
                sys.exit(cli.main())
            except SystemExit as exc:
                # what a shell sees of it
                result.append(0 if exc.code is None else exc.code & 255 if isinstance(exc.code, int) else 1)
        ended_at.append(run.now)
        if world.client is not None and not world.client.closed:
            raise Violation('left open', f'{what()}: the client ended and left its socket open')

    def what():
        return (f'{" ".join(argv[1:])} on {system} {release} trusting {roots}, server {name} with {keyname} ({form}'
                f'{" late" if late else ""} at {at}, {server_route}), statuses {asked}, expected: {verdict}; code {result}; '
                f'{stderr.getvalue()[-600:]}')
    main = sched.spawn('command', command)
    main.rand = random.Random(f'{run.seed}/command')
    began = run.now
    try:
        with world:
            ok = sched.go()
        kept = open(os.path.join(tmp.name, 'keys')).read() if keylog and os.path.exists(os.path.join(tmp.name, 'keys')) else ''
    finally:
        tmp.cleanup()
    run.steps += sched.switches
    if main.exc is not None:
        raise Violation('died', f'{main.exc!r}: {what()}') from main.exc
    if not ok or not result:
        raise Violation('hangs', f'{sched.deadlocked}: {what()}')
    for t in sched.tasks:
        if t is not main and t.exc is not None:
            raise HarnessError(f'{t.name} died: {t.exc!r}') from t.exc
    code = result[0]
    if world.problem:
        raise Violation('request', world.problem)
    took = ended_at[0] - max(last[0], began)
    if took > (6 if not asked else 40):
        raise Violation('slow', f'it ended {took} s after the server last did anything: {what()}')
    if verbosity == ['-v'] or verbosity == ['-vv']:
        run.probe('debug')
    text = stdout.getvalue()
    run.ev('code', code, core.short(text.encode()), core.short(bytes(srv.app)))
    run.st(form, late, verdict, code, insecure, bool(asked), server_route, odd)
    if world.client is not None:
        wire = bytes(world.client.tx.total)
        for needle in (b'GET ', b'Host:', b'User-Agent'):
            if needle in wire:
                raise Violation('in clear', f'the request left unprotected: {what()}')
        if odd and not insecure:
            raise Violation('trusts', f'it connected without a trust store: {what()}')
    got = bytes(srv.app)
    if verdict == c04.NO:
        run.probe('not authenticated')
        if got:
            raise Violation('trusts', f'the server that must not be trusted got {got[:80]!r}: {what()}')
        if code == 0:
            raise Violation('lies', f'success is reported: {what()}')
    request = re.compile(rb'GET / HTTP/1\.1\r\nHost: ' + re.escape(host.encode()) + rb'\r\n(?:[!-~]+: [ -~]*\r\n)*\r\n')
    if got and not request.fullmatch(got) and (not seen['broken'] or len(got) > 1000):
        raise Violation('request', f'the server got {got!r}: {what()}')
    if code == 0 and not got and not seen['broken']:
        raise Violation('lies', f'success is reported although no request arrived: {what()}')
    # what it printed of the answer comes from the answer
    shown = text
    if verbosity in (['-v'], ['-vv']) and text.startswith('GET / HTTP/1.1\r\n'):
        shown = text.split('\r\n\r\n', 1)[-1].lstrip('\n')
    if verbosity in (['-s'], ['-ss']) and text:
        raise Violation('noise', f'silent, it printed {text!r}')
    if shown.strip() and not response.decode().strip().startswith(shown.strip()):
        raise Violation('lies', f'it printed {shown!r}, the answer is {response!r}: {what()}')
    if verdict == c04.YES and server_route == 'ok' and form == 'good':
        if code != 0:
            raise Violation('fails', f'a good server is not reached: {what()}')
        run.probe('answered')
        if not insecure:
            run.probe('authenticated')
        if not verbosity and not shown.strip():
            raise Violation('lies', f'the answer was not printed: {what()}')
    if verdict == c04.YES and form == 'good' and server_route != 'ok':
        run.probe('unreachable')
        if code == 0:
            raise Violation('lies', f'success with an unreachable server: {what()}')
    if form in ('plain', 'mute', 'deaf', 'alert') and code == 0:
        raise Violation('lies', f'success with a server that did not do its handshake: {what()}')
    if verbosity in (['-s'], ['-ss']):
        run.probe('silent')
    everything = text + stderr.getvalue()
    for label, secret in srv.keylog.items():
        if secret is not None and secret.hex() in everything.lower():
            raise Violation('secret', f'{label} is printed: {what()}')
    if keylog:
        return dict(code=code, kept=kept, keys={k: v.hex() for k, v in srv.keylog.items() if v is not None}, verdict=verdict,
                    ok=server_route == 'ok', what=what())


def keylogged(run):
    """--keylogfile"""
    fetch.warm()
    out = fork.isolated(run, lambda r: inside(r, True))
    if out['code'] == 0:
        for label, secret in out['keys'].items():
            if not any(line.split()[:1] == [label] and line.split()[2:] == [secret] for line in out['kept'].splitlines()):
                raise Violation('key log' if out['kept'] else 'empty key log', f'{label} is not in the key log file, which has {len(out["kept"])} characters: {out["what"]}')


SCENARIOS = [('command', 12, play), ('keylog', .2, keylogged)]
