"""C02: compatible peers complete the handshake and agree on everything negotiated."""
from sim import ffx, gen, pairs, pki, ref
from sim.core import Violation
from sim.ep import CUTS, EP, settle

RULE = ('One run: one pair of generated configurations (real/real, reference client/real server, real '
        'client/reference server), one handshake over an untampered network, compared with an independent '
        'model of what the pair must settle on.')
QUICK = 26000
THOROUGH = 600000
STUBS = ['network: in-memory byte queues', 'in two thirds of the runs one end is the reference peer']
PROBES = ['retry', 'mismatch suite', 'mismatch group', 'mismatch signature', 'mismatch alpn',
          'mismatch certificate type', 'leading zero', 'several shares', 'no share', 'cookie', 'session id',
          'rpk', 'mfl', 'unknown values', 'named', 'unnamed', 'huge hello']

# what a client may be asked to reach, and the name it tells the server
NAMES = {None: None, pki.IP: None, '2001:db8::1': None, pki.HOST: b'server.sim', 'SERVER.sim': b'server.sim', 'localhost': b'localhost',
         'a-very.long-name.with.many.labels.sim': b'a-very.long-name.with.many.labels.sim',
         pki.IDN: b'xn--bcher-kva.sim', pki.IDN_CAPITALS: b'xn--bcher-kva.sim'}

# extensions any conforming client may send and a server may ignore
EXTRA = [(0x0a0a, b''), (0xfff3, b'abc'), (23, b''), (0xff01, b'\0'), (35, b''), (11, b'\x01\0'),
         (21, b'\0' * 37), (45, b'\x01\x01'), (18, b''), (27, b'\x02\0\x02'), (28, b'\x40\x01'),
         (49, b''), (14, b'\0\x02\0\x01\0'), (50, b'\0\x04\x04\x03\x08\x04'),
         (47, b'\0\x05\0\x03\x30\x01\0'), (17513, b'\0\x03\x02h2'), (57, b'')]


def quirks_client(run, c):
    """everything a conforming client is free to do"""
    ch = run.ch
    o = {}
    if ch.flip('q.grease', .35):
        o['grease'] = True
        run.fault('unknown values')
        run.probe('unknown values')
    if ch.flip('q.sid', .4):
        o['session_id'] = run.rand.randbytes(ch.pick('q.sidlen', [32, 1, 8, 31]))
        run.fault('session id')
        run.probe('session id')
    s = ch.pick('q.shares', ['first', 'some', 'all', 'none', 'last'], [4, 2, 1, 1, 1])
    if s == 'some':
        o['shares'] = ch.subset('q.share', c.groups, .5)
    elif s == 'all':
        o['shares'] = list(c.groups)
    elif s == 'none':
        o['shares'] = []
        run.probe('no share')
    elif s == 'last':
        o['shares'] = c.groups[-1:]
    if s != 'first':
        o['shares'] = [g for g in o['shares'] if g not in gen.GROUPS_SLOW]
        run.fault('shares-' + s)
        if len(o['shares']) > 1:
            run.probe('several shares')
    if ch.flip('q.extra', .35):
        o['extra_exts'] = ch.shuffle('q.exts', ch.subset('q.ext', EXTRA, .3))
        for t, _ in o['extra_exts']:
            run.fault(f'extension {t}')
    if ch.flip('q.huge', .03):
        # over one record, and with the suites over what two bytes count
        o['extra_exts'] = o.get('extra_exts', []) + [(0xfafa, bytes(ch.pick('q.hugeext', [16000, 17000, 60000])))]
        o['more_suites'] = ch.pick('q.hugesuites', [0, 100, 32000])
        run.fault('huge hello')
        run.probe('huge hello')
    if ch.flip('q.status', .3):
        o['status'] = not c.store
    if ch.flip('q.versions', .25):
        o['versions'] = ch.shuffle('q.vers', [0x0304, 0x0303, 0x0302, 0x7f1c])
        run.fault('versions')
    return o


def quirks_server(run, c, s):
    ch = run.ch
    o = {}
    if ch.flip('q.hrr', .3):
        o['force_hrr'] = True
        if ch.flip('q.cookie', .5):
            o['cookie'] = run.rand.randbytes(ch.pick('q.cookielen', [1, 32, 600]))
        run.fault('forced retry')
    if ch.flip('q.nomfl', .3):
        o['mfl_ok'] = False
        if c.mfl != 16384:
            run.fault('limit not granted')
    if ch.flip('q.sni_ack', .3) and c.host and not c.host[0].isdigit():
        o['sni_ack'] = True
    o['nst'] = ch.pick('q.nst', [0, 1, 2], [4, 1, 1])
    if o['nst']:
        o['nst_exts'] = ch.pick('q.nstexts', [b'', ref.ext(42, b'\0\0\x40\0'), ref.ext(0x3a3a, b'grease'),
                                              ref.ext(0x3a3a, b'') + ref.ext(42, b'\xff' * 4)])
    if s.chain and s.rpk and ch.flip('q.prpk', .3):
        o['prefer_rpk'] = True
    return o


def leading_zero(run, mode, c, s, copts, sopts, deal):
    """force finite field values that start with a zero byte"""
    g = deal.group
    if g not in ffx.Y or not run.ch.flip('ffx', .5):
        return
    kind = run.ch.pick('ffx.kind', ['yc', 'ys', 'z'])
    if kind == 'z':
        a, b = run.ch.pick('ffx.z', ffx.Z[g])
    else:
        y = run.ch.pick('ffx.y', ffx.Y[g])
        other = 12345678901234567890123456789012345678901234567890 ** 2
        a, b = (y, other) if kind == 'yc' else (other, y)
    # the client may first make a share of another finite field group (or a share it retries)
    if mode == 'rr':
        if deal.retry and c.groups[0] in ref.FF_P:
            run.dh_queue += [a]
        run.dh_queue += [a, b]
    elif mode == 'cr':
        copts['ff_x'] = a
        run.dh_queue += [b]
    else:
        first = sopts.get('force_hrr') or c.groups[0] != g
        if first and c.groups[0] in ref.FF_P:
            run.dh_queue += [a]
        run.dh_queue += [a]
        sopts['ff_x'] = b
    run.fault('leading zero ' + kind)
    run.probe('leading zero')


def ref_summary(p):
    return dict(suite=p.suite, group=p.group, sig=p.sig, alpn=p.alpn, mfl=p.mfl or 16384, cert_type=p.cert_type)


def state(x):
    return f'{x.name} ' + pairs.why(x)


def scenario(run):
    ch = run.ch
    mode = ch.pick('mode', ['rr', 'cr', 'sr'])
    tune = ch.pick('pairing', ['any', 'compatible', 'nearly', 'ff'], [2, 5, 1, .5])
    if tune == 'compatible':
        c, s, _ = pairs.compatible(run, ff=True)
    elif tune == 'ff':
        c, s, _ = pairs.compatible(run)
        s.groups = [ch.pick('ffgroup', gen.GROUPS_FF)]
        c.groups = ch.pick('ffwith', [[], [ref.X25519], [ref.FF2048]])
        c.groups = [g for g in c.groups if g not in s.groups] + s.groups
    else:
        c = gen.client(run)
        s = gen.server(run)
        if tune == 'nearly':
            # disjoint in exactly one respect
            c, s, _ = pairs.compatible(run)
            what = ch.pick('miss', ['suites', 'groups', 'sigs', 'alpn'])
            if what == 'alpn':
                c.alpn, s.alpn = ['h2', 'imap'], ['http/1.1']
            else:
                mine = getattr(s, what)
                left = [x for x in getattr(c, what) if x not in mine]
                pool = {'suites': gen.SUITES, 'groups': gen.GROUPS_FAST, 'sigs': gen.SIGS}[what]
                setattr(c, what, left or [x for x in pool if x not in mine][:2] or getattr(c, what))
                run.fault('disjoint ' + what)
    if not c.store and ch.flip('odd host', .4):
        c.host = ch.pick('host', list(NAMES))
    copts = quirks_client(run, c) if mode == 'cr' else {}
    sopts = quirks_server(run, c, s) if mode == 'sr' else {}
    shares = copts.get('shares')
    deal = gen.deal(c, s, shares)
    leading_zero(run, mode, c, s, copts, sopts, deal)
    client, server = pairs.make(run, mode, c, s, copts=copts, sopts=sopts)
    styles = (ch.pick('style', CUTS[:3]), ch.pick('style', CUTS[:3]))
    client.start()
    rounds = settle(run, client, server, styles)
    both = client.connected and server.connected
    desc = lambda: f'{pairs.MODES[mode]}; {c}; {s}; {copts}; {sopts}; {deal}; {state(client)}; {state(server)}'
    run.st(mode, deal.ok, deal.why, deal.retry, deal.group, deal.suite, deal.sig)

    if mode == 'sr' and c.host in NAMES and server.ch:
        told = server.ch['sni']
        if (told and told.lower()) != NAMES[c.host]:
            raise Violation('name', f'asked for {c.host!r}, the client names {told!r} to the server: {desc()}')
        run.probe('named' if told else 'unnamed')
    if mode == 'sr':
        # the reference server ignores protocols it does not share
        ok = deal.ok or deal.why == 'alpn'
        if sopts.get('prefer_rpk') and c.trusted and s.rpk:
            ok = deal.why in ('', 'alpn', 'untrusted key') and s.key in c.trusted
            if deal.why in ('suite', 'group', 'signature'):
                ok = False
        elif deal.why == 'alpn':
            d2 = gen.deal(c, gen.dataclasses.replace(s, alpn=[]), shares)
            ok = d2.ok
        want = ref_summary(server) if ok else None
    else:
        ok = deal.ok
        want = gen.expected(deal) if ok else None
        if mode == 'cr' and deal.why == 'untrusted key':
            ok, want = None, None      # the reference client trusts any key
    if deal.retry:
        run.probe('retry')
        run.fault('retry')
    if ok is False:
        run.probe('mismatch ' + (deal.why or 'key'))
        run.fault('mismatch')
        for x in (client, server):
            if isinstance(x, EP) and (x.connected or x.ever_connected):
                raise Violation('mismatch-connected', f'{x.name} connected although the two ends share no '
                                f'{deal.why}: {desc()}')
        if mode == 'rr':
            for x in (client, server):
                if not x.errors:
                    raise Violation('mismatch-silent', f'{x.name} did not fail: {desc()}')
        elif mode == 'cr' and not server.errors:
            raise Violation('mismatch-silent', f'the server did not fail: {desc()}')
        return
    if ok is None:
        return
    if not both:
        raise Violation('incomplete', f'the handshake of two compatible peers did not complete: {desc()}')
    for x in (client, server):
        if isinstance(x, EP):
            got = gen.summary(x.nconfig)
            if got != want:
                raise Violation('disagree', f'{x.name} reports {got} instead of {want}: {desc()}')
        else:
            got = ref_summary(x)
            if mode == 'cr' and got != want:
                raise Violation('disagree', f'the client was given {got} instead of {want}: {desc()}')
    if mode == 'sr' and deal.ok and not sopts.get('force_hrr') and not sopts.get('prefer_rpk'):
        exp = gen.expected(deal)
        if sopts.get('mfl_ok') is False:
            exp['mfl'] = 16384
        if want != exp:
            raise Violation('offer', f'the client did not offer what it is configured for: settled on {want} '
                            f'instead of {exp}: {desc()}')
    if want['cert_type'] == 2:
        run.probe('rpk')
    if want['mfl'] != 16384:
        run.probe('mfl')
    if sopts.get('cookie') and server.hrr:
        run.probe('cookie')
    # the keys really are the same ones, both ways
    for src, dst in ((client, server), (server, client)):
        msg = run.rand.randbytes(ch.int('msg', 1, 40))
        src.write(msg)
        settle(run, client, server, styles)
        if bytes(dst.rcvd) != msg:
            raise Violation('keys', f'what {src.name} wrote right after the handshake did not arrive: {desc()}')


SCENARIOS = [('negotiate', 1, scenario)]
