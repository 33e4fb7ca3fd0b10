"""C04: an authenticating client only connects to a peer that proves a trusted identity."""
import datetime

from cryptography import x509
from cryptography.hazmat.primitives import serialization
from cryptography.x509.oid import ExtendedKeyUsageOID, ExtensionOID

from sim import core, gen, pairs, pki, ref, status
from sim.core import Violation
from sim.ep import CUTS, EP, settle

RULE = ('One run: one authenticating real client against one reference server whose certificates, keys, signatures, '
        'certificate status and clock are chosen by the seed; the outcome is compared with an independent model of '
        'who may be trusted.')
QUICK = 36000
THOROUGH = 900000
STUBS = ['server: reference peer', 'certificate status service: scripted', 'clock: simulated']
PROBES = ['accepted', 'rejected', 'staple accepted', 'staple rejected', 'revoked', 'too deep', 'wrong host',
          'expired', 'stolen certificate', 'rpk accepted', 'rpk rejected', 'service accepted', 'service rejected',
          'internationalized', 'an earlier connection', 'an earlier connection that was made']

YES, NO, MAYBE = 'must connect', 'must fail', 'may do either'


# -- independent model of chain validity -------------------------------------------------------
def _ext(c, oid):
    try:
        return c.extensions.get_extension_for_oid(oid).value
    except x509.ExtensionNotFound:
        return None


def _issued(c, issuer):
    try:
        c.verify_directly_issued_by(issuer)
        return True
    except Exception:
        return False


def _time(c, now):
    nb, na = c.not_valid_before, c.not_valid_after
    if now in (nb, na):
        return None
    return nb < now < na


def host_ok(c, host):
    san = _ext(c, ExtensionOID.SUBJECT_ALTERNATIVE_NAME)
    if san is None:
        return False
    if host[0].isdigit():
        return host in [str(i) for i in san.get_values_for_type(x509.IPAddress)]
    a = host.encode('idna').decode() if not host.isascii() else host
    for name in san.get_values_for_type(x509.DNSName):
        if name.lower() == a.lower():
            return True
        if name.startswith('*.') and a.split('.', 1)[1:] == [name[2:]]:
            return True
    return False


def paths(leaf, pool, roots, seen=()):
    """every chain leaf..root that the signatures allow"""
    for r in roots:
        if leaf == r:
            yield [leaf]
        elif _issued(leaf, r):
            yield [leaf, r]
    for c in pool:
        if c != leaf and c not in seen and c not in roots and _issued(leaf, c):
            for p in paths(c, pool, roots, seen + (leaf,)):
                yield [leaf] + p


def path_ok(p, now, depth):
    fuzzy = False
    for i, c in enumerate(p):
        t = _time(c, now)
        if t is None:
            fuzzy = True
        elif not t:
            return NO
        if i:
            bc = _ext(c, ExtensionOID.BASIC_CONSTRAINTS)
            if bc is None or not bc.ca:
                return NO
            if bc.path_length is not None and i - 1 > bc.path_length:
                return NO
    if len(p) - 2 > depth:
        return NO
    return MAYBE if fuzzy else YES


def chain_verdict(chain, roots, now, depth, host):
    """-> (verdict, the valid paths)"""
    leaf = chain[0]
    eku = _ext(leaf, ExtensionOID.EXTENDED_KEY_USAGE)
    if eku is not None and ExtendedKeyUsageOID.SERVER_AUTH not in eku:
        if host is not None:
            return NO, []
    bc = _ext(leaf, ExtensionOID.BASIC_CONSTRAINTS)
    if bc is not None and bc.ca:
        return NO if host and not host_ok(leaf, host) else MAYBE, []
    if host is not None and not host_ok(leaf, host):
        return NO, []
    good = []
    verdict = NO
    for p in paths(leaf, chain[1:], roots):
        v = path_ok(p, now, depth)
        if v != NO:
            good.append(p)
        if v == YES or verdict == YES:
            verdict = YES
        elif v == MAYBE:
            verdict = MAYBE
    if host is None and verdict == YES:
        verdict = MAYBE      # without a name the library checks for another purpose
    return verdict, good


def both(a, b):
    return NO if NO in (a, b) else MAYBE if MAYBE in (a, b) else YES


# -- scenario --------------------------------------------------------------------------------
ROOTS = {'A': ['rootA'], 'AB': ['rootA', 'rootB'], 'B': ['rootB']}
CLEAN = ['leaf-ec256', 'leaf-ec384', 'leaf-ec521', 'leaf-rsa', 'leaf-ed25519', 'leaf-ed448', 'leaf-direct',
         'leaf-B', 'leaf-ocsp', 'leaf-ocspdirect', 'leaf-deep0', 'leaf-deep2', 'leaf-idn', 'leaf-ocspdirect-root']
DIRTY = ['leaf-other', 'leaf-expired', 'leaf-notyet', 'leaf-short', 'leaf-evil', 'leaf-evilA', 'leaf-evil-root',
         'leaf-evilA-plus', 'leaf-self', 'leaf-clienteku', 'leaf-notca', 'leaf-intexp', 'leaf-nosan',
         'leaf-pathlen', 'leaf-deep4', 'leaf-deep5', 'leaf-deep7', 'leaf-revoked', 'leaf-B', 'leaf-ocsprevoked']
CLOCKS = [core.EPOCH, core.EPOCH, core.EPOCH, core.EPOCH, core.EPOCH + 86400, core.EPOCH - 120 * 86400,
          core.EPOCH + 120 * 86400, core.EPOCH - 200 * 86400, core.EPOCH + 250 * 86400]


def issuer_of(cert):
    for name, c in pki.C.items():
        if c != cert and c.subject == cert.issuer and _issued(cert, c):
            return name, c
    for name, c in pki.C.items():
        if c == cert:
            return name, c
    return None, None


def before(run, c, config, i):
    ch = run.ch
    host = None
    name = 'leaf-ec256'
    if c.store:
        host = ch.pick('b.host', [pki.HOST, pki.HOST, pki.IP, 'x.wild.sim', pki.HOST2, pki.IDN, '192.0.2.7', None])
        name = ch.pick('b.chain', ['leaf-ec256', 'leaf-other', 'leaf-B', 'leaf-idn', 'leaf-evil', 'leaf-direct', 'leaf-short'])
    run.now = ch.pick('b.clock', [core.EPOCH] + CLOCKS)
    o = dict(suites=c.suites, groups=c.groups, chain=list(pki.CHAINS[name]),
             key=pki.KEYOF.get(name) or pki.KEYOF[next(n for n, x in pki.C.items() if x == pki.CHAINS[name][0])])
    if c.trusted and (not c.store or ch.flip('b.rpk')):
        o.update(prefer_rpk=True, rpk=True, key=ch.pick('b.key', [c.trusted[0], 'ec256:evil']))
    client = EP(run, f'earlier{i}', config, host, None)
    server = ref.RefServer(run, o)
    client.start()
    settle(run, client, server)
    if client.connected or client.ever_connected:
        run.probe('an earlier connection that was made')
        if ch.flip('b.close'):
            client.close_send()


def scenario(run):
    ch = run.ch
    # mostly a single thing is wrong, so that nothing else hides whether it is noticed
    focus = ch.pick('focus', ['chain', 'all', 'clock', 'crl', 'depth', 'host', 'twist', 'sig', 'status', 'rpk', 'type'],
                    [2, 2, 1, 1, 1, 1, 1, 2, 4, 1, .3])
    run.sig.append(focus)

    def pk(aspect, label, seq, weights=None):
        return ch.pick(label, seq, weights) if focus in ('all', aspect) else seq[0]
    # --- the client
    auth = ch.pick('auth', ['rpk', 'both']) if focus == 'rpk' else \
        ch.pick('auth', ['store', 'both', 'rpk', 'none'], [8, 2, 2, .7] if focus in ('all', 'sig', 'type') else [8, 2, 0, 0])
    c = gen.client(run, auth=auth, ff=False, simple=focus != 'all' or ch.flip('simple', .7))
    if focus == 'sig':
        c.sigs = ch.shuffle('c.sigs.order', ch.subset('c.sigs', gen.SIGS_ALL, .7)) or list(gen.SIGS)
    elif focus != 'all':
        c.sigs = list(gen.SIGS)
    if c.store:
        c.store = pk('chain', 'store', ['AB', 'A', 'B'], [4, 2, 1])
        c.host = pk('host', 'host', [pki.HOST, pki.IP, 'x.wild.sim', pki.HOST2, pki.IDN, 'a.b.wild.sim', '192.0.2.7',
                                     'SERVER.sim', None, pki.IDN_CAPITALS], [10, 2, 2, 1, 1, .5, .5, .5, .5, .5])
        c.depth = pk('depth', 'depth', [5, 0, 1, 2, 3, 8], [6, 1, 1, 1, 1, 1])
        c.crl = pk('crl', 'crl', [None, 'leaf', 'int', 'empty', 'unrelated', 'deep', 'deep1'], [5, 2, 1, 1, 1, .7, .7])
    jump = pk('clock', 'clock', CLOCKS)
    late = ch.flip('late jump', .3)
    if not late:
        run.now = jump
    if jump != core.EPOCH:
        run.fault('clock jump')
    # --- what the server presents
    form = ch.pick('form', ['x509', 'rpk'], [4, 1] if auth in ('store', 'none') else [1, 1])
    if focus == 'rpk':
        form = 'rpk'
    elif focus == 'type':
        form = 'x509' if auth == 'rpk' else form
    elif focus != 'all':
        form = 'x509' if c.store else form
    verdict = YES
    why = []
    o = {}
    if focus == 'chain':
        name = ch.pick('chain', CLEAN + DIRTY)
    elif focus == 'depth':
        name = ch.pick('chain', ['leaf-ec256', 'leaf-direct'] + [f'leaf-deep{i}' for i in range(8)])
    elif focus == 'crl':
        name = ch.pick('chain', ['leaf-ec256', 'leaf-revoked', 'leaf-B', 'leaf-direct', 'leaf-deep1', 'leaf-deep2'])
    elif focus == 'clock':
        name = ch.pick('chain', ['leaf-ec256', 'leaf-expired', 'leaf-notyet', 'leaf-short', 'leaf-intexp'])
    elif focus == 'host':
        name = ch.pick('chain', ['leaf-ec256', 'leaf-other', 'leaf-idn', 'leaf-nosan'])
    elif focus == 'status':
        name = ch.pick('chain', ['leaf-ocsp', 'leaf-ocspdirect', 'leaf-ec256', 'leaf-B', 'leaf-ocspdirect-root', 'leaf-ec521'])
    elif focus == 'all':
        name = ch.pick('chain', [None] + CLEAN + DIRTY) or 'leaf-ec256'
    else:
        name = ch.pick('chain', CLEAN[:8])
    if c.host in (pki.IDN, pki.IDN_CAPITALS) and ch.flip('idn', .7):
        name = 'leaf-idn'
    chain = list(pki.CHAINS[name])
    keyname = pki.KEYOF.get(name) or pki.KEYOF[next(n for n, x in pki.C.items() if x == chain[0])]
    leafkey = keyname
    twist = pk('twist', 'twist', ['none', 'no-intermediates', 'shuffled', 'extra', 'stolen', 'stolen-second',
                              'leaf-second', 'duplicate'], [9, 1, 1, 1, 1.5, 1, .5, .5])
    if form == 'rpk':
        twist = 'none'
        o['prefer_rpk'] = o['rpk'] = True
        keyname = pk('rpk', 'rpkkey', [c.trusted[0] if c.trusted else 'ec256:rpk','ec256:rpk', 'ed25519:rpk', 'rsa:2', 'ec256:evil', 'ed25519:evil'])
    if twist == 'no-intermediates':
        chain = chain[:1]
    elif twist == 'shuffled':
        chain = chain[:1] + ch.shuffle('shuffle', chain[1:])
    elif twist == 'extra':
        chain += [pki.C[x] for x in ch.subset('extras', ['intB', 'rootA', 'evilroot', 'intA0', 'evilA'], .4)]
    elif twist == 'stolen':
        # someone else's certificate, without its key
        kind = keyname.split(':')[0]
        keyname = {'ec256': 'ec256:evil', 'ec384': 'ec384:rootB', 'ec521': 'ec521:evil', 'rsa': 'rsa:1',
                   'ed25519': 'ed25519:evil', 'ed448': 'ed448:evil'}[kind]
        run.probe('stolen certificate')
        verdict, why = NO, ['key']
    elif twist == 'stolen-second':
        # own worthless certificate first, a good chain behind it
        chain = [pki.C['leaf-evil']] + list(pki.CHAINS['leaf-ec256'])
        keyname = 'ec256:evilleaf'
    elif twist == 'leaf-second':
        chain = [pki.C['intA']] + chain
        keyname = 'ec256:intA'
    elif twist == 'duplicate':
        chain = chain[:1] + chain
    if twist != 'none':
        run.fault('chain ' + twist)
    o.update(chain=chain, key=keyname)
    # --- negotiated certificate type
    types = ([0] if c.store else []) + [2] if c.trusted else [0]
    if form == 'rpk' and 2 not in types:
        form = 'x509'
        o['prefer_rpk'] = o['rpk'] = False
        keyname = o['key'] = leafkey
    if form == 'x509' and 0 not in types:
        # a raw public key is demanded: an X.509 server cannot satisfy this client
        verdict = NO
        why.append('type')
        run.fault('x509 to a raw key client')
    if c.store and form == 'x509':
        roots = [pki.C[r] for r in ROOTS[c.store]]
        when = core.utcdt(jump)
        v, good = chain_verdict(chain, roots, when, c.depth, c.host)
        if v != YES:
            why.append('chain')
        verdict = both(verdict, v)
        if c.crl and good:
            rev = [any(pki.CRLS[c.crl].get_revoked_certificate_by_serial_number(x.serial_number) for x in p)
                   for p in good]
            if all(rev):
                verdict = NO
                why.append('revoked')
                run.probe('revoked')
            elif any(rev):
                verdict = both(verdict, MAYBE)
    elif c.trusted and form == 'rpk':
        if keyname not in c.trusted:
            verdict = NO
            why.append('untrusted key')
            run.fault('untrusted key')
    good = locals().get('good', [])
    # --- the signature
    sigtwist = pk('sig', 'sig', ['good', 'other-content', 'client-context', 'old-transcript', 'flipped', 'unoffered',
                               'unfit', 'pkcs1', 'empty', 'other-scheme-id'], [14, 1, 1, 1, 1, 1, 1, 1, .5, 1])
    kind = keyname.split(':')[0]
    offered = [s for s in c.sigs if s in ref.SIG_FOR[kind]]
    if not offered:
        verdict = NO if sigtwist != 'unoffered' else verdict
        why.append('no common scheme')
    server = None

    class Server(ref.RefServer):
        def cv_content(self):
            base = super().cv_content()
            if sigtwist == 'other-content':
                return base[:-1] + bytes([base[-1] ^ 1])
            if sigtwist == 'client-context':
                return base.replace(b'server Cert', b'client Cert')
            if sigtwist == 'old-transcript':
                return ref.CV_SERVER + ref.hashlib.new(ref.SUITES[self.suite][0], self.ch_raw).digest()
            return base

        def b_CertificateVerify(self):
            fit = ref.SIG_FOR[kind]
            if sigtwist == 'unoffered':
                alt = [s for s in fit if s not in c.sigs]
                self.sig = alt[0] if alt else self.cv_scheme()
            elif sigtwist == 'pkcs1' and kind == 'rsa':
                self.sig = 0x0401
            else:
                self.sig = self.cv_scheme()
            if self.sig is None:
                self.sig = fit[0]
            sig = ref.sign(keyname, self.sig, self.cv_content())
            sid = self.sig
            if sigtwist == 'flipped':
                b = bytearray(sig)
                b[ch.int('sigbyte', 0, len(b) - 1)] ^= 1 << ch.int('sigbit', 0, 7)
                sig = bytes(b)
            elif sigtwist == 'empty':
                sig = b''
            elif sigtwist == 'unfit' and kind.startswith('ec'):
                # another curve's scheme, honestly signed with this key
                sid = {0x0403: 0x0503, 0x0503: 0x0603, 0x0603: 0x0403}[self.sig]
                sig = pki.key(keyname).sign(self.cv_content(), ref.ec.ECDSA(ref.SIG_HASH[sid](), deterministic_signing=True))
            elif sigtwist == 'unfit' and kind == 'rsa':
                sid = {0x0804: 0x0809, 0x0805: 0x080a, 0x0806: 0x080b}[self.sig]
            elif sigtwist == 'other-scheme-id':
                sid = ch.pick('sid', [s for s in c.sigs if s != self.sig] or [0x0807])
            return ref.hsmsg(ref.CV, ref.u(2, sid) + ref.vec(2, sig))
    if sigtwist in ('other-content', 'client-context', 'old-transcript', 'flipped', 'empty'):
        verdict = NO
        why.append('signature')
    elif sigtwist == 'unoffered' and (not offered or [s for s in ref.SIG_FOR[kind] if s not in c.sigs]):
        verdict = NO
        why.append('scheme not offered')
    elif sigtwist in ('unfit', 'pkcs1') and (kind == 'rsa' or (sigtwist == 'unfit' and kind.startswith('ec'))):
        verdict = NO
        why.append('scheme unfit')
    elif sigtwist == 'other-scheme-id':
        verdict = NO
        why.append('scheme mislabelled')
    if sigtwist != 'good':
        run.fault('signature ' + sigtwist)
    # --- certificate status
    ocsp = None
    st = 'none'
    leaf = chain[0] if chain else None
    if form == 'x509' and c.store and (focus == 'status' or focus == 'all' and ch.flip('status', .4)):
        iname, icert = issuer_of(chain[0])
        st = ch.pick('staple', status.GOOD + status.BAD)
        where = ch.pick('status.where', ['staple', 'service'])
        subject = chain[0]
        if focus == 'status' and where == 'staple' and len(chain) > 1 and chain[1] != pki.C['rootA'] and ch.flip('status.int', .25):
            # the status of the intermediate instead
            subject = chain[1]
            iname, icert = issuer_of(subject)
            o['staple_at'] = 1
            run.fault('status of an intermediate')
        ikey = pki.KEYOF[iname]
        has_url = any(str(getattr(d.access_location, 'value', '')) for d in (_ext(chain[0], ExtensionOID.AUTHORITY_INFORMATION_ACCESS) or []))
        raises = where == 'service' and ch.flip('service.raise', .15)
        answer, until = status.make(run, st, subject, icert, ikey, leafkey, now=jump)
        bad = st in status.BAD or raises
        if where == 'staple':
            o['staple'] = answer
        else:
            def reply(url, req):
                if raises:
                    raise ch.pick('service.exc', [OSError('unreachable'), TimeoutError('slow'), ValueError('bad url'),
                                                  RuntimeError('nope')])
                return answer
            ocsp = status.Service(run, reply)
        # what the status of the leaf must do, whatever path is taken
        if (where == 'staple' or has_url) and good:
            if bad:
                verdict = NO
                why.append(f'status {st}')
            if not any((subject, icert) in zip(p, p[1:]) for p in good):
                verdict = both(verdict, MAYBE)
        run.fault(f'{where} {st}')
    # --- run it
    host = c.host
    config = gen.build(c)
    # earlier connections under the same configuration, to other hosts, at other times, to other servers
    if ch.flip('history', .3 if focus in ('host', 'chain', 'clock', 'rpk') else .12):
        back = run.now
        for i in range(ch.pick('earlier', [1, 2], [3, 1])):
            before(run, c, config, i)
        run.now = back
        run.probe('an earlier connection')
    client = EP(run, 'client', config, host, ocsp)
    so = dict(suites=c.suites, groups=c.groups)
    so.update(o)
    if ch.flip('wider groups', .3):
        so['groups'] = [g for g in (ref.P384, ref.X448) if g in c.groups] + c.groups
    server = Server(run, so)
    eager = ch.flip('eager data', .5)
    wrote = bytearray()

    def tap(d, data):
        if d == 1 and server.state == 'fin' and eager and not wrote and server.wr is not None:
            # the server may talk right after its flight: none of it may be delivered to a
            # client that does not trust it
            wrote.extend(b'too early, too eager')
            server.write(bytes(wrote))
            data += server.take()
        if d == 1 and late:
            run.now = jump
        return data
    client.start()
    settle(run, client, server, (ch.pick('style', CUTS[:3]), ch.pick('style', CUTS[:3])), tap=tap)
    connected = client.connected or client.ever_connected
    desc = lambda: (f'{verdict} ({", ".join(why)}) but connected={connected}: {c}; presents {form} {name} twist={twist} key={keyname} '
                    f'signature={sigtwist} status={st} clock={core.utcdt(jump)}; errors {[repr(e) + " / " + repr(e.__cause__) for e in client.errors]}; '
                    f'server {server.error}')
    run.st(auth, form, name, twist, sigtwist, st, c.crl, verdict)
    if verdict == NO:
        run.probe('rejected')
        if connected:
            raise Violation('impostor', desc())
        if client.rcvd:
            raise Violation('impostor data', desc())
        if client.write(b'secret'):
            raise Violation('impostor write', desc())
        if not client.errors:
            raise Violation('undecided', desc())
    elif verdict == YES:
        run.probe('accepted')
        if not connected or client.errors:
            raise Violation('refused', desc())
        server.write(b'hello')
        settle(run, client, server)
        if bytes(client.rcvd) != bytes(wrote) + b'hello':
            raise Violation('refused', 'data does not flow: ' + desc())
    else:
        run.probe('either')
    for w in why:
        if w == 'chain':
            if c.host and not host_ok(chain[0], c.host):
                run.probe('wrong host')
            elif any(_time(x, core.utcdt(jump)) is False for x in chain):
                run.probe('expired')
            elif len(chain) > c.depth + 1:
                run.probe('too deep')
    if st != 'none':
        run.probe(f'{where} ' + ('accepted' if connected else 'rejected'))
    if form == 'rpk':
        run.probe('rpk ' + ('accepted' if connected else 'rejected'))
    if connected and c.host in (pki.IDN, pki.IDN_CAPITALS):
        run.probe('internationalized')


SCENARIOS = [('identity', 1, scenario)]
