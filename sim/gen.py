"""Generated configurations, and an independent model of what two of them must settle on."""
import dataclasses

from . import pki, ref

SUITES = [0x1301, 0x1302, 0x1303]
GROUPS_FAST = [ref.X25519, ref.P256, ref.P384, ref.P521, ref.X448]
GROUPS_FF = [ref.FF2048, ref.FF3072, ref.FF4096]
GROUPS_SLOW = [ref.FF6144, ref.FF8192]
SIGS = [0x0807, 0x0808, 0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806]
SIGS_ALL = SIGS + [0x0809, 0x080a, 0x080b, 0x0401, 0x0501, 0x0601]
ALPNS = ['h2', 'http/1.1', 'http/1.0', 'imap', 'dot']
MFLS = [16384, 512, 1024, 2048, 4096]
LEAFS = ['leaf-ec256', 'leaf-ec384', 'leaf-ec521', 'leaf-rsa', 'leaf-ed25519', 'leaf-ed448',
         'leaf-direct', 'leaf-B', 'leaf-deep1']


@dataclasses.dataclass
class Spec:
    """plain data from which either the real configuration or a reference peer is built"""
    side: str
    suites: list
    groups: list
    sigs: list
    alpn: list
    # client
    store: str | None = None
    trusted: list = dataclasses.field(default_factory=list)   # key names
    host: str | None = None
    mfl: int = 16384
    crl: str | None = None
    depth: int = 5
    own: str = ''            # what the client could authenticate itself with
    # server
    chain: str | None = None
    key: str | None = None
    rpk: bool = False
    heartbeat: bool = True
    log_keys: bool = False


def _mix(run, label, seq, minimum=1, p=.6):
    out = run.ch.subset(label, seq, p)
    while len(out) < minimum:
        out.append(next(x for x in seq if x not in out))
    return run.ch.shuffle(label + '.order', out)


def groups(run, label, wild=True, ff=True):
    ch = run.ch
    pool = list(GROUPS_FAST)
    if ff and ch.flip(label + '.ff', .25):
        pool += GROUPS_FF[:1 + ch.int(label + '.ffn', 0, 2)]
        if ch.flip(label + '.slow', .06):
            pool += GROUPS_SLOW
    return _mix(run, label, pool)


def client(run, *, auth=None, ff=True, simple=False):
    ch = run.ch
    s = Spec('client', list(SUITES), [ref.X25519, ref.P256], list(SIGS), [])
    if not simple:
        s.suites = _mix(run, 'c.suites', SUITES)
        s.groups = groups(run, 'c.groups', ff=ff)
        s.sigs = _mix(run, 'c.sigs', SIGS_ALL if ch.flip('c.sigsall', .3) else SIGS, p=.85)
        if ch.flip('c.alpn', .5):
            s.alpn = _mix(run, 'c.alpns', ALPNS, p=.4)
        if ch.flip('c.mfl', .4):
            s.mfl = ch.pick('c.mflv', MFLS[1:])
        s.heartbeat = not ch.flip('c.hb', .3)
    mode = auth or ch.pick('c.auth', ['store', 'none', 'rpk', 'both'], [6, 2, 1, 1])
    if mode in ('store', 'both'):
        s.store = 'AB'
        s.host = ch.pick('c.host', [pki.HOST, pki.IP, 'x.wild.sim'], [6, 1, 1])
    if mode in ('rpk', 'both'):
        s.trusted = ch.subset('c.trusted', ['ec256:rpk', 'ed25519:rpk', 'rsa:2'], .7) or ['ec256:rpk']
    if mode == 'none' and ch.flip('c.sni', .5):
        s.host = pki.HOST
    if not simple and ch.flip('c.own', .1):
        s.own = ch.pick('c.ownkind', ['rpk', 'both', 'x509'])
    return s


def server(run, *, ff=True, simple=False, leafs=LEAFS):
    ch = run.ch
    s = Spec('server', list(SUITES), [ref.X25519, ref.P256], list(SIGS), [])
    if not simple:
        s.suites = _mix(run, 's.suites', SUITES)
        s.groups = groups(run, 's.groups', ff=ff)
        s.sigs = _mix(run, 's.sigs', SIGS_ALL if ch.flip('s.sigsall', .3) else SIGS, p=.9)
        if ch.flip('s.alpn', .5):
            s.alpn = _mix(run, 's.alpns', ALPNS, p=.5)
        s.heartbeat = not ch.flip('s.hb', .3)
    s.chain = ch.pick('s.chain', leafs)
    s.key = pki.KEYOF[s.chain]
    r = ch.pick('s.certs', ['x509', 'rpk', 'both'], [8, 1, 1]) if not simple else 'x509'
    if r == 'rpk':
        s.chain = None
        s.rpk = True
        s.key = ch.pick('s.rpkkey', ['ec256:rpk', 'ed25519:rpk', 'rsa:2'])
    elif r == 'both':
        s.rpk = True
    return s


def build(spec):
    """the real configuration"""
    from siotls import TLSConfiguration
    from siotls.iana import (ALPNProtocol, CipherSuites, MaxFragmentLengthOctets, NamedGroup,
                             SignatureScheme)
    kw = dict(
        cipher_suites=[CipherSuites(x) for x in spec.suites],
        key_exchanges=[NamedGroup(x) for x in spec.groups],
        signature_algorithms=[SignatureScheme(x) for x in spec.sigs],
        alpn=[ALPNProtocol(x) for x in spec.alpn],
        can_echo_heartbeat=spec.heartbeat,
        log_keys=spec.log_keys,
    )
    if spec.side == 'client':
        kw['max_fragment_length'] = MaxFragmentLengthOctets(spec.mfl)
        if spec.store:
            kw['trust_store'] = pki.STORES[spec.store]
        kw['max_chain_depth'] = spec.depth
        if spec.crl:
            kw['revocation_list'] = pki.CRLS[spec.crl]
        if spec.own:
            kw['private_key'] = pki.private('ec256:leaf')
            if spec.own != 'rpk':
                kw['certificate_chain'] = list(pki.CHAINS['leaf-ec256'])
            if spec.own != 'x509':
                kw['public_key'] = pki.key('ec256:leaf').public_key()
        kw['trusted_public_keys'] = [pki.key(k).public_key() for k in spec.trusted]
    else:
        kw['private_key'] = pki.private(spec.key)
        if spec.chain:
            kw['certificate_chain'] = list(pki.CHAINS[spec.chain])
        if spec.rpk:
            kw['public_key'] = pki.key(spec.key).public_key()
    return TLSConfiguration(spec.side, **kw)


def ref_client_opts(spec, **over):
    o = dict(suites=spec.suites, groups=spec.groups, sigs=spec.sigs, alpn=spec.alpn,
             mfl=None if spec.mfl == 16384 else spec.mfl,
             sni=spec.host if spec.host and not spec.host[0].isdigit() else None,
             heartbeat=1 if spec.heartbeat else 2, status=bool(spec.store))
    if spec.trusted:
        o['sct'] = ([0] if spec.store else []) + [2]
    o.update(over)
    return o


def ref_server_opts(spec, **over):
    o = dict(suites=spec.suites, groups=spec.groups, sigs=spec.sigs, alpn=spec.alpn,
             chain=pki.CHAINS[spec.chain] if spec.chain else None, key=spec.key,
             rpk=spec.rpk, heartbeat=spec.heartbeat)
    o.update(over)
    return o


@dataclasses.dataclass
class Deal:
    ok: bool
    why: str = ''
    suite: int = 0
    group: int = 0
    sig: int = 0
    alpn: str | None = None
    mfl: int = 16384
    cert_type: int = 0
    retry: bool = False


def deal(c, s, shares=None):
    """what RFC 8446 and the documented preferences make of this pair (independent of siotls)"""
    d = Deal(True)
    d.suite = next((x for x in s.suites if x in c.suites), 0)
    if not d.suite:
        return Deal(False, 'suite')
    d.group = next((g for g in s.groups if g in c.groups), 0)
    if not d.group:
        return Deal(False, 'group')
    kind = s.key.split(':')[0]
    fit = ref.SIG_FOR[kind]
    d.sig = next((x for x in s.sigs if x in c.sigs and x in fit), 0)
    if not d.sig:
        return Deal(False, 'signature')
    d.retry = d.group not in (shares if shares is not None else c.groups[:1])
    if c.trusted:
        ctypes = ([0] if c.store else []) + [2]
    else:
        ctypes = [0]
    stypes = ([0] if s.chain else []) + ([2] if s.rpk else [])
    d.cert_type = next((t for t in stypes if t in ctypes), None)
    if d.cert_type is None:
        return Deal(False, 'certificate type')
    if c.alpn and s.alpn:
        d.alpn = next((p for p in s.alpn if p in c.alpn), None)
        if d.alpn is None:
            return Deal(False, 'alpn')
    d.mfl = c.mfl
    if d.cert_type == 2 and c.trusted and s.key not in c.trusted:
        return Deal(False, 'untrusted key')
    return d


def summary(nc):
    """what a real connection says it settled on, as plain data"""
    def v(x):
        return None if x is None or x is ... else (str(x.value) if isinstance(x, str) else int(x))
    return dict(suite=v(nc.cipher_suite), group=v(nc.key_exchange), sig=v(nc.signature_algorithm),
                alpn=v(nc.alpn), mfl=v(nc.max_fragment_length), cert_type=v(nc.server_certificate_type))


def expected(d):
    return dict(suite=d.suite, group=d.group, sig=d.sig, alpn=d.alpn, mfl=d.mfl, cert_type=d.cert_type)
