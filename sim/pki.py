"""Deterministic keys, certificates, revocation lists and certificate status responses."""
import datetime
import hashlib
import ipaddress
import os

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa
from cryptography.x509.oid import AuthorityInformationAccessOID, ExtendedKeyUsageOID, NameOID
from cryptography.x509.verification import Store

from . import der

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')
_DT = datetime.datetime
T0 = _DT(2030, 1, 1)
T1 = _DT(2031, 1, 1)
HOST = 'server.sim'
HOST2 = 'other.sim'
IDN = 'b\u00fccher.sim'
IDN_CAPITALS = 'B\u00dcCHER.Sim'
IP = '192.0.2.1'
OCSP_URL = 'http://ocsp.sim/status'


def h(name, n=32):
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(f'{name}/{i}'.encode()).digest()
        i += 1
    return out[:n]


class DetEC:
    """an EC private key whose signatures are deterministic"""
    def __init__(self, key):
        self._key = key

    def sign(self, data, signature_algorithm):
        return self._key.sign(data, ec.ECDSA(signature_algorithm.algorithm, deterministic_signing=True))

    def __getattr__(self, name):
        return getattr(self._key, name)


class DetRSA:
    """an RSA private key whose PSS salt is drawn from the simulation"""
    def __init__(self, key):
        self._key = key

    def sign(self, data, pad, algorithm):
        if isinstance(pad, padding.PSS):
            return pss_sign(self._key, data, algorithm)
        return self._key.sign(data, pad, algorithm)

    def __getattr__(self, name):
        return getattr(self._key, name)


ec.EllipticCurvePrivateKey.register(DetEC)
rsa.RSAPrivateKey.register(DetRSA)


def pss_sign(key, data, algorithm, salt=None):
    from . import core
    name = algorithm.name
    hl = algorithm.digest_size
    if salt is None:
        salt = core.sim_urandom(hl)
    mh = hashlib.new(name, data).digest()
    hh = hashlib.new(name, b'\0' * 8 + mh + salt).digest()
    pn = key.private_numbers()
    n = pn.public_numbers.n
    em_bits = n.bit_length() - 1
    em_len = (em_bits + 7) // 8
    db = b'\0' * (em_len - len(salt) - hl - 2) + b'\x01' + salt
    mask = b''
    i = 0
    while len(mask) < len(db):
        mask += hashlib.new(name, hh + i.to_bytes(4, 'big')).digest()
        i += 1
    mdb = bytearray(a ^ b for a, b in zip(db, mask))
    mdb[0] &= 0xff >> (8 * em_len - em_bits)
    em = bytes(mdb) + hh + b'\xbc'
    m = int.from_bytes(em, 'big')
    # CRT
    m1 = pow(m % pn.p, pn.dmp1, pn.p)
    m2 = pow(m % pn.q, pn.dmq1, pn.q)
    s = m2 + pn.q * ((m1 - m2) * pn.iqmp % pn.p)
    return s.to_bytes((n.bit_length() + 7) // 8, 'big')


_keys = {}
_CURVES = {'ec256': ec.SECP256R1, 'ec384': ec.SECP384R1, 'ec521': ec.SECP521R1}


def key(name):
    """name is '<kind>:<label>'"""
    if name in _keys:
        return _keys[name]
    kind, label = name.split(':', 1)
    if kind in _CURVES:
        curve = _CURVES[kind]()
        k = ec.derive_private_key(int.from_bytes(h(name, 30), 'big') | 1, curve)
    elif kind == 'ed25519':
        k = ed25519.Ed25519PrivateKey.from_private_bytes(h(name, 32))
    elif kind == 'ed448':
        k = ed448.Ed448PrivateKey.from_private_bytes(h(name, 57))
    elif kind == 'rsa':
        with open(os.path.join(FIX, f'rsa{label}.pem'), 'rb') as f:
            k = serialization.load_pem_private_key(f.read(), None)
    else:
        raise ValueError(name)
    _keys[name] = k
    return k


def private(name):
    """the private key as handed to a configuration: deterministic signatures"""
    k = key(name)
    kind = name.split(':')[0]
    if kind in _CURVES:
        return DetEC(k)
    if kind == 'rsa':
        return DetRSA(k)
    return k


def dn(cn):
    return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])


_serial = [1000]


def make(cn, keyname, issuer_cn, issuer_key, *, ca=False, hosts=(), ips=(), nb=T0, na=T1,
         eku='server', ocsp=None, pathlen=None, serial=None, bc=True, ku=True, san=True):
    pub, ik = key(keyname).public_key(), key(issuer_key)
    _serial[0] += 1
    b = (x509.CertificateBuilder().subject_name(dn(cn)).issuer_name(dn(issuer_cn))
         .public_key(pub).serial_number(serial or _serial[0])
         .not_valid_before(nb).not_valid_after(na))
    if bc:
        b = b.add_extension(x509.BasicConstraints(ca, pathlen if ca else None), True)
    b = b.add_extension(x509.SubjectKeyIdentifier.from_public_key(pub), False)
    b = b.add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ik.public_key()), False)
    if ca:
        if ku:
            b = b.add_extension(x509.KeyUsage(False, False, False, False, False, True, True, False, False), True)
    else:
        names = [x509.DNSName(x) for x in hosts] + [x509.IPAddress(ipaddress.ip_address(x)) for x in ips]
        if names and san:
            b = b.add_extension(x509.SubjectAlternativeName(names), False)
        if eku:
            oid = ExtendedKeyUsageOID.SERVER_AUTH if eku == 'server' else ExtendedKeyUsageOID.CLIENT_AUTH
            b = b.add_extension(x509.ExtendedKeyUsage([oid]), False)
    if ocsp:
        b = b.add_extension(x509.AuthorityInformationAccess([x509.AccessDescription(
            AuthorityInformationAccessOID.OCSP, x509.UniformResourceIdentifier(u) if isinstance(u, str) else u)
            for u in (ocsp if isinstance(ocsp, list) else [ocsp])]), False)
    return sign_cert(b, ik)


def sign_cert(b, ik):
    if isinstance(ik, ec.EllipticCurvePrivateKey):
        alg = {256: hashes.SHA256, 384: hashes.SHA384, 521: hashes.SHA512}[ik.curve.key_size]()
        return b.sign(ik, alg, ecdsa_deterministic=True)
    if isinstance(ik, rsa.RSAPrivateKey):
        return b.sign(ik, hashes.SHA256())
    return b.sign(ik, None)


C = {}        # name -> certificate
KEYOF = {}    # name -> key name
CHAINS = {}   # name -> list of certificates, leaf first
STORES = {}
CRLS = {}
ODD = []       # chains whose certificate names no usable responder


def add(name, keyname, **kw):
    issuer = kw.pop('issuer', name)
    issuer_cn = C[issuer].subject.get_attributes_for_oid(NameOID.COMMON_NAME)[0].value \
        if issuer in C else kw.get('cn', name)
    ikey = KEYOF.get(issuer, keyname)
    cn = kw.pop('cn', name)
    C[name] = make(cn, keyname, kw.pop('issuer_cn', issuer_cn), kw.pop('issuer_key', ikey), **kw)
    KEYOF[name] = keyname
    return C[name]


_built = False


def build():
    global _built
    if _built:
        return
    _built = True
    add('rootA', 'ec256:rootA', ca=True)
    add('rootB', 'ec384:rootB', ca=True)
    add('rootR', 'rsa:1', ca=True)
    add('evilroot', 'ec256:evil', ca=True)
    add('evilA', 'ec256:evilA', cn='rootA', ca=True, issuer_cn='rootA')          # same name as rootA
    add('intA', 'ec256:intA', issuer='rootA', ca=True)
    add('intB', 'ec384:intB', issuer='rootB', ca=True)
    add('intA0', 'ec256:intA0', issuer='rootA', ca=True, pathlen=0)
    add('notca', 'ec256:notca', issuer='rootA', hosts=['x.sim'], eku='server')
    add('intexp', 'ec256:intexp', issuer='rootA', ca=True, na=_DT(2030, 3, 1))
    prev = 'rootA'
    for i in range(8):
        add(f'deep{i}', f'ec256:deep{i}', issuer=prev, ca=True)
        prev = f'deep{i}'

    def leaf(name, keyname, issuer='intA', chain=None, **kw):
        kw.setdefault('hosts', [HOST, '*.wild.sim'])
        kw.setdefault('ips', [IP])
        add(name, keyname, issuer=issuer, **kw)
        if chain is None:
            chain = [] if issuer.startswith('root') or issuer == name else [issuer]
        CHAINS[name] = [C[name]] + [C[c] for c in chain]

    for k in ('ec256', 'ec384', 'ec521'):
        leaf(f'leaf-{k}', f'{k}:leaf')
    leaf('leaf-rsa', 'rsa:2')
    leaf('leaf-ed25519', 'ed25519:leaf')
    leaf('leaf-ed448', 'ed448:leaf')
    leaf('leaf-direct', 'ec256:direct', issuer='rootA')
    leaf('leaf-B', 'ec384:leafB', issuer='intB')
    leaf('leaf-ocsp', 'ec256:ocsp', ocsp=OCSP_URL)
    leaf('leaf-ocsp2', 'ec256:ocsp2', ocsp=OCSP_URL + '2')
    leaf('leaf-ocspdirect', 'ec256:ocspd', issuer='rootA', ocsp=OCSP_URL)
    CHAINS['leaf-ocspdirect-root'] = [C['leaf-ocspdirect'], C['rootA']]
    leaf('leaf-idn', 'ec256:idn', hosts=['xn--bcher-kva.sim'])
    leaf('leaf-other', 'ec256:other', hosts=[HOST2], ips=['192.0.2.99'])
    leaf('leaf-expired', 'ec256:expired', na=_DT(2030, 5, 1))
    leaf('leaf-notyet', 'ec256:notyet', nb=_DT(2030, 9, 1))
    leaf('leaf-short', 'ec256:short', nb=_DT(2030, 6, 15), na=_DT(2030, 6, 16))
    leaf('leaf-evil', 'ec256:evilleaf', issuer='evilroot')
    leaf('leaf-evilA', 'ec256:evilleafA', issuer='evilA', chain=['evilA'])
    CHAINS['leaf-evil-root'] = [C['leaf-evil'], C['evilroot']]
    leaf('leaf-evilA-plus', 'ec256:evilleafA2', issuer='evilA', chain=['evilA', 'rootA'])
    leaf('leaf-self', 'ec256:self', issuer='leaf-self')
    leaf('leaf-clienteku', 'ec256:clienteku', eku='client')
    leaf('leaf-notca', 'ec256:undernotca', issuer='notca')
    leaf('leaf-intexp', 'ec256:underintexp', issuer='intexp')
    leaf('leaf-nosan', 'ec256:nosan', san=False, cn=HOST)
    add('intA0sub', 'ec256:intA0sub', issuer='intA0', ca=True)
    leaf('leaf-pathlen', 'ec256:pathlen', issuer='intA0sub', chain=['intA0sub', 'intA0'])
    for i in range(8):
        leaf(f'leaf-deep{i}', f'ec256:ldeep{i}', issuer=f'deep{i}',
             chain=[f'deep{j}' for j in range(i, -1, -1)])
    leaf('leaf-revoked', 'ec256:revoked')
    leaf('leaf-ocsprevoked', 'ec256:ocsprev', ocsp=OCSP_URL)
    add('root5', 'ec521:root5', ca=True)
    leaf('leaf-ocsp-R', 'ec256:ocspR', issuer='rootR', ocsp=OCSP_URL)
    leaf('leaf-ocsp-5', 'ec256:ocsp5', issuer='root5', ocsp=OCSP_URL)
    leaf('leaf-ocsp-B', 'ec384:ocspB', issuer='intB', ocsp=OCSP_URL)
    for n in ('R', '5'):
        CHAINS[f'leaf-ocsp-{n}'].append(C[f'root{n}'])
    CHAINS['leaf-ocsp-3'] = [C['leaf-ocsp'], C['intA'], C['rootA']]
    CHAINS['leaf-ocsp-alone'] = [C['leaf-ocspdirect']]
    add('intO', 'ec256:intO', issuer='rootA', ca=True)
    leaf('leaf-ocsp-two', 'ec256:ocsptwo', issuer='intO', ocsp=[OCSP_URL, OCSP_URL + '-backup'])
    add('intU', 'ec256:intU', issuer='rootA', ca=True, ocsp=OCSP_URL + '-int')
    leaf('leaf-ocsp-both', 'ec256:ocspboth', issuer='intU', ocsp=OCSP_URL)
    CHAINS['leaf-ocsp-both-3'] = CHAINS['leaf-ocsp-both'] + [C['rootA']]
    leaf('leaf-ocsp-only-int', 'ec256:onlyint', issuer='intU')
    for n, u in (('https', 'https://ocsp.sim/'), ('ldap', 'ldap://ocsp.sim/x'), ('name', x509.DirectoryName(dn('ocsp'))),
                 ('mail', x509.RFC822Name('ocsp@ocsp.sim')), ('bad6', 'http://[bad/'), ('nohost', 'http:///x'), ('space', 'http://ocsp.sim/a b'),
                 ('port', 'http://ocsp.sim:x/'), ('file', 'file:///etc/hostname'), ('number', x509.RegisteredID(NameOID.COMMON_NAME))):
        leaf(f'leaf-ocsp-{n}', f'ec256:ocsp{n}', ocsp=u)
        ODD.append(f'leaf-ocsp-{n}')
    # somebody else's certificates under the names and serial numbers of others
    for n in ('leaf-ocsp', 'leaf-ocspdirect', 'leaf-ocsp-both', 'leaf-ec256', 'intA', 'intU'):
        add('twin-' + n, 'ec256:twin', cn=n, issuer_cn='evilroot', issuer_key='ec256:evil', ca=n.startswith('int'),
            serial=C[n].serial_number, hosts=[HOST])
    STORES['all'] = Store([C['rootA'], C['rootB'], C['rootR'], C['root5']])
    # a valid certificate for HOST held by the attacker (he has no matching root): stolen
    # certificates are the honest chains presented without their private key
    STORES['A'] = Store([C['rootA']])
    STORES['AB'] = Store([C['rootA'], C['rootB']])
    STORES['B'] = Store([C['rootB']])

    def crl(issuer, serials):
        b = (x509.CertificateRevocationListBuilder().issuer_name(C[issuer].subject)
             .last_update(T0).next_update(T1))
        for s in serials:
            b = b.add_revoked_certificate(x509.RevokedCertificateBuilder().serial_number(s)
                                          .revocation_date(_DT(2030, 2, 1)).build())
        return sign_cert(b, key(KEYOF[issuer]))
    CRLS['leaf'] = crl('intA', [C['leaf-revoked'].serial_number, 7, 8])
    CRLS['int'] = crl('rootA', [C['intA'].serial_number])
    CRLS['deep'] = crl('rootA', [5, C['deep0'].serial_number])
    CRLS['deep1'] = crl('deep0', [C['deep1'].serial_number])
    CRLS['empty'] = crl('intA', [])
    CRLS['unrelated'] = crl('intA', [3, 4, 5])


# -- certificate status ------------------------------------------------------------------------
_SIGALG = {
    'ec256': ('1.2.840.10045.4.3.2', hashes.SHA256),
    'ec384': ('1.2.840.10045.4.3.3', hashes.SHA384),
    'ec521': ('1.2.840.10045.4.3.4', hashes.SHA512),
    'rsa': ('1.2.840.113549.1.1.11', hashes.SHA256),
}


def spki_bits(cert):
    return cert.extensions.get_extension_for_class(x509.SubjectKeyIdentifier).value.digest


def cert_id(cert, issuer, serial=None, name_hash=None, key_hash=None):
    nh = name_hash if name_hash is not None else \
        hashlib.sha1(issuer.subject.public_bytes()).digest()
    kh = key_hash if key_hash is not None else spki_bits(issuer)
    return der.seq(der.seq(der.oid('1.3.14.3.2.26'), der.null()), der.octets(nh), der.octets(kh),
                   der.integer(cert.serial_number if serial is None else serial))


def single_status(cert, issuer, this, nxt, status='good', serial=None, name_hash=None, key_hash=None):
    st = {'good': b'\x80\x00', 'unknown': b'\x82\x00',
          'revoked': der.tlv(0xa1, der.gentime(_DT(2030, 2, 1)))}[status]
    return der.seq(cert_id(cert, issuer, serial, name_hash, key_hash), st, der.gentime(this),
                   *([der.tlv(0xa0, der.gentime(nxt))] if nxt is not None else []))


def status_response(cert, issuer, signer, *, this, nxt, status='good', serial=None,
                    name_hash=None, key_hash=None, response_status=0, produced=None, extra=(), before=(),
                    corrupt_sig=False, tbs_mutate=None, certs=(), tbs_sign=None):
    """DER of a certificate status response; `signer` is a key name."""
    if response_status:
        return der.seq(der.enum(response_status))
    single = single_status(cert, issuer, this, nxt, status, serial, name_hash, key_hash)
    tbs = der.seq(der.tlv(0xa2, der.octets(spki_bits(issuer))), der.gentime(produced or this),
                  der.seq(*before, single, *extra))
    if tbs_sign:
        tbs = tbs_sign(tbs)
    kind = signer.split(':')[0]
    oid, hashcls = _SIGALG[kind]
    k = key(signer)
    if kind == 'rsa':
        sig = k.sign(tbs, padding.PKCS1v15(), hashcls())
        alg = der.seq(der.oid(oid), der.null())
    else:
        sig = k.sign(tbs, ec.ECDSA(hashcls(), deterministic_signing=True))
        alg = der.seq(der.oid(oid))
    if corrupt_sig:
        sig = sig[:-1] + bytes([sig[-1] ^ 1])
    if tbs_mutate:
        tbs = tbs_mutate(tbs)
    basic = der.seq(tbs, alg, der.bits(sig), *(
        [der.tlv(0xa0, der.seq(*(c.public_bytes(serialization.Encoding.DER) for c in certs)))] if certs else []))
    return der.seq(der.enum(0), der.tlv(0xa0, der.seq(der.oid('1.3.6.1.5.5.7.48.1.1'),
                                                     der.octets(basic))))
