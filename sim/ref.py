"""An independent TLS 1.3 peer (client and server) written from RFC 8446 / 7250 / 6066 / 7919.
It shares no code with the library under test.  Honest by default; `Plan` turns it byzantine."""
import hashlib
import hmac

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, x448, x25519
from cryptography.hazmat.primitives.ciphers.aead import AESGCM, ChaCha20Poly1305
from cryptography import x509

from . import core, pki

CCS, ALERT, HS, APP, HB = 20, 21, 22, 23, 24
CH, SH, NST, EOED, EE, CERT, CR, CV, FIN, KU = 1, 2, 4, 5, 8, 11, 13, 15, 20, 24
NAMES = {1: 'ClientHello', 2: 'ServerHello', 4: 'NewSessionTicket', 8: 'EncryptedExtensions',
         11: 'Certificate', 13: 'CertificateRequest', 15: 'CertificateVerify', 20: 'Finished',
         24: 'KeyUpdate', 5: 'EndOfEarlyData'}
SUITES = {0x1301: ('sha256', 16, AESGCM), 0x1302: ('sha384', 32, AESGCM),
          0x1303: ('sha256', 32, ChaCha20Poly1305)}
P256, P384, P521, X25519, X448 = 0x17, 0x18, 0x19, 0x1d, 0x1e
FF2048, FF3072, FF4096, FF6144, FF8192 = 0x100, 0x101, 0x102, 0x103, 0x104
EC_GROUPS = {P256: ec.SECP256R1, P384: ec.SECP384R1, P521: ec.SECP521R1}
HRR_RANDOM = hashlib.sha256(b'HelloRetryRequest').digest()
MFL = {1: 512, 2: 1024, 3: 2048, 4: 4096}
MFL_CODE = {v: k for k, v in MFL.items()}
# signature schemes
SIG_HASH = {0x0403: hashes.SHA256, 0x0503: hashes.SHA384, 0x0603: hashes.SHA512,
            0x0804: hashes.SHA256, 0x0805: hashes.SHA384, 0x0806: hashes.SHA512,
            0x0401: hashes.SHA256, 0x0501: hashes.SHA384, 0x0601: hashes.SHA512}
SIG_CURVE = {0x0403: 'secp256r1', 0x0503: 'secp384r1', 0x0603: 'secp521r1'}
SIG_FOR = {'ec256': [0x0403], 'ec384': [0x0503], 'ec521': [0x0603],
           'rsa': [0x0804, 0x0805, 0x0806], 'ed25519': [0x0807], 'ed448': [0x0808]}


def _ffdhe_prime(bits, x):
    # RFC 7919: p = 2^b - 2^{b-64} + {[2^{b-130} e] + X} * 2^64 - 1
    scale = bits + 64
    e, term, k = 0, 1 << scale, 0
    while term:
        e += term
        k += 1
        term //= k
    return (1 << bits) - (1 << (bits - 64)) + ((e >> (scale - (bits - 130))) + x) * (1 << 64) - 1


FF_P = {FF2048: _ffdhe_prime(2048, 560316), FF3072: _ffdhe_prime(3072, 2625351),
        FF4096: _ffdhe_prime(4096, 5736041), FF6144: _ffdhe_prime(6144, 15705020),
        FF8192: _ffdhe_prime(8192, 10965728)}


class PeerError(Exception):
    """the other side broke the standard (as seen by this reference peer)"""


# ---------------------------------------------------------------------------------------------
# encoding helpers
# ---------------------------------------------------------------------------------------------
def u(n, v):
    return int(v).to_bytes(n, 'big')


def vec(n, b):
    return u(n, len(b)) + bytes(b)


def ext(t, data):
    return u(2, t) + vec(2, data)


def hsmsg(t, body):
    return u(1, t) + vec(3, body)


class R:
    """strict reader"""
    def __init__(self, b):
        self.b = bytes(b)
        self.i = 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise PeerError(f'truncated: want {n} at {self.i} of {len(self.b)}')
        out = self.b[self.i:self.i + n]
        self.i += n
        return out

    def u(self, n):
        return int.from_bytes(self.take(n), 'big')

    def vec(self, n):
        return self.take(self.u(n))

    def eof(self):
        return self.i == len(self.b)

    def done(self):
        if not self.eof():
            raise PeerError(f'{len(self.b) - self.i} trailing bytes')


def parse_exts(b, allowed=None, where=''):
    r = R(b)
    out = {}
    while not r.eof():
        t = r.u(2)
        d = r.vec(2)
        if t in out:
            raise PeerError(f'duplicate extension {t} in {where}')
        if allowed is not None and t not in allowed:
            raise PeerError(f'extension {t} not allowed in {where}')
        out[t] = d
    return out


def u16list(b):
    if len(b) % 2:
        raise PeerError('odd list')
    return [int.from_bytes(b[i:i + 2], 'big') for i in range(0, len(b), 2)]


# ---------------------------------------------------------------------------------------------
# key schedule and record protection
# ---------------------------------------------------------------------------------------------
def hkdf_label(hn, secret, label, ctx, n):
    info = u(2, n) + vec(1, b'tls13 ' + label) + vec(1, ctx)
    out, t, i = b'', b'', 1
    while len(out) < n:
        t = hmac.new(secret, t + info + bytes([i]), hn).digest()
        out += t
        i += 1
    return out[:n]


class Schedule:
    def __init__(self, suite):
        self.hn, self.klen, self.aead = SUITES[suite]
        self.n = hashlib.new(self.hn).digest_size
        self.empty = hashlib.new(self.hn, b'').digest()
        zeros = b'\0' * self.n
        self.early = hmac.new(zeros, zeros, self.hn).digest()

    def derive(self, secret, label, th):
        return hkdf_label(self.hn, secret, label, th, self.n)

    def handshake(self, shared, th):
        salt = self.derive(self.early, b'derived', self.empty)
        self.hs = hmac.new(salt, shared, self.hn).digest()
        self.c_hs = self.derive(self.hs, b'c hs traffic', th)
        self.s_hs = self.derive(self.hs, b's hs traffic', th)

    def master(self, th):
        salt = self.derive(self.hs, b'derived', self.empty)
        self.ms = hmac.new(salt, b'\0' * self.n, self.hn).digest()
        self.c_ap = self.derive(self.ms, b'c ap traffic', th)
        self.s_ap = self.derive(self.ms, b's ap traffic', th)
        self.exp = self.derive(self.ms, b'exp master', th)

    def finished(self, base, th):
        return hmac.new(hkdf_label(self.hn, base, b'finished', b'', self.n), th, self.hn).digest()


class Prot:
    def __init__(self, suite, secret):
        hn, klen, aead = SUITES[suite]
        self.key = hkdf_label(hn, secret, b'key', b'', klen)
        self.iv = hkdf_label(hn, secret, b'iv', b'', 12)
        self.aead = aead(self.key)
        self.seq = 0

    def nonce(self, seq):
        return bytes(a ^ b for a, b in zip(self.iv, u(12, seq)))

    def seal(self, ctype, data, pad=0, seq=None, version=0x0303, outer=APP):
        inner = bytes(data) + bytes([ctype]) + b'\0' * pad
        head = u(1, outer) + u(2, version) + u(2, len(inner) + 16)
        if seq is None:
            seq = self.seq
            self.seq += 1
        return head + self.aead.encrypt(self.nonce(seq), inner, head)

    def seal_raw(self, inner):
        head = u(1, APP) + u(2, 0x0303) + u(2, len(inner) + 16)
        seq, self.seq = self.seq, self.seq + 1
        return head + self.aead.encrypt(self.nonce(seq), inner, head)

    def open(self, head, body):
        """-> (inner type, data, padding length)"""
        try:
            inner = self.aead.decrypt(self.nonce(self.seq), bytes(body), bytes(head))
        except InvalidTag:
            raise PeerError(f'record {self.seq} does not decrypt') from None
        self.seq += 1
        data = inner.rstrip(b'\0')
        if not data:
            raise PeerError('record without content type')
        return data[-1], data[:-1], len(inner) - len(data)


# ---------------------------------------------------------------------------------------------
# key exchange
# ---------------------------------------------------------------------------------------------
class KX:
    def __init__(self, group, rand, x=None):
        self.group = group
        if group == X25519:
            self.k = x25519.X25519PrivateKey.from_private_bytes(rand.randbytes(32))
            self.share = self.k.public_key().public_bytes_raw()
        elif group == X448:
            self.k = x448.X448PrivateKey.from_private_bytes(rand.randbytes(56))
            self.share = self.k.public_key().public_bytes_raw()
        elif group in EC_GROUPS:
            c = EC_GROUPS[group]()
            self.k = ec.derive_private_key(rand.getrandbits(c.key_size - 8) | 1, c)
            self.share = self.k.public_key().public_bytes(
                serialization.Encoding.X962, serialization.PublicFormat.UncompressedPoint)
        else:
            self.p = FF_P[group]
            self.k = x if x is not None else rand.getrandbits(400) | (1 << 399)
            self.share = pow(2, self.k, self.p).to_bytes((self.p.bit_length() + 7) // 8, 'big')

    def shared(self, peer):
        g = self.group
        if g == X25519:
            if len(peer) != 32:
                raise PeerError('bad x25519 share')
            return self.k.exchange(x25519.X25519PublicKey.from_public_bytes(peer))
        if g == X448:
            if len(peer) != 56:
                raise PeerError('bad x448 share')
            return self.k.exchange(x448.X448PublicKey.from_public_bytes(peer))
        if g in EC_GROUPS:
            c = EC_GROUPS[g]()
            if len(peer) != 1 + 2 * ((c.key_size + 7) // 8) or peer[0] != 4:
                raise PeerError('bad ec share')
            return self.k.exchange(ec.ECDH(), ec.EllipticCurvePublicKey.from_encoded_point(c, peer))
        n = (self.p.bit_length() + 7) // 8
        if len(peer) != n:
            raise PeerError(f'ffdhe share of {len(peer)} bytes instead of {n}')
        y = int.from_bytes(peer, 'big')
        if not 1 < y < self.p - 1:
            raise PeerError('ffdhe share out of range')
        return pow(y, self.k, self.p).to_bytes(n, 'big')


# ---------------------------------------------------------------------------------------------
# signatures
# ---------------------------------------------------------------------------------------------
def sign(keyname, scheme, msg):
    k = pki.key(keyname)
    if isinstance(k, ec.EllipticCurvePrivateKey):
        return k.sign(msg, ec.ECDSA(SIG_HASH[scheme](), deterministic_signing=True))
    if isinstance(k, rsa.RSAPrivateKey):
        if scheme >> 8 == 8:
            return pki.pss_sign(k, msg, SIG_HASH[scheme](), salt=pki.h(msg.hex(), SIG_HASH[scheme].digest_size))
        return k.sign(msg, padding.PKCS1v15(), SIG_HASH[scheme]())
    return k.sign(msg)


def verify(pub, scheme, sig, msg):
    try:
        if isinstance(pub, ec.EllipticCurvePublicKey):
            if SIG_CURVE.get(scheme) != pub.curve.name:
                raise PeerError(f'scheme {scheme:#x} does not fit a {pub.curve.name} key')
            pub.verify(sig, msg, ec.ECDSA(SIG_HASH[scheme]()))
        elif isinstance(pub, rsa.RSAPublicKey):
            if scheme not in (0x0804, 0x0805, 0x0806):
                raise PeerError(f'scheme {scheme:#x} does not fit an rsaEncryption key')
            hc = SIG_HASH[scheme]()
            pub.verify(sig, msg, padding.PSS(padding.MGF1(hc), hc.digest_size), hc)
        elif isinstance(pub, ed25519.Ed25519PublicKey):
            if scheme != 0x0807:
                raise PeerError('scheme does not fit an ed25519 key')
            pub.verify(sig, msg)
        elif isinstance(pub, ed448.Ed448PublicKey):
            if scheme != 0x0808:
                raise PeerError('scheme does not fit an ed448 key')
            pub.verify(sig, msg)
        else:
            raise PeerError('unknown key type')
    except InvalidSignature:
        raise PeerError('bad CertificateVerify signature') from None


CV_SERVER = b' ' * 64 + b'TLS 1.3, server CertificateVerify\0'


# ---------------------------------------------------------------------------------------------
# record layer + message assembly
# ---------------------------------------------------------------------------------------------
class Layout:
    """how a peer cuts its messages into records; every choice is legal"""
    def __init__(self, ch, wild=True):
        self.ch = ch
        self.wild = wild
        self.coalesce = wild and ch.flip('ref.coalesce', .5)
        self.frag = wild and ch.flip('ref.frag', .4)
        self.tiny = self.frag and ch.flip('ref.tiny', .3)
        self.pad = wild and ch.flip('ref.pad', .4)
        self.ccs = wild and ch.flip('ref.ccs', .3)

    def records(self, data, limit):
        """cut a handshake byte string into fragments"""
        ch = self.ch
        if not self.frag:
            return [data[i:i + limit] for i in range(0, len(data), limit)] or [b'']
        out, i, few = [], 0, 0
        while i < len(data):
            few += 1
            hi = min(limit, len(data) - i)
            n = hi if few > 12 else ch.size('ref.fraglen', 1, min(hi, 7) if self.tiny else hi)
            out.append(data[i:i + n])
            i += n
        return out

    def padding(self, room):
        if not self.pad or room <= 0:
            return 0
        return self.ch.size('ref.padlen', 0, min(room, 600))


class Base:
    def __init__(self, run, layout=None):
        self.run = run
        self.rand = run.rand
        self.layout = layout or Layout(run.ch)
        self.inbuf = bytearray()
        self.hsbuf = b''
        self.out = bytearray()
        self.rd = self.wr = None
        self.error = None
        self.alerts = []          # (level, description, encrypted)
        self.app = bytearray()
        self.complete = False
        self.peer_closed = False
        self.transcript = b''
        self.limit_in = 16384
        self.limit_out = 16384
        self.send_limit = None   # self-imposed
        self.suite = None
        self.records = []         # (encrypted, inner type, length, padding)
        self.post = []            # post-handshake messages received
        self.after_close = 0
        self.sent = bytearray()   # application bytes written
        self.name = type(self).__name__

    rcvd = property(lambda self: self.app)
    connected = property(lambda self: self.complete and not self.error)

    def close_send(self):
        self.close()

    # -- sending ------------------------------------------------------------------------------
    def raw(self, data):
        self.out += data

    def put(self, ctype, data, pad=0):
        if self.wr is None:
            self.out += u(1, ctype) + u(2, 0x0303) + vec(2, data)
        else:
            self.out += self.wr.seal(ctype, data, pad)

    def limit(self):
        return min(self.limit_out, self.send_limit or self.limit_out)

    def put_hs(self, msgs):
        """emit handshake messages of one epoch"""
        groups = [b''.join(msgs)] if self.layout.coalesce else msgs
        for g in groups:
            for frag in self.layout.records(g, self.limit()):
                pad = 0 if self.wr is None else self.layout.padding(self.limit() - len(frag))
                self.put(HS, frag, pad)

    def put_ccs(self):
        self.out += b'\x14\x03\x03\x00\x01\x01'

    def write(self, data):
        self.sent += data
        i = 0
        first = True
        while i < len(data) or (first and not data):
            first = False
            hi = min(self.limit(), len(data) - i)
            n = hi if not self.layout.frag else self.run.ch.size('ref.appfrag', 1, max(hi, 1)) if hi else 0
            n = max(n, min(hi, len(data) // 40 + 1))
            self.put(APP, data[i:i + n], self.layout.padding(self.limit() - n))
            i += n
            if not data:
                break

    def alert(self, level, desc):
        self.put(ALERT, bytes([level, desc]))

    def close(self):
        self.alert(1, 0)

    def take(self):
        out, self.out = bytes(self.out), bytearray()
        return out

    # -- receiving ----------------------------------------------------------------------------
    def feed(self, data):
        if self.error:
            return
        self.inbuf += data
        try:
            self.pump()
        except PeerError as exc:
            self.error = str(exc)
        except (ValueError, LookupError) as exc:
            # input this peer cannot even parse (any other error is one of the harness)
            self.error = f'unreadable input: {type(exc).__name__}: {exc}'

    def pump(self):
        while len(self.inbuf) >= 5:
            ctype, ver, n = self.inbuf[0], int.from_bytes(self.inbuf[1:3], 'big'), \
                int.from_bytes(self.inbuf[3:5], 'big')
            if ctype not in (CCS, ALERT, HS, APP):
                raise PeerError(f'record of unknown type {ctype}')
            if ver not in (0x0303, 0x0301):
                raise PeerError(f'record version {ver:#x}')
            if n > 16384 + 256:
                raise PeerError(f'record of {n} bytes')
            if len(self.inbuf) < 5 + n:
                return
            head, body = bytes(self.inbuf[:5]), bytes(self.inbuf[5:5 + n])
            del self.inbuf[:5 + n]
            self.record(ctype, head, body)

    def record(self, ctype, head, body):
        if ctype == CCS:
            if body != b'\x01':
                raise PeerError('malformed change_cipher_spec')
            if self.complete:
                raise PeerError('change_cipher_spec after the handshake')
            self.records.append((False, CCS, 1, 0))
            return
        enc = False
        pad = 0
        if ctype == APP:
            if self.rd is None:
                raise PeerError('encrypted record before keys')
            if len(body) > self.limit_in + 256:
                raise PeerError(f'ciphertext of {len(body)} bytes over limit {self.limit_in}')
            ctype, body, pad = self.rd.open(head, body)
            enc = True
            if len(body) + 1 + pad > self.limit_in + 1:
                raise PeerError(f'plaintext of {len(body)}+{pad} bytes over limit {self.limit_in}')
        else:
            if len(body) > self.limit_in:
                raise PeerError(f'plaintext of {len(body)} bytes over limit {self.limit_in}')
            if self.rd is not None and not (ctype == ALERT and not self.rd.seq):
                raise PeerError(f'clear record of type {ctype} after keys are in place')
        if self.peer_closed:
            self.after_close += 1
            raise PeerError('record after close_notify')
        self.records.append((enc, ctype, len(body), pad))
        if ctype == ALERT:
            if len(body) != 2:
                raise PeerError('malformed alert')
            self.alerts.append((body[0], body[1], enc))
            if body[1] == 0:
                self.peer_closed = True
            return
        if ctype == APP:
            if not self.complete:
                raise PeerError('application data before the handshake completed')
            if self.hsbuf:
                raise PeerError('application data inside a handshake message')
            self.app += body
            return
        if ctype != HS:
            raise PeerError(f'inner type {ctype}')
        if not body:
            raise PeerError('empty handshake fragment')
        self.hsbuf += body
        while len(self.hsbuf) >= 4:
            n = int.from_bytes(self.hsbuf[1:4], 'big')
            if len(self.hsbuf) < 4 + n:
                return
            raw, self.hsbuf = self.hsbuf[:4 + n], self.hsbuf[4 + n:]
            keys = self.rd
            self.message(raw[0], R(raw[4:]), raw)
            if self.rd is not keys and self.hsbuf:
                raise PeerError('handshake bytes across a key change')

    def message(self, t, r, raw):
        raise NotImplementedError

    def th(self):
        return hashlib.new(SUITES[self.suite][0], self.transcript).digest()

    def hrr_transcript(self):
        hh = hashlib.new(SUITES[self.suite][0], self.transcript).digest()
        self.transcript = b'\xfe\0\0' + bytes([len(hh)]) + hh


# ---------------------------------------------------------------------------------------------
# client
# ---------------------------------------------------------------------------------------------
class RefClient(Base):
    DEFAULT = dict(suites=[0x1301, 0x1302, 0x1303], groups=[X25519, P256], shares=None,
                   sigs=[0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808],
                   versions=[0x0304], sni=None, alpn=[], mfl=None, status=False, sct=None,
                   session_id=b'', grease=False, heartbeat=None, extra_exts=[], ff_x=None,
                   more_suites=0, legacy_rec=0x0303)

    def __init__(self, run, opts=None, layout=None, mut=None):
        super().__init__(run, layout)
        self.o = dict(self.DEFAULT, **(opts or {}))
        self.mut = mut or (lambda name, raw: raw)
        self.kx = {}
        self.random = self.rand.randbytes(32)
        self.hrr = None
        self.group = None
        self.sig = None
        self.certs = None
        self.peer_pub = None
        self.staple = None
        self.ee = {}
        self.alpn = None
        self.mfl = None
        self.cert_type = 0
        self.state = 'start'
        self.keylog = {}

    def client_hello(self, shares, cookie=None):
        o = self.o
        g16 = [0x2a2a] if o['grease'] else []
        exts = [ext(43, vec(1, b''.join(u(2, v) for v in (g16 + o['versions'])))),
                ext(10, vec(2, b''.join(u(2, g) for g in g16 + o['groups']))),
                ext(13, vec(2, b''.join(u(2, s) for s in g16 + o['sigs'])))]
        body = b''.join(u(2, g) + vec(2, s) for g, s in shares)
        if o['grease']:
            body = u(2, 0x2a2a) + vec(2, b'\0') + body
            exts.insert(0, ext(0x2a2a, b''))
        exts.append(ext(51, vec(2, body)))
        if o['sni']:
            exts.append(ext(0, vec(2, b'\0' + vec(2, o['sni'].encode()))))
        if o['alpn']:
            exts.append(ext(16, vec(2, b''.join(vec(1, p.encode()) for p in o['alpn']))))
        if o['mfl']:
            exts.append(ext(1, bytes([MFL_CODE[o['mfl']]])))
        if o['status']:
            exts.append(ext(5, b'\x01\0\0\0\0'))
        if o['sct']:
            exts.append(ext(20, vec(1, bytes(o['sct']))))
        if o['heartbeat']:
            exts.append(ext(15, bytes([o['heartbeat']])))
        exts += [ext(t, d) for t, d in o['extra_exts']]
        if cookie is not None:
            exts.append(ext(44, vec(2, cookie)))
        suites = ([0x0a0a] if o['grease'] else []) + o['suites'] + ([0x00ff, 0xc02f] if o['grease'] else [])
        suites = [0xc030] * o['more_suites'] + suites
        return hsmsg(CH, b'\x03\x03' + self.random + vec(1, o['session_id'])
                     + vec(2, b''.join(u(2, s) for s in suites)) + b'\x01\0'
                     + vec(2, b''.join(exts)))

    def start(self):
        o = self.o
        groups = o['shares'] if o['shares'] is not None else o['groups'][:1]
        for g in groups:
            self.kx[g] = KX(g, self.rand, o['ff_x'] if g in FF_P else None)
        ch = self.mut('ClientHello', self.client_hello([(g, self.kx[g].share) for g in groups]))
        self.transcript = ch
        self.put_hs([ch])
        self.state = 'sh'

    def message(self, t, r, raw):
        st = self.state
        name = NAMES.get(t, str(t))
        if st == 'sh' and t == SH:
            self.server_hello(r, raw)
        elif st == 'ee' and t == EE:
            self.enc_exts(r, raw)
        elif st == 'cert' and t == CR:
            raise PeerError('unexpected certificate request')
        elif st == 'cert' and t == CERT:
            self.certificate(r, raw)
        elif st == 'cv' and t == CV:
            self.cert_verify(r, raw)
        elif st == 'fin' and t == FIN:
            self.server_finished(r, raw)
        else:
            raise PeerError(f'{name} in state {st}')

    def server_hello(self, r, raw):
        o = self.o
        if r.u(2) != 0x0303:
            raise PeerError('legacy_version')
        random = r.take(32)
        if r.vec(1) != o['session_id']:
            raise PeerError('session id not echoed')
        suite = r.u(2)
        if suite not in o['suites'] or suite not in SUITES:
            raise PeerError(f'suite {suite:#x} not offered')
        if r.u(1):
            raise PeerError('compression')
        is_hrr = random == HRR_RANDOM
        exts = parse_exts(r.vec(2), {43, 51, 44} if is_hrr else {43, 51}, 'ServerHello')
        r.done()
        if exts.get(43) != b'\x03\x04':
            raise PeerError('supported_versions')
        if self.hrr and suite != self.suite:
            raise PeerError('suite changed after retry')
        self.suite = suite
        if is_hrr:
            if self.hrr:
                raise PeerError('second retry')
            if 51 not in exts:
                raise PeerError('retry without a group')
            group = int.from_bytes(exts[51], 'big')
            if len(exts[51]) != 2 or group not in o['groups']:
                raise PeerError('retry group not offered')
            if group in self.kx:
                raise PeerError('retry for a group already shared')
            self.hrr = group
            self.hrr_transcript()
            self.transcript += raw
            cookie = None
            if 44 in exts:
                rr = R(exts[44])
                cookie = rr.vec(2)
            self.kx = {group: KX(group, self.rand, o['ff_x'] if group in FF_P else None)}
            ch = self.mut('ClientHello2', self.client_hello([(group, self.kx[group].share)], cookie))
            self.transcript += ch
            if self.layout.ccs or o['session_id']:
                self.put_ccs()
            self.put_hs([ch])
            return
        self.server_random = random
        if 51 not in exts:
            raise PeerError('no key share')
        rr = R(exts[51])
        self.group = rr.u(2)
        share = rr.vec(2)
        rr.done()
        if self.group not in self.kx:
            raise PeerError('key share not offered')
        if self.hrr and self.group != self.hrr:
            raise PeerError('group changed after retry')
        self.shared = self.kx[self.group].shared(share)
        self.transcript += raw
        self.ks = Schedule(self.suite)
        self.ks.handshake(self.shared, self.th())
        self.rd = Prot(self.suite, self.ks.s_hs)
        self.state = 'ee'

    def enc_exts(self, r, raw):
        o = self.o
        allowed = {10}
        for k, t in (('sni', 0), ('mfl', 1), ('alpn', 16), ('sct', 20), ('heartbeat', 15)):
            if o[k]:
                allowed.add(t)
        self.ee = parse_exts(r.vec(2), allowed, 'EncryptedExtensions')
        r.done()
        if 1 in self.ee:
            if self.ee[1] != bytes([MFL_CODE[o['mfl']]]):
                raise PeerError('fragment limit not the one asked')
            self.mfl = self.limit_in = self.limit_out = o['mfl']
        if 16 in self.ee:
            rr = R(R(self.ee[16]).vec(2))
            self.alpn = rr.vec(1).decode()
            rr.done()
            if self.alpn not in o['alpn']:
                raise PeerError('alpn not offered')
        if 20 in self.ee:
            self.cert_type = self.ee[20][0]
            if self.ee[20] not in [bytes([c]) for c in o['sct']]:
                raise PeerError('certificate type not offered')
        elif o['sct'] and 0 not in o['sct']:
            raise PeerError('x509 not offered')
        self.transcript += raw
        self.state = 'cert'

    def certificate(self, r, raw):
        if r.vec(1):
            raise PeerError('certificate context')
        rr = R(r.vec(3))
        r.done()
        self.certs = []
        while not rr.eof():
            data = rr.vec(3)
            exts = parse_exts(rr.vec(2), {5, 18}, 'Certificate')
            if 5 in exts and not self.o['status']:
                raise PeerError('unasked status')
            self.certs.append((data, exts))
        if not self.certs:
            raise PeerError('empty certificate')
        if self.cert_type == 2:
            self.peer_pub = serialization.load_der_public_key(self.certs[0][0])
            if len(self.certs) != 1:
                raise PeerError('more than one raw public key')
        else:
            self.peer_pub = x509.load_der_x509_certificate(self.certs[0][0]).public_key()
            if 5 in self.certs[0][1]:
                sr = R(self.certs[0][1][5])
                if sr.u(1) != 1:
                    raise PeerError('status type')
                self.staple = sr.vec(3)
                sr.done()
        self.transcript += raw
        self.state = 'cv'

    def cert_verify(self, r, raw):
        self.sig = r.u(2)
        s = r.vec(2)
        r.done()
        if self.sig not in self.o['sigs']:
            raise PeerError('signature scheme not offered')
        verify(self.peer_pub, self.sig, s, CV_SERVER + self.th())
        self.transcript += raw
        self.state = 'fin'

    def server_finished(self, r, raw):
        if raw[4:] != self.ks.finished(self.ks.s_hs, self.th()):
            raise PeerError('bad server Finished')
        if self.hsbuf:
            raise PeerError('handshake bytes after Finished')
        self.transcript += raw
        self.th_sf = self.th()
        self.ks.master(self.th_sf)
        self.rd = Prot(self.suite, self.ks.s_ap)
        self.keylog = {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': self.ks.c_hs,
                       'SERVER_HANDSHAKE_TRAFFIC_SECRET': self.ks.s_hs,
                       'CLIENT_TRAFFIC_SECRET_0': self.ks.c_ap,
                       'SERVER_TRAFFIC_SECRET_0': self.ks.s_ap,
                       'EXPORTER_SECRET': self.ks.exp}
        if self.layout.ccs or (self.o['session_id'] and not self.hrr):
            self.put_ccs()
        self.wr = Prot(self.suite, self.ks.c_hs)
        self.state = 'done'
        self.finish()

    def finish(self):
        fin = self.mut('Finished', hsmsg(FIN, self.ks.finished(self.ks.c_hs, self.th())))
        if fin is not None:
            self.put_hs([fin])
            self.transcript += fin
        self.wr = Prot(self.suite, self.ks.c_ap)
        self.complete = True


# ---------------------------------------------------------------------------------------------
# server
# ---------------------------------------------------------------------------------------------
class RefServer(Base):
    """opts: chain (list of x509 or None), key (pki key name), suites, groups (preference),
    alpn, rpk (key name), force_hrr, cookie, staple(bytes), mfl_ok, nst, ..."""
    DEFAULT = dict(suites=[0x1303, 0x1302, 0x1301], groups=[X25519, P256, P384, P521, X448],
                   chain=None, key=None, rpk=False, alpn=[], force_hrr=False, cookie=None,
                   staple=None, mfl_ok=True, nst=0, nst_exts=b'', heartbeat=True, sni_ack=False, ff_x=None,
                   sigs=[0x0807, 0x0808, 0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806],
                   staple_at=0, force_group=None, entry_exts={})

    def __init__(self, run, opts=None, layout=None, mut=None, flight=None):
        super().__init__(run, layout)
        self.o = dict(self.DEFAULT, **(opts or {}))
        self.mut = mut or (lambda name, raw: raw)
        self.flight = flight or (lambda names: names)
        self.hrr = None
        self.random = self.rand.randbytes(32)
        self.ch = None
        self.state = 'ch'
        self.alpn = self.mfl = self.group = self.sig = None
        self.cert_type = 0
        self.keylog = {}
        self.ch_count = 0

    def parse_ch(self, r):
        c = {}
        if r.u(2) != 0x0303:
            raise PeerError('legacy_version')
        c['random'] = r.take(32)
        c['sid'] = r.vec(1)
        c['suites'] = u16list(r.vec(2))
        if r.vec(1) != b'\0':
            raise PeerError('compression')
        e = parse_exts(r.vec(2), None, 'ClientHello')
        r.done()
        c['exts'] = e
        if 43 not in e or 0x0304 not in u16list(R(e[43]).vec(1)):
            raise PeerError('no TLS 1.3')
        for t in (10, 13, 51):
            if t not in e:
                raise PeerError(f'missing extension {t}')

        def whole(b, n):
            rr = R(b)
            v = rr.vec(n)
            rr.done()
            return v
        c['groups'] = u16list(whole(e[10], 2))
        c['sigs'] = u16list(whole(e[13], 2))
        rr = R(whole(e[51], 2))
        c['shares'] = {}
        while not rr.eof():
            g = rr.u(2)
            if g in c['shares']:
                raise PeerError('two shares for a group')
            if g not in c['groups']:
                raise PeerError('share for a group not offered')
            c['shares'][g] = rr.vec(2)
        c['sni'] = None
        if 0 in e:
            rr = R(whole(e[0], 2))
            if rr.u(1) != 0:
                raise PeerError('name type')
            c['sni'] = rr.vec(2)
            rr.done()
            if not c['sni'] or any(b > 127 for b in c['sni']):
                raise PeerError('server name is not ascii')
        c['alpn'] = []
        if 16 in e:
            rr = R(whole(e[16], 2))
            while not rr.eof():
                c['alpn'].append(rr.vec(1).decode())
        c['mfl'] = None
        if 1 in e:
            if e[1] not in (b'\1', b'\2', b'\3', b'\4'):
                raise PeerError('max_fragment_length')
            c['mfl'] = MFL[e[1][0]]
        c['sct'] = list(whole(e[20], 1)) if 20 in e else None
        if c['sct'] == []:
            raise PeerError('empty certificate types')
        if 5 in e:
            rr = R(e[5])
            if rr.u(1) == 1:
                rr.vec(2)
                rr.vec(2)
                rr.done()
        c['status'] = 5 in e
        c['cookie'] = whole(e[44], 2) if 44 in e else None
        if not c['suites']:
            raise PeerError('no suites')
        c['rest'] = {t: v for t, v in e.items() if t not in (21, 41, 42, 44, 51)}
        return c

    def message(self, t, r, raw):
        if self.state == 'ch' and t == CH:
            self.client_hello(r, raw)
        elif self.state == 'fin' and t == FIN:
            self.client_finished(r, raw)
        else:
            raise PeerError(f'{NAMES.get(t, t)} in state {self.state}')

    def client_hello(self, r, raw):
        o = self.o
        c = self.parse_ch(r)
        self.ch_count += 1
        if self.hrr is not None:
            old = self.ch
            for k in ('random', 'sid', 'groups', 'sigs', 'alpn', 'mfl', 'sct', 'sni', 'status', 'suites', 'rest'):
                if c[k] != old[k]:
                    # the only changes allowed after a retry: key share, cookie, padding ...
                    raise PeerError(f'second ClientHello changed {k}')
            if list(c['shares']) != [self.hrr]:
                raise PeerError('second ClientHello does not share the asked group')
            if c['cookie'] != o['cookie']:
                raise PeerError('cookie not returned')
        elif c['cookie'] is not None:
            raise PeerError('cookie out of nowhere')
        self.ch = c
        self.ch_raw = raw
        if self.suite is None:
            self.suite = next((s for s in o['suites'] if s in c['suites']), None)
            if self.suite is None:
                self.alert(2, 40)
                raise PeerError('no common suite')
        self.transcript += raw
        group = self.hrr or o['force_group'] or next((g for g in o['groups'] if g in c['groups']), None)
        if group is None:
            self.alert(2, 40)
            raise PeerError('no common group')
        if self.hrr is None and (group not in c['shares'] or o['force_hrr']):
            if group in c['shares']:
                group = next((g for g in o['groups'] if g in c['groups'] and g not in c['shares']), None)
            if group is not None:
                self.hrr = group
                exts = ext(43, b'\x03\x04') + ext(51, u(2, group))
                if o['cookie'] is not None:
                    exts += ext(44, vec(2, o['cookie']))
                m = hsmsg(SH, b'\x03\x03' + HRR_RANDOM + vec(1, c['sid']) + u(2, self.suite)
                          + b'\0' + vec(2, exts))
                m = self.mut('HelloRetryRequest', m)
                self.hrr_transcript()
                self.transcript += m
                self.put_hs([m])
                if self.layout.ccs or c['sid']:
                    self.put_ccs()
                return
            group = next(g for g in o['groups'] if g in c['shares'])
        self.group = group
        if group in c['shares'] and self.group:
            self.kxo = KX(group, self.rand, o['ff_x'])
            self.shared = self.kxo.shared(c['shares'][group])
        self.server_flight()

    # -- the server flight, message by message, so that plans can reorder it --------------------
    def b_ServerHello(self):
        exts = ext(43, b'\x03\x04') + ext(51, u(2, self.group) + vec(2, self.kxo.share))
        return hsmsg(SH, b'\x03\x03' + self.random + vec(1, self.ch['sid']) + u(2, self.suite)
                     + b'\0' + vec(2, exts))

    def b_EncryptedExtensions(self):
        o, c = self.o, self.ch
        exts = b''
        if c['alpn'] and o['alpn']:
            self.alpn = next((p for p in o['alpn'] if p in c['alpn']), None)
            if self.alpn:
                exts += ext(16, vec(2, vec(1, self.alpn.encode())))
        if c['mfl'] and o['mfl_ok']:
            self.mfl = c['mfl']
            exts += ext(1, bytes([MFL_CODE[self.mfl]]))
        if c['sct'] is not None:
            if o['chain'] and 0 in c['sct'] and not o.get('prefer_rpk'):
                exts += ext(20, b'\x00')
            elif o['rpk'] and 2 in c['sct']:
                self.cert_type = 2
                exts += ext(20, b'\x02')
            elif 0 in c['sct']:
                exts += ext(20, b'\x00')
        if 15 in c['exts'] and o['heartbeat']:
            exts += ext(15, b'\x01')
        if o['sni_ack'] and c['sni']:
            exts += ext(0, b'')
        return hsmsg(EE, vec(2, exts))

    def b_CertificateRequest(self):
        return hsmsg(CR, b'\0' + vec(2, ext(13, vec(2, b'\x04\x03\x08\x07'))))

    def b_Certificate(self):
        o = self.o
        entries = b''
        if self.cert_type == 2:
            spki = pki.key(o['key']).public_key().public_bytes(
                serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)
            entries = vec(3, spki) + vec(2, b'')
        else:
            if not o['chain']:
                raise PeerError('no certificate to show')
            for i, c in enumerate(o['chain']):
                e = b''
                if o['staple'] is not None and i == o['staple_at'] and self.ch['status']:
                    e = ext(5, b'\x01' + vec(3, o['staple']))
                e += o['entry_exts'].get(i, b'')
                der = c if isinstance(c, bytes) else c.public_bytes(serialization.Encoding.DER)
                entries += vec(3, der) + vec(2, e)
        return hsmsg(CERT, b'\0' + vec(3, entries))

    def cv_scheme(self):
        kind = self.o['key'].split(':')[0]
        return next((s for s in self.o['sigs'] if s in SIG_FOR[kind] and s in self.ch['sigs']), None)

    def cv_content(self):
        return CV_SERVER + self.th()

    def b_CertificateVerify(self):
        self.sig = self.o.get('force_sig') or self.cv_scheme()
        if self.sig is None:
            raise PeerError('no common signature scheme')
        return hsmsg(CV, u(2, self.sig) + vec(2, sign(self.o['key'], self.sig, self.cv_content())))

    def b_Finished(self):
        return hsmsg(FIN, self.ks.finished(self.ks.s_hs, self.th()))

    def b_NewSessionTicket(self):
        return hsmsg(NST, u(4, 7200) + self.rand.randbytes(4) + vec(1, b'\0') +
                     vec(2, self.rand.randbytes(32)) + vec(2, self.o['nst_exts']))

    def b_HelloRetryRequest(self):
        g = self.hrr or self.group
        return hsmsg(SH, b'\x03\x03' + HRR_RANDOM + vec(1, self.ch['sid']) + u(2, self.suite)
                     + b'\0' + vec(2, ext(43, b'\x03\x04') + ext(51, u(2, g))))

    def install_hs(self):
        self.ks = Schedule(self.suite)
        self.ks.handshake(self.shared, self.th())
        self.wr = Prot(self.suite, self.ks.s_hs)
        self.rd = Prot(self.suite, self.ks.c_hs)

    def server_flight(self):
        names = ['ServerHello', 'EncryptedExtensions', 'Certificate', 'CertificateVerify', 'Finished']
        pending = []

        def flush():
            if pending:
                self.put_hs(list(pending))
                pending.clear()
        for name in self.flight(names):
            if name == 'CCS':
                flush()
                self.put_ccs()
                continue
            if callable(name):
                flush()
                name(self)
                continue
            raw = self.mut(name, getattr(self, 'b_' + name)())
            if raw is None:
                continue
            self.transcript += raw
            pending.append(raw)
            if name == 'ServerHello' and self.wr is None:
                flush()
                if (self.layout.ccs or self.ch['sid']) and not self.hrr:
                    self.put_ccs()
                self.install_hs()
            if name == 'EncryptedExtensions' and self.mfl:
                self.limit_in = self.limit_out = self.mfl
        flush()
        if self.wr is None:
            return
        self.th_sf = self.th()
        self.ks.master(self.th_sf)
        self.keylog = {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': self.ks.c_hs,
                       'SERVER_HANDSHAKE_TRAFFIC_SECRET': self.ks.s_hs,
                       'CLIENT_TRAFFIC_SECRET_0': self.ks.c_ap,
                       'SERVER_TRAFFIC_SECRET_0': self.ks.s_ap,
                       'EXPORTER_SECRET': self.ks.exp}
        self.wr = Prot(self.suite, self.ks.s_ap)
        self.state = 'fin'

    def client_finished(self, r, raw):
        if raw[4:] != self.ks.finished(self.ks.c_hs, self.th()):
            raise PeerError('bad client Finished')
        if self.hsbuf:
            raise PeerError('handshake bytes after Finished')
        self.transcript += raw
        self.rd = Prot(self.suite, self.ks.c_ap)
        self.complete = True
        self.state = 'done'
        for _ in range(self.o['nst']):
            self.put_hs([self.b_NewSessionTicket()])
