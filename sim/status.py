"""Certificate status answers of every quality, with an independent verdict, and a status service."""
import datetime

from . import core, der, pki

GOOD = ['good', 'good-fresh', 'no-end', 'long', 'edge-in']
BAD = ['revoked', 'unknown', 'other-serial', 'other-name', 'other-key', 'forged', 'leaf-signed', 'sibling-signed',
       'same-name-ca', 'bad-signature', 'altered-status', 'altered-time', 'future', 'expired', 'edge-out', 'not-successful', 'truncated',
       'garbage', 'empty', 'other-cert', 'wrong-alg', 'trailing-half', 'multi-revoked', 'delegated', 'future-no-end', 'revoked-no-end']


def ts(t):
    return core.utcdt(int(t))


def make(run, kind, cert, issuer, issuer_key, leaf_key, now=None):
    """DER bytes of the answer named `kind`, about `cert` issued by `issuer` -> (bytes, until)
    where until is the moment (seconds) it stops being valid, None when never"""
    ch = run.ch
    now = run.now if now is None else now
    back = ch.pick('st.back', [3600, 60, 2, 86400 * 3])
    ahead = ch.pick('st.ahead', [86400, 3600, 60, 86400 * 30])
    kw = dict(this=ts(now - back), nxt=ts(now + ahead))
    until = int(now + ahead)
    signer = issuer_key
    mutate = None
    if kind == 'good-fresh':
        kw['this'] = ts(now)
    elif kind == 'no-end':
        kw['nxt'] = None
        until = None
    elif kind == 'long':
        until = int(now + 86400 * 3000)
        kw['nxt'] = ts(until)
    elif kind == 'edge-in':
        kw['this'], kw['nxt'] = ts(now - 2), ts(now + 2)
        until = int(now + 2)
    elif kind in ('revoked', 'unknown'):
        kw['status'] = kind
    elif kind == 'other-serial':
        kw['serial'] = cert.serial_number + ch.pick('st.ser', [1, -1, 256, 1 << 40])
    elif kind == 'other-cert':
        kw['serial'] = pki.C['leaf-ec256' if cert != pki.C['leaf-ec256'] else 'leaf-ec384'].serial_number
    elif kind == 'other-name':
        kw['name_hash'] = pki.h('name', 20)
    elif kind == 'other-key':
        kw['key_hash'] = pki.h('key', 20)
    elif kind == 'forged':
        signer = ch.pick('st.forger', [k for k in ('ec256:evil', 'ec384:rootB', 'ec521:leaf', 'rsa:2') if k != issuer_key])
    elif kind == 'leaf-signed':
        signer = leaf_key if leaf_key.split(':')[0] in pki._SIGALG else 'ec256:evilleaf'
    elif kind == 'sibling-signed':
        signer = 'ec256:intA0' if issuer_key != 'ec256:intA0' else 'ec256:intA'
    elif kind == 'same-name-ca':
        signer = 'ec256:evilA'
    elif kind == 'bad-signature':
        kw['corrupt_sig'] = True
    elif kind == 'future':
        d = ch.pick('st.d', [3, 60, 86400])
        kw['this'], kw['nxt'] = ts(now + d), ts(now + d + 86400)
    elif kind == 'expired':
        d = ch.pick('st.d', [3, 60, 86400, 86400 * 40])
        kw['this'], kw['nxt'] = ts(now - d - 86400), ts(now - d)
    elif kind == 'edge-out':
        if ch.flip('st.side'):
            kw['this'], kw['nxt'] = ts(now - 90), ts(now - 2)
        else:
            kw['this'], kw['nxt'] = ts(now + 2), ts(now + 90)
    elif kind == 'not-successful':
        return pki.status_response(cert, issuer, signer, this=kw['this'], nxt=kw['nxt'],
                                   response_status=ch.pick('st.code', [1, 2, 3, 5, 6])), None
    elif kind == 'altered-status':
        # a genuine "revoked" answer turned into "good": same length, signature left alone
        rev = der.tlv(0xa1, der.gentime(pki._DT(2030, 2, 1)))
        good = pki.status_response(cert, issuer, signer, **kw)
        kw['status'] = 'revoked'
        kw['tbs_mutate'] = lambda tbs: _swap_status(tbs, rev, b'\x80\x00')
    elif kind == 'altered-time':
        kw['this'], kw['nxt'] = ts(now - 86400 * 9), ts(now - 86400 * 2)
        old, new = der.gentime(kw['nxt']), der.gentime(ts(now + 86400))
        kw['tbs_mutate'] = lambda tbs: tbs.replace(old, new)
    elif kind == 'future-no-end':
        kw['this'], kw['nxt'] = ts(now + ch.pick('st.d', [3, 86400])), None
    elif kind == 'revoked-no-end':
        kw['status'], kw['nxt'] = 'revoked', None
    elif kind == 'multi-revoked':
        # several certificates in one answer, of which this very one is revoked
        kw['status'] = 'revoked'
        good = pki.single_status(cert, issuer, kw['this'], kw['nxt'], serial=cert.serial_number + 1)
        kw['before' if ch.flip('st.first') else 'extra'] = (good,)
    elif kind == 'delegated':
        # signed by some certificate of the same issuer that is no responder, handed along
        other = 'leaf-ec256' if cert != pki.C['leaf-ec256'] else 'leaf-direct'
        signer, kw['certs'] = pki.KEYOF[other], (pki.C[other],)
    elif kind == 'garbage':
        return run.rand.randbytes(ch.size('st.len', 1, 300)), None
    elif kind == 'empty':
        return b'', None
    elif kind == 'wrong-alg':
        # correct key, signature made with the issuer's key but over other bytes
        kw['tbs_mutate'] = lambda tbs: tbs
        signer = 'rsa:1' if not issuer_key.startswith('rsa') else 'ec256:evil'
    out = pki.status_response(cert, issuer, signer, **kw)
    if kind == 'truncated':
        out = out[:ch.int('st.cut', 1, len(out) - 1)]
    elif kind == 'trailing-half':
        out = out + out[:len(out) // 2]
    return out, until


def _swap_status(tbs, old, new):
    """replace a DER element in a response and fix the enclosing lengths (all below 64 KiB)"""
    i = tbs.index(old)
    pad = len(old) - len(new)

    def fix(b, lo):
        # b: one DER element containing offset i-lo; rebuild it
        tag = b[0]
        n, h = b[1], 2
        if n & 0x80:
            k = n & 0x7f
            n = int.from_bytes(b[2:2 + k], 'big')
            h = 2 + k
        body = b[h:h + n]
        pos = i - lo - h
        if pos < 0:
            return b
        # find the child holding the offset
        j, out, done = 0, b'', False
        while j < len(body):
            cn, chh = body[j + 1], 2
            if cn & 0x80:
                k = cn & 0x7f
                cn = int.from_bytes(body[j + 2:j + 2 + k], 'big')
                chh = 2 + k
            el = body[j:j + chh + cn]
            if not done and j <= pos < j + len(el):
                if j == pos and el == old:
                    el = new
                else:
                    el = fix(el, lo + h + j)
                done = True
            out += el
            j += chh + cn
        return der.tlv(tag, out)
    assert pad
    return fix(tbs, 0)


class Service:
    """the interface of a certificate status service, scripted; counts what it is asked"""
    def __init__(self, run, answer):
        self.run = run
        self.answer = answer          # f(url, request) -> bytes, or raises
        self.asked = []
        self.cached = {}
        self.uncached = []

    def request(self, url, req):
        self.asked.append((url, bytes(req)))
        self.run.ev('status asked', url, core.short(req))
        return self.answer(url, req)

    def cache(self, until, req, res):
        self.cached[bytes(req)] = (until, bytes(res))

    def uncache(self, req):
        self.uncached.append(bytes(req))
        self.cached.pop(bytes(req), None)
