"""A standard observer: given both byte streams of a connection and its session secrets, decrypts everything and
checks that each stream is what the standard prescribes."""
from . import ref
from .core import Violation


def secrets_of(keylog, client_random):
    """NSS key log lines -> {label: secret} for one connection"""
    out = {}
    for line in keylog:
        parts = line.split(' ')
        if len(parts) == 3 and parts[1] == client_random.hex():
            out.setdefault(parts[0], bytes.fromhex(parts[2]))
    return out


def records(data, name):
    out, i = [], 0
    while i < len(data):
        if len(data) - i < 5:
            raise Violation('torn', f'{name} ends with {len(data) - i} bytes that are no record')
        t, v, n = data[i], data[i + 1:i + 3], int.from_bytes(data[i + 3:i + 5], 'big')
        if len(data) - i - 5 < n:
            raise Violation('torn', f'{name} ends in the middle of a record')
        if t not in (20, 21, 22, 23):
            raise Violation('record type', f'{name} emits a record of type {t}')
        if v != b'\3\3' and not (v == b'\3\1' and t == 22 and i == 0):
            raise Violation('record version', f'{name} emits a record of version {v.hex()}')
        out.append((t, data[i:i + 5], data[i + 5:i + 5 + n]))
        i += 5 + n
    return out


class Stream:
    """one direction, decrypted"""
    def __init__(self, name):
        self.name = name
        self.items = []        # ('hs', type) / ('ccs',) / ('alert', level, desc, enc) / ('app', n)
        self.app = b''
        self.clear = b''       # clear handshake bytes
        self.msgs = []
        self.sizes = []        # (encrypted, phase, length on the wire, content, padding)
        self.phase = 'clear'
        self.ended = False


def read(name, data, side, suite, secrets, hello_ends):
    """side: 'client' or 'server' (who emitted it).  hello_ends: number of clear hello messages expected."""
    s = Stream(name)
    prot = None
    buf = b''
    labels = {'hs': f'{side.upper()}_HANDSHAKE_TRAFFIC_SECRET', 'app': f'{side.upper()}_TRAFFIC_SECRET_0'}

    def key(phase):
        secret = secrets.get(labels[phase])
        if secret is None:
            raise Violation('no secret', f'{name} sends encrypted records but the {labels[phase]} is unknown')
        return ref.Prot(suite, secret)
    for t, head, body in records(data, name):
        pad = 0
        enc = t == ref.APP
        wire = len(body)
        if t == ref.CCS:
            if body != b'\1':
                raise Violation('marker', f'{name} emits a malformed compatibility marker')
            if s.phase == 'app' or not s.msgs:
                raise Violation('marker', f'{name} emits a compatibility marker out of place')
            s.items.append(('ccs',))
            continue
        if enc:
            if s.phase == 'clear':
                s.phase = 'hs'
                prot = key('hs')
                if buf:
                    raise Violation('flight', f'{name} leaves half a message before its first encrypted record')
            try:
                t, body, pad = prot.open(head, body)
            except ref.PeerError as exc:
                raise Violation('undecryptable', f'{name}: {exc} under the {s.phase} key; so far {s.items[-6:]}') from None
            if t not in (ref.ALERT, ref.HS, ref.APP):
                raise Violation('inner type', f'{name} emits an encrypted record of type {t}')
        elif s.phase != 'clear':
            if t == ref.HS or t == ref.APP:
                raise Violation('clear', f'{name} emits a clear record of type {t} after encrypted ones')
            raise Violation('clear', f'{name} emits a clear alert after encrypted records')
        if s.ended:
            raise Violation('after the end', f'{name} emits a record of type {t} after its last notice')
        s.sizes.append((enc, s.phase, wire, len(body), pad))
        if t == ref.ALERT:
            if len(body) != 2 or body[0] not in (1, 2):
                raise Violation('alert', f'{name} emits the alert {body.hex()}')
            if buf:
                pass          # a failure may interrupt a flight
            s.ended = True
            s.items.append(('alert', body[0], body[1], enc))
            continue
        if t == ref.APP:
            if not enc:
                raise Violation('clear', f'{name} emits application data in clear')
            if s.phase != 'app':
                raise Violation('too early', f'{name} emits application data under its handshake key')
            if buf:
                raise Violation('flight', f'{name} emits application data inside a handshake message')
            s.app += body
            s.items.append(('app', len(body)))
            continue
        if not body:
            raise Violation('empty', f'{name} emits an empty handshake record')
        buf += body
        while len(buf) >= 4 and len(buf) >= 4 + int.from_bytes(buf[1:4], 'big'):
            n = 4 + int.from_bytes(buf[1:4], 'big')
            raw, buf = buf[:n], buf[n:]
            s.msgs.append(raw)
            s.items.append(('hs', raw[0]))
            if not enc:
                s.clear += raw
            if raw[0] == ref.FIN and enc:
                if buf:
                    raise Violation('flight', f'{name} emits bytes after Finished under the handshake key')
                s.phase = 'app'
                prot = key('app')
    if buf:
        s.items.append(('partial',))
    return s


def flight_ok(side, types):
    """whether the handshake messages of one stream are a beginning of the flight the standard prescribes"""
    full = {'client': [[1, 20], [1, 1, 20]], 'server': [[2, 8, 11, 15, 20], [2, 2, 8, 11, 15, 20]]}[side]
    return any(types == f[:len(types)] for f in full)


def RecordsLenient(data):
    """the whole records of a stream, headers included"""
    out, i = [], 0
    while i + 5 <= len(data):
        n = 5 + int.from_bytes(data[i + 3:i + 5], 'big')
        if i + n > len(data):
            break
        out.append(data[i:i + n])
        i += n
    return out
