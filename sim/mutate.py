"""Structure-aware mutation of hello messages and of byte strings."""
from . import ref


class Hello:
    """ClientHello or ServerHello / HelloRetryRequest taken apart"""
    def __init__(self, raw):
        self.type = raw[0]
        r = ref.R(raw[4:])
        self.version = r.take(2)
        self.random = r.take(32)
        self.sid = r.vec(1)
        if self.type == ref.CH:
            self.suites = ref.u16list(r.vec(2))
            self.comp = r.vec(1)
        else:
            self.suites = [r.u(2)]
            self.comp = r.take(1)
        rr = ref.R(r.vec(2))
        self.exts = []
        while not rr.eof():
            t = rr.u(2)
            self.exts.append((t, rr.vec(2)))
        r.done()

    def raw(self):
        s = b''.join(ref.u(2, x) for x in self.suites)
        body = self.version + self.random + ref.vec(1, self.sid)
        body += (ref.vec(2, s) + ref.vec(1, self.comp)) if self.type == ref.CH else s + self.comp
        return ref.hsmsg(self.type, body + ref.vec(2, b''.join(ref.ext(t, d) for t, d in self.exts)))

    def get(self, t):
        return next((d for x, d in self.exts if x == t), None)

    def set(self, t, d):
        self.exts = [(x, d if x == t else y) for x, y in self.exts]

    def drop(self, t):
        self.exts = [(x, y) for x, y in self.exts if x != t]

    is_hrr = property(lambda self: self.random == ref.HRR_RANDOM)


def flip_bit(ch, b, lo=0):
    if len(b) <= lo:
        return b
    b = bytearray(b)
    b[ch.int('mut.byte', lo, len(b) - 1)] ^= 1 << ch.int('mut.bit', 0, 7)
    return bytes(b)


def edit_list(run, items, extra):
    """remove, add, reorder or replace elements of a list"""
    ch = run.ch
    items = list(items)
    k = ch.pick('list.op', ['remove', 'keep-one', 'add', 'reverse', 'replace', 'clear', 'double'],
                [3, 3, 2, 2, 2, .5, .5])
    if k == 'remove' and items:
        del items[ch.int('list.at', 0, len(items) - 1)]
    elif k == 'keep-one' and items:
        items = [ch.pick('list.keep', items)]
    elif k == 'add':
        items.insert(ch.int('list.at', 0, len(items)), ch.pick('list.new', extra))
    elif k == 'reverse':
        items.reverse()
    elif k == 'replace' and items:
        items[ch.int('list.at', 0, len(items) - 1)] = ch.pick('list.new', extra)
    elif k == 'clear':
        items = []
    elif k == 'double' and items:
        items.append(items[0])
    return items


def _lst(b, w, n):
    body = ref.R(b).vec(w)
    return [int.from_bytes(body[i:i + n], 'big') for i in range(0, len(body) // n * n, n)]


def _unlst(items, w, n):
    return ref.vec(w, b''.join(ref.u(n, x) for x in items))


GROUPS = [0x17, 0x18, 0x19, 0x1d, 0x1e, 0x100, 0x101, 0x2a2a]
SIGS = [0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808, 0x0401, 0x0201, 0x0203]


def client_hello(run, raw):
    """-> (another ClientHello, what was done)"""
    ch = run.ch
    h = Hello(raw)
    k = ch.pick('ch.op', ['suites', 'groups', 'sigs', 'shares', 'versions', 'alpn', 'mfl', 'types', 'drop-ext',
                          'random', 'sid', 'legacy', 'comp', 'order', 'add-ext', 'ext-bit', 'sni', 'status',
                          'dup-ext', 'heartbeat'],
                [3, 3, 3, 2, 1, 2, 2, 1, 3, 1, 1, 1, .5, 1, 2, 2, 1, 1, .5, 1])
    try:
        if k == 'suites':
            h.suites = edit_list(run, h.suites, [0x1301, 0x1302, 0x1303, 0x1304, 0x00ff, 0xc02f])
        elif k == 'groups':
            h.set(10, _unlst(edit_list(run, _lst(h.get(10), 2, 2), GROUPS), 2, 2))
        elif k == 'sigs':
            h.set(13, _unlst(edit_list(run, _lst(h.get(13), 2, 2), SIGS), 2, 2))
        elif k == 'versions':
            h.set(43, _unlst(edit_list(run, _lst(h.get(43), 1, 2), [0x0303, 0x0302, 0x0304, 0x7f1c]), 1, 2))
        elif k == 'shares':
            op = ch.pick('share.op', ['empty', 'bit', 'regroup', 'swap'])
            if op == 'empty':
                h.set(51, b'\0\0')
            elif op == 'bit':
                h.set(51, flip_bit(ch, h.get(51), 6))
            elif op == 'regroup':
                d = h.get(51)
                h.set(51, d[:2] + ref.u(2, ch.pick('share.group', GROUPS)) + d[4:])
            else:
                d = ref.u(2, ref.X25519) + ref.vec(2, ref.KX(ref.X25519, run.rand).share)
                h.set(51, ref.vec(2, d))
        elif k == 'alpn':
            names = ch.pick('alpn.new', [[b'h2'], [b'http/1.1'], [b'dot', b'h2'], []])
            d = ref.vec(2, b''.join(ref.vec(1, n) for n in names))
            if h.get(16) is None:
                h.exts.append((16, d))
            elif ch.flip('alpn.drop', .3):
                h.drop(16)
            else:
                h.set(16, d)
        elif k == 'mfl':
            d = ref.u(1, ch.pick('mfl.new', [1, 2, 3, 4, 5, 0]))
            if h.get(1) is None:
                h.exts.append((1, d))
            elif ch.flip('mfl.drop', .4):
                h.drop(1)
            else:
                h.set(1, d)
        elif k == 'types':
            d = ref.vec(1, ch.pick('types.new', [b'\0', b'\2', b'\2\0', b'\0\2', b'\1']))
            if h.get(20) is None:
                h.exts.append((20, d))
            else:
                h.set(20, d)
        elif k == 'drop-ext':
            h.drop(ch.pick('ext.which', [t for t, _ in h.exts]))
        elif k == 'random':
            h.random = flip_bit(ch, h.random)
        elif k == 'sid':
            h.sid = run.rand.randbytes(ch.pick('sid.len', [32, 0, 1, 33]))
        elif k == 'legacy':
            h.version = ch.pick('legacy.new', [b'\3\4', b'\3\1', b'\3\2', b'\2\0'])
        elif k == 'comp':
            h.comp = ch.pick('comp.new', [b'\1', b'\0\1', b''])
        elif k == 'order':
            h.exts = ch.shuffle('ext.order', h.exts)
        elif k == 'add-ext':
            t, d = ch.pick('ext.new', [(0x3a3a, b''), (0xff01, b'\0'), (23, b''), (44, b'\0\3abc'), (45, b'\1\1'),
                                       (42, b''), (49, b''), (5, b'\1\0\0\0\0'), (15, b'\1'), (21, b'\0' * 8),
                                       (41, b'\0\x08\0\x02id\0\0\0\0\0\x21\x20' + b'\0' * 32)])
            h.exts.append((t, d))
        elif k == 'dup-ext':
            h.exts.append(ch.pick('ext.which', h.exts))
        elif k == 'ext-bit':
            i = ch.int('ext.which', 0, len(h.exts) - 1)
            t, d = h.exts[i]
            h.exts[i] = (t, flip_bit(ch, d))
        elif k == 'sni':
            d = ref.vec(2, b'\0' + ref.vec(2, b'evil.sim'))
            if h.get(0) is None:
                h.exts.append((0, d))
            else:
                h.set(0, d)
        elif k == 'status':
            if h.get(5) is None:
                h.exts.append((5, b'\1\0\0\0\0'))
            else:
                h.drop(5)
        elif k == 'heartbeat':
            h.set(15, ch.pick('hb.new', [b'\1', b'\2']))
    except (ref.PeerError, IndexError, TypeError):
        pass
    return h.raw(), 'ClientHello ' + k


def server_hello(run, raw):
    ch = run.ch
    h = Hello(raw)
    k = ch.pick('sh.op', ['suite', 'share', 'regroup', 'version', 'random', 'sid', 'legacy', 'comp', 'drop-ext',
                          'add-ext', 'order', 'ext-bit', 'to-hrr', 'dup-ext'])
    if k == 'suite':
        h.suites = [ch.pick('suite.new', [0x1301, 0x1302, 0x1303, 0x1304, 0x1305, 0])]
    elif k == 'share' and h.get(51) is not None:
        h.set(51, flip_bit(ch, h.get(51), 4))
    elif k == 'regroup' and h.get(51) is not None:
        h.set(51, ref.u(2, ch.pick('share.group', GROUPS)) + h.get(51)[2:])
    elif k == 'version':
        h.set(43, ref.u(2, ch.pick('version.new', [0x0303, 0x0302, 0x7f1c, 0])))
    elif k == 'random':
        h.random = flip_bit(ch, h.random)
        if ch.flip('sentinel', .3):
            h.random = h.random[:24] + b'DOWNGRD\x01'
    elif k == 'sid':
        h.sid = run.rand.randbytes(ch.pick('sid.len', [32, 1]))
    elif k == 'legacy':
        h.version = ch.pick('legacy.new', [b'\3\4', b'\3\1', b'\3\2', b'\2\0'])
    elif k == 'comp':
        h.comp = b'\1'
    elif k == 'drop-ext' and h.exts:
        h.drop(ch.pick('ext.which', [t for t, _ in h.exts]))
    elif k == 'add-ext':
        h.exts.append(ch.pick('ext.new', [(0x3a3a, b''), (41, b'\0\0'), (44, b'\0\3abc'), (0, b''), (16, b'\0\3\2h2'), (1, b'\1')]))
    elif k == 'order':
        h.exts.reverse()
    elif k == 'ext-bit' and h.exts:
        i = ch.int('ext.which', 0, len(h.exts) - 1)
        t, d = h.exts[i]
        h.exts[i] = (t, flip_bit(ch, d))
    elif k == 'to-hrr':
        h.random = ref.HRR_RANDOM
        if h.get(51) is not None and len(h.get(51)) > 2:
            h.set(51, ref.u(2, ch.pick('share.group', GROUPS)))
    elif k == 'dup-ext' and h.exts:
        h.exts.append(h.exts[0])
    return h.raw(), ('HelloRetryRequest ' if Hello(raw).is_hrr else 'ServerHello ') + k


def blob(run, b):
    """any byte string, hurt: -> (bytes, what)"""
    ch = run.ch
    k = ch.pick('blob.op', ['bit', 'cut', 'grow', 'insert', 'zero', 'ones', 'delete', 'length'])
    b = bytes(b)
    if not b:
        return run.rand.randbytes(3), 'grow'
    i = ch.int('blob.at', 0, len(b) - 1)
    if k == 'bit':
        b = b[:i] + bytes([b[i] ^ (1 << ch.int('blob.bit', 0, 7))]) + b[i + 1:]
    elif k == 'cut':
        b = b[:i]
    elif k == 'grow':
        b += run.rand.randbytes(ch.int('blob.n', 1, 9))
    elif k == 'insert':
        b = b[:i] + run.rand.randbytes(ch.int('blob.n', 1, 4)) + b[i:]
    elif k == 'zero':
        b = b[:i] + b'\0' + b[i + 1:]
    elif k == 'ones':
        b = b[:i] + b'\xff' + b[i + 1:]
    elif k == 'delete':
        b = b[:i] + b[i + 1:]
    elif k == 'length':
        v = ch.pick('blob.len', [b'\0\0', b'\xff\xff', b'\0\1', b'\x80\0'])
        b = b[:i] + v + b[i + 2:]
    return b, k
