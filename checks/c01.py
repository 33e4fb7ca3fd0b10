"""C01: delivered bytes are an in-order prefix of those written, whatever the wire does."""
from sim import core, gen, pairs
from sim.ep import EP, CUTS, RecordSplitter, cut, settle
from sim.core import Violation

CPU_LIMIT, WALL_LIMIT = 300, 500
RULE = 'One run: one connection (plus a sibling to splice from) under a seeded network attacker.'
QUICK = 14000
THOROUGH = 400000
STUBS = ['network: in-memory byte queues ruled by the attacker',
         'in half of the pairs, one end is the reference peer']

ATTACKS = ['drop', 'dup', 'swap', 'flip', 'flip-header', 'truncate', 'extend', 'retype', 'replay',
           'reflect', 'splice', 'old', 'plain', 'ccs', 'close', 'alert', 'merge', 'resize', 'far']


class Wire:
    def __init__(self):
        self.queue = []        # records in flight (bytes)
        self.seen = []         # every record ever put on this direction
        self.split = RecordSplitter()
        self.hs = []           # encrypted records of the handshake, this direction

    def push(self, data):
        recs = self.split.push(data)
        self.queue += recs
        self.seen += recs


def check(run, src, dst, what):
    if not isinstance(dst, EP):
        return
    if not pairs.is_prefix(dst.rcvd, src.sent):
        i = next((i for i, (a, b) in enumerate(zip(dst.rcvd, src.sent)) if a != b), len(src.sent))
        raise Violation('prefix', f'after {what}, {dst.name} delivered {len(dst.rcvd)} bytes that are not a '
                        f'prefix of the {len(src.sent)} written: they differ at {i}')


def attack(run, wires, d, other, kind):
    ch = run.ch
    w = wires[d]
    q = w.queue
    i = ch.int('at', 0, max(len(q) - 1, 0))
    if kind in ('drop', 'dup', 'flip', 'flip-header', 'truncate', 'extend', 'retype', 'merge', 'resize') and not q:
        return None
    if kind == 'drop':
        del q[i]
    elif kind == 'dup':
        q.insert(i + ch.int('gap', 0, min(2, len(q) - i)), q[i])
    elif kind == 'swap':
        if len(q) < 2:
            return None
        j = ch.int('with', 0, len(q) - 1)
        if i == j:
            j = (i + 1) % len(q)
        if q[i] == q[j]:
            return None
        q[i], q[j] = q[j], q[i]
    elif kind == 'flip':
        b = bytearray(q[i])
        if len(b) < 6:
            return None
        where = ch.pick('where', ['any', 'tag', 'first'])
        at = {'any': ch.int('byte', 5, len(b) - 1), 'tag': len(b) - 1 - ch.int('tagb', 0, 15),
              'first': 5}[where]
        b[max(at, 5)] ^= 1 << ch.int('bit', 0, 7)
        q[i] = bytes(b)
    elif kind == 'flip-header':
        b = bytearray(q[i])
        b[min(ch.int('hbyte', 0, 4), len(b) - 1)] ^= 1 << ch.int('bit', 0, 7)
        q[i] = bytes(b)
    elif kind == 'truncate':
        n = ch.size('cutoff', 1, len(q[i]) - 1)
        b = q[i][:-n]
        if len(b) >= 5 and ch.flip('fixlen'):
            b = b[:3] + max(len(b) - 5, 0).to_bytes(2, 'big') + b[5:]
        q[i] = b
    elif kind == 'extend':
        b = q[i] + run.rand.randbytes(ch.size('more', 1, 40))
        if ch.flip('fixlen'):
            b = b[:3] + max(len(b) - 5, 0).to_bytes(2, 'big') + b[5:]
        q[i] = b
    elif kind == 'resize':
        b = bytearray(q[i])
        b[3:5] = ch.int('len', 0, 0x4200).to_bytes(2, 'big')
        q[i] = bytes(b)
    elif kind == 'retype':
        q[i] = bytes([ch.pick('type', [20, 21, 22, 24, 0, 255])]) + q[i][1:]
    elif kind == 'merge':
        if len(q) < i + 2:
            return None
        b = q[i][5:] + q[i + 1][5:]
        if len(b) > 65535:
            return None
        q[i:i + 2] = [b'\x17\x03\x03' + len(b).to_bytes(2, 'big') + b]
    else:
        pool = {'replay': w.seen, 'reflect': wires[1 - d].seen, 'splice': other[d].seen,
                'old': w.hs}.get(kind)
        if pool is not None:
            if not pool:
                return None
            rec = ch.pick('which', pool)
            if kind == 'splice' and ch.flip('same-place', .6):
                k = len(w.seen) - len(q) + i
                if 0 <= k < len(pool):
                    rec = pool[k]
            if kind == 'replay' and q and ch.flip('last', .3):
                rec = w.seen[max(len(w.seen) - len(q) - 1, 0)] if w.seen else rec
        elif kind == 'far':
            # the record a power of two before, in the place of this one
            at = len(w.seen) - len(q) + (i if q else 0)
            back = ch.pick('back', [b for b in (1, 2, 128, 256, 512, 65536) if b <= at] or [0])
            if not back:
                return None
            rec = w.seen[at - back]
            if back >= 256:
                run.probe('replay from afar')
        elif kind == 'plain':
            body = run.rand.randbytes(ch.size('plain', 1, 60))
            t = ch.pick('ptype', [23, 22, 21, 24])
            rec = bytes([t]) + b'\x03\x03' + len(body).to_bytes(2, 'big') + body
        elif kind == 'ccs':
            rec = b'\x14\x03\x03\x00\x01\x01'
        elif kind == 'close':
            rec = b'\x15\x03\x03\x00\x02\x01\x00'
        else:
            rec = b'\x15\x03\x03\x00\x02\x02' + bytes([ch.pick('alert', [10, 20, 40, 80, 90])])
        if q and ch.flip('over', .3):
            q[i] = rec
        else:
            q.insert(i if q else 0, rec)
    run.fault(kind)
    return kind


def scenario(run):
    ch = run.ch
    hs = {0: RecordSplitter(), 1: RecordSplitter()}
    early = {0: [], 1: []}

    def tap(d, data):
        early[d] += [r for r in hs[d].push(data) if r[0] == 23]
        return data
    spec = pairs.compatible(run, simple=ch.flip('simple', .6))
    mode, client, server, deal = pairs.up(run, spec=spec, record=tap)
    ends = (client, server)
    wires = (Wire(), Wire())
    wires[0].hs, wires[1].hs = early[0], early[1]
    other = (Wire(), Wire())
    if ch.flip('sibling', .4):
        # another connection between the same two parties: a source of foreign records
        _, c2, s2, _ = pairs.up(run, mode, spec=spec, tag='2')
        for d, x in ((0, c2), (1, s2)):
            for _ in range(ch.int('sib.n', 1, 4)):
                x.write(pairs.data(run, 'sib.len', 400))
            other[d].push(x.take())
    hostile = ch.flip('hostile', .9)
    dirty = [False, False]
    clean_end = [None, None]
    for step in range(ch.int('steps', 3, 22)):
        act = ch.pick('act', ['write', 'deliver', 'attack', 'close'],
                      [5, 6, 5 if hostile else 0, .25])
        d = ch.int('dir', 0, 1)
        src, dst, w = ends[d], ends[1 - d], wires[d]
        run.step(act + 'ab'[d])
        if act == 'write':
            n = ch.int('writes', 1, 4)
            if ch.flip('burst', .006):
                for j in range(ch.pick('burst', [130, 256, 257, 520])):
                    src.write(b'%d.' % j)
                run.probe('burst of records')
            for _ in range(n):
                src.write(pairs.data(run, 'len', 16000 if ch.flip('big', .06) else 500))
            w.push(src.take())
        elif act == 'attack':
            kind = ch.pick('kind', ATTACKS)
            if attack(run, wires, d, other, kind):
                dirty[d] = True
                run.st(mode, d, kind, len(w.queue) > 1, bool(dst.rcvd))
        elif act == 'close':
            src.close_send()
            w.push(src.take())
        else:
            k = ch.int('ndeliver', 1, max(len(w.queue), 1))
            batch, w.queue[:k] = b''.join(w.queue[:k]), []
            for chunk in cut(run, batch, ch.pick('style', CUTS)):
                dst.feed(chunk)
                check(run, src, dst, act)
            wires[1 - d].push(dst.take())   # alerts travel too
    for d in (0, 1):
        src, dst, w = ends[d], ends[1 - d], wires[d]
        w.push(src.take())
        rest = b''.join(w.queue)
        for chunk in cut(run, rest, ch.pick('style', CUTS)):
            dst.feed(chunk)
            check(run, src, dst, 'final delivery')
        if len(dst.rcvd):
            run.probe('delivered something')
        if not dirty[0] and not dirty[1]:
            run.probe('clean run')


def ages(n, suites):
    def ages(run):
        """more records than two bytes count, then records of long ago"""
        c, s, d = pairs.compatible(run, simple=True)
        c.suites = s.suites = suites
        mode, client, server, deal = pairs.up(run, 'rr', spec=(c, s, gen.deal(c, s)))
        src, dst = (client, server) if n & 1 else (server, client)
        w = Wire()
        done = 0
        while done < n:
            m = run.ch.int('batch', 100, 900)
            for j in range(m):
                src.write(b'%d.' % (done + j))
            done += m
            data = src.take()
            w.push(data)
            w.queue = []
            dst.feed(data)
        if bytes(dst.rcvd) != bytes(src.sent):
            raise Violation('prefix', f'{dst.name} received {len(dst.rcvd)} of {len(src.sent)} bytes: {pairs.why(dst)}')
        back = run.ch.pick('back', [65536, 65536, 32768, 256])
        run.fault('far')
        dst.feed(w.seen[len(w.seen) - back])
        check(run, src, dst, f'the record {back} before')
        src.write(b'more')
        dst.feed(src.take())
        check(run, src, dst, f'the record {back} before, then one more')
        run.probe('more records than two bytes count')
    return ages


SCENARIOS = [('attacker', 1, scenario)]
SPECIAL = [('ages', ages(66001, [0x1301, 0x1302])), ('ages, chacha', ages(66002, [0x1303]))]
PROBES = ['burst of records', 'replay from afar', 'more records than two bytes count', 'delivered something', 'clean run']
