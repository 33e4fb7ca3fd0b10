"""C18: no key protects more records than its algorithm allows."""
from sim import gen, pairs, ref
from sim.core import Violation
from sim.ep import CUTS, EP, cut, settle

RULE = ('One run: one connection whose real end writes, reads and closes in a seeded order across the usage limit of its keys (brought '
        'down to a little over a thousand records), against a reference peer that checks every record number and may itself go past '
        'the limit. Two long runs go to the limits of the AES suites as shipped.')
QUICK = 6000
THOROUGH = 60000
CPU_LIMIT = 840
WALL_LIMIT = 860
STUBS = ['one end is the reference peer', 'usage limits are lowered through their class attribute (two runs use them as they are)',
         'network: in memory']
PROBES = ['write limit reached', 'write refused', 'read limit reached', 'read past the limit', 'in the margin', 'closed at the limit',
          'many fragments', 'as shipped']
AES_RECORDS = int(2 ** 24.5)       # RFC 8446, 5.5


class Scaled:
    """the usage limit of one suite, lowered for one run"""
    def __init__(self, suite, limit):
        from siotls.crypto import TLSCipherSuite
        from siotls.iana import CipherSuites
        self.cls = TLSCipherSuite[CipherSuites(suite)]
        self.limit = limit

    def __enter__(self):
        self.was = vars(self.cls).get('usage_limit')
        if not isinstance(self.was, int):
            return False
        self.cls.usage_limit = self.limit
        return True

    def __exit__(self, *a):
        if isinstance(self.was, int):
            self.cls.usage_limit = self.was


def margin():
    from siotls.crypto import ciphers
    m = getattr(ciphers, 'REKEY_THRESHOLD', 1024)
    return m if isinstance(m, int) else 1024


def lowered(run):
    ch = run.ch
    c, s, d = pairs.compatible(run, simple=True, auth='none')
    c.mfl = ch.pick('mfl', [512, 1024, 4096, 16384])
    m = margin()
    limit = m + ch.pick('limit', [2, 3, 8, 40, 150])
    with Scaled(d.suite, limit) as possible:
        if possible:
            history(run, c, s, limit, m)


def history(run, c, s, limit, m):
    ch = run.ch
    mode, a, b, d = pairs.up(run, mode=ch.pick('side', ['cr', 'sr']), spec=(c, s, None))
    real, peer = (b, a) if mode == 'cr' else (a, b)
    peer.layout.pad = False
    safe = limit - m                   # up to there nothing may be refused
    frame = max(c.mfl - 200, 256)
    allowed = None                     # bytes of the peer within the limit
    spent = False
    style = ch.pick('style', CUTS[:2])

    def own():
        return peer.rd.seq

    def collect(what):
        data = real.take()
        peer.feed(data)
        if peer.error:
            raise Violation('records', f'after {what}, the peer cannot read what {real.name} emits: {peer.error} '
                            f'(record {own()} of a key good for {limit})')
        if own() > limit:
            raise Violation('overused', f'{real.name} protects {own()} records with one key, which is good for {limit}')
        if not pairs.is_prefix(peer.app, real.sent):
            raise Violation('stream', f'after {what}, the peer reads other bytes than were written')

    def write(data, what):
        nonlocal spent
        before = own()
        out = real.out_total
        ok = real.write(data)
        emitted = real.out_total != out
        collect(what)
        need = len(data) // frame + 1
        if ok:
            if bytes(peer.app) != bytes(real.sent) and not real.errors:
                raise Violation('lost', f'{real.name} accepted a write of {len(data)} bytes that the peer did not read entirely')
            return True
        run.probe('write refused')
        used, spent = spent, True          # what would cross the limit may use the rest up
        if emitted:
            raise Violation('leak', f'{real.name} refuses a write of {len(data)} bytes but emits {real.out_total - out} bytes')
        if before + need <= safe and not real.errors and not closed and not used:
            raise Violation('refused', f'{real.name} refuses a write after {before} records of a key good for {limit}')
        if not closed and not real.errors and before + need > limit - 2:
            run.probe('write limit reached')
        return False

    def receive(k, size, what):
        """k more records of the peer"""
        nonlocal allowed
        for _ in range(k):
            if peer.wr.seq == limit:
                allowed = len(peer.sent)
            body = bytes([peer.wr.seq & 255]) * size
            peer.put(ref.APP, body)
            peer.sent += body
        if peer.wr.seq >= limit:
            run.probe('read limit reached')
        if allowed is None and peer.wr.seq == limit:
            allowed = len(peer.sent)
        calm = own() < safe and not spent and not real.errors and not gone
        n = len(real.errors)
        for chunk in cut(run, peer.take(), style):
            real.deliver(chunk)
            collect(what)
        if not pairs.is_prefix(real.rcvd, peer.sent):
            raise Violation('stream', f'after {what}, {real.name} reads other bytes than were written')
        if peer.wr.seq > limit and not gone:
            run.probe('read past the limit')
            if len(real.rcvd) > allowed:
                raise Violation('overused', f'{real.name} reads {peer.wr.seq} records protected by a key that is good for {limit}')
            if size and not real.errors:
                raise Violation('silent', f'{real.name} does not fail upon record {peer.wr.seq} of a key good for {limit}')
            if real.connected:
                raise Violation('silent', f'{real.name} is connected after record {peer.wr.seq} of a key good for {limit}')
        elif calm:
            if len(real.errors) != n:
                raise Violation('failed', f'{real.name} fails upon record {peer.wr.seq} of a key good for {limit}: {real.errors[-1]!r}')
            if bytes(real.rcvd) != bytes(peer.sent):
                raise Violation('lost', f'{real.name} did not deliver all of {peer.wr.seq} records of a key good for {limit}')

    closed = gone = False
    for step in range(ch.int('steps', 3, 14)):
        act = ch.pick('act', ['to', 'write', 'big', 'burst', 'read', 'read to', 'close', 'peer close'], [4, 3, 2, 2, 3, 2, .5, .2])
        run.step(act)
        if act == 'to':
            # near one of the thresholds in one write
            goal = ch.pick('goal', [safe, limit, limit - 20, limit // 2]) + ch.int('delta', -3, 3)
            k = goal - own()
            if k > 1:
                run.probe('many fragments')
                write(bytes(max(1, (k - 1) * (c.mfl - 18))), act)
        elif act == 'write':
            write(run.rand.randbytes(ch.pick('n', [1, 0, 100, c.mfl])), act)
        elif act == 'big':
            run.probe('many fragments')
            write(bytes(c.mfl * ch.pick('n', [2, 5, 30])), act)
        elif act == 'burst':
            for _ in range(ch.pick('n', [3, 10, 40])):
                if not write(b'z', act):
                    break
        elif act == 'read':
            receive(ch.pick('n', [1, 3, 20]), ch.pick('size', [0, 1, 50]), act)
        elif act == 'read to':
            k = ch.pick('goal', [limit, limit // 2]) + ch.int('delta', -2, 3) - peer.wr.seq
            if k > 0:
                receive(k, ch.pick('size', [1, 0]), act)
        elif act == 'close' and not closed:
            out = real.out_total
            closed = True
            if own() >= limit - 1:
                run.probe('closed at the limit')
            real.close_send()
            collect(act)
        elif act == 'peer close' and not gone and peer.wr.seq < limit:
            gone = True
            peer.close()
            real.deliver(peer.take())
            collect(act)
        if own() >= safe:
            run.probe('in the margin')
            run.fault('past the threshold')
        run.st(act, own() >= safe, own() >= limit, peer.wr.seq >= limit, bool(real.errors), closed)
    if own() >= limit:
        run.fault('limit')


def shipped(run, suite, mode):
    """the limit as it is: record after record until the end refuses"""
    c, s, d = pairs.compatible(run, simple=True, auth='none')
    c.suites, s.suites, c.mfl = [suite], [suite], 512
    _, a, b, d = pairs.up(run, mode=mode, spec=(c, s, None))
    real, peer = (b, a) if mode == 'cr' else (a, b)
    run.probe('as shipped')
    run.fault('limit')
    prot = peer.rd
    count = prot.seq
    conn = real.conn
    piece = bytes(40000 * 495)
    send = conn.send_data
    refused = 0
    while refused < 4:
        try:
            real._call(send, piece if not refused else b'more')
        except Exception:
            refused += 1
        out = real._call(conn.data_to_send)
        if refused and out:
            raise Violation('leak', f'the {real.name} refuses to write after {count} records but emits {len(out)} bytes')
        if not out:
            if refused:
                continue
            raise Violation('lost', f'the {real.name} emits nothing for {len(piece)} bytes after {count} records')
        n, view = 0, memoryview(out)
        i, total = 0, len(out)
        while i < total:
            size = 5 + (view[i + 3] << 8 | view[i + 4])
            if n % 5000 == 0 or i + size == total:
                try:
                    prot.aead.decrypt(prot.nonce(count), bytes(view[i + 5:i + size]), bytes(view[i:i + 5]))
                except ref.InvalidTag:
                    raise Violation('records', f'record {count} of the {real.name} does not decrypt under its number') from None
            n += 1
            count += 1
            i += size
        if count > AES_RECORDS:
            raise Violation('overused', f'the {real.name} protects {count} records with one AES-GCM key, which is good for {AES_RECORDS}')
    run.ev('refused after', count)
    run.step(f'refused after {count}')


def aes128(run):
    shipped(run, 0x1301, 'sr')


def aes256(run):
    shipped(run, 0x1302, 'cr')


SCENARIOS = [('lowered', 1, lowered)]
SPECIAL = [('as shipped, AES-128', aes128), ('as shipped, AES-256', aes256)]
