"""C26: connections that are over leave nothing behind in the process."""
import gc
import sys
import tracemalloc

from sim import core, gen, pairs, pki, ref
from sim.choice import Choices
from sim.core import Violation
from sim.ep import EP, cut

RULE = ('One run: one seeded life of a pair of connections (of any end: closed, failed, refused, abandoned in the middle of anything), lived '
        'again and again with the same decisions but fresh randomness, values and keys, over the same configurations; what the process '
        'holds after each life is measured once the connections were let go.')
QUICK = 1000
THOROUGH = 40000
STUBS = ['network: in-memory byte queues', 'in two thirds of the runs one end is the reference peer', 'status services: answer nothing good']
PROBES = ['completed', 'closed', 'failed', 'abandoned', 'never started', 'unknown values', 'tampered', 'junk', 'tickets', 'retry', 'key log',
          'status service', 'looked at', 'half a record', 'refused write']
CPU_LIMIT = 100
WALL_LIMIT = 300
WARM, SPAN = 3, 6
UNKNOWN_ALERTS = [1, 11, 200, 255, 120]
SLACK = 40              # bytes per life


class Service:
    def __init__(self, how):
        self.how = how

    def request(self, url, req):
        if self.how == 'fails':
            raise OSError('unreachable')
        return b'nothing good'

    def cache(self, until, req, res):
        pass

    def uncache(self, req):
        pass


def fresh(sub):
    """a value nobody knows, another one each time"""
    return 0x4000 + sub.rand.getrandbits(13)


def life(sub, mode, c, s, configs, services, seen):
    """one life; every decision through sub.ch, every value through sub.rand"""
    ch = sub.ch
    ends = []
    odd = ch.flip('odd values', .4)
    if mode in ('rr', 'sr'):
        ends.append(EP(sub, 'client', configs[0], c.host, services[0], rseed=f'{sub.seed}/c'))
    else:
        o = gen.ref_client_opts(c)
        if odd:
            seen.add('unknown values')
            sub.fault('unknown values')
            o['extra_exts'] = [(fresh(sub), sub.rand.randbytes(ch.int('odd.len', 0, 40))) for _ in range(ch.int('odd.n', 1, 6))]
            o['suites'] = o['suites'] + [fresh(sub) for _ in range(3)]
            o['groups'] = o['groups'] + [fresh(sub) for _ in range(3)]
            o['sigs'] = o['sigs'] + [fresh(sub) for _ in range(3)]
            o['session_id'] = sub.rand.randbytes(32)
            if ch.flip('odd.alpn', .3):
                o['alpn'] = list(o['alpn']) + ['x%d' % sub.rand.getrandbits(60)]
            if ch.flip('odd.name', .3):
                o['sni'] = 'h%d.sim' % sub.rand.getrandbits(60)
        if ch.flip('retry', .25):
            o['shares'] = []
            seen.add('retry')
        ends.append(ref.RefClient(sub, o, None))
    if mode in ('rr', 'cr'):
        ends.append(EP(sub, 'server', configs[1], None, services[1], rseed=f'{sub.seed}/s'))
    else:
        mut = None
        if odd and ch.flip('odd.flight', .6):
            seen.add('unknown values')
            which = ch.pick('odd.where', ['ServerHello', 'EncryptedExtensions', 'Certificate', 'CertificateVerify'])

            def mut(name, raw):
                if name == which and raw:
                    raw = bytearray(raw)
                    i = sub.rand.randrange(4, len(raw))
                    raw[i] ^= 1 << sub.rand.randrange(8)
                    raw = bytes(raw)
                return raw
        ends.append(ref.RefServer(sub, gen.ref_server_opts(s), None, mut=mut))
    client, server = ends
    pipes = [bytearray(), bytearray()]
    fate = 'never' if ch.flip('never', .04) else 'started'
    if fate == 'started':
        if isinstance(server, EP):
            server.start()
        client.start()
    else:
        seen.add('never started')
    hostile = ch.flip('hostile', .5)
    if fate == 'started' and ch.flip('settled', .5):
        for _ in range(30):
            moved = False
            for d in (0, 1):
                data = ends[d].take()
                if data:
                    moved = True
                    ends[1 - d].feed(data)
            if not moved:
                break
    for _ in range(ch.int('steps', 1, 30)):
        for d in (0, 1):
            pipes[d] += ends[d].take()
        d = ch.int('side', 0, 1)
        x = ends[d]
        act = ch.pick('act', ['deliver', 'write', 'junk', 'tamper', 'ticket', 'close', 'close_recv', 'look', 'alert'],
                      [14, 3, 1, 1, 1, .5, .2, 1, .3])
        sub.step(act)
        if act in ('junk', 'tamper', 'alert') and not hostile:
            act = 'deliver'
        if act == 'deliver':
            if not pipes[1 - d]:
                d = 1 - d
                x = ends[d]
            pipe = pipes[1 - d]
            data = bytes(pipe)
            if ch.flip('part', .3):
                data = data[:ch.int('k', 0, 400)]
            del pipe[:len(data)]
            for chunk in cut(sub, data, 'whole') if data else ():
                x.feed(chunk)
        elif act == 'write':
            data = sub.rand.randbytes(ch.pick('len', [0, 10, 700, 20000], [1, 5, 4, 1]))
            if isinstance(x, EP):
                if not x.write(data):
                    seen.add('refused write')
            elif x.connected:
                x.write(data)
        elif act == 'junk':
            seen.add('junk')
            sub.fault('junk')
            n = ch.int('n', 1, 300)
            pipes[1 - d] += bytes([ch.pick('type', [22, 22, 23, 21, 20, 24, 99]), 3, 3]) + n.to_bytes(2, 'big') + sub.rand.randbytes(n)
        elif act == 'alert':
            sub.fault('alert')
            if isinstance(x, ref.Base):
                x.alert(ch.int('level', 1, 2), ch.pick('alert', UNKNOWN_ALERTS))
            else:
                pipes[1 - d] += b'\x15\x03\x03\x00\x02\x02' + bytes([ch.pick('alert', UNKNOWN_ALERTS)])
        elif act == 'tamper':
            if pipes[1 - d]:
                seen.add('tampered')
                sub.fault('tampered')
                pipes[1 - d][sub.rand.randrange(len(pipes[1 - d]))] ^= 1 << sub.rand.randrange(8)
        elif act == 'ticket':
            if isinstance(x, ref.RefServer) and x.connected:
                seen.add('tickets')
                x.put_hs([x.b_NewSessionTicket()])
        elif act == 'close':
            if isinstance(x, EP):
                x.close_send()
                seen.add('closed')
            elif x.connected:
                x.close()
        elif act == 'close_recv':
            if isinstance(x, EP):
                x.close_recv()
        elif act == 'look' and isinstance(x, EP):
            seen.add('looked at')
            repr(x.conn), x.conn.max_fragment_length, x.conn.is_connected()
    for x in ends:
        if isinstance(x, EP):
            seen.add('failed' if x.errors else 'completed' if x.ever_connected else 'abandoned')
    if any(len(p) for p in pipes):
        seen.add('half a record')


def scenario(run):
    ch = run.ch
    mode = ch.pick('mode', ['rr', 'cr', 'sr'], [2, 2, 2])
    simple = ch.flip('simple', .5)
    c, s, _d = pairs.compatible(run, simple=simple)
    if ch.flip('mismatch', .1):
        s = gen.server(run, ff=False)
    if ch.flip('log', .3):
        c.log_keys = s.log_keys = True
        run.probe('key log')
    configs = [gen.build(c) if mode != 'cr' else None, gen.build(s) if mode != 'sr' else None]
    services = [None, None]
    if ch.flip('service', .3):
        run.probe('status service')
        services = [Service(ch.pick('how', ['fails', 'garbage'])) for _ in range(2)]
    start = len(ch.trace)
    seen = set()
    plan = None
    held = []

    def one():
        nonlocal plan
        sub = core.Run(f'{run.seed}/{len(held)}', trace=plan or [])
        if plan is None:
            sub.ch = ch
        sub.now = run.now
        core.CUR = sub
        try:
            life(sub, mode, c, s, configs, services, seen)
        finally:
            core.CUR = run
        if plan is None:
            plan = ch.trace[start:]
            run.steps += sub.steps
            run.sig += sub.sig
            for name, n in sub.faults.items():
                run.fault(name, n)
            run.nontrivial = True
            run.ev('life', mode, len(plan), *sub.log)
        for name, n in sub.real.items():
            run.real[name] += n

    def measure():
        sys._clear_type_cache()         # it keeps up to 4096 names of attributes
        gc.collect()
        return tracemalloc.get_traced_memory()[0]

    def lives(n):
        for _ in range(n):
            one()
            held.append(0)
        return measure()

    gc.collect()
    gc.freeze()
    one()
    held.append(0)
    tracemalloc.start(1)
    try:
        lives(WARM)
        a = measure()
        b = lives(SPAN)
        if b - a > SLACK * SPAN:
            # something is held: whether it goes on is what matters
            sizes = [lives(8) for _ in range(4)]
            if min(y - x for x, y in zip(sizes, sizes[1:])) <= SLACK * 8:
                return
            lives(60)
            sizes = [lives(30) for _ in range(4)]
            more = [y - x for x, y in zip(sizes, sizes[1:])]
            if min(more) > SLACK * 30:
                tops = blame(lives)
                raise Violation('held', f'{mode}: 30 more of the same, all let go, and the process holds {more} bytes more each time; {tops}')
    finally:
        tracemalloc.stop()
        gc.unfreeze()
        for x in sorted(seen):
            run.probe(x)
        run.st(mode, *sorted(seen))


def blame(lives):
    before = tracemalloc.take_snapshot()
    lives(30)
    after = tracemalloc.take_snapshot()
    diff = [d for d in after.compare_to(before, 'lineno') if d.size_diff > 500 and '/sim/' not in d.traceback[0].filename]
    return '; '.join(f'{d.traceback[0].filename.rsplit("/", 1)[-1]}:{d.traceback[0].lineno} +{d.count_diff}' for d in diff[:4])


SCENARIOS = [('lives', 1, scenario)]
