"""C08: closing one direction is clean, final, and leaves the other direction working."""
from sim import pairs, ref, steps
from sim.core import Violation
from sim.ep import CUTS, EP

RULE = ('One run: one connection whose two ends write, close either direction, close again and deliver in a seeded '
        'order; peers of the reference kind also go on sending after they closed.')
QUICK = 24000
THOROUGH = 600000
STUBS = ['network: in-memory byte queues', 'in two thirds of the runs one end is the reference peer']
PROBES = ['half closed write', 'both closed', 'closed twice', 'after close ignored', 'crossing closes', 'data after peer close',
          'close with data in flight', 'end of file', 'nothing closed', 'closed immediately', 'write refused']


class Side:
    """what one end may and must do, from its own calls and from what reached it"""
    def __init__(self, x):
        self.x = x
        self.tx_open = True          # it did not close its sending end
        self.rx_open = True          # nothing closed its receiving end
        self.marks = []              # wire offsets: where its closing notice ends
        self.notice_at = None
        self.due = None              # bytes its application must have by the time the stream ends


class Pipe:
    """bytes in flight, delivered in arbitrary chunks"""
    def __init__(self, src, dst):
        self.src, self.dst = src, dst
        self.buf = b''
        self.taken = self.given = 0

    def collect(self):
        data = self.src.x.take()
        self.buf += data
        self.taken += len(data)


def life(run):
    ch = run.ch
    mode, client, server, deal = pairs.up(run, simple=ch.flip('simple', .7))
    sides = (Side(client), Side(server))
    pipes = (Pipe(sides[0], sides[1]), Pipe(sides[1], sides[0]))
    names = {0: client.name, 1: server.name}
    n = ch.int('steps', 2, 26)
    closes = 0

    def collect():
        for p in pipes:
            p.collect()

    def check(what):
        for i, s in enumerate(sides):
            x, peer = s.x, sides[1 - i]
            if not isinstance(x, EP):
                if x.error:
                    raise Violation('peer', f'after {what}, the reference peer refuses what {peer.x.name} sent: {x.error}')
                continue
            if x.errors:
                raise Violation('failed', f'{x.name} failed upon {what}: {x.errors[0]!r}')
            if x.connected != s.rx_open:
                raise Violation('status', f'after {what}, {x.name} says connected={x.connected} while its stream is '
                                + ('open' if s.rx_open else 'closed'))
            if not pairs.is_prefix(x.rcvd, peer.x.sent):
                raise Violation('prefix', f'after {what}, {x.name} holds bytes its peer did not write')
            if s.due is not None and bytes(x.rcvd) != s.due:
                raise Violation('late', f'after {what}, {x.name} read {len(x.rcvd)} bytes, its stream ended after '
                                f'{len(s.due)}')

    def close(i):
        s = sides[i]
        x = s.x
        again = not s.tx_open
        before = len(x.out) if isinstance(x, EP) else 0
        if isinstance(x, EP):
            exc = x.close_send()
            if exc is not None:
                raise Violation('close raises', f'closing the sending end of {x.name} raises {exc!r}')
            if again and len(x.out) != before:
                raise Violation('closed twice', f'{x.name} emits {len(x.out) - before} bytes when closed again')
            if not again and len(x.out) == before:
                raise Violation('no notice', f'{x.name} emits nothing when its sending end is closed')
        elif not again:
            x.close()
        run.probe('closed twice' if again else 'close with data in flight' if pipes[i].buf else 'closed immediately')
        if not again and not s.rx_open:
            run.probe('both closed')
        if not again and pipes[1 - i].buf:
            run.probe('crossing closes')
        s.tx_open = False
        collect()
        if s.notice_at is None:
            s.notice_at = pipes[i].taken
            s.total = bytes(x.sent)

    def deliver(i, k, style):
        p = pipes[i]
        data, p.buf = p.buf[:k], p.buf[k:]
        dst = p.dst
        out_before = dst.x.out_total if isinstance(dst.x, EP) else 0
        was_open = dst.rx_open
        for chunk in steps.cut(run, data, style):
            p.given += len(chunk)
            dst.x.feed(chunk)
            if dst.rx_open and p.src.notice_at is not None and p.given >= p.src.notice_at:
                dst.rx_open = False
                dst.due = p.src.total
        if isinstance(dst.x, EP) and dst.x.out_total != out_before and (not was_open or True):
            raise Violation('answers', f'{dst.x.name} emits {dst.x.out_total - out_before} bytes upon a delivery '
                            f'(stream {"open" if was_open else "closed"})')
        if not was_open and data:
            run.probe('after close ignored')
        collect()

    for step in range(n):
        act = ch.pick('act', ['write', 'deliver', 'close_send', 'close_recv', 'overrun'], [5, 6, 1.2, .25, 1])
        i = ch.int('side', 0, 1)
        s = sides[i]
        x = s.x
        run.step(act + 'ab'[i])
        if act == 'write':
            data = pairs.data(run, 'len', 9000 if ch.flip('big', .1) else 400)
            if isinstance(x, EP):
                before = x.out_total
                ok = x.write(data)
                if ok != s.tx_open:
                    raise Violation('write', f'{x.name} {"accepts" if ok else "refuses"} data although its sending end is '
                                    f'{"open" if s.tx_open else "closed"} (receiving end {"open" if s.rx_open else "closed"})')
                if not ok:
                    run.probe('write refused')
                    if x.out_total != before:
                        raise Violation('leak', f'{x.name} refused a write but emitted something')
            elif s.tx_open:
                x.write(data)
            if s.tx_open and (not s.rx_open or not sides[1 - i].tx_open):
                run.probe('half closed write')
            collect()
        elif act == 'deliver':
            p = pipes[i]
            if p.buf:
                k = len(p.buf) if ch.flip('all', .4) else ch.size('k', 1, len(p.buf))
                deliver(i, k, ch.pick('style', CUTS[:3]))
        elif act == 'close_send':
            close(i)
            run.fault('close ' + ('again' if s.notice_at is not None and closes > 2 else 'end'))
            closes += 1
        elif act == 'close_recv':
            if not isinstance(x, EP):
                continue
            exc = x.close_recv()
            if exc is not None:
                raise Violation('close raises', f'closing the receiving end of {x.name} raises {exc!r}')
            if s.rx_open:
                s.rx_open = False
                s.due = bytes(x.rcvd)
            run.fault('end of file')
            run.probe('end of file')
            collect()
        elif act == 'overrun' and not s.tx_open:
            # more after the closing notice
            k = ch.pick('overrun', ['data', 'alert', 'close', 'garbage', 'handshake'])
            if isinstance(x, EP):
                if k != 'garbage':
                    continue
                more = run.rand.randbytes(30)
            else:
                if k == 'data':
                    x.put(ref.APP, b'after the end')
                elif k == 'alert':
                    x.put(ref.ALERT, b'\2\x28')
                elif k == 'close':
                    x.put(ref.ALERT, b'\1\0')
                elif k == 'handshake':
                    x.put(ref.HS, b'\4\0\0\1x')
                else:
                    x.raw(run.rand.randbytes(30))
                more = b''
            peer = sides[1 - i].x
            if isinstance(peer, EP):
                collect()
                pipes[i].buf += more
                pipes[i].taken += len(more)
                run.fault('overrun ' + k)
                run.probe('data after peer close')
            else:
                x.out and None
        check(act)
        run.st(mode, act, sides[0].tx_open, sides[0].rx_open, sides[1].tx_open, sides[1].rx_open)
    collect()
    for i in ch.shuffle('order', [0, 1]):
        if pipes[i].buf:
            deliver(i, len(pipes[i].buf), 'whole')
        check('the final delivery')
    for i, s in enumerate(sides):
        # everything written before the sending end was closed has arrived, unless the reader stopped listening
        dst = sides[1 - i]
        want = dst.due if dst.due is not None else bytes(s.x.sent)
        if bytes(dst.x.rcvd) != want:
            raise Violation('lost', f'{dst.x.name} has {len(dst.x.rcvd)} of the {len(want)} bytes due')
        if isinstance(dst.x, ref.Base):
            if dst.x.peer_closed != (s.notice_at is not None):
                raise Violation('notice', f'{s.x.name}: closing notice {dst.x.peer_closed}, closed {s.notice_at is not None}')
            if [a for a in dst.x.alerts if a[1] != 0] or len(dst.x.alerts) > 1:
                raise Violation('alerts', f'{s.x.name} sent {dst.x.alerts}')
            if dst.x.alerts and not dst.x.alerts[0][2]:
                raise Violation('clear', f'{s.x.name} closed with a clear alert')
    if all(s.notice_at is None for s in sides):
        run.probe('nothing closed')


SCENARIOS = [('closing', 1, life)]
