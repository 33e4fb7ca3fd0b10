"""Histories: two ends, records in flight in both directions, and an account of how far each handshake got."""
from . import ref
from .ep import CUTS, EP, RecordSplitter, cut


class Flow:
    """one direction"""
    def __init__(self):
        self.split = RecordSplitter()
        self.queue = []
        self.taken = 0         # bytes the sender put on the wire
        self.given = 0         # bytes of those delivered
        self.fin_at = None     # wire offset right after the sender's Finished
        self.last = None       # the last record the sender emitted


class Line:
    def __init__(self, run, client, server):
        self.run = run
        self.ends = (client, server)
        self.flows = (Flow(), Flow())
        self.collect()

    def flow_to(self, x):
        return self.flows[0 if x is self.ends[1] else 1]

    def peer_of(self, x):
        return self.ends[1] if x is self.ends[0] else self.ends[0]

    def collect(self):
        for d in (0, 1):
            x, f = self.ends[d], self.flows[d]
            data = x.take()
            f.taken += len(data)
            recs = f.split.push(data)
            f.queue += recs
            f.last = recs[-1] if recs else f.last
            if f.fin_at is None and self.finished_sent(x, d):
                f.fin_at = f.taken

    def finished_sent(self, x, d):
        if isinstance(x, ref.RefServer):
            return x.state in ('fin', 'done')
        if isinstance(x, ref.RefClient):
            return x.complete
        # a real client has sent its Finished when it is connected; a real server sends nothing else
        # before it is, so that whatever it sent upon the last ClientHello ends with Finished
        return x.ever_connected if d == 0 else x.out_total > 1000 or x.ever_connected

    def done(self, x):
        """whether the whole Finished of the peer reached x, unless something else did too"""
        f = self.flow_to(x)
        return f.fin_at is not None and f.given >= f.fin_at

    def give(self, d, n=1, style=None):
        """deliver n records of direction d"""
        f, dst = self.flows[d], self.ends[1 - d]
        batch = b''.join(f.queue[:n])
        del f.queue[:n]
        f.given += len(batch)
        self.feed(dst, batch, style)
        return len(batch)

    def feed(self, dst, data, style=None):
        for chunk in cut(self.run, data, style or self.run.ch.pick('style', CUTS[:3])):
            dst.feed(chunk)
        self.collect()

    def drain(self, limit=60):
        for _ in range(limit):
            if not any(f.queue for f in self.flows):
                return True
            for d in (0, 1):
                if self.flows[d].queue:
                    self.give(d, len(self.flows[d].queue), 'whole')
        return False
