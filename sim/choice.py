"""The choice source: every decision of a run comes from here, so one seed (or one recorded
trace) is one exactly repeatable execution.  0 is always the plainest alternative, so that
shrinking a trace (deleting or zeroing entries) simplifies the run."""
import random


class Choices:
    def __init__(self, seed=None, trace=None):
        self._rng = random.Random(seed) if trace is None else None
        self._replay = trace
        self._i = 0
        self.trace = []
        self.labels = []

    def _draw(self, label, n, sampler):
        """an integer in range(n)"""
        if self._replay is not None:
            v = self._replay[self._i] if self._i < len(self._replay) else 0
            self._i += 1
            v = v % n if n > 0 else 0
        else:
            v = sampler()
        self.trace.append(v)
        self.labels.append(label)
        return v

    def flip(self, label, p=0.5):
        return bool(self._draw(label, 2, lambda: int(self._rng.random() < p)))

    def int(self, label, lo, hi):
        if hi < lo:
            hi = lo
        return lo + self._draw(label, hi - lo + 1, lambda: self._rng.randrange(hi - lo + 1))

    def pick(self, label, seq, weights=None):
        seq = list(seq)
        if weights is None:
            i = self._draw(label, len(seq), lambda: self._rng.randrange(len(seq)))
        else:
            i = self._draw(label, len(seq),
                           lambda: self._rng.choices(range(len(seq)), weights)[0])
        return seq[i]

    def size(self, label, lo, hi):
        """integer biased to the low end and to the extremes of [lo, hi]"""
        def sampler():
            r = self._rng.random()
            if r < 0.1 or hi <= lo:
                return 0
            if r < 0.2:
                return hi - lo
            if r < 0.6:
                return int((hi - lo + 1) ** self._rng.random()) % (hi - lo + 1)
            return self._rng.randrange(hi - lo + 1)
        return lo + self._draw(label, max(hi - lo, 0) + 1, sampler)

    def subset(self, label, seq, p=0.5):
        return [x for x in seq if self.flip(label, p)]

    def shuffle(self, label, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.int(label, 0, len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def shrink(trace, fails, budget=400, deadline=None):
    """Greedy choice-trace minimisation.  `fails(trace)` -> the trace actually consumed when the
    same violation shows, else None."""
    import time
    best = list(trace)
    spent = 0

    def attempt(cand):
        nonlocal best, spent
        if spent >= budget or (deadline and time.monotonic() > deadline):
            return False
        spent += 1
        got = fails(cand)
        if got is None:
            return False
        while got and got[-1] == 0:
            got.pop()
        if (len(got), sum(1 for v in got if v), sum(got)) < \
           (len(best), sum(1 for v in best if v), sum(best)):
            best = got
            return True
        return False

    improved = True
    while improved and spent < budget and not (deadline and time.monotonic() > deadline):
        improved = False
        size = max(len(best) // 2, 1)
        while size:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    continue
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if i < len(best) and best[i] > 1:
                for v in (1, best[i] // 2, best[i] - 1):
                    if i < len(best) and v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
    return best, spent
