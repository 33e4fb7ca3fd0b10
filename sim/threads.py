"""Real threads, one at a time: a seeded scheduler decides at every yield point which one goes on.

A thread gives the baton back when it waits (sockets, locks, sleeps) and, when line tracing is asked for, before
chosen source lines.  Time is simulated: it moves only when nobody can run."""
import os
import sys
import threading

from .core import REPO, HarnessError, Violation


class Killed(BaseException):
    """unwinds the threads of a run that is over"""


class Task:
    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.baton = threading.Lock()
        self.baton.acquire()
        self.ready = None        # predicate, or None when runnable
        self.deadline = None     # simulated time at which it runs anyway
        self.timed_out = False
        self.done = False
        self.exc = None
        self.result = None
        self.rand = None
        self.daemon = False      # the run does not wait for it
        self.waits_for = ''
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        s = self.sched
        self.baton.acquire()
        try:
            if not s.dead:
                s.run.rand = self.rand
                self.result = self.fn()
        except Killed:
            pass
        except Violation as exc:
            s.violation = s.violation or exc
        except HarnessError as exc:
            if not s.dead:
                s.harness = s.harness or exc
        except BaseException as exc:
            self.exc = exc
        finally:
            self.done = True
            s.switch_from(self)


class Sched:
    def __init__(self, run, max_switches=200000, prefer=0.0):
        self.run = run
        self.tasks = []
        self.current = None
        self.main = threading.Lock()
        self.main.acquire()
        self.dead = False
        self.violation = None
        self.harness = None
        self.switches = 0
        self.max_switches = max_switches
        self.prefer = prefer          # how sticky the running thread is at mere yield points
        self.lines = 0
        self.deadlocked = None
        self.on_idle = None           # called when nobody can run; returns True when it changed something

    def spawn(self, name, fn, daemon=False):
        t = Task(self, name, fn)
        t.daemon = daemon
        t.rand = self.run.rand
        self.tasks.append(t)
        return t

    # -- called by tasks -------------------------------------------------------------------------
    def me(self):
        return self.current

    def pause(self):
        """a point where others may run"""
        t = self.current
        if t is None or threading.current_thread() is not t.thread:
            return
        if self.dead:
            raise Killed
        if self.prefer and self.run.ch.flip('stay', self.prefer):
            return
        self._give(t)

    def wait(self, pred, timeout=None, what=''):
        """block until pred() or the timeout; -> whether pred() held"""
        t = self.current
        if self.dead and any(threading.current_thread() is x.thread for x in self.tasks):
            raise Killed     # again: what is being unwound may wait on its way out
        if t is None or threading.current_thread() is not t.thread:
            raise HarnessError(f'wait for {what} outside of a task')
        if self.dead:
            raise Killed
        t.ready = pred
        t.deadline = None if timeout is None else self.run.now + timeout
        t.timed_out = False
        t.waits_for = what
        self._give(t)
        t.ready = None
        t.deadline = None
        return not t.timed_out

    def sleep(self, dt):
        self.wait(lambda: False, max(dt, 0), 'sleep')

    def _give(self, t):
        t.rand = self.run.rand
        self.switch_from(t)
        t.baton.acquire()
        if self.dead:
            raise Killed
        self.run.rand = t.rand

    # -- scheduling ------------------------------------------------------------------------------
    def switch_from(self, t):
        """runs in the thread that gives up the baton"""
        if self.dead:
            return
        nxt = None
        if not self.dead:
            try:
                nxt = self.choose()
            except HarnessError as exc:
                self.harness = self.harness or exc
            except Violation as exc:
                self.violation = self.violation or exc
        self.current = nxt
        if nxt is None:
            self.main.release()
        elif nxt is not t or t.done:
            nxt.baton.release()
        else:
            t.baton.release()

    def choose(self):
        if self.violation or self.harness:
            return None
        self.switches += 1
        if self.switches > self.max_switches:
            raise Violation('no progress', f'{self.switches} scheduling steps without end: '
                            + ', '.join(f'{x.name}: {x.waits_for}' for x in self.tasks if not x.done))
        while True:
            alive = [x for x in self.tasks if not x.done]
            if not any(not x.daemon for x in alive):
                return None
            can = []
            for x in alive:
                if x.ready is None or x.ready():
                    x.timed_out = False
                    can.append(x)
            if can:
                nxt = can[0] if len(can) == 1 else self.run.ch.pick('next', can)
                if len(can) > 1:
                    self.run.sig.append(nxt.name[:2])
                return nxt
            if self.on_idle and self.on_idle():
                continue
            times = [x.deadline for x in alive if x.deadline is not None]
            if not times:
                self.deadlocked = [(x.name, x.waits_for) for x in alive]
                return None
            self.run.now = max(self.run.now, min(times))
            late = [x for x in alive if x.deadline is not None and x.deadline <= self.run.now]
            nxt = late[0] if len(late) == 1 else self.run.ch.pick('late', late)
            nxt.timed_out = True
            nxt.deadline = None
            self.run.sig.append('t' + nxt.name[:2])
            return nxt

    def go(self):
        """run every task to its end; -> False when they are deadlocked"""
        rand = self.run.rand
        for t in self.tasks:
            t.thread.start()
        try:
            first = self.choose()
            if first is not None:
                self.current = first
                self.run.rand = first.rand
                first.baton.release()
                self.main.acquire()
        finally:
            self.stop()
            self.run.rand = rand
        if self.harness:
            raise self.harness
        if self.violation:
            raise self.violation
        return self.deadlocked is None

    def stop(self):
        global _watching
        if _watching is self:
            _watching = None
        self.dead = True
        self.current = None
        for t in self.tasks:
            if not t.done:
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
        for t in self.tasks:
            if t.thread.is_alive():
                t.thread.join(5)

    # -- line tracing ----------------------------------------------------------------------------
    def trace_files(self, match, p=.5, budget=400):
        """yield before lines of the files for which match(filename) holds, with probability p"""
        self.match, self.p, self.budget = match, p, budget
        _monitor(self)

    def at_line(self, filename):
        t = self.current
        if self.dead or self.lines >= self.budget or t is None or threading.current_thread() is not t.thread:
            return
        if not self.match(filename):
            return
        self.lines += 1
        if self.run.ch.flip('preempt', self.p):
            self.run.fault('preemption')
            self.pause()


_TOOL = 3
_watching = None
_inside = None


def _monitor(sched):
    """line events of the tree under test go to this schedule"""
    global _watching, _inside
    if _inside is None:
        _inside = os.path.join(REPO, 'src') + os.sep
        mon = sys.monitoring
        mon.use_tool_id(_TOOL, 'sim')

        def line(code, number, _inside=_inside):
            name = code.co_filename
            if not name.startswith(_inside):
                return mon.DISABLE
            if _watching is not None:
                _watching.at_line(name)
        mon.register_callback(_TOOL, mon.events.LINE, line)
        mon.set_events(_TOOL, mon.events.LINE)
    _watching = sched


class SimLock:
    """a lock whose waiters are known to the scheduler"""
    def __init__(self, sched_of, reentrant=False):
        self._of = sched_of
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def _who(self):
        s = self._of()
        return s.current if s is not None and s.current is not None else 'outside'

    def acquire(self, blocking=True, timeout=-1):
        s = self._of()
        me = self._who()
        if self.owner is not None and self.reentrant and self.owner is me:
            self.depth += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if me == 'outside':
                raise HarnessError('lock held outside of a schedule')
            s.wait(lambda: self.owner is None, None if timeout < 0 else timeout, 'lock')
            if self.owner is not None:
                return False
        elif s is not None and me != 'outside':
            s.pause()
            if self.owner is not None:
                return self.acquire(blocking, timeout)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            s = self._of()
            if s is not None and s.current is not None and not s.dead:
                s.pause()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimCondition:
    def __init__(self, sched_of, lock=None):
        self._of = sched_of
        self._lock = lock or SimLock(sched_of, True)
        self._tickets = []
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        self._lock.__exit__(*a)

    def wait(self, timeout=None):
        t = [False]
        self._tickets.append(t)
        depth, self._lock.depth = self._lock.depth, 1
        self._lock.release()
        ok = self._of().wait(lambda: t[0], timeout, 'condition')
        if t in self._tickets:
            self._tickets.remove(t)
        self._lock.acquire()
        self._lock.depth = depth
        return ok

    def wait_for(self, pred, timeout=None):
        end = None if timeout is None else self._of().run.now + timeout
        while not pred():
            left = None if end is None else end - self._of().run.now
            if left is not None and left <= 0:
                break
            self.wait(left)
        return pred()

    def notify(self, n=1):
        for t in self._tickets[:n]:
            t[0] = True
        del self._tickets[:n]

    def notify_all(self):
        self.notify(len(self._tickets))


class SimEvent:
    def __init__(self, sched_of):
        self._of = sched_of
        self._flag = False

    def is_set(self):
        return self._flag

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        return self._flag or self._of().wait(lambda: self._flag, timeout, 'event')


class SimSemaphore:
    def __init__(self, sched_of, value=1):
        self._of = sched_of
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        while self._value <= 0:
            if not blocking:
                return False
            if not self._of().wait(lambda: self._value > 0, timeout, 'semaphore'):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def module_for(sched_of):
    """what a module that imports threading sees under simulation"""
    import types
    m = types.ModuleType('threading')
    m.__dict__.update({k: v for k, v in vars(threading).items() if not k.startswith('__')})
    m.Lock = lambda: SimLock(sched_of)
    m.RLock = lambda: SimLock(sched_of, True)
    m.Condition = lambda lock=None: SimCondition(sched_of, lock)
    m.Event = lambda: SimEvent(sched_of)
    m.Semaphore = m.BoundedSemaphore = lambda value=1: SimSemaphore(sched_of, value)
    return m
