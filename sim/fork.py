"""Runs (part of) a run in a forked child, so that whatever it does to global state is forgotten."""
import os
import pickle
import signal
import traceback

from . import core
from .core import HarnessError, Violation

KEEP = ('log', 'faults', 'probes', 'states', 'sig', 'keylog', 'steps', 'real', 'nontrivial', 'now')


def isolated(run, fn, absorb=True, cpu=40):
    """fn(run) in a child -> its result; with `absorb`, what the child recorded belongs to the run"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, cpu)
            signal.setitimer(signal.ITIMER_REAL, 200)
            try:
                out = ('ok', fn(run))
            except Violation as exc:
                out = ('violation', exc.kind, exc.msg)
            except HarnessError as exc:
                out = ('harness', str(exc) + ''.join(traceback.format_exception(exc))[-1500:])
            except BaseException:
                out = ('harness', traceback.format_exc())
            signal.setitimer(signal.ITIMER_PROF, 0)
            state = {k: getattr(run, k) for k in KEEP}
            state['trace'], state['labels'], state['i'] = run.ch.trace, run.ch.labels, run.ch._i
            data = pickle.dumps((out, state if absorb else None), pickle.HIGHEST_PROTOCOL)
            view = memoryview(data)
            while view:
                n = os.write(w, view[:1 << 20])
                view = view[n:]
        finally:
            os._exit(0)
    os.close(w)
    parts = []
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        parts.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    if not parts:
        raise HarnessError('the child died')
    out, state = pickle.loads(b''.join(parts))
    if absorb:
        for k in KEEP:
            setattr(run, k, state[k])
        run.ch.trace, run.ch.labels, run.ch._i = state['trace'], state['labels'], state['i']
    if out[0] == 'violation':
        raise Violation(out[1], out[2])
    if out[0] == 'harness':
        raise HarnessError('in a child: ' + out[1])
    return out[1]


def fresh(run, seed):
    """a run of its own, for what must not see the choices of the other"""
    core.begin(seed)
    core.CUR.now = run.now
    return core.CUR
