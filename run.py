#!/usr/bin/env python3
"""run.py check <ID> [--tier quick|thorough] [--runs N] [--workers N] [--scenario NAME]
   run.py replay <FILE>
   run.py trace <ID> <INDEX>          one run, with its event log
   run.py determinism [ID ...]        every sampled run twice, across processes and hash seeds

Seeds: run i of property P under VERIF_SEED s is decided by the string "s/P/i" alone."""
import argparse
import base64
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sim import core                                            # noqa: E402
from sim.choice import shrink                                   # noqa: E402
from sim.core import HarnessError, Violation                    # noqa: E402

CPU_LIMIT = 40      # seconds of CPU one run may take before it counts as a hang
WALL_LIMIT = 240    # seconds of wall clock before a run counts as stuck
KNOWN = os.path.join(HERE, 'known_findings.json')


def load(pid):
    mod = importlib.import_module(f'checks.{pid.lower()}')
    return mod


class _Hang(BaseException):
    pass


_depth_hint = []


def _on_cpu(sig, frame):
    raise Violation('hang', 'a call did not return within %d s of processor time, at %s' %
                    (getattr(_on_cpu, 'limit', CPU_LIMIT), ''.join(traceback.format_stack(frame, 4)[-3:])))


def _on_wall(sig, frame):
    raise HarnessError('run stuck, at ' + ''.join(traceback.format_stack(frame, 6)))


def execute(mod, seed, trace=None, scenario=None):
    """-> (run, violation or None)"""
    run = core.begin(seed, trace)
    viol = None
    _on_cpu.limit = getattr(mod, 'CPU_LIMIT', CPU_LIMIT)
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.signal(signal.SIGALRM, _on_wall)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, 'WALL_LIMIT', WALL_LIMIT))
    try:
        weights = [w for _, w, _ in mod.SCENARIOS]
        names = [n for n, _, _ in mod.SCENARIOS]
        name = run.ch.pick('scenario', names, weights)
        special = special_of(mod, seed)
        if scenario or special:
            name = scenario or special
        run.opts['scenario'] = name
        run.ev('scenario', name)
        run.sig.append(name)
        next(f for n, f in [(n, f) for n, _, f in mod.SCENARIOS] + list(getattr(mod, 'SPECIAL', ())) if n == name)(run)
    except Violation as exc:
        viol = exc
        run.ev('VIOLATION', exc.kind)
    except Exception as exc:
        if not from_library(exc):
            raise
        # nothing in a scenario expects the library to raise this here
        viol = Violation('unexpected exception', ''.join(traceback.format_exception(exc))[-1500:])
        run.ev('VIOLATION', viol.kind)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        core.end()
    return run, viol


def from_library(exc):
    """whether the code under test, rather than the harness, raised it"""
    for frame in reversed(traceback.extract_tb(exc.__traceback__)):
        where = os.path.realpath(frame.filename)
        if where.startswith(os.path.realpath(core.REPO) + os.sep):
            return True
        if where.startswith(HERE + os.sep):
            return False
    return False


def special_of(mod, seed):
    """the first runs of some checks are long ones, each of its own kind"""
    special = getattr(mod, 'SPECIAL', ())
    i = int(seed.rsplit('/', 1)[1])
    return special[i][0] if i < len(special) else None


def seed_of(base, pid, i):
    return f'{base}/{pid}/{i}'


def known_entries(pid):
    try:
        with open(KNOWN) as f:
            return [e for e in json.load(f)['known'] if e['property'] == pid]
    except FileNotFoundError:
        return []


HISTORY = []       # the runs this process went through so far


def _worker(args):
    pid, base, lo, hi, stop_at, deadline, scenario = args
    mod = load(pid)
    known = {e['kind']: e for e in known_entries(pid)}
    st = dict(n=0, faults=collections.Counter(), probes=collections.Counter(), real=collections.Counter(),
              sigs=set(), states=set(), simtime=0.0, steps=0, nontrivial=set(), viol=None,
              scen=collections.Counter(), samples=[], logs=hashlib.sha256(), harness=None, known=set())
    for i in range(lo, hi):
        if i >= stop_at.value or time.monotonic() > deadline:
            break
        HISTORY.append(i)
        try:
            run, viol = execute(mod, seed_of(base, pid, i), scenario=scenario)
        except HarnessError as exc:
            st['harness'] = f'run {i}: {exc}'
            with stop_at.get_lock():
                stop_at.value = min(stop_at.value, 0)
            break
        except Exception:
            st['harness'] = f'run {i}: ' + traceback.format_exc()
            with stop_at.get_lock():
                stop_at.value = min(stop_at.value, 0)
            break
        st['n'] += 1
        st['faults'].update(run.faults)
        st['probes'].update(run.probes)
        st['real'].update(run.real)
        st['states'].update(run.states)
        st['scen'][run.opts['scenario']] += 1
        st['simtime'] += run.now - core.EPOCH
        st['steps'] += run.steps
        d = run.sigdigest()
        st['sigs'].add(d)
        if run.nontrivial:
            st['nontrivial'].add(d)
            if len(st['samples']) < 1 and len(run.log) < 60:
                st['samples'].append(dict(seed=run.seed, scenario=run.opts['scenario'],
                                          schedule=run.sig[:60], log=[x[:160] for x in run.log[:30]]))
        st['logs'].update(run.digest().encode())
        if viol is not None:
            if viol.kind in known:
                st['known'].add(viol.kind)
                continue
            st['viol'] = (i, viol.kind, viol.msg, run.ch.trace, HISTORY[:-1])
            with stop_at.get_lock():
                stop_at.value = min(stop_at.value, i)
            break
    st['logs'] = st['logs'].hexdigest()
    return st


_STOP = None


def _init_pool(stop):
    global _STOP
    _STOP = stop
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _pool_entry(args):
    return _worker(args[:4] + (_STOP,) + args[4:])


def pack(trace):
    return base64.b85encode(zlib.compress(json.dumps(trace, separators=(',', ':')).encode(), 9)).decode()


def unpack(s):
    return json.loads(zlib.decompress(base64.b85decode(s)))


def _shrink(conn, pid, seed, trace, kind, scenario, budget_s):
    mod = load(pid)
    end = time.monotonic() + budget_s

    def fails(cand):
        try:
            run, viol = execute(mod, seed, list(cand), scenario)
        except (HarnessError, Exception):
            return None
        if viol is not None and viol.kind == kind:
            return list(run.ch.trace)
        return None
    best, spent = shrink(trace, fails, budget=3000, deadline=end)
    run, viol = execute(mod, seed, list(best), scenario)
    if viol is None or viol.kind != kind:
        best = trace
        run, viol = execute(mod, seed, list(best), scenario)
    conn.send(dict(trace=best, spent=spent, kind=viol.kind if viol else None,
                   msg=viol.msg if viol else None, log=run.log, digest=run.digest(),
                   faults=dict(run.faults), schedule=run.sig,
                   decisions=[f'{a}={b}' for a, b in zip(run.ch.labels, run.ch.trace) if b]))


def report(pid, base, i, kind, msg, trace, history, scenario, budget_s):
    seed = seed_of(base, pid, i)
    res = None
    if not special_of(load(pid), seed):
        par, chi = mp.Pipe()
        p = mp.Process(target=_shrink, args=(chi, pid, seed, trace, kind, scenario, budget_s))
        p.start()
        if par.poll(budget_s + 120):
            try:
                res = par.recv()
            except EOFError:
                res = None
        p.join(5)
        if p.is_alive():
            p.kill()
    path = os.path.join(HERE, 'replays', f'{pid}-{base}-{i}.json')
    plain = dict(trace=trace, kind=kind, msg=msg, log=[], digest=None, faults={}, schedule=[], decisions=[], spent=0)
    if res is None or res['kind'] != kind:
        res = plain
    write_replay(path, pid, base, i, kind, msg, trace, scenario, res)
    tries = [lambda: res]
    if res is not plain:
        tries.append(lambda: plain)
    if history:
        # the violation needs what earlier runs of the same process left behind
        tries.append(lambda: dict(plain, prelude=prelude(pid, base, seed, trace, kind, scenario, history, 120)))
    for n, make in enumerate(tries):
        r = make()
        if n:
            write_replay(path, pid, base, i, kind, msg, trace, scenario, r)
        env = dict(os.environ, PYTHONHASHSEED='7')
        out = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), 'replay', path],
                             capture_output=True, text=True, env=env, timeout=800)
        if out.returncode == 1:
            break
    return path, r, out


def write_replay(path, pid, base, i, kind, msg, trace, scenario, res):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(dict(property=pid, verif_seed=base, run=i, seed=seed_of(base, pid, i), scenario=scenario, kind=kind,
                       message=res['msg'] or msg, trace=pack(res['trace']), prelude=res.get('prelude', []),
                       original_decisions=len(trace), minimised_decisions=len(res['trace']),
                       shrink_runs=res['spent'], log_sha256=res['digest'], faults=res['faults'],
                       decisions=res['decisions'][:400], schedule=res['schedule'][:400],
                       log=res['log'][-200:]), f, indent=1)


def go_through(mod, pid, base, runs, scenario):
    for i in runs:
        try:
            execute(mod, seed_of(base, pid, i), scenario=scenario)
        except (HarnessError, Exception):
            pass


def _with_prelude(conn, pid, base, seed, trace, kind, scenario, runs):
    mod = load(pid)
    go_through(mod, pid, base, runs, scenario)
    try:
        _, viol = execute(mod, seed, list(trace), scenario)
    except (HarnessError, Exception):
        viol = None
    conn.send(viol is not None and viol.kind == kind)


def prelude(pid, base, seed, trace, kind, scenario, history, budget_s):
    """the least of the earlier runs that the violation needs (each attempt in a process of its own)"""
    end = time.monotonic() + budget_s

    def fails(runs):
        par, chi = mp.Pipe()
        p = mp.Process(target=_with_prelude, args=(chi, pid, base, seed, trace, kind, scenario, runs))
        p.start()
        got = False
        if par.poll(600):
            try:
                got = par.recv()
            except EOFError:
                pass
        p.join(5)
        if p.is_alive():
            p.kill()
        return got
    best = list(history)
    if not fails(best):
        return best
    n = 1
    while n <= len(best) and time.monotonic() < end:
        # the last n of them
        if fails(best[-n:]):
            best = best[-n:]
            break
        n *= 4
    size = len(best) // 2
    while size and time.monotonic() < end:
        i = 0
        while i < len(best) and time.monotonic() < end:
            cand = best[:i] + best[i + size:]
            if fails(cand):
                best = cand
            else:
                i += size
        size //= 2
    return best


def cmd_replay(path, quiet=False):
    with open(path) as f:
        rec = json.load(f)
    core.install()
    mod = load(rec['property'])
    go_through(mod, rec['property'], rec['verif_seed'], rec.get('prelude', ()), rec.get('scenario'))
    run, viol = execute(mod, rec['seed'], unpack(rec['trace']), rec.get('scenario'))
    if not quiet:
        for line in run.log:
            print(line[:400])
    if viol is None:
        print(f'replay of {path}: the violation does not show on this tree')
        return 0
    print(f'{viol.kind}: {viol.msg}')
    same = viol.kind == rec['kind'] and (rec['log_sha256'] in (None, run.digest()))
    print('replay: %s' % ('identical violation and event log' if same else
                          f'violation {viol.kind} (recorded {rec["kind"]})'))
    print(f'VIOLATION property={rec["property"]} replay={path}')
    return 1


def cmd_check(a):
    t0 = time.monotonic()
    base = a.seed
    tier = a.tier
    core.install()
    mod = load(a.id)
    n = a.runs or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    soft = (420 if tier == 'quick' else 6 * 3600) if not a.runs else 6 * 3600
    deadline = t0 + soft
    print(f'{a.id} {tier}: VERIF_SEED={base}, {n} runs, repo {core.REPO}', flush=True)
    stop = mp.Value('q', n)
    chunk = max(1, min(n // (a.workers * 8) or 1, 400))
    long = min(n, len(getattr(mod, 'SPECIAL', ())))
    jobs = [(a.id, base, i, i + 1, deadline, a.scenario) for i in range(long)]
    jobs += [(a.id, base, lo, min(lo + chunk, n), deadline, a.scenario) for lo in range(long, n, chunk)]
    with mp.get_context('fork').Pool(a.workers, _init_pool, (stop,)) as pool:
        parts = pool.map(_pool_entry, jobs, 1)
    tot = dict(n=0, faults=collections.Counter(), probes=collections.Counter(), real=collections.Counter(),
               sigs=set(), states=set(), simtime=0.0, steps=0, nontrivial=set(), scen=collections.Counter(),
               samples=[], known=set())
    viols, harness = [], []
    for st in parts:
        for k in ('n', 'simtime', 'steps'):
            tot[k] += st[k]
        for k in ('faults', 'probes', 'real', 'scen'):
            tot[k].update(st[k])
        for k in ('sigs', 'states', 'nontrivial', 'known'):
            tot[k] |= st[k]
        if len(tot['samples']) < 3:
            tot['samples'] += st['samples']
        if st['viol']:
            viols.append(st['viol'])
        if st['harness']:
            harness.append(st['harness'])
    run_wall = time.monotonic() - t0
    code, path = 0, None
    if viols:
        i, kind, msg, trace, history = min(viols, key=lambda v: (v[0] < long, v[0]))
        path, res, r = report(a.id, base, i, kind, msg, trace, history, a.scenario, 25 if tier == 'quick' else 120)
        print(f'run {i} (seed {seed_of(base, a.id, i)}): {kind}: {(res["msg"] or msg)[:1500]}')
        print(f'minimised from {len(trace)} to {len(res["trace"])} decisions; decisions: '
              + ' '.join(res['decisions'][:60]))
        if res.get('prelude'):
            print(f'after the runs {res["prelude"][:40]}')
        print('\n'.join(r.stdout.splitlines()[-2:-1]))
        if r.returncode != 1:
            print('replay in a fresh process did not reproduce the violation:\n' + r.stdout[-800:] + r.stderr[-2000:])
            code = 2
        else:
            code = 1
    elif harness:
        print('HARNESS ERROR ' + harness[0])
        code = 2
    elif tot['n'] < n:
        print(f'time budget reached after {tot["n"]} of {n} runs')
        if tot['n'] < n // 20:
            code = 2
    if not viols and not harness and not a.scenario and tot['n'] == n:
        for probe in getattr(mod, 'PROBES', ()):
            if not tot['probes'].get(probe):
                # the coverage this check relies on was not reached: say so, it decides nothing
                print(f'note: probe {probe!r} was never reached')
    for e in known_entries(a.id):
        if e['kind'] in tot['known'] or e.get('always'):
            print(f'KNOWN-FINDING: property={a.id} {e["what"]}')
    wall = time.monotonic() - t0
    ev = dict(
        property=a.id, tier=tier, seed=int(base) if str(base).isdigit() else 0, level='exploration',
        coverage=dict(
            evaluations=tot['n'], distinct_nontrivial=len(tot['nontrivial']),
            rule=mod.RULE + ' A run is non-trivial when at least one fault, hostile act or rare '
                 'branch fired in it; distinct means a distinct abstract schedule (sequence of step '
                 'and fault kinds), counted over all runs.',
            samples=tot['samples'][:3] or ['(no non-trivial sample short enough to print)'],
            seeds=f'{base}/{a.id}/0 .. {base}/{a.id}/{n - 1}',
            runs_per_hour=int(tot['n'] / max(run_wall, .001) * 3600),
            simulated_seconds=round(tot['simtime'], 1),
            scheduler_steps=tot['steps'],
            distinct_schedules=len(tot['sigs']),
            distinct_states=len(tot['states']),
            state_measure='tuples recorded at each step by the scenario (side, phase, fault in force, outcome)',
            faults_injected=dict(sorted(tot['faults'].items())),
            probes=dict(sorted(tot['probes'].items())),
            scenarios=dict(sorted(tot['scen'].items())),
            real_components=dict(sorted(tot['real'].items())),
            stubs=getattr(mod, 'STUBS', []),
            workers=a.workers),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + [
            'the reference peer, the certificate factory and the AEAD/signature primitives of '
            'the cryptography package are right'],
        wall_s=round(wall, 1), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{a.id}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{tot["n"]} runs, {len(tot["sigs"])} schedules, {len(tot["nontrivial"])} distinct non-trivial, '
          f'{sum(tot["faults"].values())} faults, {wall:.1f} s', flush=True)
    if code == 1:
        print(f'VIOLATION property={a.id} replay={path}')
    return code


def cmd_trace(a):
    core.install()
    mod = load(a.id)
    run, viol = execute(mod, seed_of(a.seed, a.id, a.index), scenario=a.scenario)
    for line in run.log:
        print(line[:600])
    print('faults', dict(run.faults), 'probes', dict(run.probes))
    print('decisions', len(run.ch.trace), 'digest', run.digest())
    print(viol.kind + ': ' + viol.msg if viol else 'no violation')
    return 1 if viol else 0


def cmd_digests(a):
    """event log digests of a sample of runs (used by `determinism`)"""
    core.install()
    mod = load(a.id)
    for i in range(a.lo, a.hi):
        run, viol = execute(mod, seed_of(a.seed, a.id, i), scenario=a.scenario)
        print(i, run.digest(), viol.kind if viol else '-')
    return 0


def cmd_determinism(a):
    ids = a.ids or [f[:-3].upper() for f in sorted(os.listdir(os.path.join(HERE, 'checks')))
                    if re.fullmatch(r'c\d\d\.py', f)]
    bad = 0
    for pid in ids:
        outs = []
        procs = []
        plan = [('0', 0, a.n, 0), ('1', 0, a.n, 1), ('12345', 0, a.n // 2, 2), ('99', a.n // 2, a.n, 2)]
        for hs, lo, hi, grp in plan:
            env = dict(os.environ, PYTHONHASHSEED=hs)
            procs.append((grp, subprocess.Popen(
                [sys.executable, '-B', os.path.abspath(__file__), 'digests', pid, str(lo), str(hi),
                 '--seed', str(a.seed)], stdout=subprocess.PIPE, text=True, env=env)))
        got = collections.defaultdict(list)
        for grp, p in procs:
            out = p.communicate()[0]
            got[grp] += out.splitlines()
            bad += bool(p.returncode)
        same = got[0] == got[1] == got[2] and len(got[0]) == a.n
        print(pid, 'deterministic' if same else 'DIVERGES', len(got[0]), 'runs', flush=True)
        if not same:
            bad += 1
            for x, y, z in zip(got[0], got[1], got[2]):
                if not x == y == z:
                    print('  ', x, '|', y, '|', z)
                    break
    return 1 if bad else 0


def main():
    p = argparse.ArgumentParser()
    sub = p.add_subparsers(dest='cmd', required=True)
    seed = os.environ.get('VERIF_SEED', '1')
    c = sub.add_parser('check')
    c.add_argument('id')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--runs', type=int)
    c.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    c.add_argument('--scenario')
    c.add_argument('--seed', default=seed)
    c = sub.add_parser('replay')
    c.add_argument('file')
    c = sub.add_parser('trace')
    c.add_argument('id')
    c.add_argument('index', type=int)
    c.add_argument('--scenario')
    c.add_argument('--seed', default=seed)
    c = sub.add_parser('digests')
    c.add_argument('id')
    c.add_argument('lo', type=int)
    c.add_argument('hi', type=int)
    c.add_argument('--scenario')
    c.add_argument('--seed', default=seed)
    c = sub.add_parser('determinism')
    c.add_argument('ids', nargs='*')
    c.add_argument('-n', type=int, default=60)
    c.add_argument('--seed', default=seed)
    a = p.parse_args()
    if a.cmd == 'check':
        code = cmd_check(a)
    elif a.cmd == 'replay':
        code = cmd_replay(a.file)
    elif a.cmd == 'trace':
        code = cmd_trace(a)
    elif a.cmd == 'digests':
        code = cmd_digests(a)
    else:
        code = cmd_determinism(a)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
