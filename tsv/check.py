"""Runs the check of one property: python3-vt -m tsv.check <property>.
Exit 0: every obligation discharged (or, where the machinery cannot decide, nothing found wrong);
exit 1 with a VIOLATION line otherwise."""
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed, TimeoutError as FuturesTimeout
import multiprocessing

from .report import Report
from .facts import Limit
from .machine import Fail

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()
WORKERS = int(os.environ.get('TSV_WORKERS', '8'))


def call(path, args):
    """run one task in a worker"""
    mod, fn = path.rsplit('.', 1)
    t = time.time()
    try:
        import importlib
        sys.setrecursionlimit(20000)
        f = getattr(importlib.import_module('tsv.' + mod), fn)
        r = f(*args)
        rep, extra = r if type(r) is tuple else (r, None)
    except Fail as e:
        rep, extra = Report(), None
        rep.fail('%s%r' % (path, args), str(e))
    except Limit as e:
        rep, extra = Report(), None
        rep.limit('%s%r' % (path, args), str(e))
    except Exception as e:
        rep, extra = Report(), None
        rep.limit('%s%r' % (path, args), 'internal: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
    rep.st['cpu'] = rep.st.get('cpu', 0) + time.time() - t
    rep.times = [(round(time.time() - t, 2), '%s%r' % (path, args))]
    return rep, extra


class Group(object):
    """a set of tasks whose results are judged together"""

    def __init__(self, name, tasks, judge=None):
        self.name = name
        self.tasks = tasks
        self.judge = judge       # results -> None (final) or a new list of tasks (start over)

    def first(self):
        return self.tasks

    def again(self, results):
        return self.judge(results) if self.judge else None


PROOF = int(os.environ.get('TSV_PROOF', '420'))       # seconds after which the proofs that are left count as undecided


def stop(ex, now):
    """end a pool; now: without waiting for what is running"""
    if now:
        for p in list((ex._processes or {}).values()):
            p.kill()
    ex.shutdown(wait=True, cancel_futures=True)


class Late(Exception):
    pass


def alarm(seconds):
    def h(*a):
        raise Late()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(max(1, int(seconds)))


def run_groups(groups, limit):
    total = Report()
    times = []
    ctx = multiprocessing.get_context('fork')
    ex = ProcessPoolExecutor(WORKERS, mp_context=ctx)
    late = False
    try:
        pend = {}
        res = {g: {} for g in groups}
        open_ = {}

        def submit(g, tasks):
            res[g] = {}
            open_[g] = len(tasks)
            for i, (path, args) in enumerate(tasks):
                pend[ex.submit(call, path, args)] = (g, i, args)
        rounds = {g: 0 for g in groups}
        # longest tasks first
        for g in sorted(groups, key=lambda g: -getattr(g, 'weight', 0)):
            submit(g, g.first())
        while pend:
            for f in as_completed(list(pend), max(1, T0 + limit - time.time())):
                g, i, _ = pend.pop(f)
                try:
                    res[g][i] = f.result()
                except Exception as e:
                    r = Report()
                    r.limit(g.name, 'worker died: %s' % e)
                    res[g][i] = (r, None)
                times += getattr(res[g][i][0], 'times', [])
                open_[g] -= 1
                if open_[g] == 0:
                    rounds[g] += 1
                    nxt = g.again([res[g][k] for k in sorted(res[g])]) if rounds[g] < 6 else None
                    if nxt:
                        submit(g, nxt)
                        break
                    for k in sorted(res[g]):
                        total.merge(res[g][k][0])
                    res[g] = {}
    except (TimeoutError, FuturesTimeout):
        late = True
        for g in groups:
            for k in sorted(res[g]):
                total.merge(res[g][k][0])
        for g, i, args in pend.values():
            total.limit('%s %r' % (g.name, args), 'out of time')
    finally:
        stop(ex, late)
    times.sort(reverse=True)
    total.times = times[:12]
    return total


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def main(argv):
    from . import checks, native
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    chk = checks.CHECKS[prop]
    native.tmpdir()        # made here, so that it goes when this process does
    try:
        rep = run_groups(chk.groups(tier), 1e9 if tier == 'thorough' else PROOF)
    except Exception:
        rep = Report()
        rep.limit('check', traceback.format_exc()[-1500:])
        rep.times = []
    if chk.combine:
        chk.combine(rep)
    t1 = time.time()
    violations = []
    found = []
    nruns = 0
    if rep.fails or rep.limits:
        # replay on the real code
        try:
            if tier != 'thorough':
                alarm(T0 + 800 - time.time())
            found, nruns = chk.replay(rep, seed, tier)
        except Late:
            rep.notes.append('replay: out of time')
        except Exception:
            rep.notes.append('replay: ' + traceback.format_exc()[-1500:])
        finally:
            signal.alarm(0)
    kf = known(prop)
    listed = []
    for f in found:
        d = f.asdict()
        hit = [k for k in kf if k in json.dumps(d)]
        if hit:
            listed.append(hit[0])
        else:
            violations.append(d)
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    gen, dis = rep.total()
    code = 0
    if violations or rep.fails and not listed:
        code = 1
        path = os.path.join(evid, 'replay_%s.json' % prop)
        json.dump({'property': prop, 'failing_inputs': violations[:5],
                   'failed_obligations': [{'obligation': a, 'verifier': b} for a, b in rep.fails[:40]],
                   'undecided': [{'obligation': a, 'why': b} for a, b in rep.limits[:40]], 'notes': rep.notes[:20]}, open(path, 'w'), indent=1)
        for a, b in rep.fails[:8]:
            print('failed obligation: %s -- %s' % (a, str(b)[:300]))
        for v in violations[:3]:
            print('failing input (%s): %s' % (v['config'], v['what']))
    for k in sorted(set(listed)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for a, b in rep.limits[:8]:
        print('undecided: %s -- %s' % (a, str(b)[:400]))
    cov = {
        'obligations': gen, 'discharged': dis,
        'checker_cmd': 'python3-vt -m tsv.check %s' % prop,
        'trusted_base': checks.TRUSTED,
        'by_obligation': {k: {'generated': v[0], 'discharged': v[1]} for k, v in sorted(rep.ob.items())},
        'functions_under_proof': sorted(rep.funcs),
        'back_ends': {'symbolic executor with algebraic normalisation': gen - rep.st.get('z3', 0), 'z3': rep.st.get('z3', 0)},
        'solver_time_s': round(rep.st.get('z3time', 0.0), 3), 'cpu_s': round(rep.st.get('cpu', 0.0), 1),
        'paths': rep.st.get('paths', 0), 'splits': rep.st.get('split', 0),
        'bounded_stand_ins': rep.bounded[:20],
        'undecided': [{'obligation': a, 'why': str(b)[:300]} for a, b in rep.limits[:20]],
        'failed': [{'obligation': a, 'verifier': str(b)[:300]} for a, b in rep.fails[:20]],
        'replay_runs': nruns, 'slowest_tasks': rep.times, 'notes': rep.notes[:20],
        'configurations': chk.configs(tier),
    }
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
               'assumptions': checks.ASSUME + chk.assume, 'wall_s': round(time.time() - T0, 2), 'violations': len(violations) if violations else int(code)},
              open(os.path.join(evid, prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided, %d native runs, %.1f s (proof %.1f s)' % (
        prop, gen, dis, len(rep.fails), len(rep.limits), nruns, time.time() - T0, t1 - T0))
    if code:
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if violations else ' no-failing-input-found'))
    elif gen == 0:
        # vacuous: nothing was generated
        print('no obligations were generated')
        return 2
    return code


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
