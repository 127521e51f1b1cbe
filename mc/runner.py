"""Runs the exploration of one property: task pool, evidence, replay files."""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import env  # noqa: F401  (first)
from . import explore
from .lockstep import Violation, Abort, Protocol, Timeout, last_frames, quiet

CHUNK = 300          # executions before a worker hands back the rest of its subtree


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer, np.floating, np.bool_)):
        return x.item()
    if isinstance(x, (set, frozenset)):
        return sorted(jsonable(v) for v in x)
    return x


class Stats:
    def __init__(self):
        self.execs = self.trans = self.abort = 0
        self.states = set()
        self.events = {}
        self.samples = []
        self.violation = None
        self.findings = []

    def event(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def state(self, *key):
        """a state of the explored system, identified by its value"""
        self.states.add(hash(repr(key)))

    def merge(self, o):
        self.execs += o.execs
        self.trans += o.trans
        self.abort += o.abort
        self.states |= o.states
        for k, v in o.events.items():
            self.event(k, v)
        if len(self.samples) < 6:
            self.samples += o.samples[:1]
        for f in o.findings:
            if f not in self.findings:
                self.findings.append(f)
        if self.violation is None:
            self.violation = o.violation


def execute(mod, task, ch, st):
    """One execution. Violation -> returned message, else None."""
    try:
        with quiet():
            mod.run(task, ch, st)
    except Violation as ex:
        return str(ex)
    except Abort:
        st.abort += 1
    except Protocol as ex:
        return 'random numbers requested do not match: %s' % ex
    except Timeout:
        return 'does not terminate'
    except explore.Diverged as ex:
        return 'executions with the same choices differ: %s' % ex
    except (Exception, SystemExit) as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        return 'what the code returns cannot be interpreted: %s: %s (%s)' % (type(ex).__name__, ex, ', '.join(
            '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
    return None


def work(args):
    modname, task, root, deadline = args
    mod = __import__('mc.props.' + modname, fromlist=['run'])
    st = Stats()
    rest = []
    dev = task.get('dev')

    def run(ch):
        st.execs += 1
        return execute(mod, task, ch, st)
    n = 0
    slice_end = min(deadline, time.time() + 2.0)
    for ch, msg in explore.dfs(run, dev=dev, roots=(root,)):
        n += 1
        if n == 1 and not st.samples:
            st.samples.append(dict(task=jsonable(task), choices=ch.choices()))
        if msg is not None:
            st.violation = dict(task=jsonable(task), choices=ch.choices(), message=msg)
            break
        if n >= CHUNK or time.time() > slice_end:
            rest = explore.frontier(ch, len(root), dev)
            break
    return st, task, rest


def pid_init():
    pass


def explore_all(modname, tasks, jobs, budget):
    total = Stats()
    t0 = time.time()
    end = t0 + budget
    pending = [(modname, t, [], end) for t in reversed(tasks)]
    done_all = True
    ctx = multiprocessing.get_context('fork')
    pertask = {}
    with ctx.Pool(jobs, initializer=pid_init) as pool:
        active = []
        while pending or active:
            if time.time() > end and pending:
                done_all = False
                pending = []
            while pending and len(active) < 3*jobs:
                active.append(pool.apply_async(work, (pending.pop(),)))
            still = []
            progressed = False
            for a in active:
                if a.ready():
                    progressed = True
                    st, task, rest = a.get()
                    total.merge(st)
                    pertask[task.get('name', '?')] = pertask.get(task.get('name', '?'), 0) + st.execs
                    if rest:
                        for r in rest:
                            pending.append((modname, task, r, end))
                else:
                    still.append(a)
            active = still
            if total.violation:
                pool.terminate()
                break
            if not progressed:
                time.sleep(0.002)
    return total, done_all, pertask


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--task', help='only tasks whose name contains this')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid = a.property
    modname = pid.lower()
    t0 = time.time()
    mod = __import__('mc.props.' + modname, fromlist=['run'])
    err = env.import_target()
    if err is not None:
        return report(pid, mod, tier, t0, None, True, {}, dict(
            task={}, choices=[], message='pymcmcstat cannot be imported: %r' % err))
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        st = Stats()
        msg = execute(mod, r['task'], explore.Chooser(r['choices']), st)
        print('replay of', a.replay, ':', msg if msg else 'no violation')
        return 1 if msg else 0
    tasks = mod.tasks(tier)
    if a.task:
        tasks = [t for t in tasks if a.task in t.get('name', '')]
    budget = 600 if tier == 'quick' else 6*3600
    st, complete, pertask = explore_all(modname, tasks, a.jobs, budget)
    if a.verbose:
        for k, v in sorted(pertask.items(), key=lambda kv: -kv[1])[:40]:
            print('%8d %s' % (v, k))
    return report(pid, mod, tier, t0, st, complete, pertask, st.violation)


def report(pid, mod, tier, t0, st, complete, pertask, violation):
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    st = st or Stats()
    known = load_known(pid)
    level = mod.LEVEL
    cov = dict(states=len(st.states), transitions=st.trans, traces_validated_against_impl=st.execs - st.abort,
               executions=st.execs, inconclusive=st.abort, exhaustive=bool(complete and violation is None),
               configurations=len(pertask), events=dict(sorted(st.events.items())),
               bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
               samples=st.samples[:4] or ['none'])
    if level in ('exploration', 'fault_enumeration'):
        cov.update(evaluations=st.execs, distinct_nontrivial=len(st.states), rule=mod.RULE)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(jsonable(ev), f, indent=1)
    for f in st.findings:
        if f in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[f]))
        elif violation is None:
            violation = dict(task={}, choices=[], message='finding %s' % f)
    if violation is None:
        print('%s %s: held on %d executions, %d states, %d transitions (%d inconclusive) in %.1f s%s' % (
            pid, tier, st.execs, len(st.states), st.trans, st.abort, time.time() - t0,
            '' if complete else ' (time budget used up before the space was exhausted)'))
        return 0
    os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
    body = json.dumps(jsonable(dict(property=pid, **violation)), indent=1, sort_keys=True)
    path = os.path.join(env.VERIF, 'replays', '%s-%s.json' % (pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(body)
    print('%s: %s' % (pid, violation['message']))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def load_known(pid):
    """known-findings file: lines 'known: property=<id> key=<key> <what fails>' (and 'fixed: ...', ignored here)"""
    out = {}
    path = os.path.join(env.VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            p = line.strip().split(None, 3)
            if len(p) == 4 and p[0] == 'known:' and p[1] == 'property=' + pid and p[2].startswith('key='):
                out[p[2][4:]] = p[3]
    return out


COMMON_ASSUMPTIONS = [
    'numpy, scipy, h5py and the Python runtime behave as documented',
    'beyond the stated bounds nothing is claimed',
    'acceptance probabilities are decided up to a relative distance of 1e-6',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
