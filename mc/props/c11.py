import copy
import multiprocessing
import os
import pickle
import shutil
import numpy as np
from .. import env, rng
from ..lockstep import Violation, quiet, deadline, last_frames
from .common import grid, nm, TH
from .logs import same_rows
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='all assignments and completion orders of 1-5 chains on 1-3 workers, and one order each for 11-13 chains; '
          'given and generated initial values, fixed parameters, h5/txt/json output, restart from saved chains; '
          'conformance runs with the real process pool',
    thorough='all schedules of up to 6 chains on up to 3 workers; conformance runs with up to 12 chains')
ASSUMPTIONS = ['worker processes are modelled by pickled copies executed one at a time in completion order; sound because '
               'the check verifies that each chain touches only its own folder and its own copies',
               'a fork inherits the random number state of the parent, seeding without argument gives a fresh stream']


# ---------------------------------------------------------------- user's functions (picklable)
def sos1(theta, data):
    th = np.asarray(theta, dtype=float)
    d = np.asarray(data.ydata[0])
    return 1.5 + float(np.sum((th - 0.25)**2)) + 0.0*float(d[0, 0])


def sos2(theta, data):
    th = np.asarray(theta, dtype=float)
    return np.array([1.5 + float(np.sum((th - 0.25)**2)), 2.0 + float(np.sum(0.5*th**2))])


# ---------------------------------------------------------------- random number streams
class Streams:
    """Deterministic numbers, each known by (stream, position)."""
    def __init__(self, uniforms=None):
        self.fresh = 0
        self.cur = self._new('parent')
        self.uniforms = uniforms      # forced values for the next uniforms

    def _new(self, name):
        return dict(name=name, pos=0, gen=_real_rng(abs(hash(name)) % (2**31)))

    def fork(self):
        return dict(name=self.cur['name'], pos=self.cur['pos'], gen=copy.deepcopy(self.cur['gen']))

    def seed(self, s):
        if s is None:
            self.fresh += 1
            self.cur = self._new('fresh-%d-%d' % (os.getpid(), self.fresh))
        else:
            self.cur = self._new('seed-%r' % (s,))

    def normal(self, n):
        self.cur['pos'] += n
        return list(self.cur['gen'].standard_normal(n))

    def uniform(self, n):
        self.cur['pos'] += n
        if self.uniforms:
            return [self.uniforms.pop(0) if self.uniforms else 0.5 for _ in range(n)]
        return list(self.cur['gen'].random_sample(n))

    def gamma(self, a):
        self.cur['pos'] += 1
        return float(self.cur['gen'].standard_gamma(a))


def _real_rng(seed):
    # the genuine class: construction is diverted only while a source is active
    return rng._real['RandomState'](seed)


# ---------------------------------------------------------------- controlled pool
class ControlledPool:
    """multiprocessing.Pool whose schedule is chosen by the explorer."""
    ctl = None       # (chooser, streams, log) of the running execution

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.ch, self.streams, self.log = ControlledPool.ctl
        self.n = processes or 1
        if self.n < 1:
            raise ValueError('Number of processes must be at least 1')
        parent = self.streams.cur
        self.workers = []
        for _ in range(self.n):
            self.streams.cur = dict(name=parent['name'], pos=parent['pos'], gen=copy.deepcopy(parent['gen']))
            if initializer is not None:
                initializer(*initargs)
            self.workers.append(self.streams.cur)
        self.streams.cur = parent
        self.log['pools'] = self.log.get('pools', 0) + 1

    def _execute(self, func, argtuples, star, chunksize):
        """all schedules: FIFO hand-out to idle workers, completion in any order. Returns results in completion order"""
        items = list(argtuples)
        cs = max(1, chunksize or 1)
        if chunksize is None:
            cs, extra = divmod(len(items), self.n*4)
            cs += bool(extra)
            cs = max(cs, 1)
        chunks = [pickle.dumps((func, items[i:i+cs])) for i in range(0, len(items), cs)]
        idle, running, queue, done = list(range(self.n)), [], list(range(len(chunks))), []
        used = set()
        while queue or running:
            # actions: an idle worker takes the next chunk (workers that never worked are interchangeable),
            # or a running one completes
            acts = []
            if queue:
                seen = False
                for w in idle:
                    if w not in used:
                        if seen:
                            continue
                        seen = True
                    acts.append(('take', w))
            acts += [('finish', r) for r in range(len(running))]
            a = acts[self.ch.choose(len(acts))]
            if a[0] == 'take':
                idle.remove(a[1])
                used.add(a[1])
                running.append((a[1], queue.pop(0)))
            else:
                w, c = running.pop(a[1])
                parent = self.streams.cur
                self.streams.cur = self.workers[w]
                f, args = pickle.loads(chunks[c])
                res = []
                for k, x in enumerate(args):
                    before = dict(self.streams.cur, gen=copy.deepcopy(self.streams.cur['gen']))
                    tree = snapshot(self.log['dir'])
                    r = f(*x) if star else f(x)
                    self.log['runs'].append(dict(index=c*cs + k, start=(before['name'], before['pos']), gen=before['gen'],
                                                 end=(self.streams.cur['name'], self.streams.cur['pos']),
                                                 changed=changes(tree, snapshot(self.log['dir'])), worker=w))
                    res.append(r)
                self.workers[w] = self.streams.cur
                self.streams.cur = parent
                idle.append(w)
                done.append((c, pickle.loads(pickle.dumps(res))))
        return done

    def map(self, func, iterable, chunksize=None):
        return [r for c, res in sorted(self._execute(func, iterable, False, chunksize), key=lambda t: t[0]) for r in res]

    def starmap(self, func, iterable, chunksize=None):
        return [r for c, res in sorted(self._execute(func, iterable, True, chunksize), key=lambda t: t[0]) for r in res]

    def imap(self, func, iterable, chunksize=1):
        return iter([r for c, res in sorted(self._execute(func, iterable, False, chunksize), key=lambda t: t[0])
                     for r in res])

    def imap_unordered(self, func, iterable, chunksize=1):
        return iter([r for c, res in self._execute(func, iterable, False, chunksize) for r in res])

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Ready(self.map(func, iterable, chunksize), callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Ready(self.starmap(func, iterable, chunksize), callback)

    def apply(self, func, args=(), kwds={}):
        return self._pending([(func, args, kwds)])[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return Later(self, func, args, kwds, callback)

    _queue = None

    def _pending(self, jobs):
        return self.starmap(call, jobs, 1)

    def flush(self):
        jobs, Later.jobs = Later.jobs, []
        if jobs:
            done = self._execute(call, [(j.func, j.args, j.kwds) for j in jobs], True, 1)
            for c, res in done:
                jobs[c].value = res[0]
                jobs[c].have = True
                if jobs[c].callback:
                    jobs[c].callback(res[0])

    def close(self):
        pass

    def join(self):
        self.flush()

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.flush()


def call(func, args, kwds):
    return func(*args, **kwds)


class Ready:
    def __init__(self, v, cb):
        self.v = v
        if cb:
            cb(v)

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class Later(Ready):
    jobs = []

    def __init__(self, pool, func, args, kwds, callback):
        self.pool, self.func, self.args, self.kwds, self.callback = pool, func, args, kwds, callback
        self.have = False
        Later.jobs.append(self)

    def get(self, timeout=None):
        if not self.have:
            self.pool.flush()
        return self.value

    wait = get


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            s = os.stat(p)
            out[os.path.relpath(p, d)] = (s.st_size, s.st_mtime_ns)
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = 'dir'
    return out


def changes(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


# ---------------------------------------------------------------- tasks
def tasks(tier):
    out = []
    deep = tier == 'thorough'

    def add(name, **kw):
        out.append(dict(dict(name=name, n=3, cores=2, shape='ss', fmt='bin', upd=False, init='given', nsimu=4), **kw))
    top = 6 if deep else 5
    for n in range(1, top + 1):
        for cores in (1, 2, 3):
            add('sched-%d-%d' % (n, cores), n=n, cores=cores, nsimu=3, fmt='bin+json' if cores == 2 else 'bin',
                init='gen' if n == 3 else 'given', shape='sfs' if cores == 3 else 'ss')
    for d in grid(fmt=['bin', 'txt', 'json', 'none', 'bin+json', 'txt+json', 'all'], upd=[False, True], shape=['s', 'sfs', 'fs'],
                  init=['given', 'gen']):
        add(nm('out', d), n=2, cores=2, one=True, **d)
    for init in ('given', 'gen', 'more', 'cols'):
        for lim in ('wide', 'tight', 'inf', 'half'):
            if lim == 'inf' and init in ('more',):
                continue
            for sh in ('ss', 'sf', 'fs'):
                add('init-%s-%s-%s' % (init, lim, sh), n=2, init=init, lim=lim, shape=sh, fmt='json', one=True)
    for n in (11, 12, 13):
        for fmt in ('bin+json', 'json', 'txt+json'):
            add('many-%d-%s' % (n, fmt), n=n, cores=3, fmt=fmt, one=True, nsimu=3, upd=n == 11)
    for n, cores, fmt in ((26, 3, 'json'), (40, 8, 'bin+json'), (26, 1, 'txt')) + (((130, 4, 'json'),) if deep else ()):
        add('crowd-%d-%d' % (n, cores), n=n, cores=cores, fmt=fmt, one=True, nsimu=3, upd=cores == 8, shape='s')
    for n in (2, 3, 12):
        for sh in ('ss', 'sfs'):
            for part in (False, True):
                add('restart-%d-%s-%s' % (n, sh, part), n=n, cores=2, shape=sh, restart=True, partial=part,
                    fmt='json', one=n > 2, nsimu=3)
    for n, cores in ((3, 2), (2, 1), (4, 3)) + (((12, 4),) if deep else ((11, 4),)):
        for fmt in ('bin+json', 'json'):
            add('real-%d-%d-%s' % (n, cores, fmt), n=n, cores=cores, fmt=fmt, real=True, nsimu=12, same=True)
    for t in out:
        if t.get('one'):
            t['dev'] = 0
    return out


FMT = {'bin': dict(save_to_bin=True), 'txt': dict(save_to_txt=True), 'json': dict(save_to_json=True), 'none': {},
       'bin+json': dict(save_to_bin=True, save_to_json=True), 'txt+json': dict(save_to_txt=True, save_to_json=True),
       'all': dict(save_to_bin=True, save_to_json=True, save_to_txt=True)}


def limits(task, i):
    lim = task.get('lim', 'wide')
    if lim == 'wide':
        return -8.0 - i, 8.0 + 2*i
    if lim == 'tight':
        return TH[i] - 0.25*(i + 1), TH[i] + 0.5
    if lim == 'half':
        return TH[i] - 0.5, np.inf
    return -np.inf, np.inf


def serial(task, savedir, restart=None, theta=None, index=None):
    from pymcmcstat.MCMC import MCMC
    mc = MCMC(rngseed=3)
    mc.data.add_data_set(x=np.arange(4.0), y=np.arange(4.0) + 1)
    if task['upd']:
        mc.data.add_data_set(x=np.arange(3.0), y=np.arange(3.0) + 2)
        mc.model_settings.define_model_settings(sos_function=sos2, sigma2=[0.5, 2.0], N0=[1.0, 2.0])
    else:
        mc.model_settings.define_model_settings(sos_function=sos1, sigma2=0.5)
    n = len(task['shape'])
    mc.simulation_options.define_simulation_options(
        nsimu=task['nsimu'], method='dram', adaptint=2, initqcovn=4, qcov=np.eye(n)*0.25, waitbar=False, verbosity=0,
        savedir=savedir, savesize=2, json_restart_file=restart, **FMT[task['fmt']])
    for i, c in enumerate(task['shape']):
        lo, hi = limits(task, i)
        th = TH[i] if theta is None else theta[i]
        kw = {}
        if lo > -np.inf:
            kw['minimum'] = lo
        if hi < np.inf:
            kw['maximum'] = hi
        mc.parameters.add_model_parameter(name='p%d' % i, theta0=th, sample=c != 'f', prior_mu=0.5, prior_sigma=4.0, **kw)
    return mc


def setup_state(mc):
    """everything of the serial set-up, as plain values"""
    out = {}
    for part in ('data', 'simulation_options', 'model_settings', 'parameters'):
        for k, v in getattr(mc, part).__dict__.items():
            out[part + '.' + k] = repr(v) if not callable(v) else getattr(v, '__name__', '?')
    return out


def given(task):
    n, npar = task['n'], len(task['shape'])
    v = np.array([[TH[j] + (0.0 if task.get('same') else ((i*7 + j*3) % 5 - 2)*0.0625) for j in range(npar)]
                  for i in range(n)])
    return v


def arrays_of(x, depth=0):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays_of(v, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays_of(v, depth + 1)
    elif hasattr(x, '__dict__') and not callable(x) and depth < 4:
        yield from arrays_of(x.__dict__, depth + 1)


def run(task, ch, st):
    import pymcmcstat.ParallelMCMC as PM
    base = env.scratch_dir()
    old = {}
    real = task.get('real')
    try:
        if real:
            multiprocessing.current_process()._config['daemon'] = False
        elif hasattr(PM, 'Pool'):
            old['Pool'] = PM.Pool
            PM.Pool = ControlledPool
        with deadline(120):
            history(task, ch, st, PM, base, real)
    finally:
        if 'Pool' in old:
            PM.Pool = old['Pool']
        if real:
            multiprocessing.current_process()._config['daemon'] = True
        shutil.rmtree(base, ignore_errors=True)


def guarded(what, f):
    try:
        with quiet():
            return f()
    except (Exception, SystemExit) as ex:
        raise Violation('%s fails: %s' % (what, last_frames(ex)))


def history(task, ch, st, PM, base, real):
    first = None
    if task.get('restart'):
        d0 = os.path.join(base, 'first')
        first = parallel(task, ch, st, PM, d0, real, None, salt=0)
        if task['partial']:       # the second chain has no restart file
            os.remove(os.path.join(d0, 'chain_1', 'chain_1.json'))
            first[1] = None
        parallel(task, ch, st, PM, os.path.join(base, 'second'), real, (d0, first), salt=1)
    else:
        parallel(task, ch, st, PM, os.path.join(base, 'par'), real, None)


def parallel(task, ch, st, PM, d, real, restart, salt=0):
    n, npar = task['n'], len(task['shape'])
    streams = Streams()
    log = dict(runs=[], dir=d)
    ControlledPool.ctl = (ch, streams, log)
    Later.jobs = []
    ctx = rng.use(None) if real else rng.use(streams)
    with ctx:
        mc = serial(task, d, restart=restart[0] if restart else None)
        before = setup_state(mc)
        p = PM.ParallelMCMC()
        if task['init'] == 'gen':
            if not real:
                menu = [0.0, 0.25, 0.5, 0.999, 0.75]
                streams.uniforms = [menu[(3*i + salt) % len(menu)] for i in range(n*npar)]
            kw = dict(num_chain=n)
            guarded('setting up', lambda: p.setup_parallel_simulation(mc, num_cores=task['cores'], **kw))
            streams.uniforms = None
            iv = np.array(p.initial_values, dtype=float)
            if iv.shape != (n, npar):
                raise Violation('generated initial values have shape %s' % (iv.shape,))
        else:
            iv = given(task)
            user = iv.copy()
            kw = dict(num_chain=n)
            if task['init'] == 'more':
                kw['num_chain'] = n + 2
            if task['init'] == 'cols':
                user = np.concatenate([user, np.full((n, 1), 99.0)], axis=1)
            keep = user.copy()
            guarded('setting up', lambda: p.setup_parallel_simulation(mc, initial_values=user, num_cores=task['cores'], **kw))
            if not np.array_equal(user, keep):
                raise Violation('the given initial values were changed')
        for j in range(npar):
            lo, hi = limits(task, j)
            if (iv[:, j] < lo).any() or (iv[:, j] > hi).any():
                raise Violation('initial values %s of parameter %d outside its limits' % (iv[:, j], j))
            if task['init'] == 'gen' and task['shape'][j] == 'f' and not (iv[:, j] == TH[j]).all():
                raise Violation('fixed parameter %d starts at %s' % (j, iv[:, j]))
        if task['init'] == 'gen' and task.get('lim', 'wide') in ('wide', 'tight') and not real:
            # spread over the whole range between the limits
            for j in range(npar):
                if task['shape'][j] != 'f':
                    lo, hi = limits(task, j)
                    u = [menu[(3*(i*npar + j) + salt) % len(menu)] for i in range(n)]
                    if not np.allclose(sorted(iv[:, j]), sorted(lo + (hi - lo)*np.array(u))):
                        raise Violation('generated initial values of parameter %d not uniform between the limits' % j)
        if len(p.parmc) != n:
            raise Violation('%d chains set up, %d expected' % (len(p.parmc), n))
        own = [list(arrays_of([q.data, q.simulation_options, q.model_settings, q.parameters])) for q in p.parmc]
        own.append(list(arrays_of([mc.data, mc.simulation_options, mc.model_settings, mc.parameters])))
        for i in range(min(len(own), 4)):
            for j in range(i):
                for a in own[-1 - i]:
                    for b in own[-1 - j]:
                        if a.size and b.size and np.shares_memory(a, b):
                            raise Violation('two chains (or a chain and the serial set-up) share an array')
        guarded('running', p.run_parallel_simulation)
        after = setup_state(mc)
    if after != before:
        raise Violation('the serial set-up was changed: %s' % [k for k in before if before[k] != after.get(k)])
    if len(p.parmc) != n:
        raise Violation('number of chains changed')
    used = {r['index']: r for r in log['runs']}
    starts = []
    for i in range(n):
        full = np.array(iv[i])
        if restart and restart[1][i] is not None:
            full = np.array(restart[1][i]['theta'], dtype=float)
        starts.append(full)
    ind = [j for j, c in enumerate(task['shape']) if c != 'f']
    results = []
    for i in range(n):
        q = p.parmc[i]
        r = getattr(q.simulation_results, 'results', q.simulation_results)
        results.append(r)
        c = np.asarray(r['chain'])
        if c.shape != (task['nsimu'], len(ind)):
            raise Violation('chain %d has shape %s' % (i, c.shape))
        if not np.allclose(c[0], starts[i][ind], rtol=1e-12, atol=0):
            raise Violation('chain %d starts at %s, expected %s' % (i, c[0], starts[i][ind]))
        fx = [j for j in range(npar) if j not in ind]
        if fx and not np.allclose(np.asarray(r['theta'])[fx], starts[i][fx]):
            raise Violation('fixed parameter of chain %d at %s' % (i, np.asarray(r['theta'])[fx]))
    # streams
    if used:
        if sorted(used) != list(range(n)) or len(log['runs']) != n:
            raise Violation('chains run: %s' % sorted(r['index'] for r in log['runs']))
        for a in log['runs']:
            for b in log['runs']:
                if a is not b and a['start'][0] == b['start'][0]:
                    same_worker = a['worker'] == b['worker']
                    if a['start'] == b['start'] or not same_worker:
                        if a['end'][0] == b['end'][0]:
                            raise Violation('chains %d and %d draw from the same random number stream' % (
                                a['index'], b['index']))
    if real and task.get('same'):
        for i in range(n):
            for j in range(i):
                if np.array_equal(results[i]['chain'], results[j]['chain']):
                    raise Violation('chains %d and %d are identical' % (i, j))
    # own folder only
    for a in log['runs']:
        pre = 'chain_%d' % a['index']
        bad = [f for f in a['changed'] if f != pre and not f.startswith(pre + os.sep)]
        if bad:
            raise Violation('chain %d wrote %s' % (a['index'], bad))
    folders = sorted(os.listdir(d))
    if folders != sorted('chain_%d' % i for i in range(n)):
        raise Violation('folders %s for %d chains' % (folders, n))
    files(task, d, results, n)
    # each chain is the serial simulation with its own settings and stream
    if used:
        for i in range(n):
            expect(task, i, n, starts[i], used[i], results[i], streams, restart, base=os.path.dirname(d))
    st.trans += n
    st.state(task['name'], salt, tuple((r['index'], r['worker']) for r in log['runs']))
    st.event('schedules')
    if real:
        st.event('real pool runs')
    elif not used:
        st.event('pool not controlled')
    return results


def expect(task, i, n, start, rec, res, streams, restart, base):
    """Serial run of the same settings with the same random numbers."""
    if i > 3 and n > 5:
        return
    d = os.path.join(base, 'serial_%d' % i)
    src = Streams()
    name, pos = rec['start']
    with rng.use(src):
        mc = serial(task, d, theta=start)
        if restart and restart[1][i] is not None:
            mc.simulation_options.qcov = np.array(restart[1][i]['qcovorig'], dtype=float)
        src.cur = dict(name=name, pos=pos, gen=copy.deepcopy(rec['gen']))
        guarded('serial run', mc.run_simulation)
    r = mc.simulation_results.results
    shutil.rmtree(d, ignore_errors=True)
    for k in ('chain', 'sschain', 's2chain', 'qcov', 'total_rejected', 'iacce'):
        a, b = res[k], r[k]
        if (a is None) != (b is None) or (a is not None and not np.array_equal(np.asarray(a), np.asarray(b))):
            raise Violation('%s of chain %d is not the one of the same serial simulation' % (k, i))


def files(task, d, results, n):
    from pymcmcstat.chain import ChainProcessing as CP
    import pymcmcstat.ParallelMCMC as PM
    f = FMT[task['fmt']] or dict(save_to_bin=True)
    exts = [e for e, k in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')) if f.get(k)]
    for ext in exts:
        out = guarded('reading', lambda: CP.read_in_parallel_savedir_files(d, extension=ext))
        if len(out) != n:
            raise Violation('%d chains read back, %d expected' % (len(out), n))
        for i in range(n):
            for k in ('chain', 'sschain', 's2chain'):
                if results[i][k] is not None:
                    same_rows('%s of chain %d (%s)' % (k, i, ext), out[i][k], np.asarray(results[i][k]))
    if f.get('save_to_json'):
        for mod in (CP, PM):
            for ext in exts or ['h5']:
                out = guarded('loading', lambda: mod.load_parallel_simulation_results(d, extension=ext))
                if len(out) != n:
                    raise Violation('%d results loaded, %d expected' % (len(out), n))
                for i in range(n):
                    if not np.array_equal(np.asarray(out[i]['theta']), np.asarray(results[i]['theta'])):
                        raise Violation('results loaded at position %d are not those of chain %d' % (i, i))
                    for k in ('chain', 'sschain', 's2chain'):
                        if results[i][k] is not None:
                            same_rows('%s of loaded chain %d' % (k, i), out[i][k], np.asarray(results[i][k]))
