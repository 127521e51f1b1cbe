"""Same seed, same chain; every combination of display and output options leaves chain and random numbers alone."""
import hashlib
import itertools
import os
import shutil
import subprocess
import sys
import numpy as np
from .. import env
from ..lockstep import Violation, quiet, deadline, last_frames
from .common import grid, nm
LEVEL = 'exploration'
RULE = 'a distinct state is (configuration, option combination, seed); the plain run itself is not counted'
BOUNDS = dict(
    quick='10 sampler configurations x the product of verbosity, waitbar, print interval, segment size, bin/txt/json/light, names and display '
          'calls (1536 combinations), run and continuation of 12+8 iterations, three seeds in turn; repeated runs in fresh processes',
    thorough='the same with every seed for every combination')
ASSUMPTIONS = ['runs with numpy generator of the environment; user functions are deterministic']

SAMPLERS = {
    'mh': dict(method='mh'),
    'am': dict(method='am', adaptint=4),
    'dr': dict(method='dr', ntry=3),
    'dram': dict(method='dram', adaptint=5, burnintime=3),
    'burn': dict(method='dram', adaptint=4, burnintime=11, steep=True),
    'burnam': dict(method='am', adaptint=6, burnintime=20, steep=True),
    'mhu': dict(method='mh', upd=1),
    'amu': dict(method='am', adaptint=3, upd=2),
    'dru': dict(method='dr', upd=1),
    'dramu': dict(method='dram', adaptint=4, upd=2, lim=True),
}
OPTS = dict(verbosity=[0, 1, 20, 100, 1000], waitbar=[False, True], printint=[None, 1, 3, 0], savesize=[0, 1, 5],
            out=['', 'b', 't', 'j', 'bt', 'bj', 'tj', 'btj'], names=[False, True], disp=[False, True])


def tasks(tier):
    out = []
    k = 0
    for s in SAMPLERS:
        for seed in (0, 1, 12345):
            out.append(dict(name='again-%s-%d' % (s, seed), kind='again', s=s, seed=seed))
        for d in grid(**OPTS):
            if d['names'] and not d['out']:
                continue
            if d['savesize'] and not d['out'].strip('j'):
                continue
            k += 1
            seeds = [0, 1, 12345] if tier == 'thorough' else [[0, 1, 12345][k % 3]]
            if tier != 'thorough' and (d['disp'] != (k % 2 == 0)):
                continue
            for seed in seeds:
                out.append(dict(name='%s-%d-%s' % (s, seed, '-'.join(str(v) for v in d.values())), kind='opt', s=s, seed=seed, o=d))
    # one process per group of combinations
    groups = {}
    for t in out:
        if t['kind'] == 'opt':
            groups.setdefault((t['s'], t['seed'], t['o']['verbosity'], t['o']['out']), []).append(t)
    res = [t for t in out if t['kind'] == 'again']
    for key, ts in groups.items():
        res.append(dict(name='-'.join(map(str, key)), kind='group', s=key[0], seed=key[1], items=[t['o'] for t in ts]))
    for s in SAMPLERS:
        res.append(dict(name='proc-' + s, kind='proc', s=s, seed=7))
    return res


def simulate(s, seed, o, savedir):
    """chain of a run and its continuation, counters, and final state of the random numbers"""
    from pymcmcstat.MCMC import MCMC
    c = dict(SAMPLERS[s])
    upd = c.pop('upd', 0)
    lim = c.pop('lim', False)
    steep = 500.0 if c.pop('steep', False) else 1.0
    mc = MCMC(rngseed=seed)
    x = np.arange(5.0)
    mc.data.add_data_set(x, 2*x + 1)
    if upd == 2:
        mc.data.add_data_set(x[:3], x[:3]**2)

    calls = [0]

    def sos(th, d):
        calls[0] += 1         # deterministic, but with a memory: an evaluation too many or too few shows in the chain
        v = [0.015625*(calls[0] % 8) + steep*float(np.sum((th[0] + th[1]*d.xdata[k] - d.ydata[k])**2)) for k in range(len(d.xdata))]
        return np.array(v) if upd == 2 else v[0]
    m = dict(sigma2=[1.0, 2.0] if upd == 2 else 1.0)
    if upd:
        m['N0'] = [1.0, 2.0] if upd == 2 else 1.0
        m['S20'] = [0.5, 1.0] if upd == 2 else 0.5
    mc.model_settings.define_model_settings(sos_function=sos, **m)
    out = o.get('out', '')
    kw = dict(c, nsimu=12, qcov=np.array([[0.5, -0.1], [-0.1, 0.125]]), verbosity=o.get('verbosity', 0), waitbar=o.get('waitbar', False),
              printint=o.get('printint'), savesize=o.get('savesize', 0), savedir=savedir, save_to_bin='b' in out, save_to_txt='t' in out,
              save_to_json='j' in out)
    if o.get('names'):
        kw.update(chainfile='c', sschainfile='s', s2chainfile='v', covchainfile='q', results_filename='r.json', label='mine')
        if 'j' not in out:
            kw.update(save_lightly=True)
    if kw['printint'] is None:
        kw.pop('printint')
    mc.simulation_options.define_simulation_options(**kw)
    kl = dict(minimum=-0.5, maximum=2.5) if lim else {}
    mc.parameters.add_model_parameter(name='a', theta0=0.75, **kl)
    mc.parameters.add_model_parameter(name='b', theta0=1.75, prior_mu=2.0, prior_sigma=1.5)
    if o.get('disp'):
        mc.simulation_options.display_simulation_options(['nsimu', 'method'])
        mc.parameters.display_parameter_settings(20, None) if False else None
    res = []
    for run in range(2):
        mc.run_simulation(use_previous_results=bool(run))
        r = mc.simulation_results.results
        if o.get('disp'):
            mc.display_current_mcmc_settings()
            mc.model_settings.display_model_settings()
        g = np.random.get_state()
        res.append([np.array(r['chain']), np.array(r['sschain']), None if r['s2chain'] is None else np.array(r['s2chain']),
                    np.array(r['theta']), r['total_rejected'], r['rejected_outside_bounds'], None if 'iacce' not in r else np.array(r['iacce']),
                    np.array(r['R']), np.array(r['cov']), np.array(r['mean']), (g[0], g[1].tolist(), g[2], g[3], g[4])])
        mc.simulation_options.nsimu = 8
    return res


FIELDS = ['chain', 'sschain', 's2chain', 'theta', 'total_rejected', 'rejected_outside_bounds', 'iacce', 'R', 'cov', 'mean',
          'state of the random numbers']


def diff(a, b):
    for run in range(2):
        for name, x, y in zip(FIELDS, a[run], b[run]):
            same = (x is None and y is None) or (x is not None and y is not None and (
                np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y))
            if not same:
                return '%s of %s' % (name, ['the run', 'the continuation'][run])
    return None


def safe(s, seed, o):
    d = env.scratch_dir()
    try:
        with quiet(), deadline(120):
            return simulate(s, seed, o, os.path.join(d, 'out'))
    except (Exception, SystemExit) as ex:
        raise Violation('the simulation fails with options %s: %s' % (o, last_frames(ex)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def digest(r):
    h = hashlib.sha1()
    for run in r:
        for v in run:
            h.update(v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
    return h.hexdigest()


def run(task, ch, st):
    s, seed = task['s'], task['seed']
    plain = safe(s, seed, {})
    if task['kind'] == 'again':
        np.random.seed(99)
        np.random.standard_normal(3)
        d = diff(plain, safe(s, seed, {}))
        if d:
            raise Violation('two runs with seed %d differ: %s' % (seed, d))
        e = diff(plain, safe(s, seed + 1, {}))
        if e is None or 'chain' not in e:
            raise Violation('seeds %d and %d give the same chain' % (seed, seed + 1))
        st.state('again', s, seed)
        st.trans += 2
        return
    if task['kind'] == 'proc':
        digs = []
        for hs in ('1', '77'):
            p = subprocess.run([sys.executable, '-m', 'mc.props.c16', s, str(seed)], cwd=env.VERIF, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONHASHSEED=hs, VERIF_REPO=env.REPO))
            if p.returncode:
                raise Violation('the run in a fresh process fails: %s' % p.stderr[-300:])
            digs.append(p.stdout.strip().splitlines()[-1])
        if len(set(digs + [digest(plain)])) > 1:
            raise Violation('runs with seed %d differ between processes' % seed)
        st.state('proc', s)
        st.trans += 2
        return
    for o in task['items']:
        d = diff(plain, safe(s, seed, o))
        st.state(s, seed, sorted(o.items(), key=str))
        st.trans += 2
        st.execs += 1
        if d:
            raise Violation('options %s change the %s' % (o, d))


if __name__ == '__main__':
    env.import_target()
    r = safe(sys.argv[1], int(sys.argv[2]), {})
    print(digest(r))
