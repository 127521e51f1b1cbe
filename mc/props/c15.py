"""Interleavings of the operations of two simulations that share the user's arrays; inputs and earlier results are snapshotted."""
import copy
import os
import pickle
import shutil
import numpy as np
from .. import env, rng
from ..lockstep import Interrupted, Session, Violation, quiet, last_frames, deadline
from .common import T, grid, nm, absorb, qcov, nsamp
from .c08 import attempt
from .c12 import same, Source
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='two simulations of 7 operations each (create, data, model, options, parameters, run, continue): all 3432 interleavings for 3 '
          'pairs; all 70 interleavings of create/run/continue/post-process for every pair of configurations; attempts that fail in between; inputs shared as scalars, lists, '
          'integer and float arrays, numpy error settings, counts and attached objects',
    thorough='all 3432 interleavings for 12 pairs, and three simulations of create/run/continue (1680 interleavings)')
ASSUMPTIONS = ['each simulation sees its own sequence of random numbers: interleaving through the shared generator of numpy is not a change of state']


class Shared(Session):
    """A session whose set-up is done in steps, with arrays shared between simulations."""
    def __init__(self, cfg, ch, user, tag):
        Session.__init__(self, cfg, ch)
        self.user, self.tag = user, tag
        self.kept = []        # results produced, with a copy

    def steps(self):
        cfg, u = self.cfg, self.user

        def create():
            from pymcmcstat.MCMC import MCMC
            with rng.use(self.src):
                self.mc_new = MCMC(rngseed=7, **({'seterr': u['seterr']} if 'seterr' in u else {}))

        def data():
            for k in range(len(cfg['ndata'])):
                self.mc_new.data.add_data_set(x=u['x'][k], y=u['y'][k], **{q: u[q][k] for q in ('n', 'user_defined_object') if q in u})

        def model():
            def sosfun(theta, d):
                self.obs.evals.append(np.array(theta, dtype=float))
                if self.obs.fail_at is not None and len(self.obs.evals) == self.obs.fail_at:
                    raise Interrupted()
                return self.sos(theta)
            kw = {k: u[k] for k in cfg.get('model', {})}
            self.mc_new.model_settings.define_model_settings(sos_function=sosfun, **kw)

        def options():
            o = dict(waitbar=False, verbosity=0)
            o.update(cfg.get('opt', {}))
            for k in ('qcov', 'drscale', 'RDR'):
                if k in o:
                    o[k] = u[k]
            self.mc_new.simulation_options.define_simulation_options(**o)

        def parameters():
            for p in cfg['params']:
                self.mc_new.parameters.add_model_parameter(**p)
            self.mc = self.mc_new

        def first():
            self.keep(self.run())

        def cont():
            self.keep(self.run(cont=True))

        def post():
            from pymcmcstat.propagation import calculate_intervals
            from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
            res = self.mc.simulation_results.results
            if 'kept' not in self.__dict__ or not self.kept:
                return
            src = Source(self.ch, [], ('const', 0.5))
            with quiet(), rng.use(src):
                calculate_intervals(res['chain'], res, self.mc.data, lambda q, d: np.sum(q) + np.zeros(3), nsample=100, waitbar=False,
                                    s2chain=None)
                P = PredictionIntervals()
                P.setup_prediction_interval_calculation(results=res, data=self.mc.data, modelfunction=lambda d, q: np.sum(q) + np.zeros((3, 1)))
                P.generate_prediction_intervals(nsample=None, calc_pred_int=False)
            for r, c in self.kept[-1:]:
                if not same_results(r, c):
                    raise Violation('post-processing changes the results')

        def fail():
            attempt(self, not self.kept, 4)
        return dict(create=create, fail=fail, data=data, model=model, options=options, parameters=parameters, run=first, cont=cont, post=post)

    def keep(self, res):
        if res is not None:
            self.kept.append((res, snapshot(res)))


SKIP = ('simutime',)


def snapshot(res):
    return {k: copy.deepcopy(v) for k, v in res.items() if isinstance(v, (np.ndarray, list, int, float, str, type(None))) and k not in SKIP}


def same_results(res, snap):
    return all(k in res and same(snap[k], res[k]) for k in snap)


def cfgs():
    """name -> (T task, type of the arrays)"""
    out = {}

    def add(name, typ, **kw):
        t = T(name, **kw)
        t['cfg'].update(zcycle=True, accpat=[True, False, True, True])
        out[name] = (t['cfg'], typ)
    add('mh', 'float', shape='ss', q='full', method='mh', nsimu=4)
    add('dram', 'float', shape='ss', q='full', method='dram', nsimu=5, adaptint=2, initqcovn=3, drscale=[2.0, 3.0])
    add('drwide', 'float', shape='ss', q='full', method='dram', nsimu=5, ntry=3, adaptint=2, initqcovn=3, drscale=[3.0, 0.5])
    add('drdef', 'float', shape='ss', q='full', method='dr', nsimu=4, ntry=3)
    add('upd', 'float', shape='ss', q='full', method='dram', nsimu=4, adaptint=2, initqcovn=2, nsos=2, ndata=(5, 3),
        model=dict(sigma2=[0.5, 2.0], S20=[2.0, 0.25], N0=[1.0, 3.0]))
    add('updlist', 'list', shape='ss', q='full', method='mh', nsimu=4, nsos=2, ndata=(5, 3),
        model=dict(sigma2=[0.5, 2.0], N0=[1.0, 3.0]))
    add('updint', 'int', shape='ss', q='full', method='am', nsimu=4, adaptint=3, initqcovn=2, nsos=2, ndata=(5, 3),
        model=dict(sigma2=[1.0, 2.0], S20=[2.0, 1.0], N0=[1.0, 3.0], N=[5, 3]))
    add('updone', 'float', shape='ss', q='full', method='dram', nsimu=4, model=dict(sigma2=[2.0], S20=[1.0], N0=[1.0]))
    add('updfrac', 'float', shape='ss', q='full', method='mh', nsimu=4, nsos=2, ndata=(6, 4), model=dict(sigma2=[0.5, 2.0], N0=[1.0, 3.0]))
    add('fixed', 'float', shape='sf', q='full', method='dram', nsimu=5, adaptint=2, initqcovn=2, lim='wide')
    add('vec', 'float', shape='ss', q='vec', method='am', nsimu=5, adaptint=2, initqcovn=2, prior='gauss')
    add('burn', 'float', shape='ss', q='full', method='dram', nsimu=5, adaptint=2, burnintime=3, burnin_scale=2.0)
    add('scalar', 'scalar', shape='ss', q='full', method='mh', nsimu=4, model=dict(sigma2=2.0, N0=1.0))
    return out


def tasks(tier):
    deep = tier == 'thorough'
    names = list(cfgs())
    out = []
    fine = [('upd', 'dram'), ('dram', 'drdef'), ('updint', 'fixed')]
    if deep:
        fine += [('updlist', 'upd'), ('updone', 'vec'), ('scalar', 'updone'), ('burn', 'dram'), ('fixed', 'fixed'), ('mh', 'burn'),
                 ('upd', 'upd'), ('drdef', 'drdef'), ('updint', 'updint')]
    for a, b in fine:
        out.append(dict(name='fine-%s-%s' % (a, b), sims=[a, b],
                        ops=['create', 'data', 'model', 'options', 'parameters', 'run', 'cont']))
    for i, a in enumerate(names):
        for b in names[i:]:
            out.append(dict(name='pair-%s-%s' % (a, b), sims=[a, b], ops=['setup', 'run', 'cont', 'post']))
    for i, a in enumerate(names):
        for b in names[i:] if deep else names[i:i + 2]:
            out.append(dict(name='fail-%s-%s' % (a, b), sims=[a, b], ops=['setup', 'run', 'fail', 'cont']))
            if not any(c.startswith('upd') or c == 'scalar' for c in (a, b)):
                out.append(dict(name='early-%s-%s' % (a, b), sims=[a, b], ops=['setup', 'fail', 'run', 'cont']))
    if deep:
        for tri in (('upd', 'dram', 'fixed'), ('updone', 'updone', 'mh'), ('drdef', 'vec', 'updint')):
            out.append(dict(name='tri-' + '-'.join(tri), sims=list(tri), ops=['setup', 'run', 'cont']))
    for a in names:
        out.append(dict(name='alone-' + a, sims=[a], ops=['create', 'data', 'model', 'options', 'parameters', 'run', 'post', 'cont', 'post'],
                        explore=True, dev=3))
    out.append(dict(name='analysis', analysis=2))
    for d in grid(a=['upd', 'updone', 'dram', 'fixed'], fmt=['bin', 'txt', 'json']):
        out.append(dict(name=nm('files', d), sims=[d['a'], d['a']], ops=['setup', 'run', 'cont'], fmt=d['fmt']))
    return out


def conv(v, typ):
    if typ == 'list' or np.ndim(v) == 0:
        return copy.deepcopy(v)
    if typ == 'int':
        return np.array(v, dtype=int)
    return np.array(v, dtype=float)


class Quiet:
    """default choices only"""
    def choose(self, n, free=False):
        return 0


def analyses():
    """post-processing of the user's arrays, lists and dictionaries: name -> function of the inputs"""
    from pymcmcstat.plotting import MCMCPlotting as P
    from pymcmcstat import propagation as U
    from pymcmcstat.chain import ChainStatistics as S, ChainProcessing as C
    from pymcmcstat.plotting.utilities import generate_names
    src = Source(None, [], ('const', 0.5))

    def intervals(a):
        with rng.use(src):
            return U.calculate_intervals(a['chain'], a['results'], a['data'], lambda q, d: q[0] + q[-1]*d.xdata[0][:, 0], s2chain=a['s2'],
                                         nsample=1000, waitbar=False)

    def limits(**kw):
        def f(a):
            fig, ax = U.plot_intervals(a['intervals'], a['time'], ydata=a['ydata'], xdata=a['xdata'], adddata=True,
                                       **{k: (v if k.startswith('add') else a[v]) for k, v in kw.items()})
            return figure(fig)
        return f
    return dict(
        density=lambda a: figure(P.plot_density_panel(a['chain'], a['names'], figsizeinches=a['size'])),
        histogram=lambda a: figure(P.plot_histogram_panel(a['chain'], a['names'], a['size'])),
        chain=lambda a: figure(P.plot_chain_panel(a['chain'], a['names'], a['size'], maxpoints=9)),
        pairs=lambda a: figure(P.plot_pairwise_correlation_panel(a['chain'], a['names'], maxpoints=9)),
        names=lambda a: list(generate_names(4, a['names'])),
        stats=lambda a: S.chainstats(a['chain'], a['results'], returnstats=True),
        rubin=lambda a: S.gelman_rubin(a['chains'], a['names']),
        rubinres=lambda a: S.gelman_rubin(a['pres'], a['names']),
        combine=lambda a: C.generate_combined_chain_with_index(a['pres'], 20),
        intervals=intervals,
        plot=limits(limits='limits', ciset='ciset', piset='piset', data_display='dd', model_display='md', interval_display='idd'),
        plotdefault=limits(),
        plotlimits=limits(limits='limits', addprediction=False))


def figure(fig):
    out = []
    for ax in fig.axes:
        leg = ax.get_legend()
        out.append((ax.get_xlabel(), ax.get_ylabel(), [np.array(ln.get_xydata(), dtype=float) for ln in ax.lines],
                    [(c.get_label(), np.array(c.get_paths()[0].vertices), np.array(c.get_facecolor())) for c in ax.collections],
                    [(p.get_x(), p.get_height()) for p in ax.patches], [ln.get_color() for ln in ax.lines],
                    sorted(t.get_text() for t in leg.get_texts()) if leg else None))
    return out


def analysis_inputs():
    i = np.arange(60.0)
    chain = np.stack([np.sin(i), np.cos(1.7*i) + 2, (i*7) % 11], axis=1)
    other = chain[::-1]*1.5 + 0.25

    class D:
        pass
    data = D()
    data.xdata, data.ydata = [np.arange(5.0).reshape(-1, 1)], [np.arange(5.0).reshape(-1, 1)]
    res = dict(chain=chain.copy(), s2chain=np.abs(chain[:, :1]) + 0.5, parind=np.array([0, 1, 2]), local=np.zeros(3), theta=chain[-1].copy(), nsimu=60,
               nbatch=1, names=['a', 'b', 'c'], allnames=['a', 'b', 'c'], total_rejected=0.25, iacce=np.array([4, 1]), ntry=2)
    m = np.array([[((7*k + 3*j*j) % 11) - 4.0 for j in range(5)] for k in range(12)])
    return dict(chain=chain, chains=[chain.copy(), other], names=['a', 'b', 'c'], size=[4, 3], results=res, data=data, s2=np.abs(chain[:, 0]) + 0.5,
                pres=[dict(res, chain=chain.copy()), dict(res, chain=other.copy())], intervals=dict(credible=m, prediction=2*m - 1.0),
                time=np.arange(5.0), ydata=np.arange(5.0) + 1, xdata=np.arange(5.0) + 0.5, limits=[50, 95, 90], ciset=dict(limits=[50, 99, 90]),
                piset=dict(colors=['r', 'g', 'b']), dd=dict(color='r'), md=dict(color='g'), idd=dict(alpha=0.25))


ALONE = {}


def alone(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', f())
            except Violation as ex:
                out = ('bad', str(ex))
            with os.fdopen(w, 'wb') as p:
                pickle.dump(out, p)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as p:
        raw = p.read()
    os.waitpid(pid, 0)
    kind, val = pickle.loads(raw) if raw else ('bad', 'the call ended the process')
    if kind == 'bad':
        raise Violation(val)
    return val


def do_analysis(task, ch, st):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    old = plt.tight_layout
    plt.tight_layout = lambda *a, **k: None
    F = analyses()
    names = list(F)
    seq = []

    def call(name, a):
        try:
            with quiet(), deadline(60):
                return copy.deepcopy(F[name](a))
        except (Exception, SystemExit) as ex:
            raise Violation('%s fails: %s [after %s]' % (name, last_frames(ex), ' '.join(seq)))
        finally:
            plt.close('all')
    if not ALONE:
        # each function in a process of its own
        for name in names:
            ALONE[name] = alone(lambda: call(name, analysis_inputs()))
    try:
        a = analysis_inputs()
        for _ in range(task['analysis']):
            name = names[ch.choose(len(names))]
            seq.append(name)
            got = call(name, a)
            for k, v in analysis_inputs().items():
                if not same(v, a[k]):
                    raise Violation("the user's %s is changed by %s [after %s]" % (k, name, ' '.join(seq)))
            if not same(ALONE[name], got):
                raise Violation('%s gives another result after %s' % (name, ' '.join(seq[:-1])))
            st.state('analysis', tuple(seq))
            st.trans += 1
    finally:
        plt.tight_layout = old


def run(task, ch, st):
    if task.get('analysis'):
        return do_analysis(task, ch, st)
    lib = cfgs()
    shared = {}
    sims = []
    dirs = []
    for k, name in enumerate(task['sims']):
        cfg, typ = copy.deepcopy(lib[name])
        u = {}
        vals = dict(cfg.get('model', {}))
        vals.update({q: cfg['opt'][q] for q in ('qcov', 'drscale', 'RDR') if q in cfg['opt']})
        for key, v in vals.items():
            # simulations with equal values get the very same object
            tag = (key, repr(v), typ)
            if tag not in shared:
                shared[tag] = conv(v, 'float' if key in ('qcov', 'drscale') else typ)
            u[key] = shared[tag]
        if typ != 'scalar':
            u['seterr'] = shared.setdefault(('seterr', typ), dict(over='ignore', under='ignore') if typ == 'float' else dict(over='ignore'))
        for j, n in enumerate(cfg['ndata']):
            for key in ('x', 'y') + (('n', 'user_defined_object') if typ != 'float' else ()):
                tag = (key, j, n, typ)
                if tag not in shared:
                    x = np.arange(n, dtype=float)
                    if key == 'y':
                        x = x*(j + 1) + 1
                    shared[tag] = dict(float=x.reshape(-1, 1), scalar=x, list=list(x), int=x.astype(int))[typ] if key in 'xy' else (
                        [n - 2, 2] if key == 'n' else dict(kind=[n, 'a'], x=np.arange(2.0)))
                    if key == 'n' and typ == 'int':
                        shared[tag] = np.array(shared[tag])
                u.setdefault(key, []).append(shared[tag])
        if task.get('fmt'):
            d = env.scratch_dir()
            dirs.append(d)
            cfg['opt'].update(savedir=d, savesize=2, **{'save_to_' + task['fmt']: True})
        s = Shared(cfg, ch if task.get('explore') else Quiet(), u, k)
        sims.append(s)
    before = copy.deepcopy(shared)
    todo = [list(task['ops']) for _ in sims]
    seq = []
    try:
        while any(todo):
            ready = [k for k in range(len(sims)) if todo[k]]
            k = ready[ch.choose(len(ready))] if len(ready) > 1 else ready[0]
            op = todo[k].pop(0)
            seq.append('%d.%s' % (k, op))
            f = sims[k].steps()
            try:
                with deadline(60):
                    for o in (['create', 'data', 'model', 'options', 'parameters'] if op == 'setup' else [op]):
                        if o in ('run', 'cont'):
                            f[o]()
                        else:
                            with quiet():
                                f[o]()
            except Violation as ex:
                raise Violation('%s [after %s]' % (ex, ' '.join(seq)))
            except (Exception, SystemExit) as ex:
                raise Violation('%s fails: %s [after %s]' % (op, last_frames(ex), ' '.join(seq)))
            for key in shared:
                if not same(before[key], shared[key]):
                    raise Violation("the user's %s is changed from %s to %s by %s [after %s]" % (
                        key[0], before[key], shared[key], op, ' '.join(seq)))
            for j, s in enumerate(sims):
                if j != k or op == 'fail':
                    for r, c in s.kept[-1:]:
                        if not same_results(r, c):
                            bad = [q for q in c if q not in r or not same(c[q], r[q])]
                            raise Violation('results %s of simulation %d are changed by %s of simulation %d [after %s]' % (
                                bad, j, op, k, ' '.join(seq)))
            st.state(task['name'], tuple(len(t) for t in todo), seq[-1])
            st.trans += 1
    finally:
        for s in sims:
            absorb(s, st)
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
