import os
import numpy as np
from .. import env
from ..lockstep import Session, Violation, ALL, quiet, last_frames, deadline
from .common import V, grid, nm, LONGZ, absorb
from .logs import same_rows
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='all combinations of json/bin/txt/light flags and result file names, 1-3 parameters of which up to 2 fixed, '
          'named or not (also with unusual names), 4 methods, with and without error-variance update; histories run[-continue]-load-restart'
          '[-restart]; runs of 3-4 rows with at most 1 non-default random outcome, and 30-, 2500- and 9000-row runs',
    thorough='as quick with at most 2 non-default outcomes and 120- and 30000-row runs')

UNUSUAL = [['\u03b1', '\u03b2_{1}', '\u0394t'], ['$\\alpha_{0}$', 'a b', 'c"d'], ['x\ty', "it's", '\\n'], ['1', '1.5', 'nan'], ['A', 'a', 'a '],
           ['null', 'true', '']]


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    dv = 2 if deep else 1

    def add(name, var='one', hist=('load', 'restart'), **kw):
        t = V(name, var, dev=kw.pop('dev', dv), cfg=dict(needs_dir=True, zcycle=True, accpat=[True, False], **kw.pop('cfg', {})),
              save_to_json=kw.pop('save_to_json', True), **kw)
        t['hist'] = list(hist)
        out.append(t)
        return t
    for d in grid(bin=[False, True], txt=[False, True], light=[None, False, True], json=[True, False],
                  file=[None, 'res.json'], var=['one', 'upd2']):
        kw = {} if d['light'] is None else dict(save_lightly=d['light'])
        add(nm('flags', d), var=d['var'], save_to_bin=d['bin'], save_to_txt=d['txt'], shape='sf', nsimu=4, savesize=2,
            method='mh', results_filename=d['file'], save_to_json=d['json'],
            hist=('load',) if d['json'] else ('nojson',), dev=0, **kw)
    for d in grid(shape=['s', 'sf', 'fs', 'sfs', 'ffss', 'ss'], method=['mh', 'am', 'dr', 'dram'], var=['one', 'upd2'],
                  prior=['none', 'nan']):
        kw = dict(adaptint=2, initqcovn=3) if d['method'] in ('am', 'dram') else {}
        t = add(nm('restart', d), var=d['var'], shape=d['shape'], method=d['method'], prior=d['prior'], nsimu=4, q='full',
                lim='wide', results_filename='r.json', hist=('load', 'restart', 'load', 'restart'),
                dev=dv if d['shape'] in ('s', 'sfs') and d['prior'] == 'nan' else 0, **kw)
        if d['prior'] == 'nan' and len(d['shape']) == 3:
            for p in t['cfg']['params'][:2]:
                del p['name']
    # names with blanks, quotes, TeX and letters outside ASCII; an empty one; numbers that need all their digits
    for k, names in enumerate(UNUSUAL):
        for m in ('mh', 'dram'):
            for fmt in ('json', 'save_to_bin', 'save_to_txt'):
                t = add('odd-%d-%s-%s' % (k, m, fmt), var='upd2', shape='sfs', method=m, nsimu=4, q='full', dev=0, results_filename='o.json',
                        hist=('load', 'restart', 'load'), **({} if fmt == 'json' else {fmt: True}))
                for p, name in zip(t['cfg']['params'], names):
                    p['name'] = name
                    p['theta0'] = p['theta0'] + 1.0/3.0
    for d in grid(bin=[False, True], txt=[False, True], method=['mh', 'dram'], shape=['s', 'fs']):
        add(nm('cont', d), var='upd', shape=d['shape'], method=d['method'], nsimu=3, savesize=2, save_to_bin=d['bin'],
            save_to_txt=d['txt'], hist=('continue', 'load', 'restart', 'continue', 'load'), dev=dv, results_filename='q.json',
            adaptint=1 if d['method'] == 'dram' else None)
    # file names of any form
    for k, f in enumerate(['results', 'r.res', 'R.JSON', 'a b.json', '.json', 'x.json.bak', 'r.txt', '\u03b8.json', 'chainfile.json']):
        for fmt in ('save_to_json', 'save_to_bin', 'save_to_txt'):
            add('file-%d-%s' % (k, fmt), var='upd', shape='fs', nsimu=4, savesize=2, results_filename=f, hist=('load', 'restart', 'load', 'continue', 'load'),
                dev=0, **{fmt: True})
    for fmt in ('save_to_bin', 'save_to_txt', 'save_to_json'):
        add('names-' + fmt, var='upd2', shape='sf', nsimu=5, savesize=2, hist=('load', 'restart', 'load'),
            chainfile='aa', sschainfile='bb', s2chainfile='cc', covchainfile='dd', dev=0, **{fmt: True})
        add('long-' + fmt, var='upd2', shape='ss', nsimu=120 if deep else 30, savesize=2, method='dram', adaptint=7,
            hist=('continue', 'load', 'restart', 'load'), dev=0, z=LONGZ[2], **{fmt: True})
        for n in (2500, 9000) + ((30000,) if deep else ()):
            out.append(dict(name='huge-%s-%d' % (fmt, n), kind='huge', fmt=fmt, n=n))
    return out


def norm(x):
    """JSON image of a value"""
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b):
        return True
    return a == b


def find_json(se):
    o = se.cfg['opt']
    js = [f for f in os.listdir(se.savedir) if f.endswith('.json') or f == o.get('results_filename')]
    if not o.get('save_to_json'):
        if js:
            raise Violation('json file written without being asked for')
        return None
    if o.get('results_filename'):
        if js != [o['results_filename']]:
            raise Violation('results file %s expected, found %s' % (o['results_filename'], js))
    elif len(js) != 1:
        raise Violation('%d json files found' % len(js))
    return js[0]


def load(se, res):
    from pymcmcstat.chain import ChainProcessing as CP
    o = se.cfg['opt']
    f = find_json(se)
    logged = [e for e, k in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')) if o.get(k)]
    path = os.path.join(se.savedir, f)
    try:
        with quiet():
            raw = se.mc.simulation_results.load_json_object(path)
    except Exception as ex:
        raise Violation('loading the json file: %s' % last_frames(ex))
    keep = {k: v for k, v in res.items() if not (logged and k in ('chain', 'sschain', 's2chain'))}
    missing = [k for k in keep if k not in raw]
    if missing:
        raise Violation('%s missing in the json file' % missing)
    extra = [k for k in ('chain', 'sschain', 's2chain') if k in raw and k not in keep]
    if extra:
        raise Violation('%s in the json file although logged' % extra)
    for k in keep:
        if not same(norm(keep[k]), raw[k]):
            raise Violation('%s read back from json as %s, was %s' % (k, raw[k], norm(keep[k])))
    # a second json file must not be picked when the first one is named
    decoy = os.path.join(se.savedir, '0000_decoy.json')
    with open(decoy, 'w') as g:
        g.write('{"names": ["decoy"]}')
    nm_ = {k: o[k] for k in ('chainfile', 'sschainfile', 's2chainfile', 'covchainfile') if k in o}
    try:
        for ext in logged or ['h5']:
            try:
                with quiet():
                    got = CP.load_serial_simulation_results(se.savedir, json_file=f, extension=ext, **nm_)
            except (Exception, SystemExit) as ex:
                raise Violation('loading the results: %s' % last_frames(ex))
            for k in keep:
                if not same(norm(keep[k]), norm(got[k])):
                    raise Violation('%s loaded as %s, was %s' % (k, got[k], keep[k]))
            for k in ('chain', 'sschain', 's2chain'):
                if res[k] is None:
                    if got[k] is not None and len(got[k]):
                        raise Violation('%s loaded although there is none' % k)
                else:
                    same_rows(k + ' loaded', got[k], np.asarray(res[k]))
    finally:
        os.remove(decoy)
    if not f.endswith('.json'):
        return path
    try:
        with quiet():
            got = CP.load_serial_simulation_results(se.savedir, extension=(logged or ['h5'])[0], **nm_)
    except (Exception, SystemExit) as ex:
        raise Violation('loading the results: %s' % last_frames(ex))
    if not same(norm(keep['theta']), norm(got['theta'])):
        raise Violation('the only json file is not the one loaded')
    return path


def restart(se, ch, path, res):
    """a new simulation object started from the json file"""
    cfg = dict(se.cfg)
    opt = dict(cfg['opt'], json_restart_file=path)
    opt.pop('savedir')
    cfg['opt'] = opt
    new = Session(cfg, ch, ALL)
    # what the reference expects: saved final values, saved proposal covariance
    new.ref.theta0 = np.array(res['theta'], dtype=float)
    mu = np.array([p.get('prior_mu', 0.0) for p in cfg['params']], dtype=float)
    th = np.array([p.get('theta0') for p in cfg['params']], dtype=float)
    new.ref.mu = np.where(np.isnan(mu), th, mu)
    new.refcov = np.array(res['qcovorig'], dtype=float)
    return new


def huge(task, st):
    """a long run, not in lock step: what is loaded is what the run returned"""
    from pymcmcstat.MCMC import MCMC
    from pymcmcstat.chain.ChainProcessing import load_serial_simulation_results
    base = env.scratch_dir()
    try:
        with quiet(), deadline(120):
            mc = MCMC(rngseed=5)
            mc.data.add_data_set(np.arange(4.0), np.ones(4))
            mc.model_settings.define_model_settings(sos_function=lambda q, d: np.array([1.0, 2.0]) + q[0]**2*1e-6 + (q[2] - 1e3)**2, sigma2=[0.5, 1.0])
            mc.simulation_options.define_simulation_options(
                nsimu=task['n'], method='mh', qcov=np.diag([1e-9, 1.0, 4.0]), waitbar=False, verbosity=0, updatesigma=True, savesize=1700,
                savedir=os.path.join(base, 'o'), **dict(dict(save_to_json=True, results_filename='r.json'), **{task['fmt']: True}))
            for i, v in enumerate((1e-5, 7.0, 1e3)):
                mc.parameters.add_model_parameter(name='p%d' % i, theta0=v)
            mc.run_simulation()
            got = load_serial_simulation_results(os.path.join(base, 'o'), json_file='r.json', extension='txt' if 'txt' in task['fmt'] else 'h5')
        res = mc.simulation_results.results
        for k in ('chain', 'sschain', 's2chain'):
            if 'json' in task['fmt']:
                if not np.array_equal(np.asarray(got[k]), res[k]):
                    raise Violation('%s of %d rows is not what was saved' % (k, task['n']))
            else:
                same_rows(k + ' loaded', got[k], np.asarray(res[k]))
        st.state('huge', task['name'])
        st.trans += task['n']
    except (Exception, SystemExit) as ex:
        if isinstance(ex, Violation):
            raise
        raise Violation('saving and loading %d rows: %s' % (task['n'], last_frames(ex)))
    finally:
        import shutil
        shutil.rmtree(base, ignore_errors=True)


def run(task, ch, st):
    if task.get('kind') == 'huge':
        huge(task, st)
        return
    sessions = []
    try:
        se = Session(task['cfg'], ch, ALL)
        sessions.append(se)
        res = se.run()
        path = None
        for op in task['hist']:
            if op == 'load':
                path = load(se, res)
            elif op == 'nojson':
                find_json(se)
            elif op == 'continue':
                res = se.run(cont=True, override=dict(nsimu=4), redefine=False)
            elif op == 'restart':
                new = restart(se, ch, path or os.path.join(se.savedir, find_json(se)), res)
                sessions.append(new)
                new.ref.cfg = dict(new.cfg, opt=dict(new.cfg['opt'], qcov=new.refcov))
                se = new
                res = se.run()
    finally:
        for s in sessions:
            absorb(s, st)
            s.close()
