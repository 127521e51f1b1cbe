import numpy as np
from .. import rng
from ..lockstep import Session, ALL, Violation, Interrupted, quiet, deadline, last_frames
from .common import V, T, grid, nm, LONGZ, absorb, extras
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='histories of a run and 1-2 continuations (unchanged, longer by attribute, redefined options, another method; unnamed parameters; 1-3 new rows '
          'each) and of 6 and 13 continuations with at most 1 deviation, methods mh/am/dr/dram, fixed parameters, defaulted prior means, error-variance update on/off; all '
          'random outcomes up to 2-3 deviations; 60+60-row histories with 1 deviation; refusal without previous run; continuations after 1-2 attempts (continuing or starting anew) that failed at evaluation 1-6',
    thorough='1-3 continuations, all random outcomes up to 5 deviations, 130+130+60-row histories')
OPS = [('same', None), ('attr', 3), ('redefine', 2), ('attr', 2), ('redefine', 4), ('switch', 3)]
NEXT = dict(mh='dram', am='dr', dr='am', dram='mh')


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    for d in grid(shape=['s', 'sfs', 'ss'], method=['mh', 'am', 'dr', 'dram'], var=['one', 'upd', 'updn0', 'two', 'upd2'],
                  prior=['none', 'nan'], lim=['none', 'tight']):
        if d['lim'] == 'tight' and d['prior'] == 'none':
            continue
        kw = {}
        if d['method'] in ('am', 'dram'):
            kw.update(adaptint=2 if d['shape'] != 's' else 1, initqcovn=None if d['shape'] == 's' else 2)
        t = V(nm('hist', d), d['var'], shape=d['shape'], method=d['method'], prior=d['prior'], lim=d['lim'], nsimu=3,
              q='full', dev=5 if deep else 2, **kw)
        t['conts'] = 2 if deep else 1
        out.append(t)
    for d in grid(shape=['s', 'sf'], method=['mh', 'dram'], var=['one', 'upd2']):
        t = V(nm('three', d), d['var'], shape=d['shape'], method=d['method'], prior='gauss', nsimu=2, dev=4 if deep else 2,
              adaptint=1 if d['method'] == 'dram' else None)
        t['conts'] = 3 if deep else 2
        out.append(t)
    # parameters without names, and names that do not follow the order
    for k, d in enumerate(grid(shape=['ss', 'fs', 'sfsf'], method=['mh', 'dram'], var=['one', 'upd2'], names=['none', 'mixed', 'swapped'])):
        t = V(nm('unnamed', d), d['var'], shape=d['shape'], method=d['method'], prior='nan', nsimu=3, dev=3 if deep else 1, q='full',
              adaptint=2 if d['method'] == 'dram' else None)
        for i, p in enumerate(t['cfg']['params']):
            if d['names'] == 'none' or (d['names'] == 'mixed' and i % 2 == 0):
                p['name'] = None
            elif d['names'] == 'swapped':
                p['name'] = 'p%d' % (len(d['shape']) - 1 - i)
        t['conts'] = 2
        out.append(t)
    # many continuations
    for d in grid(shape=['s', 'sfn'], method=['mh', 'am', 'dram'], var=['one', 'upd2'], k=[6, 13]):
        if d['k'] == 13 and (d['shape'] == 's') != (d['var'] == 'one'):
            continue
        t = V(nm('relay', d), d['var'], shape=d['shape'], method=d['method'], prior='nan', nsimu=4, dev=2 if deep else 1 if d['k'] == 6 else 0, q='full',
              adaptint=3 if d['method'] != 'mh' else None, cfg=dict(zcycle=True, accpat=[True, False, True]))
        t['lens'] = [3, 5, 2, 6, 4, 3, 5, 2, 2, 3, 4, 3, 7][:d['k']]
        out.append(t)
    # attempts that fail at some evaluation, between the run and the continuation
    for d in grid(shape=['s', 'sfn'], method=['mh', 'am', 'dr', 'dram'], var=['one', 'upd2'], fresh=[False, True], at=[1, 2, 3, 4, 6], times=[1, 2]):
        if d['times'] == 2 and d['at'] not in (2, 6):
            continue
        t = V(nm('failed', d), d['var'], shape=d['shape'], method=d['method'], prior='nan', nsimu=4, dev=3 if deep else 1, q='full',
              adaptint=3 if d['method'] in ('am', 'dram') else None, cfg=dict(zcycle=True, accpat=[True, False, True]))
        t['lens'] = [4, 3]
        t['failed'] = dict(fresh=d['fresh'], at=d['at'], times=d['times'])
        out.append(t)
    for m in ('mh', 'dram'):
        for upd in ('one', 'updn0'):
            t = V('refuse-%s-%s' % (m, upd), upd, shape='sf', method=m, nsimu=3)
            t['refuse'] = True
            t['conts'] = 0
            out.append(t)
    for sh, var, m in (('ss', 'upd2', 'dram'), ('s', 'one', 'am')):
        t = V('long-%s-%s-%s' % (sh, var, m), var, shape=sh, method=m, q='full', dev=1, prior='nan', adaptint=13,
              nsimu=130 if deep else 60, z=LONGZ[len(sh)], cfg=dict(zcycle=True, accpat=[False, True, True]))
        t['lens'] = [130, 60] if deep else [60]
        out.append(t)
    for t in extras(tier, ['mh', 'am', 'dram'], n=3, vars=('one', 'upd3'), dev=1):
        t['conts'] = 1
        if t['name'].startswith('limits'):
            if t.pop('cont', None):
                continue
            t['dev'] = 0
        if not t['cfg']['opt'].get('ntry') and t['name'] != 'ultra':
            out.append(t)
    return out


def attempt(se, fresh, at):
    """a run that ends in an exception of the user's function: it produces no results, and changes none"""
    n0 = [len(x) for x in (se.obs.evals, se.obs.customs, se.obs.priors, se.obs.xs)]
    se.obs.fail_at = len(se.obs.evals) + at
    keep = se.mc.simulation_options.nsimu
    se.mc.simulation_options.nsimu = 9
    np.random.seed(11)
    try:
        with quiet(), deadline():
            se.mc.run_simulation(use_previous_results=not fresh)
    except Interrupted:
        pass
    except (Exception, SystemExit) as ex:
        raise Violation('a run that is to fail at evaluation %d: %s' % (at, last_frames(ex)))
    finally:
        se.obs.fail_at = None
        se.mc.simulation_options.nsimu = keep
        for x, n in zip((se.obs.evals, se.obs.customs, se.obs.priors, se.obs.xs), n0):
            del x[n:]


def run(task, ch, st):
    se = Session(task['cfg'], ch, ALL)
    try:
        if task.get('refuse'):
            se.make()
            n = len(se.obs.evals)
            try:
                with quiet(), deadline(), rng.use(se.src):
                    se.mc.run_simulation(use_previous_results=True)
            except SystemExit:
                pass
            except Exception as ex:
                raise Violation('continuing without previous results: %s' % last_frames(ex))
            else:
                raise Violation('continuing without previous results was not refused')
            if len(se.obs.evals) != n:
                raise Violation('evaluations before the refusal')
            if getattr(se.mc, 'simulation_results', None) is not None:
                raise Violation('results exist after the refusal')
        res = se.run()
        saved = [(res, {k: np.array(res[k]) for k in ('chain', 'sschain', 'theta') if res[k] is not None})]
        n = task['cfg']['opt']['nsimu']
        plan = task.get('lens')
        meth = task['cfg']['opt']['method']
        last = {}
        for k in range(len(plan) if plan else task.get('conts', 1)):
            if plan:
                kind, m = 'attr', plan[k]
            else:
                kind, m = OPS[ch.choose(len(OPS), free=True)]
            n = m or n
            if task.get('failed'):
                for _ in range(task['failed']['times']):
                    attempt(se, task['failed']['fresh'], task['failed']['at'])
                    st.event('failed attempt')
                if se.mc.simulation_results.results is not res:
                    raise Violation('a failed attempt replaces the results')
            e0, end = len(se.obs.evals), np.array(res['chain'])[-1]
            if kind == 'switch':
                meth = NEXT[meth]
                ov = dict(nsimu=n, method=meth)
                if meth in ('am', 'dram'):
                    ov.update(adaptint=2, initqcovn=2)
                last = ov
                res = se.run(cont=True, override=ov)
            elif kind == 'redefine':
                ov = dict(last, nsimu=n)
                if ch.choose(2, free=True):
                    ov['printint'] = 1
                res = se.run(cont=True, override=ov)
            else:
                res = se.run(cont=True, override=dict(last, nsimu=n), redefine=False)
            if len(se.obs.evals) > e0 and not np.array_equal(se.obs.evals[e0][se.ref.s['ind']], end):
                raise Violation('the continuation starts from %r, the last row is %r' % (se.obs.evals[e0].tolist(), end.tolist()))
            for old, snap in saved:
                for kk, v in snap.items():
                    if not np.array_equal(np.asarray(old[kk]), v):
                        raise Violation('earlier results changed by the continuation: %s' % kk)
                    if kk != 'theta' and not np.array_equal(np.asarray(res[kk])[:len(v)], v):
                        raise Violation('earlier rows of %s not kept' % kk)
            saved.append((res, {kk: np.array(res[kk]) for kk in ('chain', 'sschain', 'theta')}))
    finally:
        absorb(se, st)
        se.close()
