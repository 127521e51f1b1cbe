import numpy as np
from ..lockstep import Session, Violation
from .common import T, V, grid, nm, LONGZ, absorb, extras, affine
LEVEL = 'model_checking'
KEYS = ('chain', 'evals')
BOUNDS = dict(
    quick='1-3 sampled parameters with fixed ones in any position, lower/upper/two-sided limits reached exactly and '
          'crossed, also by a few units in the last place, 1-4 stages, chains of 3-4 rows plus a continuation; 130-row chains with at most 1 deviation',
    thorough='as quick with chains of 4-6 rows, 5 stages and 300-row chains')
ASSUMPTIONS = ['limits of parameters that are not sampled are not judged']


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    for d in grid(shape=['s', 'ss', 'sfs', 'fs', 'fsf', 'sffs'], lim=['tight', 'lower', 'upper', 'edge'],
                  method=['mh', 'dr', 'am', 'dram'], prior=['none', 'custom']):
        kw = {}
        n = 4
        if d['method'] in ('dr', 'dram'):
            n = 3
        if d['method'] in ('am', 'dram'):
            kw['adaptint'] = 2
        if deep:
            n += 1
        out.append(T(nm('grid', d), shape=d['shape'], lim=d['lim'], method=d['method'], nsimu=n, prior=d['prior'],
                     q='diag', **kw))
    for nt in (3, 4) + ((5,) if deep else ()):
        for sh in ('s', 'ss', 'fs'):
            out.append(T('dr%d-%s' % (nt, sh), shape=sh, lim='tight', method='dr', ntry=nt, nsimu=2 if nt > 3 else 3,
                         drscale=[1.0, 0.5, 2.0, 1.0], prior='custom', q='full'))
    for sh in ('s', 'ss', 'sfs'):
        for m in ('mh', 'dram'):
            for upd in ('one', 'upd2'):
                t = V('cont-%s-%s-%s' % (sh, m, upd), upd, shape=sh, lim='tight', method=m, nsimu=3, prior='custom')
                t['cont'] = [2]
                out.append(t)
    # settings that must be refused
    for i, (kw, _) in enumerate(REFUSED):
        for sh in ('s', 'ss', 'sfs', 'fs'):
            ind = [k for k, c in enumerate(sh) if c != 'f']
            for k in ind:
                for m in ('mh', 'dram'):
                    t = T('refuse%d-%s-%d-%s' % (i, sh, k, m), shape=sh, method=m, nsimu=3)
                    t['cfg']['params'][k].update(kw)
                    out.append(t)
    for sh in ('s', 'ss'):
        for m, nt in (('mh', None), ('dram', 2), ('dram', 3)):
            out.append(T('long-%s-%s-%s' % (sh, m, nt), shape=sh, prior='custom', lim='tight', method=m, q='full',
                         dev=1, ntry=nt, nsimu=300 if deep else 120, z=LONGZ[len(sh)],
                         cfg=dict(zcycle=True, accpat=[False, True, True])))
    # limits passed by a few units in the last place (all numbers exact in binary)
    for d in grid(sh=['s', 'ss', 'fs'], lim=['tight', 'lower', 'upper', 'edge'], method=['mh', 'dr'],
                  at=['high', 'finer', 'unit']):
        a, sc = dict(high=(2.0**20, 2.0**-17), finer=(2.0**20, 2.0**-25), unit=(1.0, 2.0**-44))[d['at']]
        kw = {} if d['method'] == 'mh' else dict(ntry=3, drscale=[2.0, 4.0])
        t = affine(T(nm('ulp', d), shape=d['sh'], lim=d['lim'], method=d['method'], nsimu=4 if d['method'] == 'mh' else 3,
                     q='diag', prior='custom', **kw), a, sc)
        out.append(t)
    out += extras(tier, ['mh', 'dram'], vars=('one', 'upd3'), dev=3)
    return out


REFUSED = [(dict(minimum=2.0, maximum=1.0, theta0=1.5), 'crossed limits'),
           (dict(minimum=2.0, maximum=3.0, theta0=1.5), 'starts below'),
           (dict(minimum=0.0, maximum=1.0, theta0=1.5), 'starts above'),
           (dict(minimum=2.0, theta0=1.75), 'starts below, one sided'),
           (dict(maximum=1.0, theta0=1.0625), 'starts above, one sided')]


def monitor(se):
    s = se.ref.s
    fixed = [i for i in range(len(se.cfg['params'])) if i not in s['ind']]
    for e in se.obs.evals:
        if (e[s['ind']] < s['lo']).any() or (e[s['ind']] > s['hi']).any():
            raise Violation('sum-of-squares evaluated outside the limits, at %s' % e)
        for i in fixed:
            if e[i] != se.cfg['params'][i]['theta0']:
                raise Violation('fixed parameter %d evaluated at %s' % (i, e))
    for p in se.obs.priors:
        if (p < s['lo']).any() or (p > s['hi']).any():
            raise Violation('prior evaluated outside the limits, at %s' % p)
    ch = np.asarray(se.mc.simulation_results.results['chain'])
    if (ch < s['lo']).any() or (ch > s['hi']).any():
        raise Violation('chain outside the limits')


def run(task, ch, st):
    se = Session(task['cfg'], ch, KEYS)
    try:
        res = se.run()
        if res is not None:
            monitor(se)
        for n in task.get('cont', []):
            se.run(cont=True, override=dict(nsimu=n + 1))
            monitor(se)
    finally:
        absorb(se, st)
        se.close()
