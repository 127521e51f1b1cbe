from .common import lock_run, T, V, grid, nm, LONGZ, Z3, nsamp, extras
LEVEL = 'model_checking'
KEYS = ('chain', 'sschain', 's2chain', 'evals')
BOUNDS = dict(
    quick='1-3 parameters, chains of 2-4 rows with all candidate directions of a 2-letter alphabet and both outcomes '
          'of each test; 130-row chains with at most 1 deviation',
    thorough='1-4 parameters, chains of 2-6 rows, 2- and 3-letter alphabets; 300-row chains with at most 1 deviation')


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    for d in grid(shape=['s', 'ss', 'sfs', 'fs'] + (['fsns', 'sss'] if deep else []),
                  prior=['none', 'gauss', 'nan', 'zero', 'neg', 'mixed', 'custom', 'narrow'],
                  var=['one', 's2', 'two', 'two1', 'upd', 'upd2'], lim=['none', 'tight']):
        n = 4
        if d['var'].startswith('upd') or d['shape'] not in ('s', 'ss'):
            n = 3
        if deep:
            n += 1
        out.append(V(nm('grid', d), d['var'], shape=d['shape'], prior=d['prior'], lim=d['lim'], q='full', nsimu=n))
    for d in grid(shape=['s', 'sfs'], prior=['none', 'gauss', 'nan'], q=[None, 'vec', 'full'],
                  method=['mh', 'am', 'dram', 'dr']):
        kw = dict(ntry=1) if d['method'] in ('dram', 'dr') else {}
        out.append(T(nm('meth', d), shape=d['shape'], prior=d['prior'], q=d['q'], method=d['method'],
                     nsimu=4 if not deep else 5, **kw))
    for d in grid(shape=['s', 'ss', 'sf'], adaptint=[1, 2], var=['one', 'two', 'updn0']):
        out.append(V(nm('adapt', d), d['var'], shape=d['shape'], method='am', adaptint=d['adaptint'],
                     nsimu=5 if deep else 4, prior='gauss'))
    for r in ('float', None):
        out.append(T('deep-%s' % r, shape='s', prior='gauss', nsimu=8 if deep else 6, cfg=dict(sosret=r)))
    # steep posteriors: probabilities from 1e-200 to 1
    for sharp in (1e-4, 64.0, 400.0):
        out.append(T('sharp-%g' % sharp, shape='ss', nsimu=4, prior='gauss', cfg=dict(sharp=sharp)))
    # sum-of-squares and prior vary by hundreds and nearly cancel
    for sh in ('s', 'ss', 'sf'):
        for m in ('mh', 'am', 'dram'):
            kw = dict(adaptint=2) if m != 'mh' else {}
            out.append(T('anti-%s-%s' % (sh, m), shape=sh, nsimu=4 if m != 'dram' else 3, prior='narrow', method=m, q='full',
                         cfg=dict(antiprior=4096.0), **kw))
    if deep:
        for sh in ('s', 'ss', 'sss'):
            out.append(T('alpha3-' + sh, shape=sh, prior='gauss', q='full', nsimu=5 if sh != 's' else 6,
                         z=Z3[nsamp(sh)]))
    for sh, var in (('s', 'one'), ('ss', 'upd2')):
        for m in ('mh', 'am'):
            out.append(V('long-%s-%s-%s' % (sh, var, m), var, shape=sh, prior='gauss', method=m, q='full', dev=1,
                         nsimu=300 if deep else 130, z=LONGZ[len(sh)], cfg=dict(zcycle=True, accpat=[True, False, True])))
    out += extras(tier, ['mh', 'am'], wall=('inf', 'nan'))
    return out


def run(task, ch, st):
    lock_run(task, ch, st, KEYS)
