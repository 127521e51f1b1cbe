from ..lockstep import Session
from .common import T, V, grid, nm, LONGZ, Z3, absorb, nsamp, extras
LEVEL = 'model_checking'
KEYS = ('chain', 'evals', 'R', 'cov')
BOUNDS = dict(
    quick='1-3 sampled parameters with every subset excluded from adaptation, intervals 1-4, chains of 4-7 rows, '
          'burn-in, last adaptation, weighted initial covariance, scale and regularisation variants, continuation; '
          'chains of 120-250 rows with at most 1 deviation',
    thorough='chains of 5-9 rows, all intervals 1-6; chains of 230-450 rows with at most 1 deviation')
ASSUMPTIONS = ['a covariance that is rank deficient only up to rounding is inconclusive (either reading is legitimate)']


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    D = 1 if deep else 0

    def add(name, cont=None, **kw):
        t = T(name, **kw)
        if cont:
            t['cont'] = cont
        out.append(t)
    # one parameter: every interval, length, burn-in and end of adaptation
    for d in grid(adaptint=[1, 2, 3] + ([4, 5] if deep else []), nsimu=[4, 5, 6] + ([7, 8] if deep else []),
                  burnintime=[0, 2, 4], lastadapt=[0, 2, 3]):
        if d['nsimu'] > 5 + D and (d['burnintime'] or d['lastadapt']) and d['adaptint'] == 1:
            continue
        add(nm('one', d), shape='s', method='am', prior='gauss', **{k: v for k, v in d.items()})
    # several parameters, exclusions, weighted start
    for d in grid(shape=['ss', 'sn', 'ns', 'nn', 'sfn', 'fs', 'ssn', 'nsf'], method=['am', 'dram'],
                  initqcovn=[None, 1, 4], adaptint=[2, 3]):
        sh = d['shape']
        n = (5 if d['method'] == 'am' else 4) + D
        add(nm('multi', d), shape=sh, method=d['method'], q='full', nsimu=n, adaptint=d['adaptint'],
            initqcovn=d['initqcovn'], prior='gauss', cfg=dict(accept_first=True))
    # enough history for a regular sample covariance
    for d in grid(shape=['ss', 'sn', 'sfs', 'sns'], adaptint=[3, 4], method=['am', 'dram']):
        add(nm('regular', d), shape=d['shape'], method=d['method'], q='full', adaptint=d['adaptint'],
            nsimu=d['adaptint'] + 3 + D*(d['method'] == 'am'), dev=3 + D,
            z=(Z3[nsamp(d['shape'])]), cfg=dict(zcycle=True))
    # scale, regularisation, singular histories
    for d in grid(shape=['s', 'ss', 'sn'], adascale=[None, 0.5, 3.0, 0.0, -1.0], qcov_adjust=[1e-8, 0.0625, 0.0],
                  initqcovn=[None, 2]):
        add(nm('scale', d), shape=d['shape'], method='am', q='diag', nsimu=4 + D, adaptint=1,
            adascale=d['adascale'], qcov_adjust=d['qcov_adjust'], initqcovn=d['initqcovn'], lim='tight')
    # burn-in rescaling
    for d in grid(shape=['s', 'ss', 'sn'], adaptint=[1, 2, 3], burnintime=[1, 2, 3, 6], burnin_scale=[None, 4.0, 0.5],
                  method=['am', 'dram']):
        kw = {} if d['burnin_scale'] is None else dict(burnin_scale=d['burnin_scale'])
        if d['method'] == 'dram' and d['shape'] == 'sn':
            continue
        add(nm('burn', d), shape=d['shape'], method=d['method'], q='full', adaptint=d['adaptint'],
            burnintime=d['burnintime'], nsimu=5 if d['method'] == 'am' else 4, lim='tight', initqcovn=3, **kw)
    # no adaptation
    for d in grid(method=['mh', 'dr'], adaptint=[None, 1, 2], shape=['s', 'ss']):
        add(nm('none', d), shape=d['shape'], method=d['method'], adaptint=d['adaptint'], nsimu=4, q='full')
    for d in grid(method=['am', 'dram'], adaptint=[0, 50], shape=['s', 'ss']):
        add(nm('never', d), shape=d['shape'], method=d['method'], adaptint=d['adaptint'], nsimu=4, q='full')
    # continuation
    for d in grid(shape=['s', 'ss'], n1=[2, 3, 4], n2=[2, 3], adaptint=[1, 2]):
        add(nm('cont', d), cont=[d['n2']], shape=d['shape'], method='am', nsimu=d['n1'], adaptint=d['adaptint'],
            initqcovn=2 if d['shape'] == 'ss' else None, prior='gauss')
    for d in grid(shape=['s', 'sn'], n1=[3, 5], n2=[3, 5], adaptint=[1, 2], burnintime=[2, 4, 9], initqcovn=[None, 3]):
        add(nm('contburn', d), cont=[d['n2']], shape=d['shape'], method='am', nsimu=d['n1'], adaptint=d['adaptint'], dev=3 + D,
            initqcovn=d['initqcovn'], burnintime=d['burnintime'], prior='gauss', lim='tight' if d['n1'] == 3 else 'none')
    # long
    pat = dict(zcycle=True, accpat=[False, True, True])
    for sh, m, kw in (('s', 'am', dict(adaptint=7)), ('ss', 'am', dict(adaptint=10)), ('ss', 'dram', {}),
                      ('ss', 'am', {}), ('sn', 'am', dict(adaptint=20, burnintime=50)),
                      ('ss', 'am', dict(adaptint=10, lastadapt=60)), ('ss', 'dram', dict(adaptint=25, initqcovn=10)),
                      ('sn', 'am', dict(adaptint=15, initqcovn=30))):
        n = (120 if kw else 210)*(2 if deep else 1)
        add('long-%s-%s-%s' % (sh, m, '-'.join('%s%s' % kv for kv in kw.items())), shape=sh, method=m, q='full',
            dev=1, nsimu=n, z=LONGZ[2 if sh != 's' else 1], cfg=pat, prior='gauss', **kw)
    out += extras(tier, ['am', 'dram'], n=5, vars=('one', 'upd3'), dev=3)
    return out


def run(task, ch, st):
    se = Session(task['cfg'], ch, KEYS)
    try:
        se.run()
        for n in task.get('cont', []):
            se.run(cont=True, override=dict(nsimu=n + 1))
    finally:
        absorb(se, st)
        se.close()
