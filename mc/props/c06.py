from ..lockstep import Session
from .common import T, grid, nm, LONGZ, absorb, extras
LEVEL = 'model_checking'
KEYS = ('chain', 'evals', 'R', 'RDR')
BOUNDS = dict(
    quick='2-4 stages, 0-4 scale factors, intervals 1-3, burn-in, weighted covariance, excluded parameters, user stage '
          'matrices, continuation; chains of 3-5 rows with all outcomes; 120-row chains with at most 1 deviation',
    thorough='2-5 stages, chains of 3-6 rows; 240-row chains with at most 1 deviation')


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    D = 1 if deep else 0

    def add(name, cont=None, **kw):
        t = T(name, **kw)
        if cont:
            t['cont'] = cont
        out.append(t)
    for d in grid(ntry=[2, 3, 4] + ([5] if deep else []), drscale=[None, [2.0], [2.0, 4.0], [1.5, 2.5, 4.0, 8.0]],
                  method=['dr', 'dram'], shape=['s', 'sfs']):
        kw = {} if d['drscale'] is None else dict(drscale=d['drscale'])
        add(nm('init', d), shape=d['shape'], q='full', method=d['method'], ntry=d['ntry'], nsimu=2, prior='gauss', **kw)
    for d in grid(ntry=[2, 3], drscale=[None, [2.0], [2.0, 4.0, 8.0]], adaptint=[1, 2], shape=['s', 'ss', 'sn'],
                  burnintime=[0, 2, 9]):
        kw = {} if d['drscale'] is None else dict(drscale=d['drscale'])
        add(nm('adapt', d), shape=d['shape'], q='full', method='dram', ntry=d['ntry'], adaptint=d['adaptint'],
            nsimu=(4 if d['ntry'] == 2 else 3) + D, prior='gauss', initqcovn=3, burnintime=d['burnintime'],
            lim='tight' if d['burnintime'] else 'none', dev=None if d['ntry'] == 2 else 4 + D, **kw)
    for d in grid(burnin_scale=[None, 4.0, 0.5], adaptint=[1, 2], burnintime=[1, 3], ntry=[2, 3], lim=['tight', 'none']):
        kw = {} if d['burnin_scale'] is None else dict(burnin_scale=d['burnin_scale'])
        add(nm('burn', d), shape='s', method='dram', ntry=d['ntry'], adaptint=d['adaptint'], nsimu=4, lim=d['lim'],
            burnintime=d['burnintime'], dev=None if d['ntry'] == 2 else 4, **kw)
    # singular histories: the kept proposal and its stages
    for d in grid(qcov_adjust=[1e-8, 0.0625, 0.0], adascale=[None, 0.5], shape=['s', 'ss']):
        add(nm('sing', d), shape=d['shape'], method='dram', adaptint=1, nsimu=4, qcov_adjust=d['qcov_adjust'],
            adascale=d['adascale'], lim='tight', prior='narrow')
    R1, R2, R3 = [[0.5, 0.25], [0.0, 0.25]], [[0.25, -0.125], [0.0, 0.5]], [[0.125, 0.0], [0.0, 0.125]]
    for m in ('dr', 'dram'):
        for ai in (1, 2, 3):
            add('rdr2-%s-%d' % (m, ai), shape='ss', method=m, ntry=2, nsimu=4, RDR=[R1, R2], adaptint=ai, initqcovn=3)
        add('rdr3-%s' % m, shape='ss', method=m, ntry=3, nsimu=3, RDR=[R1, R2, R3], adaptint=2, initqcovn=3,
            dev=4 + D)
    for d in grid(shape=['s', 'ss'], n1=[2, 3], ntry=[2, 3]):
        add(nm('cont', d), cont=[2], shape=d['shape'], method='dram', nsimu=d['n1'], adaptint=1, initqcovn=2,
            prior='gauss', ntry=d['ntry'], dev=4)
    pat = dict(zcycle=True, accpat=[False, True, False, False, True])
    for sh, nt, kw in (('s', 2, dict(adaptint=10)), ('ss', 3, dict(adaptint=25)), ('ss', 4, dict(adaptint=20,
                       burnintime=50)), ('ss', 2, {})):
        add('long-%s-%d-%s' % (sh, nt, '-'.join('%s%s' % kv for kv in kw.items())), shape=sh, method='dram', q='full',
            dev=1, ntry=nt, nsimu=120*(1 + D), z=LONGZ[len(sh)], cfg=pat, prior='gauss', **kw)
    out += extras(tier, ['dr', 'dram'], vars=('one', 'upd3'), dev=3)
    return out


def run(task, ch, st):
    se = Session(task['cfg'], ch, KEYS)
    try:
        se.run()
        for n in task.get('cont', []):
            se.run(cont=True, override=dict(nsimu=n + 1))
    finally:
        absorb(se, st)
        se.close()
