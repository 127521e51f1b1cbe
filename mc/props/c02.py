from .common import lock_run, T, V, grid, nm, LONGZ, Z3, nsamp, extras
LEVEL = 'model_checking'
KEYS = ('chain', 'sschain', 's2chain', 'evals', 'iacce')
BOUNDS = dict(
    quick='2-4 stages, 1-3 parameters, 1-3 iterations, all outcomes of every stage, 2-letter alphabet of directions; '
          '130-row chains with at most 1 deviation',
    thorough='2-5 stages, 1-4 parameters, 1-4 iterations, 2- and 3-letter alphabets; 300-row chains, 1 deviation')


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    for d in grid(ntry=[2, 3, 4] + ([5] if deep else []), shape=['s', 'ss', 'sfs'] + (['sss', 'fs'] if deep else []),
                  prior=['none', 'gauss', 'custom'] + (['nan', 'mixed'] if deep else []),
                  var=['one', 'two', 'upd2'], lim=['none', 'tight', 'lower'], q=['full']):
        n = {2: 3, 3: 2, 4: 2, 5: 2}[d['ntry']] + (1 if deep and d['ntry'] < 4 else 0)
        if d['ntry'] == 4 and not deep and (d['shape'] != 'ss' or d['lim'] == 'none'):
            continue
        out.append(V(nm('grid', d), d['var'], shape=d['shape'], prior=d['prior'], lim=d['lim'], q=d['q'],
                     method='dr', ntry=d['ntry'], nsimu=n))
    for d in grid(method=['dram', 'dr'], drscale=[None, [2.0], [1.5, 3.0], [2.0, 4.0, 8.0, 16.0]], ntry=[2, 3],
                  shape=['s', 'sf']):
        kw = {} if d['drscale'] is None else dict(drscale=d['drscale'])
        out.append(T(nm('scale', d), shape=d['shape'], q='vec' if d['shape'] == 'sf' else 'diag', method=d['method'],
                     ntry=d['ntry'], nsimu=3 if d['ntry'] == 2 or deep else 2, prior='gauss', **kw))
    # later stages wider than earlier ones, from a point on a limit: stages outside the limits in any position
    for d in grid(lim=['edge', 'tight', 'upper'], drscale=[[0.5], [0.5, 4.0], [2.0, 0.25, 2.0]], ntry=[2, 3, 4], shape=['s', 'ss', 'fs'],
                  var=['one', 'two']):
        if d['ntry'] == 4 and d['shape'] == 'ss' and not deep:
            continue
        out.append(V(nm('wide', d), d['var'], shape=d['shape'], lim=d['lim'], q='diag', method='dr', ntry=d['ntry'],
                     nsimu=3 if d['ntry'] == 2 or deep else 2, drscale=d['drscale']))
    # sum-of-squares and prior vary by hundreds and nearly cancel
    for nt in (2, 3):
        for sh in ('s', 'ss'):
            out.append(T('anti-%s-%d' % (sh, nt), shape=sh, nsimu=3 if nt == 2 else 2, prior='narrow', method='dr', ntry=nt, q='full',
                         cfg=dict(antiprior=4096.0)))
    # the user's own stage matrices
    R1, R2 = [[0.5, 0.25], [0.0, 0.25]], [[0.25, -0.125], [0.0, 0.5]]
    out.append(T('rdr', shape='ss', method='dr', ntry=2, nsimu=4 if deep else 3, RDR=[R1, R2]))
    out.append(T('rdr3', shape='ss', method='dr', ntry=3, nsimu=3 if deep else 2,
                 RDR=[R1, R2, [[0.125, 0.0], [0.0, 0.125]]]))
    # adaptation between the stages
    for d in grid(shape=['s', 'ss'], adaptint=[1, 2], ntry=[2, 3]):
        out.append(T(nm('adapt', d), shape=d['shape'], method='dram', adaptint=d['adaptint'], ntry=d['ntry'],
                     nsimu=4 if d['ntry'] == 2 else 3, prior='gauss', q='full'))
    for sharp in (1e-4, 64.0, 400.0):
        out.append(T('sharp-%g' % sharp, shape='ss', nsimu=3, method='dr', ntry=3 if deep else 2,
                     prior='gauss', cfg=dict(sharp=sharp)))
    if deep:
        for sh in ('s', 'ss'):
            out.append(T('alpha3-' + sh, shape=sh, prior='gauss', q='full', method='dr', ntry=3, nsimu=3,
                         z=Z3[nsamp(sh)]))
    for sh, var, nt in (('s', 'one', 2), ('ss', 'upd2', 3)):
        out.append(V('long-%s-%s' % (sh, var), var, shape=sh, prior='gauss', method='dram', q='full', dev=1, ntry=nt,
                     nsimu=300 if deep else 130, z=LONGZ[len(sh)],
                     cfg=dict(zcycle=True, accpat=[False, True, False, False, False, True, True])))
    out += extras(tier, ['dr', 'dram'], wall=('inf', 'nan'))
    return out


def run(task, ch, st):
    lock_run(task, ch, st, KEYS)
