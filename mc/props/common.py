"""Configuration spaces and the standard lock-step execution."""
import itertools
from ..lockstep import Session, ALL

NAN = float('nan')
# one name is part of another, or differs in case only
NAMES = ['ka', 'k', 'K', 'kab', 'a']
TH = [0.5, -0.25, 1.25, 0.75, -1.5]
MU = [1.0, -1.5, 0.25, 0.5, 0.0]
SG = [0.5, 2.0, 1.0, 0.25, 4.0]
for _i in range(5, 24):       # configurations with many parameters
    NAMES.append('p%d' % (_i % 12) + 'x'*(_i//12))
    TH.append(((7*_i) % 13 - 6)*0.25)
    MU.append(((5*_i) % 11 - 5)*0.5)
    SG.append([0.5, 2.0, 1.0, 0.25][_i % 4])
Z = {1: [[1.0], [-2.0]],
     2: [[1.0, -0.5], [-0.75, 1.5]],
     3: [[1.0, -0.5, 0.25], [-0.75, 1.5, -1.0]],
     4: [[1.0, -0.5, 0.25, 0.5], [-0.75, 1.5, -1.0, 0.25]],
     5: [[1.0, -0.5, 0.25, 0.5, -0.25], [-0.75, 1.5, -1.0, 0.25, 0.75]]}
for _n in range(6, 25):
    Z[_n] = [[((3*_i + 5*_k) % 7 - 3)*0.25 for _i in range(_n)] for _k in range(4)]
Z3 = {1: Z[1] + [[0.5]], 2: Z[2] + [[0.5, 0.25]], 3: Z[3] + [[0.5, 0.25, 1.25]], 4: Z[4] + [[0.5, 0.25, 1.25, -1.0]]}


def pset(shape, prior='none', lim='none'):
    """shape: one letter per parameter: s sampled, f fixed, n sampled but excluded from adaptation"""
    out = []
    for i, c in enumerate(shape):
        p = dict(name=NAMES[i], theta0=TH[i])
        if c == 'f':
            p['sample'] = False
        if c == 'n':
            p['adapt'] = False
        if prior == 'gauss' or (prior == 'mixed' and i % 2 == 0):
            p.update(prior_mu=MU[i], prior_sigma=SG[i])
        elif prior == 'nan':
            p.update(prior_mu=NAN, prior_sigma=SG[i])
        elif prior == 'zero':
            p.update(prior_mu=MU[i], prior_sigma=0.0 if i % 2 == 0 else SG[i])
        elif prior == 'neg':
            p.update(prior_mu=MU[i], prior_sigma=-1.0 if i % 2 == 0 else SG[i])
        elif prior == 'narrow':
            p.update(prior_mu=TH[i] + 0.125, prior_sigma=0.125)
        if lim == 'tight':
            p.update(minimum=TH[i] - 0.5, maximum=TH[i] + 0.5)
        elif lim == 'wide':
            p.update(minimum=-8.0, maximum=8.0)
        elif lim == 'lower':
            p.update(minimum=TH[i] - (0.5 if i == 0 else 0.25))
        elif lim == 'upper':
            p.update(maximum=TH[i] + (0.5 if i == 0 else 0.25))
        elif lim == 'edge':      # starts on a limit
            p.update(minimum=TH[i], maximum=TH[i] + 1.0)
        out.append(p)
    return out


def nsamp(shape):
    return sum(c != 'f' for c in shape)


QF = [[0.25, 0.125, -0.0625, 0.03125, 0.0],
      [0.125, 0.5, 0.0625, -0.125, 0.03125],
      [-0.0625, 0.0625, 0.25, 0.0, 0.0625],
      [0.03125, -0.125, 0.0, 0.375, 0.125],
      [0.0, 0.03125, 0.0625, 0.125, 0.5]]


def qcov(kind, n):
    if kind == 'diag':
        return [[0.25 if i == j else 0.0 for j in range(n)] for i in range(n)]
    if kind == 'vec':
        return [0.25 if i != 1 else 0.0625 for i in range(n)]
    if kind == 'full':
        if n > 5:
            return [[0.25 + 0.0625*(i % 3) if i == j else 0.03125*((i*j) % 3 - 1)/n for j in range(n)] for i in range(n)]
        return [r[:n] for r in QF[:n]]
    if kind == 'small':
        return [[0.25*v for v in r[:n]] for r in QF[:n]]
    return None


def T(name, shape='s', prior='none', lim='none', q='diag', nsos=1, ndata=(5,), model=None, z=None, dev=None,
      cfg=None, **opt):
    c = dict(params=pset(shape, prior, lim), nsos=nsos, ndata=list(ndata), z=z or Z[nsamp(shape)])
    if prior == 'custom':
        c['prior'] = 'custom'
    o = dict(method='mh')
    if q is not None:
        o['qcov'] = qcov(q, len(shape))
    o.update(opt)
    c['opt'] = o
    if model:
        c['model'] = model
    if cfg:
        c.update(cfg)
    t = dict(name=name, cfg=c)
    if dev is not None:
        t['dev'] = dev
    return t


def grid(**dims):
    keys = list(dims)
    for vals in itertools.product(*[dims[k] for k in keys]):
        yield dict(zip(keys, vals))


def nm(prefix, d):
    return prefix + '-' + '-'.join(str(v).replace(' ', '') for v in d.values())


def absorb(se, st):
    st.trans += len(se.states)
    st.states.update(se.states)
    for k, v in se.ref.events.items():
        st.event(k, v)


def lock_run(task, ch, st, keys=ALL, after=None):
    se = Session(task['cfg'], ch, keys)
    try:
        res = se.run()
        if after:
            after(se, res)
        for n in task.get('cont', []):
            res = se.run(cont=True, override=dict(nsimu=n + 1))
            if after:
                after(se, res)
        return se, res
    finally:
        absorb(se, st)
        se.close()


VAR = {   # name -> nsos, ndata, model settings, options
    'one': (1, (5,), None, {}),
    's2': (1, (5,), dict(sigma2=2.0), {}),
    'two': (2, (5, 3), dict(sigma2=[0.5, 2.0]), {}),
    'two1': (2, (5, 3), dict(sigma2=4.0), {}),
    'upd': (1, (5,), dict(sigma2=2.0), dict(updatesigma=True)),
    'updn0': (1, (5,), dict(sigma2=2.0, N0=2.0, S20=0.5), {}),
    'three': (3, (5, 3, 8), dict(sigma2=[0.5, 2.0, 1.0]), {}),
    'upd3': (3, (5, 3, 8), dict(sigma2=[0.5, 2.0, 1.0], N0=[1.0, 3.0, 2.0], S20=[2.0, 0.25, 4.0]), {}),
    'five': (5, (5, 3, 8, 1, 2), dict(sigma2=[0.5, 2.0, 1.0, 0.25, 4.0]), {}),
    'upd2': (2, (5, 3), dict(sigma2=[0.5, 2.0], N0=[1.0, 3.0], S20=[2.0, 0.25]), {}),
    'nine': (9, (5, 3, 8, 1, 2, 4, 6, 7, 3), dict(sigma2=[0.5, 2.0, 1.0, 0.25, 4.0, 1.5, 0.75, 3.0, 0.125]), {}),
    'upd9': (9, (5, 3, 8, 1, 2, 4, 6, 7, 3), dict(sigma2=[0.5, 2.0, 1.0, 0.25, 4.0, 1.5, 0.75, 3.0, 0.125],
                                                  N0=[1.0, 3.0, 2.0, 1.5, 0.5, 4.0, 1.0, 2.0, 6.0],
                                                  S20=[2.0, 0.25, 4.0, 1.0, 0.5, 3.0, 8.0, 0.125, 2.5]), {}),
}


def V(name, kind, **kw):
    nsos, nd, model, opt = VAR[kind]
    kw = dict(kw)
    for k, v in opt.items():
        kw.setdefault(k, v)
    return T(name, nsos=nsos, ndata=nd, model=model, **kw)


LONGZ = {1: [[1.0], [-1.25], [0.5], [-0.375]],
         2: [[1.0, -0.5], [-0.75, 1.5], [0.25, -1.25], [-0.5, 0.5]]}


def extras(tier, methods, n=4, vars=('one', 'three', 'upd3', 'five'), dev=4, wall=('inf',), **more):
    """Larger configurations, shared by the sampler checks: 3-5 sampled parameters with a full covariance, 3 and 5 error
    variances, a sum-of-squares that is infinite or not a number in a region, integers where numbers are expected, a prior
    of mean zero by default, and very wide or one-element-array priors.  All executions up to `dev` deviations."""
    out = []
    deep = tier == 'thorough'
    dev = dev + 1 if deep else dev
    for d in grid(shape=['sss', 'ssss', 'nsfss', 'sssss'], method=methods, var=vars, prior=['gauss', 'mixed'],
                  lim=['none', 'tight']):
        if not deep and (d['prior'] == 'mixed') != (d['lim'] == 'tight'):
            continue
        kw = dict(more)
        if d['method'] in ('am', 'dram'):
            kw.setdefault('adaptint', 2)
            kw.setdefault('initqcovn', 4)
        out.append(V(nm('big', d), d['var'], shape=d['shape'], method=d['method'], prior=d['prior'], lim=d['lim'], q='full',
                     nsimu=n, dev=dev, **kw))
    for d in grid(wall=wall, shape=['s', 'ss', 'sf'], method=methods, var=['one', 'two', 'upd'], ntry=[None, 3]):
        if d['ntry'] and d['method'] not in ('dr', 'dram'):
            continue
        kw = dict(more)
        if d['method'] in ('am', 'dram'):
            kw.setdefault('adaptint', 2)
        out.append(V(nm('wall', d), d['var'], shape=d['shape'], method=d['method'], q='full', nsimu=n + (len(wall) > 1), ntry=d['ntry'],
                     dev=dev, cfg=dict(wall=d['wall']), **kw))
    for d in grid(odd=['int', 'intprior', 'zeromu', 'wideprior', 'intvar', 'tuplelim', 'farmu', 'flags', 'npflags', 'npnum'],
                  shape=['s', 'ss', 'sfs', 'nfs'], method=methods, var=['one', 'upd2']):
        if (d['shape'] == 'nfs') != ('flags' in d['odd']):
            continue
        kw = dict(more)
        if d['method'] in ('am', 'dram'):
            kw.setdefault('adaptint', 2)
        t = V(nm('odd', d), d['var'], shape=d['shape'], method=d['method'], q='full', nsimu=n, dev=dev, prior='gauss', **kw)
        odd(t['cfg'], d['odd'])
        out.append(t)
    for d in grid(scale=list(SCALES), shape=['s', 'ss', 'sfs'], method=methods, var=['one', 'upd2'], lim=['none', 'tight']):
        if not deep and (d['shape'] == 's') != (d['lim'] == 'tight' and d['var'] == 'one'):
            continue
        kw = dict(more)
        if d['method'] in ('am', 'dram'):
            kw.setdefault('adaptint', 2)
            kw.setdefault('initqcovn', 4)
        out.append(affine(V(nm('scale', d), d['var'], shape=d['shape'], method=d['method'], q='full', nsimu=n, dev=dev,
                            prior='gauss', lim=d['lim'], **kw), *SCALES[d['scale']]))
    # sums of squares in very small and very large units
    for d in grid(unit=[2.0**-60, 2.0**60], shape=['s', 'sfs'], method=methods, var=['s2', 'two', 'upd', 'updn0', 'upd2'], ntry=[None, 3]):
        if d['ntry'] and (d['method'] not in ('dr', 'dram') or not deep) or not deep and (d['shape'] == 's') != (d['var'] in ('updn0', 'two')):
            continue
        kw = dict(more)
        if d['method'] in ('am', 'dram'):
            kw.setdefault('adaptint', 2)
        t = V(nm('unit', d), d['var'], shape=d['shape'], method=d['method'], q='full', nsimu=n, ntry=d['ntry'], dev=dev, prior='gauss',
              cfg=dict(ssscale=d['unit']), **kw)
        m = t['cfg']['model'] = dict(t['cfg']['model'])
        for k in ('sigma2', 'S20'):
            if k in m:
                m[k] = [v*d['unit'] for v in m[k]] if isinstance(m[k], list) else m[k]*d['unit']
        out.append(t)
    # user stage matrices for four and five stages
    for d in grid(shape=['s', 'ss'], method=[m for m in methods if m in ('dr', 'dram')], ntry=[4, 5], spare=[0, 1]):
        k = len(d['shape'])
        out.append(T(nm('own', d), shape=d['shape'], method=d['method'], q='full', nsimu=3, ntry=d['ntry'], dev=2 + deep, prior='gauss',
                     RDR=[[[(0.75 - 0.125*s) if i == j else 0.0625*(s - 1) if i < j else 0.0 for j in range(k)] for i in range(k)]
                          for s in range(d['ntry'] + d['spare'])],
                     cfg=dict(accept_first=False), **dict(dict(adaptint=2) if d['method'] == 'dram' else {}, **more)))
    # many parameters, and long chains (no or one deviation from a mixed history)
    for d in grid(shape=['s'*12, 'sfsnssfsssssns', 's'*20], method=methods, var=['one', 'upd2'], lim=['none', 'tight']):
        if not deep and (d['var'] == 'one') != (d['lim'] == 'none'):
            continue
        kw = dict(more)
        if d['method'] in ('am', 'dram'):
            kw.setdefault('adaptint', 2)
            kw.setdefault('initqcovn', 4)
        out.append(V(nm('many', d), d['var'], shape=d['shape'], method=d['method'], q='full', nsimu=n + 1, dev=1,
                     prior='mixed', lim=d['lim'], cfg=dict(zcycle=True, sharp=0.125, accpat=[True, False, True]), **kw))
    for d in grid(shape=['s', 'sfs'], method=methods, var=['nine', 'upd9']):
        if deep or (d['shape'] == 's') == (d['var'] == 'upd9') :
            out.append(V(nm('nine', d), d['var'], shape=d['shape'], method=d['method'], q='full', nsimu=n, dev=2 + deep, prior='gauss',
                         **dict(dict(adaptint=2) if d['method'] in ('am', 'dram') else {}, **more)))
    # many stages (the acceptance probability of a late stage needs those of all paths before it)
    for d in grid(shape=['s', 'ss'], method=[m for m in methods if m in ('dr', 'dram')], ntry=[5, 6, 7],
                  drscale=[None, [1.5, 2.0, 2.5, 3.0, 3.5, 4.0], [0.5, 1.0, 2.0]], lim=['none', 'tight']):
        if not deep and (d['shape'] == 's') != (d['lim'] == 'tight') or d['drscale'] == [0.5, 1.0, 2.0] and d['ntry'] == 5:
            continue
        kw = dict(more)
        if d['method'] == 'dram':
            kw.setdefault('adaptint', 2)
        if d['drscale']:
            kw['drscale'] = d['drscale']
        out.append(T(nm('stages', d), shape=d['shape'], method=d['method'], q='full', nsimu=3, ntry=d['ntry'], dev=2 + deep,
                     prior='gauss', lim=d['lim'], cfg=dict(accept_first=False), **kw))
    # long adaptation intervals
    for d in grid(shape=['s', 'nss'], method=[m for m in methods if m in ('am', 'dram')], adaptint=[600, 1050], initqcovn=[None, 40]):
        if not deep and (d['shape'] == 's') != (d['initqcovn'] is None):
            continue
        out.append(T(nm('slow', d), shape=d['shape'], method=d['method'], q='full', nsimu=2*d['adaptint'] + 2, dev=0, prior='mixed',
                     adaptint=d['adaptint'], initqcovn=d['initqcovn'], lim='wide', z=LONGZ.get(nsamp(d['shape'])),
                     cfg=dict(zcycle=True, gcycle=GC, accpat=[True, False, False, True, False, True, True]),
                     **{k: v for k, v in more.items() if k not in ('adaptint', 'initqcovn')}))
    for d in grid(shape=['s', 'nsf'], method=methods, var=['one', 'upd2']):
        if not deep and (d['shape'] == 's') != (d['var'] == 'upd2'):
            continue
        out.append(V(nm('marathon', d), d['var'], shape=d['shape'], method=d['method'], q='full', nsimu=12003 if deep else 2151, dev=0,
                     prior='mixed', lim='wide', z=LONGZ[nsamp(d['shape'])],
                     cfg=dict(zcycle=True, gcycle=GC, accpat=[True, False, False, True, False, True, True]), **more))
    # histories of some length with steps that leave the limits at many places, in one run and continued
    for d in grid(shape=['s', 'ss'], method=methods, var=['one', 'upd2'], cont=[None, (7, 12)], burn=[None, 6, 100]):
        ada = d['method'] in ('am', 'dram')
        if d['burn'] and not ada or not deep and (d['shape'] == 's') != ((d['var'] == 'one') == (d['cont'] is None)):
            continue
        kw = dict(more)
        if ada:
            kw.setdefault('adaptint', 5)
            kw.setdefault('initqcovn', 4)
            if d['burn']:
                kw.setdefault('burnintime', d['burn'])
        t = V(nm('limits', d), d['var'], shape=d['shape'], method=d['method'], q='full', lim='tight', prior='gauss', dev=1,
              nsimu=43 if d['cont'] is None else 13, z=LIMZ[nsamp(d['shape'])],
              cfg=dict(zcycle=True, gcycle=GC, accpat=[True, False, False, True, True, False, True]), **kw)
        if d['cont']:
            t['cont'] = list(d['cont'])
        out.append(t)
    out.append(T('ultra', shape='s', method=methods[-1], q='full', nsimu=10013, dev=0, prior='gauss', lim='wide', z=LONGZ[1],
                 cfg=dict(zcycle=True, gcycle=GC, accpat=[True, False, False, True, False, True, True]), **more))
    return out


GC = [0.5, -1.0, 1.5, 0.0, -0.5, 1.0, 0.25]
LIMZ = {1: [[0.5], [-3.0], [-0.75], [2.5], [0.25]], 2: [[0.5, -0.25], [-3.0, 1.0], [-0.5, 0.5], [2.5, -1.5], [0.25, 0.375]]}
SCALES = {'fine': (512.0, 2.0**-10), 'tiny': (0.0, 2.0**-40), 'huge': (0.0, 2.0**40)}


def affine(t, a, s):
    """The same task with every parameter x replaced by a + s*x (steps small or large against the values)."""
    c = t['cfg']
    c['affine'] = [a, s]
    for p in c['params']:
        for k in ('theta0', 'minimum', 'maximum', 'prior_mu'):
            if k in p:
                p[k] = a + s*p[k]
        if 'prior_sigma' in p:
            p['prior_sigma'] = s*p['prior_sigma']
    o = c['opt']
    if o.get('qcov') is not None:
        o['qcov'] = [[v*s*s for v in r] if isinstance(r, list) else r*s*s for r in o['qcov']]
    o['qcov_adjust'] = o.get('qcov_adjust', 1e-8)*s*s
    return t


def odd(c, kind):
    for i, p in enumerate(c['params']):
        if kind == 'int':
            p['theta0'] = i + 1
        elif kind == 'intprior':
            p.update(prior_mu=i - 1, prior_sigma=i + 1)
        elif kind == 'zeromu':
            del p['prior_mu']
        elif kind == 'farmu':
            p.update(theta0=p['theta0'] + 48.0*(-1)**i, prior_mu=0, prior_sigma=16)
        elif kind == 'wideprior':
            p.update(prior_sigma=1e8 if i % 2 else 1e-3*(i + 1))
        elif kind == 'npnum':
            p.update(minimum=-9.0, maximum=9.0)
        elif kind == 'tuplelim':
            p.update(theta0=i + 1, minimum=i, maximum=i + 2)
    if kind in ('flags', 'npflags', 'npnum'):
        c['written'] = kind
    if kind == 'intvar':
        m = c['model'] = dict(c.get('model') or {})
        if c['nsos'] == 1:
            m.update(sigma2=2)
        else:
            m.update(sigma2=[1, 2], N0=[1, 3], S20=[2, 1])
