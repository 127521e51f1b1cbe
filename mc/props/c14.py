"""Settings: the product of presence/absence and overrides, resolved by the real code in a short lock-step run."""
from .common import T, grid, nm, lock_run, NAN
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='product of sigma2 (absent, scalar, list, wrong size), S20, N0, N (absent, per set, total, scalar, wrong), batches and error '
          'variances (1-3), updatesigma, list/array/scalar types; product of methods and overrides of tries, adaptation interval, '
          'scale, last adaptation; product of priors, proposals and initial values; 2-4 iterations, all outcomes; a second run',
    thorough='the same with 3-5 iterations and every method for every error-variance combination')
ASSUMPTIONS = ['S20 without N0 and sigma2, and more data sets than error variances (more than one), are not judged',
               'more than one try with methods mh and am is not judged']


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    # 1. error variance
    lay = {'11': ((5,), 1), '21': ((5, 3), 1), '22': ((5, 3), 2), '12': ((5,), 2), '33': ((4, 4, 4), 3), '31': ((4, 4, 4), 1)}
    base2, base20, base0 = [0.5, 2.0, 3.0], [2.0, 0.25, 4.0], [1.0, 3.0, 2.0]
    for d in grid(lay=list(lay), s2=['-', 's', 'l', 'x'], s20=['-', 's', 'l', 'x'], n0=['-', 's', 'l', 'z', 'x'],
                  N=['-', 'set', 'tot', 's', 'bad', 'rep', 'part', 'last'], upd=[False, True]):
        nd, nsos = lay[d['lay']]
        if d['s20'] != '-' and d['s2'] == '-' and d['n0'] == '-':
            continue
        bad = (d['s2'] == 'x') + (d['s20'] == 'x') + (d['n0'] == 'x') + (d['N'] in ('bad', 'part', 'last'))
        if bad > 1:
            continue
        m = {}

        def val(kind, base, scalar):
            if kind == 's':
                return scalar
            if kind == 'z':
                return 0.0
            if kind == 'l':
                return base[:nsos]
            return (base + base)[:nsos + 1] if (nsos > 1 or len(base) < 2) else base[:2]
        if d['s2'] != '-':
            m['sigma2'] = val(d['s2'], base2, 4.0)
        if d['s20'] != '-':
            m['S20'] = val(d['s20'], base20, 0.25)
        if d['n0'] != '-':
            m['N0'] = val(d['n0'], base0, 2.0)
        if d['N'] == 'set':
            m['N'] = list(nd)
        elif d['N'] == 'tot':
            m['N'] = sum(nd)
        elif d['N'] == 's':
            if len(set(nd)) > 1:
                continue
            m['N'] = nd[0]
        elif d['N'] == 'bad':
            m['N'] = [n + 1 for n in nd]
        elif d['N'] in ('rep', 'part', 'last'):      # one number per error variance; all, all but the last or only the last agree
            k = max(len(nd), nsos)
            if k == 1 or d['s20'] == 'x' or d['n0'] == 'l':
                continue
            full = [int(n) for n in (list(nd) if len(nd) > 1 else list(nd)*k)]
            m['N'] = full if d['N'] == 'rep' else [n + 2*((i == k - 1) == (d['N'] == 'part')) for i, n in enumerate(full)]
        if d['n0'] == 'z' and d['upd'] and False:
            continue
        k = len(out)
        meths = ['mh', 'am', 'dr', 'dram'] if deep else [['mh', 'am', 'dr', 'dram'][k % 4]]
        for me in meths:
            out.append(T(nm('var-' + me, d), shape='s', nsos=nsos, ndata=nd, model=m, method=me, nsimu=3 if not deep else 4,
                         updatesigma=d['upd'], cfg=dict(as_array=k % 2 == 0, model=m, rerun=k % 7 == 0), dev=1))
    # 2. methods and overrides
    for d in grid(m=['mh', 'am', 'dr', 'dram'], ai=[None, 0, 1, 2, 7], nt=[None, 1, 2, 3, 4], la=[0, 1, 3], ads=[None, 0.5, -1.0],
                  ndr=[None, [2.0], [2.0, 3.0]]):
        if d['m'] in ('mh', 'am') and (d['nt'] or 1) > 1:
            continue
        if d['m'] in ('mh', 'am') and d['ndr']:
            continue
        o = dict(method=d['m'], nsimu=4 if not deep else 5, lastadapt=d['la'], initqcovn=3)
        if d['ai'] is not None:
            o['adaptint'] = d['ai']
        if d['nt'] is not None:
            o['ntry'] = d['nt']
        if d['ads'] is not None:
            o['adascale'] = d['ads']
        if d['ndr']:
            o['drscale'] = d['ndr']
        out.append(T(nm('meth', d), shape='ss', q='full', dev=2 if not deep else 3, **o))
    # 3. proposal and initial values
    for d in grid(shape=['s', 'ss', 'fs', 'sfs'], prior=['none', 'gauss', 'nan', 'zero', 'neg', 'mixed', 'custom'],
                  q=[None, 'diag', 'vec', 'full'], zero=[False, True], m=['mh', 'dram'], theta=['given', 'none']):
        if d['theta'] == 'none' and d['zero']:
            continue
        t = T(nm('prop', d), shape=d['shape'], prior=d['prior'], q=d['q'], method=d['m'], nsimu=3, dev=1)
        if d['q'] is None:
            t['cfg']['opt'].pop('qcov', None)
        if d['zero']:
            t['cfg']['params'][-1]['theta0'] = 0.0
        if d['theta'] == 'none':
            for p in t['cfg']['params']:
                if p.get('prior_sigma') is None or True:
                    p.pop('theta0')
                    p.pop('minimum', None)
                    p['theta0'] = None if len(t['cfg']['params']) != 2 else 1.5
        out.append(t)
    for d in grid(shape=['s', 'ss', 'fs'], mag=[1e-9, -1e-7, 1e-6, 1e-3, -1e3, 1e6], prior=['none', 'zero'], m=['mh', 'dram']):
        t = T(nm('mag', d), shape=d['shape'], prior=d['prior'], q=None, method=d['m'], nsimu=3, dev=1)
        t['cfg']['params'][-1]['theta0'] = d['mag']
        t['cfg']['flat'] = True
        out.append(t)
    # 4. refusals of initial values and limits
    for d in grid(shape=['s', 'ss', 'fs'], kind=['below', 'above', 'reversed', 'edge'], m=['mh', 'dram'], which=[0, -1]):
        t = T(nm('lim', d), shape=d['shape'], method=d['m'], nsimu=3, dev=1)
        p = t['cfg']['params'][d['which']]
        if p.get('sample') is False:
            continue
        th = p['theta0']
        if d['kind'] == 'below':
            p.update(minimum=th + 0.25)
        elif d['kind'] == 'above':
            p.update(maximum=th - 0.25)
        elif d['kind'] == 'reversed':
            p.update(minimum=th + 1, maximum=th - 1)
        else:
            p.update(minimum=th, maximum=th)
        out.append(t)
    return out


def run(task, ch, st):
    from ..lockstep import Session
    from .common import absorb
    se = Session(task['cfg'], ch)
    try:
        r = se.run()
        if r is not None and task['cfg'].get('rerun'):
            se.run(cont=True)
        if r is None:
            st.event('refused')
    finally:
        st.state('cfg', task['name'])
        absorb(se, st)
        se.close()
