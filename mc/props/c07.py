from ..lockstep import Session
from .common import T, grid, nm, LONGZ, absorb, extras
LEVEL = 'model_checking'
KEYS = ('chain', 'evals', 'sschain', 's2chain', 'settings')
BOUNDS = dict(
    quick='1-3 error variances, every way of giving sigma2/S20/N0/N, 3 gamma-sampler normals, retries of the gamma '
          'sampler (at most 2 per run), shapes from 0.5 to 60; chains of 3-4 rows with all outcomes, with and without '
          'continuation; 130-row chains with at most 1 deviation',
    thorough='chains of 4-5 rows, 3 retries, 300-row chains with at most 1 deviation')
ASSUMPTIONS = ['gamma variates are generated by the Marsaglia-Tsang method or by a numpy gamma/chi-square generator; '
               'any other exact sampler would need its own sub-protocol']

MODELS = {
    'flag': (dict(), True),
    'flag-s2': (dict(sigma2=2.0), True),
    'n0': (dict(N0=1.0), False),
    'n0-s2': (dict(N0=3.0, sigma2=0.5), False),
    'n0-s20': (dict(N0=2.0, S20=0.25), False),
    'n0-s20-s2': (dict(N0=4.0, S20=0.25, sigma2=2.0), False),
    'n0zero': (dict(N0=0.0, S20=8.0, sigma2=1.0), False),
    's20-s2': (dict(S20=4.0, sigma2=1.5), True),
}
MODELS2 = {
    'flag': (dict(), True),
    'vec': (dict(sigma2=[0.5, 2.0], N0=[1.0, 3.0], S20=[2.0, 0.25]), False),
    'mixed': (dict(sigma2=0.5, N0=[1.0, 3.0], S20=2.0), False),
    'mixed2': (dict(sigma2=[0.5, 4.0], N0=2.0), False),
    'mixed3': (dict(N0=2.0, S20=[4.0, 0.5]), False),
    'off': (dict(sigma2=[0.5, 4.0]), False),
}


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    D = 1 if deep else 0

    def add(name, cont=None, arrays=False, **kw):
        t = T(name, **kw)
        if cont:
            t['cont'] = cont
        if arrays:
            t['cfg']['as_array'] = True
        out.append(t)
    gx = [0.5, -1.0]
    for name, (m, upd) in MODELS.items():
        for nd in ((5,), (1,), (120,), (2, 3)):
            add('one-%s-%s' % (name, nd), shape='s', model=m, ndata=nd, updatesigma=upd, nsimu=3 + D,
                cfg=dict(gx=gx, gretry=1), method='mh')
    for name, (m, upd) in MODELS2.items():
        for nd in ((5, 3), (5,), (1, 40)):
            for meth in ('mh', 'dram'):
                add('two-%s-%s-%s' % (name, nd, meth), shape='s', nsos=2, model=m, ndata=nd, updatesigma=upd,
                    nsimu=3, cfg=dict(gx=gx if nd != (5,) else [0.5, -1.0, 2.0], gretry=0), method=meth,
                    arrays=name in ('vec', 'mixed2'), adaptint=2 if meth == 'dram' else None)
    add('three', shape='s', nsos=3, ndata=(5, 3, 8), model=dict(sigma2=[0.5, 2.0, 1.0], N0=[1.0, 3.0, 2.0],
        S20=[2.0, 0.25, 4.0]), nsimu=3 + D, cfg=dict(gx=[0.5, -1.0]), method='mh')
    add('threebatch', shape='s', nsos=1, ndata=(5, 3, 8), updatesigma=True, nsimu=3 + D, cfg=dict(gx=gx), method='mh')
    for nm_, m in (('N', dict(N0=1.0, N=8.0)), ('Nvec', dict(N0=1.0, N=[5.0, 3.0]))):
        add('given-' + nm_, shape='s', nsos=1, ndata=(5, 3), model=m, nsimu=3 + D, cfg=dict(gx=gx), method='mh')
    # the gamma sampler itself: small shapes, rejections, boundaries
    for nd, n0 in (((1,), 0.0), ((1,), 0.5), ((1,), 1.0), ((2,), 0.0), ((40,), 80.0)):
        add('gamma-%s-%s' % (nd[0], n0), shape='s', ndata=nd, model=dict(N0=n0, sigma2=1.0), nsimu=3, method='mh',
            cfg=dict(gx=[0.5, -1.0, 2.5], gretry=2 + D))
    # rejected candidates keep the SS of the kept point; outside candidates; limits
    for m, nt in (('mh', None), ('dr', 2), ('dr', 3)):
        for nsos in (1, 2):
            add('kept-%s-%s-%d' % (m, nt, nsos), shape='ss', nsos=nsos, ndata=(5, 3), lim='tight', method=m, ntry=nt,
                model=dict(N0=1.0, sigma2=2.0), nsimu=4 if nt is None else 3, cfg=dict(gx=gx), dev=4)
    # continuation
    for name in ('n0-s20-s2', 'flag-s2', 'n0-s20'):
        m, upd = MODELS[name]
        add('cont-' + name, cont=[1, 1], shape='s', model=m, updatesigma=upd, nsimu=3, cfg=dict(gx=gx), method='mh')
    for name in ('vec', 'mixed3', 'off'):
        m, upd = MODELS2[name]
        add('cont2-' + name, cont=[1, 1], shape='s', nsos=2, ndata=(5, 3), model=m, updatesigma=upd, nsimu=2,
            cfg=dict(gx=gx), method='mh', arrays=True)
    for nsos, name in ((1, 'n0-s20-s2'), (2, 'vec'), (1, 'flag')):
        m, upd = (MODELS if nsos == 1 else MODELS2)[name]
        add('long-%d-%s' % (nsos, name), shape='ss', nsos=nsos, ndata=(5, 3), model=m, updatesigma=upd, dev=1,
            method='am', q='full', nsimu=300 if deep else 130, z=LONGZ[2],
            cfg=dict(gx=gx, zcycle=True, accpat=[False, True, True]))
    out += extras(tier, ['mh', 'dram'], vars=('upd3', 'upd2'), dev=3)
    return out


def run(task, ch, st):
    se = Session(task['cfg'], ch, KEYS)
    try:
        se.run()
        for n in task.get('cont', []):
            se.run(cont=True, override=dict(nsimu=n + 1))
    finally:
        absorb(se, st)
        se.close()
