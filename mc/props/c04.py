import numpy as np
from ..lockstep import Violation
from .common import lock_run, T, V, grid, nm, LONGZ, extras
LEVEL = 'model_checking'
KEYS = ('chain', 'sschain', 's2chain', 'theta', 'counts', 'iacce', 'meta')
BOUNDS = dict(
    quick='methods mh/am/dr/dram, 1-3 sampled of up to 4 parameters, 1-2 error variances, chains of 2-4 rows with all '
          'outcomes; 130-row chains with at most 1 deviation',
    thorough='chains of 2-6 rows; 300-row chains with at most 1 deviation')
ASSUMPTIONS = ['the outside-limits fraction is judged for one try per iteration']


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    for d in grid(shape=['s', 'ss', 'sfs', 'fs'], method=['mh', 'am', 'dr', 'dram'],
                  var=['one', 'two', 'upd', 'upd2'], lim=['none', 'tight'], prior=['none', 'nan']):
        kw = {}
        n = 4 if d['method'] in ('mh', 'am') else 3
        if d['var'].startswith('upd'):
            n = 3
        if d['method'] in ('am', 'dram'):
            kw['adaptint'] = 2
        out.append(V(nm('grid', d), d['var'], shape=d['shape'], lim=d['lim'], method=d['method'], prior=d['prior'],
                     nsimu=n + deep, q='full', **kw))
    for n in (2, 3, 4, 5):
        for ss in (0, 1, 2, 3, 4, 5, 6):
            out.append(T('size-%d-%d' % (n, ss), shape='s', method='mh', nsimu=n, savesize=ss, lim='tight'))
            if n > 2:
                out.append(T('size-dr-%d-%d' % (n, ss), shape='ss', method='dram', nsimu=n - 1, savesize=ss, lim='tight'))
    for nt in (3, 4):
        for lim in ('none', 'tight'):
            out.append(T('dr%d-%s' % (nt, lim), shape='ss', method='dr', ntry=nt, nsimu=3 if nt == 3 else 2, lim=lim,
                         q='full'))
    out.append(T('deep', shape='s', nsimu=8 if deep else 6, lim='tight'))
    # names, indices and limits by default
    t = T('names', shape='sfs', method='mh', nsimu=3, lim='lower')
    for p in t['cfg']['params'][1:]:
        del p['name']
    out.append(t)
    t = T('names4', shape='fssf', method='dram', nsimu=3, lim='upper')
    for p in t['cfg']['params'][:3]:
        del p['name']
    out.append(t)
    for sh, var, m, nt in (('s', 'one', 'mh', None), ('ss', 'upd2', 'am', None), ('ss', 'two', 'dram', 3)):
        out.append(V('long-%s-%s-%s' % (sh, var, m), var, shape=sh, method=m, q='full', dev=1, ntry=nt, lim='wide',
                     nsimu=300 if deep else 130, z=LONGZ[len(sh)], cfg=dict(zcycle=True, accpat=[False, True, True])))
    out += extras(tier, ['mh', 'am', 'dr', 'dram'], vars=('one', 'upd3', 'five'), dev=3)
    return out


def story(se, res):
    """the rows by themselves"""
    c, ss = np.asarray(res['chain']), np.asarray(res['sschain'])
    full = np.asarray(se.ref.s['full0'])
    ind = se.ref.s['ind']
    moved = 0
    seen = {(np.asarray(e)[ind] + 0.0).tobytes() for e in se.obs.evals}
    for i in range(len(c)):
        if (c[i] + 0.0).tobytes() not in seen:
            raise Violation('row %d of the chain, %r, is no point that was evaluated' % (i, c[i].tolist()))
        th = full.copy()
        th[ind] = c[i]
        if not np.allclose(se.sos(th), ss[i], rtol=1e-9):
            raise Violation('row %d of the sum-of-squares chain is not the sum-of-squares at row %d' % (i, i))
        if i:
            moved += bool((c[i] != c[i-1]).any())
    nrej = len(c) - 1 - moved
    if len(c) == res['nsimu'] and abs(res['total_rejected']*res['nsimu'] - nrej) > 1e-6:
        raise Violation('rejected fraction %s for %d unmoved of %d' % (res['total_rejected'], nrej, len(c)))
    if not np.array_equal(np.asarray(res['theta'])[ind], c[-1]):
        raise Violation('theta is not the last row')


def run(task, ch, st):
    lock_run(task, ch, st, KEYS, after=story)
