"""Data sets: all sequences of additions over a menu, and lock-step runs with the default sum-of-squares."""
import itertools
import numpy as np
from ..lockstep import Session, Violation, quiet, last_frames, close
from .common import T, grid, nm, absorb
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='all sequences of 1-2 data sets over 26 forms of x, 26 of y, 5 of n, 4 weights, 4 user objects (one varied at a time against the '
          'first, fully for y, n, weight), queries in between; sequences of 3 over 8, cyclic sequences of 4-25; default sum-of-squares runs with 1-3 batches, weights, '
          'user counts, 1-2 columns of x, all methods, updating on and off, 4 iterations, all outcomes up to 3 deviations, continuation; 1-1500 points with common offsets up to 1e8 and scales 1e-6 to 1e5',
    thorough='all triples over the menu of 12, all outcomes up to 6 deviations')

A = np.array
FORMS = {
    'vec': lambda s: A([1.0, 2.0, 4.0]) + s, 'col': lambda s: A([[1.0], [2.0], [4.0]]) + s, 'mat': lambda s: A([[1.0, 5.0], [2.0, 7.0], [4.0, 9.0]]) + s,
    'row': lambda s: A([[1.0, 2.0, 4.0]]) + s, 'list': lambda s: [1.0 + s, 2.0, 4.0, 8.0], 'ilist': lambda s: [1, 2 + int(s), 3], 'scalar': lambda s: 3.5 + s,
    'int': lambda s: 3 + int(s), 'one': lambda s: A([2.5 + s]), 'ivec': lambda s: A([3, 1, 2, 2, 5]) + int(s), 'fcol': lambda s: np.asfortranarray(A([[1.0, 2], [3, 4]]) + s),
    'row12': lambda s: np.arange(1.0, 13.0).reshape(1, 12) + s, 'wide': lambda s: np.arange(600.0).reshape(2, 300) + s, 'empty': lambda s: np.zeros(0),
    'long': lambda s: np.arange(1300.0) + s, 'bool': lambda s: A([True, False, True]), 'nan': lambda s: A([1.0, np.nan, 2.0 + s]), 'u8': lambda s: A([250, 3, 9], dtype=np.uint8), 'f32': lambda s: A([1.1, 2.2], dtype=np.float32),
    'row4': lambda s: A([[1.0, 2.0, 4.0, 3.0]]) + s, 'row6': lambda s: A([[1.0, 2, 4, 3, 0, 5]]) + s, 'one1': lambda s: A([[1.5]]) + s,
    'mat26': lambda s: np.arange(12.0).reshape(2, 6) + s, 'mat62': lambda s: np.arange(12.0).reshape(6, 2) - s,
    'view': lambda s: (np.arange(8.0) + s)[::2], 'lol': lambda s: [[1.0, 2.0 + s], [3.0, 4.0], [5.0, 6.0]]}
NS = {'-': None, 'five': 5, 'list': [2, 3], 'arr': A([4, 1, 1]), 'zero': 0}
WS = {'-': None, 'two': 2, 'half': 0.5, 'zero': 0.0}
US = {'-': None, 'dict': {'a': 1}, 'list': [1, [2]], 'arr': A([1.0, 2.0])}


def menu():
    out = []
    for y in FORMS:
        for n in NS:
            for w in WS:
                out.append(('vec' if y != 'vec' else 'col', y, n, w, ['-', 'dict', 'list', 'arr'][len(out) % 4]))
    for x in FORMS:
        for u in US:
            out.append((x, 'vec', '-', '-', u))
    return out


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    m = menu()
    small = [('vec', 'vec', '-', '-', '-'), ('mat', 'mat', '-', 'half', '-'), ('list', 'list', '-', 'two', 'dict'), ('scalar', 'scalar', '-', '-', '-'),
             ('col', 'row', 'list', '-', 'arr'), ('one', 'one', 'five', 'zero', '-'), ('ivec', 'ivec', '-', '-', 'list'), ('lol', 'lol', '-', '-', '-')]
    if deep:
        small += [('view', 'view', 'zero', '-', '-'), ('fcol', 'fcol', '-', 'two', '-'), ('int', 'ilist', '-', 'half', '-'), ('mat', 'vec', 'arr', '-', 'dict')]
    out.append(dict(name='single', kind='seq', seqs=[[a] for a in m]))
    for i, a in enumerate(small):
        out.append(dict(name='pair-%d' % i, kind='seq', seqs=[[a, b] for b in m] + [[b, a] for b in m]))
        out.append(dict(name='triple-%d' % i, kind='seq', seqs=[[a, b, c] for b in small for c in small]))
    # many data sets: the menu taken cyclically from every start, with every stride
    for k in (4, 7, 10, 25):
        out.append(dict(name='chainof-%d' % k, kind='seq', seqs=[[small[(a + b*i) % len(small)] for i in range(k)] for a in range(len(small)) for b in (1, 3, 5)]))
    B = dict(a=dict(x=[0.0, 1.0, 2.0, 4.0], y=[1.0, 1.5, 2.5, 3.0]), b=dict(x=[1.0, 3.0], y=[0.5, 2.0], weight=2.0, form='vec'),
             c=dict(x=[0.5, 1.5, 2.5], y=[-1.0, 0.5, 1.0], n=7, form='list'), d=dict(x=[[0.0, 1.0], [1.0, -1.0], [2.0, 0.5]], y=[0.25, 1.0, 1.5], weight=0.5),
             e=dict(x=[1.0, 2.0], y=[1.0, 2.0], weight=0.0))
    for d in grid(b=['a', 'b', 'c', 'd', 'ab', 'ba', 'cd', 'ae', 'abc', 'dcb', 'aa', 'abcdabcd'], method=['mh', 'dr', 'am', 'dram'], upd=['off', 'on', 'n0'],
                  shape=['ss', 'sfs'], cont=[0, 1]):
        if d['shape'] == 'sfs' and d['cont']:
            continue
        bs = [B[c] for c in d['b']]
        nd = [b.get('n', len(b['y'])) for b in bs]
        nb = len(bs)
        if nb > 3 and (d['method'] in ('mh', 'am') or d['shape'] != 'ss') and not deep:
            continue
        model = dict(sigma2=([0.5, 2.0, 1.25]*3)[:nb])
        o = {}
        if d['upd'] == 'on':
            o['updatesigma'] = True
        elif d['upd'] == 'n0':
            model.update(N0=([1.0, 3.0, 2.0]*3)[:nb], S20=([2.0, 0.25, 1.0]*3)[:nb])
        if d['method'] in ('am', 'dram'):
            o.update(adaptint=2, initqcovn=2)
        t = T(nm('sos', d), shape=d['shape'], method=d['method'], q='full', nsos=nb, ndata=nd, model=model, nsimu=4 if not d['cont'] else 3,
              dev=6 if deep else 2, cfg=dict(batches=bs), **o)
        t['kind'] = 'sos'
        t['cont'] = d['cont']
        out.append(t)
    for d in grid(npt=[1, 2, 7, 100, 501, 1500] + ([20000] if deep else []), off=[0.0, 1e3, -1e8], sc=[1e-6, 1.0, 1e5], nb=[1, 2, 3], w=['one', 'mixed']):
        out.append(dict(name=nm('ext', d), kind='ext', **d))
    return out


def two_d(v):
    a = np.array(v)
    return a if a.ndim == 2 else a.reshape(a.size, 1)


def check(d, want, k, when):
    for i in range(k):
        x, y, n, w, u, ux, uy, sx, sy = want[i]
        lab = 'data set %d %s' % (i, when)
        for name, got, v in (('x', d.xdata[i], x), ('y', d.ydata[i], y)):
            if not isinstance(got, np.ndarray) or got.shape != v.shape or not np.array_equal(got, v, equal_nan=True):
                raise Violation('%s: %s stored as %r, expected %r' % (lab, name, got, v))
        if d.n[i] != n:
            raise Violation('%s: %r observations, expected %r' % (lab, d.n[i], n))
        if tuple(d.shape[i]) != y.shape:
            raise Violation('%s: shape %r, expected %r' % (lab, d.shape[i], y.shape))
        if d.weight[i] != w:
            raise Violation('%s: weight %r, expected %r' % (lab, d.weight[i], w))
        if u is not None and not (d.user_defined_object[i] is u or (
                type(d.user_defined_object[i]) is type(u) and np.array_equal(d.user_defined_object[i], u) if not isinstance(u, dict)
                else d.user_defined_object[i] == u)):
            raise Violation('%s: user object %r, expected %r' % (lab, d.user_defined_object[i], u))
        for name, a, b in (('x', ux, sx), ('y', uy, sy)):
            if type(a) is not type(b) or not np.array_equal(a, b, equal_nan=True):
                raise Violation("%s: the user's %s was changed to %r" % (lab, name, a))
    for name in ('xdata', 'ydata', 'n', 'shape', 'weight', 'user_defined_object'):
        if len(getattr(d, name)) != k:
            raise Violation('%d entries in %s after %d data sets' % (len(getattr(d, name)), name, k))
    nb, ncol, nobs = k, sum(want[i][1].shape[1] for i in range(k)), sum(want[i][2] for i in range(k))
    g = d.get_number_of_batches(), d.get_number_of_data_sets(), d.get_number_of_observations()
    if g[0] != nb or g[1] != ncol or np.shape(g[2]) != (1,) or g[2][0] != nobs:
        raise Violation('batches, columns, observations %r, expected %r' % (g, (nb, ncol, nobs)))


def copy(v):
    return v.copy() if isinstance(v, np.ndarray) else [list(r) if isinstance(r, list) else r for r in v] if isinstance(v, list) else v


def sequence(seq, st):
    from pymcmcstat.settings.DataStructure import DataStructure
    from pymcmcstat.MCMC import MCMC
    d = DataStructure()
    other = DataStructure()
    other.add_data_set(x=np.zeros(2), y=np.ones(2))
    want = []
    for i, (x, y, n, w, u) in enumerate(seq):
        ux, uy = FORMS[x](0.25*i), FORMS[y](1.0*i)
        kw = {}
        if NS[n] is not None:
            kw['n'] = NS[n]
        if WS[w] is not None:
            kw['weight'] = WS[w]
        if US[u] is not None:
            kw['user_defined_object'] = US[u]
        sx, sy = copy(ux), copy(uy)
        Y = two_d(sy)
        try:
            d.add_data_set(ux, uy, **kw)
        except (Exception, SystemExit) as ex:
            raise Violation('adding data set %s fails: %s' % (seq[i], last_frames(ex)))
        want.append((two_d(sx), Y, Y.shape[0] if NS[n] is None else int(np.sum(NS[n])), 1 if WS[w] is None else WS[w], US[u], ux, uy, sx, sy))
        check(d, want, i + 1, 'after %d additions of %s' % (i + 1, seq))
    if len(other.ydata) != 1 or other.get_number_of_observations()[0] != 2:
        raise Violation('adding data to one structure changes another')
    st.state('seq', seq)
    st.trans += len(seq)


def run(task, ch, st):
    if task['kind'] == 'seq':
        for s in task['seqs']:
            with quiet():
                sequence([tuple(a) for a in s], st)
            st.execs += 1
        return
    if task['kind'] == 'ext':
        return extent(task, st)
    cfg = task['cfg']
    se = Session(cfg, ch)
    try:
        se.run()
        xs(se, cfg)
        if task['cont']:
            se.run(cont=True, override=dict(nsimu=3), redefine=ch.choose(2, free=True) == 1)
            xs(se, cfg)
    finally:
        absorb(se, st)
        se.close()


def extent(task, st):
    """many observations, large common offsets, small and large scales: every row of sschain is the weighted sum of squares of its batch"""
    import math
    from pymcmcstat.MCMC import MCMC
    n, off, sc, nb = task['npt'], task['off'], task['sc'], task['nb']
    sc = max(sc, abs(off)*1e-6)      # differences stay well above the rounding of the data
    ws = [1, 1, 1] if task['w'] == 'one' else [2.5, 0.5, 7]
    ds = []
    for b in range(nb):
        x = np.arange(float(n + b))/(n + b)
        r = np.array([((37*i + 11*b) % 101 - 50)/25.0 for i in range(n + b)])
        ds.append((x, off + sc*(1.0 + 0.5*x + r)))

    def model(x, th):
        return off + sc*(th[0] + th[1]*x)
    mc = MCMC(rngseed=3)
    for b, (x, y) in enumerate(ds):
        mc.data.add_data_set(x, y, weight=ws[b])
    mc.model_settings.define_model_settings(model_function=model, sigma2=sc**2*np.ones(nb))
    mc.simulation_options.define_simulation_options(nsimu=6, method='dram', qcov=np.eye(2)*0.04, waitbar=False, verbosity=0)
    for i in range(2):
        mc.parameters.add_model_parameter(name='p%d' % i, theta0=0.75 + i)
    try:
        np.random.seed(3)
        with quiet():
            mc.run_simulation()
    except (Exception, SystemExit) as ex:
        raise Violation('default sum-of-squares: %s' % last_frames(ex))
    res = mc.simulation_results.results
    for row, ss in zip(res['chain'], res['sschain']):
        want = [math.fsum(ws[b]*(yi - mi)**2 for yi, mi in zip(y, off + sc*(row[0] + row[1]*x))) for b, (x, y) in enumerate(ds)]
        if np.shape(ss) != (nb,) or not np.allclose(ss, want, rtol=1e-8, atol=0):
            raise Violation('sum-of-squares %s at %s, expected %s (%d points, offset %s, scale %s)' % (ss, row, want, n, off, sc))
    st.state('ext', task['name'])
    st.trans += len(res['chain'])
    st.execs += 1


def xs(se, cfg):
    """every evaluation of the model uses one of the batches; all batches are used at every point"""
    want = [two_d(b['x']).astype(float) for b in cfg['batches']]
    seen = {}
    for th, x in zip(se.obs.evals, se.obs.xs):
        k = [i for i, w in enumerate(want) if x.shape == w.shape and np.array_equal(x, w)]
        if not k:
            raise Violation('the model was evaluated on %r, which is no batch' % (x,))
        seen.setdefault(np.round(th, 9).tobytes(), set()).update(k)
    for th, ks in seen.items():
        if ks != set(range(len(want))):
            raise Violation('the model was evaluated on batches %s only' % sorted(ks))
