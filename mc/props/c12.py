"""Intervals: every row selection and noise assignment within the bounds, on both interval interfaces."""
import copy
import itertools
import numpy as np
from .. import env, rng
from ..lockstep import Violation, quiet, deadline, last_frames, close
from .common import grid, nm
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='chains of 2-4 rows (and 300, 1100 with 6 selections), all row selections of 1-3 samples (and the two extreme uniforms), 1-3 batches of 1-3 columns, 1-5 quantities of interest, all '
          'mappings of error variances, burn-in 0-2, scales 0/1/2, noise impulses at every point, all value patterns of up '
          'to 5 responses over 3 levels for the quantiles (and 600-5001 responses), 65-1025 evaluation points, plotted bands, responses in units of 2^-60 to 2^60, one variance per point, intervals of saved and loaded runs',
    thorough='chains of up to 6 rows, all row selections of up to 4 samples, value patterns of up to 7 responses')
ASSUMPTIONS = ['rows are selected from one uniform number per sample, compared at the midpoints of the equal intervals of [0,1)']


# ------------------------------------------------------------------ controlled numbers
class Source:
    def __init__(self, ch=None, levels=(), noise=('const', 0.0)):
        self.ch, self.levels, self.noise = ch, list(levels), noise
        self.us, self.zs = [], []

    def uniform(self, n):
        out = []
        for _ in range(n):
            out.append(self.levels[self.ch.choose(len(self.levels))])
        self.us += out
        return out

    def normal(self, n):
        out = []
        for _ in range(n):
            k = len(self.zs)
            kind = self.noise[0]
            if kind == 'const':
                z = self.noise[1]
            elif kind == 'impulse':
                z = self.noise[2] if k == self.noise[1] else 0.0
            else:        # all different
                z = ((k*29 + 7) % 101 - 50)/32.0
            self.zs.append(z)
            out.append(z)
        return out

    def gamma(self, a):
        raise Violation('gamma deviates are not needed for intervals')

    def seed(self, s):
        raise Violation('computing intervals changes the seed of the random numbers')


def quantile(values, p):
    """linear interpolation of the order statistics: position (n-1)p"""
    v = sorted(values)
    h = (len(v) - 1)*p
    lo = int(np.floor(h + 1e-12))
    lo = min(lo, len(v) - 1)
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (h - lo)*(v[hi] - v[lo])


def guarded(what, f):
    try:
        with quiet(), deadline(60):
            return f()
    except (Exception, SystemExit) as ex:
        raise Violation('%s fails: %s' % (what, last_frames(ex)))


def frozen(x):
    return copy.deepcopy(x)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if hasattr(a, '__dict__') and not callable(a):
        return same(a.__dict__, b.__dict__)
    return a is b or a == b


# ------------------------------------------------------------------ tasks
def tasks(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, **kw):
        out.append(dict(dict(name=name), **kw))
    # 1. propagation.calculate_intervals: rows and pairing of variances
    for d in grid(rows=[2, 3, 4] + ([5, 6] if deep else []), ns=[1, 2, 3] + ([4] if deep else []) + ['rows', 'more'],
                  shape=['s', 'sfs', 'fs'], resp=['v', 'col', 'row', 'm2', 'm3', 'm5'],
                  s2=['none', 'float', 'chain', 'chain2', 'percol', 'vec']):
        if isinstance(d['ns'], int) and (d['ns'] >= d['rows'] or d['rows']**d['ns'] > 700):
            continue
        if d['s2'] in ('percol', 'vec') and d['resp'][0] != 'm':
            continue
        if d['s2'] == 'vec' and d['rows'] == int(d['resp'][1]):
            continue
        if d['resp'] in ('m3', 'm5') and (d['shape'] == 's' or d['rows'] == 4 and not deep):
            continue
        if isinstance(d['ns'], int) and d['ns'] > 1 and not (d['shape'] == 'sfs' and d['resp'] in ('v', 'm2', 'm3')):
            continue
        add(nm('prop', d), kind='prop', wait=d['shape'] == 'fs', **d)
    for d in grid(sst=[0, 1, 2], s2=['float', 'chain', 'percol'], resp=['v', 'm3'], ns=['rows', 1, 2]):
        if d['s2'] == 'percol' and d['resp'] == 'v':
            continue
        add(nm('scale', d), kind='prop', rows=3, shape='sf', **d)
    for d in grid(unit=[-60, -30, 30, 60], sst=[0, 1, 2], s2=['none', 'float', 'chain', 'percol'], resp=['v', 'col', 'm2'], ns=['rows', 1]):
        if d['s2'] == 'percol' and d['resp'][0] != 'm':
            continue
        add(nm('unit', d), kind='prop', rows=3, shape='sf', **d)
    for d in grid(rows=[2, 3, 5], ns=['rows', 1], sst=[0, 1, 2]):
        add(nm('perpt', d), kind='prop', shape='fs', resp='v', s2='perpt', **d)
    for d in grid(rows=[300, 1100] + ([5000] if deep else []), ns=['rows', 'more', 1, 2], resp=['v', 'm3'],
                  s2=['none', 'float', 'chain', 'percol']):
        if d['s2'] == 'percol' and d['resp'] == 'v':
            continue
        add(nm('big', d), kind='prop', shape='sfs', **d)
    for d in grid(rows=[12000, 70001], ns=[1, 2], resp=['v', 'm3'], s2=['none', 'float', 'chain', 'percol']):
        if d['s2'] == 'percol' and d['resp'] == 'v' or d['rows'] > 20000 and d['ns'] == 2:
            continue
        add(nm('big', d), kind='prop', shape='sfs', **d)
    # 2. quantiles: all value patterns
    for n in range(1, (8 if deep else 6)):
        add('quant-%d' % n, kind='quant', n=n)
    for n in (600, 2500, 5001) + ((20000,) if deep else ()):
        add('quantbig-%d' % n, kind='quantbig', n=n)
    for d in grid(pts=[65, 130, 1025], rows=[3], ns=['rows', 1], resp=['v', 'col', 'm2'], s2=['none', 'float', 'chain'], sst=[0, 1, 2]):
        add(nm('pts', d), kind='prop', shape='sfs', **d)
    # 3. plotted bands
    for d in grid(limits=[[95], [50, 90], [90, 99, 50], [0, 100]], what=['both', 'cred', 'pred', 'ciset', 'data', 'xdata', 'piset'], n=[2, 5]):
        add(nm('plot', d), kind='plot', **d)
    # 4. PredictionIntervals
    for batches in ([1], [2], [3], [1, 1], [1, 2], [2, 1, 1], [1, 1, 1]):
        tot, nb = sum(batches), len(batches)
        maps = {'none': 0, 'one': 1}
        if tot > 1:
            maps['col'] = tot
        if nb > 1 and tot != nb:
            maps['batch'] = nb
        for m, k in maps.items():
            for burn in (0, 1, 2):
                add('pi-%s-%s-%d' % (''.join(map(str, batches)), m, burn), kind='pi', batches=batches, ns2=k, burn=burn, rows=4,
                    ns=2 if burn == 2 else 'rows', shape='sfs' if burn else 'ss', listed=burn == 1, noise=['const', 1.5])
            add('piz-%s-%s' % (''.join(map(str, batches)), m), kind='pi', batches=batches, ns2=k, burn=0, rows=3, ns=2,
                shape='sf', listed=False, noise=['const', -0.75])
            if k:
                add('imp-%s-%s' % (''.join(map(str, batches)), m), kind='impulse', batches=batches, ns2=k, burn=1, rows=3,
                    ns='rows', shape='ss', listed=False)
        add('pibad-%s' % ''.join(map(str, batches)), kind='pibad', batches=batches, ns2=tot + nb + 2, burn=0, rows=3, ns='rows',
            shape='ss', listed=False)
    for n in (2, 3) + ((4,) if deep else ()):
        add('pisel-%d' % n, kind='pi', batches=[1, 2], ns2=3, burn=1, rows=5, ns=n, shape='sfs', listed=True,
            noise=['const', 1.0])
    for calc in (False, 'off', True, 'on'):
        add('picalc-%s' % calc, kind='pi', batches=[2], ns2=2, burn=0, rows=3, ns='none', shape='ss', listed=False,
            noise=['const', 1.0], calc=calc)
    add('pitwice', kind='pi', batches=[1, 2], ns2=2, burn=1, rows=4, ns=2, shape='sfs', listed=False, noise=['const', 1.0], twice=True)
    for ss in (None, 0, 1, 2):
        add('pisst-%s' % ss, kind='pisst', batches=[1], ns2=1, burn=0, rows=3, ns='rows', shape='ss', listed=False,
            noise=['const', 0.5], sst=ss)
    for d in grid(pred=[True, False], batches=[[1], [2], [1, 1]], ns2=[0, 1]):
        add(nm('piplot', d), kind='piplot', burn=0, rows=3, ns='rows', shape='ss', listed=False, noise=['const', 1.0], **d)
    # 5. histories: run - (save - load) - intervals
    for d in grid(fmt=['mem', 'json', 'bin', 'txt'], upd=[False, True], shape=['ss', 'sfs', 'fs']):
        add(nm('hist', d), kind='hist', **d)
    return out


def run(task, ch, st):
    globals()['do_' + task['kind']](task, ch, st)


# ------------------------------------------------------------------ propagation
def chain_of(task):
    n = len([c for c in task['shape'] if c == 's'])
    rows = task['rows']
    base = np.array([0.5, -0.75, 1.25, 2.0, -1.5, 0.125])[:rows]
    if rows > 6:
        base = np.arange(rows)/max(64.0, rows/16.0) - 2.0
    return np.column_stack([base*(1 + 0.5*j) + j for j in range(n)])


def results_of(task, chain):
    shape = task['shape']
    ind = np.array([i for i, c in enumerate(shape) if c == 's'])
    theta = np.array([10.0 + i for i in range(len(shape))])
    return dict(parind=ind, theta=theta)


T5 = np.array([0.0, 0.5, 1.0, 2.0])


def levels_of(task, rows):
    lv = [(k + 0.5)/rows for k in range(rows)]
    if rows > 6:
        lv = [lv[k] for k in (0, 1, 63, rows//2, rows - 2, rows - 1)]
    if task['ns'] == 1:
        lv += [0.0, 1.0 - 2.0**-53]
    return lv


def do_prop(task, ch, st):
    from pymcmcstat.propagation import calculate_intervals
    from pymcmcstat.settings.DataStructure import DataStructure
    rows, shape, resp = task['rows'], task['shape'], task['resp']
    chain = chain_of(task)
    res = results_of(task, chain)
    T5 = globals()['T5'] if 'pts' not in task else np.arange(task['pts'])/256.0
    data = DataStructure()
    data.add_data_set(T5, T5*2)
    calls = []
    un = 2.0**task.get('unit', 0)
    uv = (un*un, un, 1.0)[task.get('sst', 0)]

    def response(q):
        return un*(np.exp(0.25*np.sum(q)/len(q)) + np.asarray(q)[0]**2*T5 + 0.5)

    def scaled(y, j):
        return y if j == 0 else (2.0*j + 1.0)*y + j*un

    def model(q, d):
        calls.append((np.array(q, dtype=float), d))
        y = response(q)
        if resp == 'col':
            return y.reshape(-1, 1)
        if resp == 'row':
            return y.reshape(1, -1)
        if resp[0] == 'm':
            return np.column_stack([scaled(y, j) for j in range(cols)])
        return y
    cols = int(resp[1]) if resp[0] == 'm' else 1
    rowvar = np.array([0.25, 4.0, 1.0, 2.25, 9.0, 0.0625])[:rows]
    if rows > 6:
        rowvar = 0.25 + (np.arange(rows)*37 % 1009)/256.0
    rowvar = rowvar*uv
    percol = np.column_stack([rowvar if j == 0 else rowvar[::-1]*4.0**j + 0.5*j*uv for j in range(cols)])
    vec = np.array([0.25, 2.25, 9.0, 0.0625, 4.0])[:cols]*uv
    perpt = np.outer(rowvar, 1.0 + 3.0*np.arange(len(T5)))
    s2 = dict(none=None, perpt=perpt.copy(), float=0.5*uv, chain=rowvar.copy(), chain2=rowvar.reshape(-1, 1).copy(),
              percol=percol.copy(), vec=vec.copy())[task['s2']]
    ns = {'rows': rows, 'more': rows + 3}.get(task['ns'], task['ns'])
    keep = frozen((chain, res, data, s2))
    src = Source(ch, levels_of(task, rows), ('distinct',))
    sst = task.get('sst', 0)

    def go():
        with rng.use(src):
            return calculate_intervals(chain, res, data, model, s2chain=s2, nsample=ns, waitbar=bool(task.get('wait')), sstype=sst)
    out = guarded('calculate_intervals', go)
    if not same(keep, (chain, res, data, s2)):
        raise Violation('calculate_intervals changes its inputs')
    n = min(ns, rows)
    # rows used
    ind = res['parind']
    used = []
    for q, d in calls:
        if d is not data:
            raise Violation('the model does not receive the data of the user')
        want = None
        full = np.tile(np.asarray(res['theta'], dtype=float), (rows, 1))
        full[:, ind] = chain
        hit = np.flatnonzero(np.abs(full - q).max(axis=1) < 1e-9) if np.shape(q) == full[0].shape else []
        if len(hit):
            want = int(hit[0])
        if want is None:
            raise Violation('model evaluated at %s, which is no chain element' % q)
        used.append(want)
    if ns >= rows:
        expect = list(range(rows))
    else:
        if len(src.us) != n:
            raise Violation('%d uniform numbers for %d samples' % (len(src.us), n))
        expect = [int(np.floor(u*rows)) for u in src.us]
        for k, u in enumerate(src.us):
            if u in (0.0, 1.0 - 2.0**-53):       # any row of the chain
                expect[k] = used[k] if k < len(used) else -1
    if used != expect:
        raise Violation('rows %s evaluated, rows %s selected' % (used, expect))
    st.trans += len(used)
    st.state('prop', task['name'], tuple(used))
    # responses
    outs = out if cols > 1 else [out]
    if (cols > 1) != isinstance(out, list) or len(outs) != cols:
        raise Violation('intervals of %d quantities expected' % cols)
    zfree = list(range(len(src.zs)))
    if (rows > 6 or 'pts' in task) and s2 is not None:
        return large(task, outs, [np.array([scaled(response(c[0]), j) for c in calls]) for j in range(cols)], used, rowvar, percol, src.zs)
    for j in range(cols):
        full = scaled(np.array([response(calls[k][0]) for k in range(n)]), j)
        if not close(np.asarray(outs[j]['credible'])/un, full/un):
            raise Violation('credible responses of quantity %d: %s, expected %s' % (j, outs[j]['credible'], full))
        pr = outs[j]['prediction']
        if s2 is None:
            if pr is not None:
                raise Violation('prediction intervals without error variance')
            continue
        pr = np.asarray(pr)
        if pr.shape != full.shape:
            raise Violation('shape of predictions %s, expected %s' % (pr.shape, full.shape))
        for k in range(n):
            r = used[k]
            v0 = dict(float=0.5*uv, chain=rowvar[r], chain2=rowvar[r], percol=percol[r, j], vec=vec[j], perpt=None)[task['s2']]
            for i in range(full.shape[1]):
                v = perpt[r, i] if v0 is None else v0
                hit = None
                for m in zfree:
                    y, z = full[k, i], src.zs[m]
                    e = y + z*np.sqrt(v) if sst == 0 else ((np.sqrt(y) + z*np.sqrt(v))**2 if sst == 1 else y*np.exp(z*np.sqrt(v)))
                    if np.isclose(pr[k, i]/un, e/un, rtol=1e-10, atol=1e-12):
                        hit = m
                        break
                if hit is None:
                    raise Violation('prediction %s of response %s is no draw with error variance %s' % (pr[k, i], full[k, i], v))
                zfree.remove(hit)
    if s2 is not None and zfree:
        raise Violation('%d noise values drawn, %d not used' % (len(src.zs), len(zfree)))


def large(task, outs, full, used, rowvar, percol, zs):
    """long chains: the noise of every prediction is one of the drawn values, each used once"""
    got = []
    for j, y in enumerate(full):
        c, p = np.asarray(outs[j]['credible']), np.asarray(outs[j]['prediction'])
        if c.shape != y.shape or not close(c, y) or p.shape != y.shape:
            raise Violation('responses of quantity %d differ from the model' % j)
        v = dict(float=0.5 + 0*rowvar, chain=rowvar, percol=percol[:, j])[task['s2']][used]
        sst = task.get('sst', 0)
        d = p - y if sst == 0 else (p if sst == 1 else np.log(p/y))
        if sst == 1:      # the sign of the root is lost: settled by the size of the noise, below
            got.append((y, d, np.sqrt(v)[:, None] + 0*y))
            continue
        got.append((d/np.sqrt(v)[:, None]).ravel())
    if got and isinstance(got[0], tuple):
        z, left = np.sort(zs), np.ones(len(zs), dtype=bool)
        y, p, s = (np.concatenate([g[i].ravel() for g in got]) for i in range(3))
        if len(y) != len(zs):
            raise Violation('%d noise values for %d predictions' % (len(zs), len(y)))
        for i in range(len(y)):
            e = [(sg*np.sqrt(p[i]) - np.sqrt(y[i]))/s[i] for sg in (1.0, -1.0)]
            if not any(np.min(np.abs(z - v)) < 1e-6 for v in e):
                raise Violation('prediction %s of response %s is no draw with standard deviation %s' % (p[i], y[i], s[i]))
        return
    got = np.sort(np.concatenate(got))
    if len(got) != len(zs) or not np.allclose(got, np.sort(zs), rtol=1e-7, atol=1e-7):
        raise Violation('the predictions are not the responses plus the drawn noise times the standard deviation of their row')


# ------------------------------------------------------------------ quantiles
def do_quant(task, ch, st):
    from pymcmcstat.propagation import generate_quantiles
    from pymcmcstat.plotting.utilities import empirical_quantiles
    n = task['n']
    ps = [np.array([0.025, 0.5, 0.975]), np.array([0.0, 1.0]), np.array([0.25, 0.75]), np.array(0.5), np.array([0.9])]
    lv = [0.0, 1.0, -2.5]
    col = [lv[ch.choose(3)] for _ in range(n)]
    if n == 1:
        return
    x = np.column_stack([col, [3.0*i if i % 2 else -i for i in range(n)]])
    for f in (generate_quantiles, empirical_quantiles):
        for p in ps:
            for arr in (x, x[:, :1], x[:, 0]):
                keep = arr.copy()
                q = guarded(f.__name__, lambda: f(arr, p))
                if not np.array_equal(keep, arr):
                    raise Violation('%s changes its input' % f.__name__)
                for m, pp in enumerate(np.atleast_1d(p)):
                    row = np.asarray(q)[m] if p.ndim else np.asarray(q)
                    for j in range(1 if arr.ndim == 1 else arr.shape[1]):
                        got = row if arr.ndim == 1 else row[j]
                        want = quantile(list(arr if arr.ndim == 1 else arr[:, j]), float(pp))
                        if not np.isclose(got, want, rtol=1e-10, atol=1e-12):
                            raise Violation('%s of %s at %s: %s, expected %s' % (f.__name__, arr.tolist(), pp, got, want))
        st.trans += 1
    st.state('q', tuple(col))


def do_quantbig(task, ch, st):
    from pymcmcstat.propagation import generate_quantiles
    from pymcmcstat.plotting.utilities import empirical_quantiles
    n = task['n']
    i = np.arange(n)
    x = np.column_stack([i*1.0, (i*7919 % n) - 0.5*n, (i % 5)*2.0, np.where(i < n//2, 0.0, 1.0 + i)])
    for f in (generate_quantiles, empirical_quantiles):
        for p in (np.array([0.025, 0.5, 0.975]), np.array([0.0, 0.005, 0.25, 0.75, 0.9, 0.995, 1.0]), np.array(0.5)):
            q = np.asarray(guarded(f.__name__, lambda: f(x, p)))
            want = np.array([[quantile(list(x[:, j]), float(pp)) for j in range(4)] for pp in np.atleast_1d(p)])
            if q.size != want.size or not np.allclose(q.reshape(want.shape), want, rtol=1e-9, atol=1e-9):
                raise Violation('%s of %d values at %s: %s, expected %s' % (f.__name__, n, p, q.tolist(), want.tolist()))
            st.trans += 1
            st.state('quantbig', n, f.__name__, p.tolist())


# ------------------------------------------------------------------ plots
def do_plot(task, ch, st):
    import matplotlib.pyplot as plt
    from pymcmcstat.propagation import plot_intervals
    n, lim, what = task['n'], task['limits'], task['what']
    t = np.array([0.0, 1.0, 2.5])
    rs = np.array([[((7*i + 3*j*j) % 11) - 4.0 for j in range(3)] for i in range(n)])
    iv = dict(credible=rs, prediction=None if what == 'cred' else 2*rs - 1.0)
    kw = dict(limits=list(lim))
    if what == 'ciset':
        kw = dict(limits=[80], ciset=dict(limits=list(lim)))
    if what == 'piset':
        kw = dict(limits=[80], piset=dict(limits=list(lim)))
    if what in ('data', 'xdata'):
        kw.update(ydata=np.array([0.25, -2.0, 7.0]), adddata=True)
        if what == 'xdata':
            kw['xdata'] = np.array([0.5, 0.75, 2.0])
    if what == 'cred':
        kw['addprediction'] = False
    if what == 'pred':
        kw['addcredible'] = False
    keep = frozen((iv, kw, t))
    fig, ax = guarded('plot_intervals', lambda: plot_intervals(iv, t, **kw))
    try:
        if not same(keep, (iv, kw, t)):
            raise Violation('plot_intervals changes its inputs')
        want = []
        if what != 'cred':
            for L in (lim if what != 'ciset' else [80]):
                want.append(('%s%% PI' % L, iv['prediction'], L))
        if what != 'pred':
            for L in (lim if what != 'piset' else [80]):
                want.append(('%s%% CI' % L, iv['credible'], L))
        got = {c.get_label(): c for c in ax.collections}
        if sorted(got) != sorted(w[0] for w in want) or len(ax.collections) != len(want):
            raise Violation('bands drawn: %s, expected %s' % (sorted(got), sorted(w[0] for w in want)))
        for label, arr, L in want:
            band(got[label], t, [quantile(list(arr[:, j]), 0.5 - L/200.0) for j in range(3)],
                 [quantile(list(arr[:, j]), 0.5 + L/200.0) for j in range(3)], label)
        line = ax.lines[0]
        if not close(line.get_ydata(), [quantile(list(rs[:, j]), 0.5) for j in range(3)]):
            raise Violation('the model line is not the median response: %s' % line.get_ydata())
        if 'ydata' in kw and not any(close(ln.get_ydata(), kw['ydata']) and close(ln.get_xdata(), kw.get('xdata', t)) for ln in ax.lines):
            raise Violation('the data are not drawn')
        st.state('plot', task['name'])
        st.trans += len(want)
    finally:
        plt.close('all')


def band(coll, t, lo, hi, label):
    v = coll.get_paths()[0].vertices
    for k, x in enumerate(t):
        ys = sorted(v[np.isclose(v[:, 0], x), 1])
        if not ys or not (np.isclose(ys[0], lo[k]) and np.isclose(ys[-1], hi[k])):
            raise Violation('band %s at %s: %s, expected %s to %s' % (label, x, ys, lo[k], hi[k]))


# ------------------------------------------------------------------ PredictionIntervals
LIMS9 = [0.005, 0.025, 0.05, 0.25, 0.5, 0.75, 0.9, 0.975, 0.995]
LIMS3 = [0.025, 0.5, 0.975]


def setup_pi(task):
    from pymcmcstat.settings.DataStructure import DataStructure
    shape, rows, batches = task['shape'], task['rows'], task['batches']
    chain = chain_of(task)
    ns2 = task['ns2']
    s2 = None
    if ns2:
        s2 = np.array([[(1 + ((3*i + 5*j) % 7))**2/16.0 for j in range(ns2)] for i in range(rows)])
    ind = [i for i, c in enumerate(shape) if c == 's']
    res = dict(chain=chain, s2chain=s2, parind=np.array(ind), local=np.zeros(len(shape)), theta=np.array([10.0 + i for i in range(len(shape))]),
               model_settings=dict(nbatch=len(batches)))
    data = DataStructure()
    objs = []
    for b, nc in enumerate(batches):
        m = 2 + b
        x = np.arange(m)*0.5 + b
        objs.append(dict(tag=b))
        data.add_data_set(x, np.array([[1.0*i + 10*c + 100*b for c in range(nc)] for i in range(m)]), user_defined_object=objs[b])
    calls = []

    def response(b, theta):
        x = np.asarray(data.xdata[b]).ravel()
        th = np.asarray(theta)
        cols = [4.0 + b + th[0]*x + 0.5*(c + 1)*th[-1] + 0.125*np.sum(th) + 0.25*c*th[0]**2 for c in range(batches[b])]
        return np.column_stack(cols)

    def make(b0):
        def f(d, theta):
            try:
                b = d.user_defined_object[0]['tag']
            except Exception as ex:
                raise Violation('the model does not receive the object of the batch: %r' % ex)
            if b0 is not None and b0 != b:
                raise Violation('model of batch %d called with data of batch %d' % (b0, b))
            if not (close(d.xdata[0], data.xdata[b]) and close(d.ydata[0], data.ydata[b])):
                raise Violation('the model of batch %d receives other data' % b)
            calls.append((b, np.array(theta, dtype=float)))
            y = response(b, theta)
            return y[:, 0] if (batches[b] == 1 and task['burn'] != 1) else y
        return f
    model = [make(b) for b in range(len(batches))] if task['listed'] else make(None)
    return res, data, model, calls, response


def variance(task, res, row, b, c):
    ns2, batches = task['ns2'], task['batches']
    s2 = res['s2chain'][row]
    if ns2 == 1:
        return s2[0]
    if ns2 == sum(batches):
        return s2[sum(batches[:b]) + c]
    return s2[b]


def expect_pi(task, res, response, rowsel, z, calc, sst=0):
    ind = res['parind']
    lims = LIMS3 if (res['s2chain'] is not None and calc) else LIMS9
    cred, pred = [], []
    for b, nc in enumerate(task['batches']):
        ys, os = [], []
        for r in rowsel:
            th = np.array(res['theta'])
            th[ind] = res['chain'][r]
            y = response(b, th)
            ys.append(y)
            if res['s2chain'] is not None:
                sd = np.array([np.sqrt(variance(task, res, r, b, c)) for c in range(nc)])
                zz = z(b, len(ys) - 1, y.shape)
                os.append(y + zz*sd if sst == 0 else ((np.sqrt(y) + zz*sd)**2 if sst == 1 else y*np.exp(zz*sd)))
        ys, os = np.array(ys), np.array(os)

        def q(a):
            return [np.array([[quantile(list(a[:, i, c]), p) for i in range(a.shape[1])] for p in lims]) for c in range(nc)]
        cred.append(q(ys))
        pred.append(q(os) if len(os) else None)
    return cred, (pred if (res['s2chain'] is not None and calc) else None)


def same_intervals(got, want, what):
    if (got is None) != (want is None):
        return '%s: %s' % (what, 'missing' if got is None else 'present')
    if want is None:
        return None
    if len(got) != len(want):
        return '%s: %d batches, expected %d' % (what, len(got), len(want))
    for b in range(len(want)):
        if len(got[b]) != len(want[b]):
            return '%s of batch %d: %d columns, expected %d' % (what, b, len(got[b]), len(want[b]))
        for c in range(len(want[b])):
            if not close(np.asarray(got[b][c]), want[b][c]):
                return '%s of batch %d column %d: %s, expected %s' % (what, b, c, got[b][c], want[b][c])
    return None


def rows_selected(task, src, left):
    ns = task['ns']
    n = {'rows': left, 'none': left}.get(ns, ns)
    if n >= left:
        return list(range(left))
    if len(src.us) != n:
        raise Violation('%d uniform numbers for %d samples' % (len(src.us), n))
    return [int(np.floor(u*left)) for u in src.us]


def do_pi(task, ch, st):
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    res, data, model, calls, response = setup_pi(task)
    keep = frozen((res, data))
    P = PredictionIntervals()
    burn = task['burn']
    left = task['rows'] - burn
    calc = task.get('calc', True)
    for rep in range(2 if task.get('twice') else 1):
        src = Source(ch, [(k + 0.5)/left for k in range(left)], tuple(task['noise']))
        ns = {'rows': left, 'none': None}.get(task['ns'], task['ns'])

        def go():
            with rng.use(src):
                if rep == 0:
                    P.setup_prediction_interval_calculation(results=res, data=data, modelfunction=model, burnin=burn)
                P.generate_prediction_intervals(nsample=ns, calc_pred_int=calc, waitbar=burn == 1)
        guarded('generating prediction intervals', go)
        if not same(keep, (res, data)):
            raise Violation('generating intervals changes the results or the data')
        sel = [burn + r for r in rows_selected(task, src, left)]
        st.state('pi', task['name'], tuple(sel))
        st.trans += len(sel)
        c = task['noise'][1]
        calcb = calc in (True, 'on')
        cred, pred = expect_pi(task, res, response, sel, lambda b, k, sh: c, calcb)
        for got, want, what in ((P.intervals['credible_intervals'], cred, 'credible interval'),
                                (P.intervals['prediction_intervals'], pred, 'prediction interval')):
            m = same_intervals(got, want, what)
            if m:
                raise Violation('%s (rows %s)' % (m, sel))
        need = sum((2 + b)*nc for b, nc in enumerate(task['batches']))*len(sel) if (task['ns2'] and calcb) else 0
        if len(src.zs) != need:
            raise Violation('%d noise values drawn for %d observations' % (len(src.zs), need))


def do_impulse(task, ch, st):
    """each noise value reaches exactly one observation of one selected row"""
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    res, data, model, calls, response = setup_pi(task)
    left = task['rows'] - task['burn']
    pts = [(b, i, c) for b, nc in enumerate(task['batches']) for i in range(2 + b) for c in range(nc)]
    total = len(pts)*left
    k = ch.choose(total)

    def intervals(noise):
        src = Source(ch, [], noise)
        P = PredictionIntervals()

        def go():
            with rng.use(src):
                P.setup_prediction_interval_calculation(results=res, data=data, modelfunction=model, burnin=task['burn'])
                P.generate_prediction_intervals(nsample=left)
        guarded('generating prediction intervals', go)
        if len(src.zs) != total:
            raise Violation('%d noise values drawn for %d observations' % (len(src.zs), total))
        return P.intervals['prediction_intervals']
    a, b = intervals(('const', 0.0)), intervals(('impulse', k, 2.0))
    hit = [(bb, i, c) for bb, i, c in pts if not np.allclose(np.asarray(a[bb][c])[:, i], np.asarray(b[bb][c])[:, i])]
    if len(hit) != 1:
        raise Violation('noise value %d changes the observations %s' % (k, hit))
    bb, i, c = hit[0]
    # two rows: the outer quantiles add up to the sum of the two responses
    d = np.sum(np.asarray(b[bb][c])[[0, 2], i]) - np.sum(np.asarray(a[bb][c])[[0, 2], i])
    sds = [2.0*np.sqrt(variance(task, res, task['burn'] + r, bb, c)) for r in range(left)]
    if not any(np.isclose(d, s) for s in sds):
        raise Violation('noise of size 2 at %s shifts the observation by %s, expected one of %s' % (hit[0], d, sds))
    st.state('imp', task['name'], k, hit[0])
    st.trans += 1


def do_pibad(task, ch, st):
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    res, data, model, calls, response = setup_pi(task)
    P = PredictionIntervals()
    src = Source(ch, [], ('const', 0.0))
    try:
        with quiet(), rng.use(src):
            P.setup_prediction_interval_calculation(results=res, data=data, modelfunction=model, burnin=0)
    except SystemExit:
        st.state('bad', task['name'])
        return
    except Exception as ex:
        raise Violation('error variances that fit neither columns nor batches: %s' % last_frames(ex))
    raise Violation('error variances that fit neither columns nor batches are accepted')


def do_pisst(task, ch, st):
    """scale of the noise; known finding: an explicit sstype is ignored"""
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    res, data, model, calls, response = setup_pi(task)
    src = Source(ch, [], tuple(task['noise']))
    P = PredictionIntervals()
    sst = task['sst']

    def go():
        with rng.use(src):
            P.setup_prediction_interval_calculation(results=res, data=data, modelfunction=model, burnin=0)
            P.generate_prediction_intervals(sstype=sst, nsample=10)
    guarded('generating prediction intervals', go)
    st.state('sst', sst)
    st.trans += 1
    c = task['noise'][1]
    sel = list(range(task['rows']))
    got = P.intervals['prediction_intervals']
    m = same_intervals(got, expect_pi(task, res, response, sel, lambda b, k, sh: c, True, sst or 0)[1], 'prediction interval')
    if m is None:
        return
    if sst in (1, 2) and same_intervals(got, expect_pi(task, res, response, sel, lambda b, k, sh: c, True, 0)[1], '') is None:
        st.findings.append('pi-sstype-%d-ignored' % sst)
        return
    raise Violation('sstype %s: %s' % (sst, m))


def do_piplot(task, ch, st):
    import matplotlib.pyplot as plt
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    res, data, model, calls, response = setup_pi(task)
    src = Source(ch, [], tuple(task['noise']))
    P = PredictionIntervals()
    plt.close('all')

    def go():
        with rng.use(src):
            P.setup_prediction_interval_calculation(results=res, data=data, modelfunction=model, burnin=0)
            P.generate_prediction_intervals(nsample=10)
            return P.plot_prediction_intervals(plot_pred_int=task['pred'], adddata=True)
    figs, axs = guarded('plotting prediction intervals', go)
    try:
        sel = list(range(task['rows']))
        ind = res['parind']
        k = 0
        for b, nc in enumerate(task['batches']):
            x = np.asarray(data.xdata[b]).ravel()
            ys = []
            for r in sel:
                th = np.array(res['theta'])
                th[ind] = res['chain'][r]
                ys.append(response(b, th))
            ys = np.array(ys)
            for c in range(nc):
                ax = axs[k]
                k += 1
                got = {}
                for co in ax.collections:
                    got[co.get_label()] = co
                haspred = task['pred'] and task['ns2']
                sizes = [95] if task['ns2'] else [99, 95, 90, 50]
                labels = ['%d%% CI' % s for s in sizes] + (['95% PI'] if haspred else [])
                if sorted(got) != sorted(labels):
                    raise Violation('bands %s, expected %s' % (sorted(got), sorted(labels)))
                for s in sizes:
                    lo = [quantile(list(ys[:, i, c]), 0.5 - s/200.0) for i in range(len(x))]
                    hi = [quantile(list(ys[:, i, c]), 0.5 + s/200.0) for i in range(len(x))]
                    if s == 90:
                        hi9 = [quantile(list(ys[:, i, c]), 0.9) for i in range(len(x))]
                        try:
                            band(got['90% CI'], x, lo, hi9, '')
                            st.findings.append('pi-plot-90-upper-limit')
                            continue
                        except Violation:
                            pass
                    band(got['%d%% CI' % s], x, lo, hi, '%d%% CI' % s)
                if haspred:
                    sd = np.array([[np.sqrt(variance(task, res, r, b, c))] for r in sel])
                    os = ys[:, :, c] + sd*task['noise'][1]
                    band(got['95% PI'], x, [quantile(list(os[:, i]), 0.025) for i in range(len(x))],
                         [quantile(list(os[:, i]), 0.975) for i in range(len(x))], '95% PI')
                if not close(ax.lines[0].get_ydata(), [quantile(list(ys[:, i, c]), 0.5) for i in range(len(x))]):
                    raise Violation('the model line is not the median response')
        st.state('piplot', task['name'])
        st.trans += k
    finally:
        plt.close('all')


# ------------------------------------------------------------------ histories
def do_hist(task, ch, st):
    """intervals of a real run, directly or after saving and loading"""
    import os
    import shutil
    from pymcmcstat.MCMC import MCMC
    from pymcmcstat.propagation import calculate_intervals
    from pymcmcstat.chain.ChainProcessing import load_serial_simulation_results
    base = env.scratch_dir()
    try:
        mc = MCMC(rngseed=5)
        x = np.arange(4.0)
        mc.data.add_data_set(x, 1.0 + x, user_defined_object=dict(tag=0))

        def sos(theta, data):
            return 1.0 + float(np.sum((np.asarray(theta) - 0.25)**2))
        mc.model_settings.define_model_settings(sos_function=sos, sigma2=0.5)
        fmt = task['fmt']
        npar = len(task['shape'])
        mc.simulation_options.define_simulation_options(
            nsimu=8, method='dram', adaptint=3, qcov=np.eye(npar)*0.25, waitbar=False, verbosity=0, updatesigma=task['upd'],
            savedir=os.path.join(base, 'o'), savesize=3, save_to_json=fmt != 'mem', save_to_bin=fmt == 'bin', save_to_txt=fmt == 'txt',
            results_filename='r.json')
        for i, c in enumerate(task['shape']):
            mc.parameters.add_model_parameter(name='p%d' % i, theta0=1.0 + i, sample=c == 's')
        np.random.seed(5)
        guarded('the simulation', mc.run_simulation)
        res = mc.simulation_results.results
        chain = np.array(res['chain'])
        s2 = None if not task['upd'] else np.array(res['s2chain'])
        theta = np.array(res['theta'])
        if fmt != 'mem':
            res = guarded('loading', lambda: load_serial_simulation_results(os.path.join(base, 'o'), json_file='r.json',
                                                                            extension='txt' if fmt == 'txt' else 'h5'))
            if not task['upd'] and res.get('s2chain') is not None and np.size(res['s2chain']) == 0:
                res['s2chain'] = None
        ind = [i for i, c in enumerate(task['shape']) if c == 's']

        def f(q, d):
            return np.sum(q) + q[0]*np.asarray(d.xdata[0]).ravel()
        src = Source(ch, [], ('const', 0.5))

        def go():
            with rng.use(src):
                return calculate_intervals(res['chain'], res, mc.data, f, s2chain=res['s2chain'] if task['upd'] else None,
                                           nsample=20, waitbar=False)
        iv = guarded('calculate_intervals', go)
        want = []
        for r in range(chain.shape[0]):
            q = theta.copy()
            q[ind] = chain[r]
            want.append(f(q, mc.data))
        want = np.array(want)
        if not close(iv['credible'], want, rtol=1e-6):
            raise Violation('credible responses of the run: %s, expected %s' % (iv['credible'], want))
        if task['upd'] and not close(iv['prediction'], want + 0.5*np.sqrt(s2.reshape(-1, 1)), rtol=1e-6):
            raise Violation('predicted responses of the run: %s' % iv['prediction'])
        P = mc.PI if hasattr(mc, 'PI') else None
        if P is not None:
            src = Source(ch, [], ('const', 0.5))

            def go2():
                with rng.use(src):
                    P.setup_prediction_interval_calculation(results=res, data=mc.data, modelfunction=lambda d, th: f(th, d), burnin=2)
                    P.generate_prediction_intervals(nsample=None)
            guarded('generating prediction intervals', go2)
            lims = LIMS3 if task['upd'] else LIMS9
            a = want[2:]
            w = np.array([[quantile(list(a[:, i]), p) for i in range(a.shape[1])] for p in lims])
            if not close(np.asarray(P.intervals['credible_intervals'][0][0]), w, rtol=1e-6):
                raise Violation('credible intervals of the run: %s, expected %s' % (P.intervals['credible_intervals'][0][0], w))
            if task['upd']:
                a = a + 0.5*np.sqrt(s2[2:].reshape(-1, 1))
                w = np.array([[quantile(list(a[:, i]), p) for i in range(a.shape[1])] for p in lims])
                if not close(np.asarray(P.intervals['prediction_intervals'][0][0]), w, rtol=1e-6):
                    raise Violation('prediction intervals of the run: %s, expected %s' % (P.intervals['prediction_intervals'][0][0], w))
        st.state('hist', task['name'])
        st.trans += 8
    finally:
        shutil.rmtree(base, ignore_errors=True)
