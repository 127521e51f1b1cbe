"""Diagnostic plots: every panel is read back from the figure and compared with the chain."""
import numpy as np
from .. import env  # noqa: F401
from ..lockstep import Violation, close
from .common import grid, nm
from .c12 import guarded, frozen, same
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='chains of 2-14 rows (and 40, 120, 501, 1201, 2999 and 5003) with 1-9 parameters, every skip 1-3 and maximum number of points 1-16 for short chains, '
          'names absent, too few, exact and too many, all panels, single-parameter metrics; all sequences of two panels on the same inputs',
    thorough='chains of 2-30 rows with every skip 1-5 and maximum 1-32, and 1-16 parameters')
ASSUMPTIONS = ['figures are read back through matplotlib; layout, colours and markers are not judged']


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for d in grid(rows=list(range(2, 31 if deep else 15)), skip=list(range(1, 6 if deep else 4))):
        out.append(dict(name=nm('sub', d), kind='sub', mps=list(range(1, 33 if deep else 17)), **d))
    for d in grid(npar=list(range(1, 17 if deep else 10)), names=['none', 'empty', 'short', 'few', 'exact', 'long', 'swapped'],
                  panel=['chain', 'hist', 'density', 'densityhist', 'pair']):
        if d['npar'] > 6 and d['panel'] in ('pair', 'density', 'densityhist') and not deep:
            continue
        out.append(dict(name=nm('panel', d), kind='panel', rows=12, **d))
    for d in grid(npar=[12, 14], names=['none', 'short', 'few', 'exact'], panel=['chain', 'hist', 'density']):
        out.append(dict(name=nm('panel', d), kind='panel', rows=12, **d))
    for d in grid(rows=[40, 120, 501, 1201, 2999, 5003], panel=['chain', 'hist', 'density', 'pair'], mp=['default', 7]):
        if d['panel'] in ('hist', 'density') and d['mp'] != 'default':
            continue
        out.append(dict(name=nm('long', d), kind='panel', npar=2, names='exact', **d))
    for d in grid(rows=[2, 5, 40, 5003], given=['none', 'given', 'long']):
        out.append(dict(name=nm('metrics', d), kind='metrics', **d))
    out.append(dict(name='pairs', kind='seq'))
    return out


def values(rows, npar):
    """all different, so that every point drawn identifies its row and column"""
    i, j = np.meshgrid(np.arange(rows), np.arange(npar), indexing='ij')
    return ((i*37 + 11) % rows) + 0.125*np.sin(i) + 1000.0*(j + 1) + 0.5*j*((i*7) % 5)


def names_of(kind, n):
    base = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's']
    if kind == 'none':
        return None
    if kind == 'empty':
        return []
    if kind == 'short':
        return base[:n - 1]
    if kind == 'few':
        return base[:2]
    if kind == 'long':
        return base[:n + 1]
    if kind == 'swapped':
        return base[:n][::-1]
    return base[:n]


def expected_names(names, n):
    names = list(names or [])
    return [names[i] if i < len(names) else '$p_{%d}$' % i for i in range(n)]


def indices(rows, skip, mp):
    if rows > mp:
        skip = rows//mp
    return list(range(0, rows, skip))


def draw(panel, chain, names, skip=1, mp=None):
    from pymcmcstat.plotting import MCMCPlotting as P
    kw = dict(names=names)
    if mp is not None:
        kw['maxpoints'] = mp
    if panel == 'chain':
        return guarded('plot_chain_panel', lambda: P.plot_chain_panel(chain, skip=skip, **kw))
    if panel == 'pair':
        return guarded('plot_pairwise_correlation_panel', lambda: P.plot_pairwise_correlation_panel(chain, skip=skip, **kw))
    if panel == 'hist':
        return guarded('plot_histogram_panel', lambda: P.plot_histogram_panel(chain, names=names))
    return guarded('plot_density_panel', lambda: P.plot_density_panel(chain, names=names, hist_on=panel == 'densityhist'))


def check_hist(ax, col, what, density=True):
    bars = [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches]
    if not bars:
        raise Violation('%s: no histogram' % what)
    n = len(col)
    lo, hi = min(b[0] for b in bars), max(b[0] + b[1] for b in bars)
    if lo > col.min() + 1e-9 or hi < col.max() - 1e-9:
        raise Violation('%s: bins from %s to %s do not cover the values %s to %s' % (what, lo, hi, col.min(), col.max()))
    bars.sort()
    for k, (x, w, h) in enumerate(bars):
        # values within rounding of an edge may be counted on either side
        sure = np.sum((col > x + 1e-9) & (col < x + w - 1e-9))
        most = np.sum((col >= x - 1e-9) & (col <= x + w + 1e-9))
        cnt = h*n*w if density else h
        if not sure - 1e-6 <= cnt <= most + 1e-6:
            raise Violation('%s: %s values in the bin from %s to %s, drawn %s' % (what, sure, x, x + w, cnt))


def check_panel(fig, panel, chain, names, skip=1, mp=None):
    rows, npar = chain.shape
    want = expected_names(names, npar)
    ind = indices(rows, skip, 500 if mp is None else mp)
    axes = fig.axes
    if panel == 'pair':
        if len(axes) != npar*(npar - 1)//2:
            raise Violation('%d panels for the pairs of %d parameters' % (len(axes), npar))
        k = 0
        for jj in range(1, npar):
            for ii in range(jj):
                ax = axes[k]
                k += 1
                x, y = ax.lines[0].get_data()
                if not (close(x, chain[ind, ii]) and close(y, chain[ind, jj])):
                    raise Violation('pair (%d, %d): points drawn are not the rows of the two parameters' % (ii, jj))
                if ii == 0 and ax.get_ylabel() != want[jj]:
                    raise Violation('pair (%d, %d) is labelled %r, expected %r' % (ii, jj, ax.get_ylabel(), want[jj]))
                if ii == jj - 1:
                    lab = ax.get_xlabel() if npar == 2 else ax.get_title()
                    if lab != want[ii]:
                        raise Violation('pair (%d, %d) is labelled %r, expected %r' % (ii, jj, lab, want[ii]))
        return
    if len(axes) != npar:
        raise Violation('%d panels for %d parameters' % (len(axes), npar))
    for j, ax in enumerate(axes):
        col = chain[:, j]
        what = '%s panel of parameter %d' % (panel, j)
        lab = ax.get_ylabel() if panel == 'chain' else ax.get_xlabel()
        if lab != want[j]:
            raise Violation('%s is labelled %r, expected %r' % (what, lab, want[j]))
        if panel == 'chain':
            x, y = ax.lines[0].get_data()
            if not (close(x, ind) and close(y, col[ind])):
                raise Violation('%s: drawn %s at %s, expected rows %s' % (what, y, x, ind))
        if panel in ('hist', 'densityhist'):
            check_hist(ax, col, what)
        if panel in ('density', 'densityhist'):
            x, y = (np.ravel(v) for v in ax.lines[0].get_data())
            # Gaussian kernels with the normal reference bandwidth
            s = np.std(col, ddof=1)
            a = kde(x, col, reference_width(col))
            if not np.allclose(y, a, rtol=1e-6, atol=1e-12):
                raise Violation('%s: the curve is not the density of the column' % what)
            if not (x.min() <= col.mean() - s and x.max() >= col.mean() + s):
                raise Violation('%s: the curve covers %s to %s of values around %s' % (what, x.min(), x.max(), col.mean()))


def reference_width(col):
    return 1.06*np.std(col)*len(col)**(-0.2)


def kde(x, col, h):
    u = (x[:, None] - col[None, :])/h
    return np.exp(-0.5*u*u).sum(axis=1)/(len(col)*h*np.sqrt(2*np.pi))


def run(task, ch, st):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    old = plt.tight_layout
    plt.tight_layout = lambda *a, **k: None       # spacing only
    try:
        globals()['do_' + task['kind']](task, ch, st)
    finally:
        plt.tight_layout = old
        plt.close('all')


def judge(panel, chain, names, st, skip=1, mp=None):
    keep = frozen((chain, names))
    fig = draw(panel, chain, names, skip, mp)
    if not same(keep, (chain, names)):
        raise Violation('the %s panel changes its inputs' % panel)
    check_panel(fig, panel, chain, names, skip, mp)
    st.state(panel, chain.shape, repr(names), skip, mp)
    st.trans += 1


def do_sub(task, ch, st):
    import matplotlib.pyplot as plt
    mp = task['mps'][ch.choose(len(task['mps']))]
    panel, npar = [('chain', 1), ('pair', 2)][ch.choose(2)]
    judge(panel, values(task['rows'], npar), None, st, task['skip'], mp)
    plt.close('all')


def do_panel(task, ch, st):
    mp = task.get('mp', 'default')
    judge(task['panel'], values(task['rows'], task['npar']), names_of(task['names'], task['npar']), st, 1, None if mp == 'default' else mp)


def do_metrics(task, ch, st):
    from pymcmcstat.plotting import MCMCPlotting as P
    col = values(task['rows'], 1)[:, 0]
    name = dict(none=None, given=['alpha'], long=['alpha', 'beta'])[task['given']]
    keep = frozen((col, name))
    fig = guarded('plot_chain_metrics', lambda: P.plot_chain_metrics(col, name))
    if not same(keep, (col, name)):
        raise Violation('the metrics change their inputs')
    x, y = fig.axes[0].lines[0].get_data()
    if not (close(x, np.arange(len(col))) and close(y, col)):
        raise Violation('metrics: the chain drawn is not the chain given')
    check_hist(fig.axes[1], col, 'metrics', density=False)
    st.state('metrics', task['rows'], repr(name))
    st.trans += 1


def do_seq(task, ch, st):
    """what one plot draws does not depend on the plots before it"""
    panels = ['chain', 'hist', 'density', 'densityhist', 'pair']
    lists = ['none', 'short', 'exact']
    names = names_of(lists[ch.choose(3)], 3)
    chain = values(10, 3)
    for _ in range(2):
        judge(panels[ch.choose(len(panels))], chain, names, st, 1, [None, 4][ch.choose(2)])
