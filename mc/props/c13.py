"""Chain statistics against their defining formulas, on all small chains and on families of long ones."""
import copy
import math
import re
import numpy as np
from ..lockstep import Violation, Abort, quiet, deadline, last_frames
from .common import grid, nm
from .c12 import same, quantile
LEVEL = 'exploration'
RULE = 'a distinct state is a chain (or set of chains) with the function applied to it; trivial (constant) columns are included once'
BOUNDS = dict(
    quick='all chains over 2-3 values up to length 6-10 for each statistic; chains of length 40-130 (every length) from 4 '
          'families with 1-3 parameters for the whole table, and 2000, 4100 and 6001 from 6 families; 2-4 chains, burn-in 0-99 %, 6 families in units of 2^-60 to 2^60',
    thorough='one more row for every exhaustive family; lengths 40-400, and 20000')
ASSUMPTIONS = ['statistics of chains shorter than 40 rows (too few batches or windows) are not defined by the library']


def guarded(what, f):
    try:
        with quiet() as out, deadline(60):
            r = f()
        return r, out.getvalue()
    except (Exception, SystemExit) as ex:
        raise Violation('%s fails: %s' % (what, last_frames(ex)))


def eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)


# ---------------------------------------------------------------- definitions
def o_mean(c):
    return [math.fsum(c[:, j])/len(c) for j in range(c.shape[1])]


def o_std(c):
    m = o_mean(c)
    return [math.sqrt(math.fsum((v - m[j])**2 for v in c[:, j])/len(c)) for j in range(c.shape[1])]


def o_bmstd(c, b=None):
    n = len(c)
    b = b or max(10, n//20)
    nb = n//b
    m = o_mean(c)
    out = []
    for j in range(c.shape[1]):
        s = 0.0
        for i in range(nb):
            s += (math.fsum(c[i*b:(i + 1)*b, j])/b - m[j])**2
        out.append(math.sqrt(s/(nb - 1)*b))
    return out


def o_spec0(x):
    n = len(x)
    nw = n//4
    ov = nw//2
    w = [0.5*(1 - math.cos(2*math.pi*(i + 1)/(nw + 1))) for i in range(nw)]
    k = (n - ov)//(nw - ov)
    s = 0.0
    for i in range(k):
        o = i*(nw - ov)
        s += sum(w[t]*x[o + t] for t in range(nw))**2
    return s/(k*sum(v*v for v in w))


def o_geweke(c, a=0.1, b=0.5):
    n = len(c)
    na, nb = int(math.floor(a*n)), n - int(math.floor(b*n))
    z, p = [], []
    for j in range(c.shape[1]):
        A, B = c[:na, j], c[nb:, j]
        d = o_spec0(A)/na + o_spec0(B)/(n - nb)
        num = math.fsum(A)/na - math.fsum(B)/len(B)
        if d < 1e-12:
            return None
        z.append(num/math.sqrt(d))
        p.append(math.erfc(abs(z[-1])/math.sqrt(2.0)))
    return z, p


def o_iact(c):
    n = len(c)
    tau, m = [], []
    for j in range(c.shape[1]):
        x = c[:, j] - math.fsum(c[:, j])/n
        v = math.fsum(x*x)
        if v < 1e-13:
            tau.append(0.0)
            m.append(0.0)
            continue
        s, done = -1.0/3, False
        for k in range(n):
            s += (math.fsum(x*np.roll(x, -k)) if n < 1000 else float(np.dot(x[:n - k], x[k:]) + np.dot(x[n - k:], x[:k])))/v - 1.0/6
            if abs(s) < (1e-9 if n < 1000 else 1e-7):
                return None
            if s < 0:
                tau.append(2*(s + k/6.0))
                m.append(k + 1.0)
                done = True
                break
        if not done:
            tau.append(0.0)
            m.append(0.0)
    return tau, m


def o_psrf(cols):
    k, n = len(cols), len(cols[0])
    ms = [math.fsum(c)/n for c in cols]
    gm = math.fsum(ms)/k
    Bpn = math.fsum((m - gm)**2 for m in ms)/(k - 1)
    W = math.fsum(math.fsum((v - ms[i])**2 for v in c)/(n - 1) for i, c in enumerate(cols))/k
    if W < 1e-12:
        return None
    S = (n - 1)/n*W + Bpn
    V = (k + 1)/k*S - (n - 1)/(k*n)*W
    B = n*Bpn
    return dict(R=math.sqrt(V/W), B=B, W=W, V=V, neff=min(k*n*V/B, k*n) if B > 1e-13 else k*n)


def o_iqr(x):
    x = sorted(x)
    n = len(x)

    def order(h):          # 1-based order statistic with interpolation, clamped to the sample
        i = int(math.floor(h))
        f = h - i
        g = [min(max(t, 1), n) for t in (i, i + 1)]
        return (1 - f)*x[g[0] - 1] + f*x[g[1] - 1]
    return order(0.75*(n + 1)) - order(0.25*(n + 1))


# ---------------------------------------------------------------- tasks
def tasks(tier):
    deep = tier == 'thorough'
    e = 1 if deep else 0
    out = []

    def add(name, **kw):
        out.append(dict(dict(name=name), **kw))
    for n in range(2, 7 + e):
        for b in (1, 2, 3):
            if n//b >= 2:
                add('bm-%d-%d' % (n, b), kind='bm', n=n, b=b)
    for n in range(2, 7 + e):
        add('iact-%d' % n, kind='iact', n=n)
    for n in (10, 11 + e):
        add('gew-%d' % n, kind='gew', n=n, a=0.4, b=0.5)
    for k, n in ((2, 2), (2, 3), (3, 2), (2, 4), (4, 2)) + (((3, 3), (2, 5)) if deep else ()):
        add('gr-%d-%d' % (k, n), kind='gr', k=k, n=n)
    for n in range(2, 7 + e):
        add('iqr-%d' % n, kind='iqr', n=n)
    lens = list(range(40, 131)) + ([150, 199, 200, 201, 220, 399, 400] if True else [])
    if deep:
        lens = list(range(40, 401))
    for n in lens:
        for fam in range(4):
            add('table-%d-%d' % (n, fam), kind='table', n=n, fam=fam, npar=1 + (n + fam) % 3)
    for n in (2000, 4100, 6001) + ((20000,) if deep else ()):
        for fam in range(6):
            add('table-%d-%d' % (n, fam), kind='table', n=n, fam=fam, npar=2)
    for n in (3, 4100):
        add('grlong-%d' % n, kind='grlong', n=n)
    add('grwide', kind='grwide')
    for k in (-60, -40, -20, 20, 40, 60):
        for fam in range(6):
            add('unit%+d-%d' % (k, fam), kind='unit', k=k, fam=fam)
    for n in (1, 2, 5, 10, 13, 3001):
        for k in (1, 2, 3):
            add('burn-%d-%d' % (n, k), kind='burn', n=n, k=k)
    for n in (40, 53):
        for st in range(4):
            add('acc-%d-%d' % (n, st), kind='acc', n=n, st=st)
    return out


def run(task, ch, st):
    globals()['do_' + task['kind']](task, ch, st)


def column(ch, n, vals=(0.0, 1.0, -0.5)):
    return np.array([vals[ch.choose(len(vals))] for _ in range(n)])


def two(col):
    return np.column_stack([col, np.array([((5*i + 2) % 7)*0.5 - 1 for i in range(len(col))])])


def unchanged(what, keep, now):
    if not same(keep, now):
        raise Violation('%s changes what is passed in' % what)


def do_bm(task, ch, st):
    from pymcmcstat.chain.ChainStatistics import batch_mean_standard_deviation
    c = two(column(ch, task['n']))
    keep = c.copy()
    got, _ = guarded('batch_mean_standard_deviation', lambda: batch_mean_standard_deviation(c, task['b']))
    unchanged('batch_mean_standard_deviation', keep, c)
    want = o_bmstd(c, task['b'])
    st.state('bm', task['b'], tuple(c[:, 0]))
    st.trans += 1
    if not eq(got, want):
        raise Violation('batch means of %s (b=%d): %s, expected %s' % (c.tolist(), task['b'], got, want))


def do_iact(task, ch, st):
    from pymcmcstat.chain.ChainStatistics import integrated_autocorrelation_time
    c = two(column(ch, task['n']))
    keep = c.copy()
    want = o_iact(c)
    got, _ = guarded('integrated_autocorrelation_time', lambda: integrated_autocorrelation_time(c))
    unchanged('integrated_autocorrelation_time', keep, c)
    st.state('iact', tuple(c[:, 0]))
    st.trans += 1
    if want is None:
        raise Abort('tie')
    if not (eq(got[0], want[0]) and eq(got[1], want[1])):
        raise Violation('autocorrelation time of %s: %s, expected %s' % (c.tolist(), got, want))


def do_gew(task, ch, st):
    from pymcmcstat.chain.ChainStatistics import geweke
    c = two(column(ch, task['n'], (0.5, 2.0)))
    keep = c.copy()
    want = o_geweke(c, task['a'], task['b'])
    got, _ = guarded('geweke', lambda: geweke(c, a=task['a'], b=task['b']))
    unchanged('geweke', keep, c)
    st.state('gew', tuple(c[:, 0]))
    st.trans += 1
    if want is None:
        raise Abort('zero spectrum')
    if not (eq(got[0], want[0]) and eq(got[1], want[1])):
        raise Violation('Geweke diagnostic of %s: %s, expected %s' % (c.tolist(), got, want))


def do_gr(task, ch, st):
    from pymcmcstat.chain.ChainStatistics import gelman_rubin
    k, n = task['k'], task['n']
    first = [column(ch, n) for _ in range(k)]
    chains = [np.column_stack([f, [((3*i + 5*j*j) % 7) - 2.0 for i in range(n)]]) for j, f in enumerate(first)]
    keep = copy.deepcopy(chains)
    names = ['u', 'v']
    for form in ('list', 'results'):
        if form == 'list':
            got, txt = guarded('gelman_rubin', lambda: gelman_rubin(chains, names=names))
        else:      # parallel results: the first half of each chain is burn-in
            pres = [dict(chain=np.concatenate((7.0 + 0*c, c)), nsimu=2*n, names=names) for c in chains]
            k2 = copy.deepcopy(pres)
            got, txt = guarded('gelman_rubin', lambda: gelman_rubin(pres, results=pres[0], display=False))
            unchanged('gelman_rubin', k2, pres)
        unchanged('gelman_rubin', (keep, ['u', 'v']), (chains, names))
        st.state('gr', form, tuple(map(tuple, first)))
        st.trans += 1
        if list(got) != ['u', 'v']:
            raise Violation('Gelman-Rubin factors of %s, expected u and v' % list(got))
        for j, name in enumerate(names):
            want = o_psrf([c[:, j] for c in chains])
            if want is None:
                continue
            for key, v in want.items():
                if not np.isclose(got[name][key], v, rtol=1e-7, atol=1e-9):
                    raise Violation('Gelman-Rubin %s of %s: %s, expected %s' % (key, [c[:, j].tolist() for c in chains], got[name][key], v))


def do_grlong(task, ch, st):
    """many rows, two to four chains, with and without a shift between them"""
    from pymcmcstat.chain.ChainStatistics import gelman_rubin
    n = task['n']
    for k in (2, 3, 4):
        for shift in (0.0, 3.0):
            chains = [family(j % 2, n, 2)*(1 + 0.1*j) + shift*j for j in range(k)]
            keep = copy.deepcopy(chains)
            got, txt = guarded('gelman_rubin', lambda: gelman_rubin(chains, names=['u', 'v']))
            unchanged('gelman_rubin', keep, chains)
            for j, name in enumerate(('u', 'v')):
                want = o_psrf([c[:, j] for c in chains])
                for key, v in (want or {}).items():
                    if not np.isclose(got[name][key], v, rtol=1e-6, atol=1e-9):
                        raise Violation('Gelman-Rubin %s of %d chains of %d rows: %s, expected %s' % (key, k, n, got[name][key], v))
            st.state('grlong', n, k, shift)
            st.trans += 1


def do_grwide(task, ch, st):
    """many parameters, many chains: every factor belongs to its parameter, whatever the order of the names"""
    from pymcmcstat.chain.ChainStatistics import gelman_rubin
    for npar in (1, 3, 7, 9, 12, 17, 30):
        for k in (2, 5, 11):
            names = ['q%d' % ((7*j) % 31) for j in range(npar)]
            chains = [np.column_stack([((np.arange(23)*(j + 2) + 5*c*c + j*j) % 13 - 3.0)*(1 + j) + 0.5*j*c for j in range(npar)]) for c in range(k)]
            keep = copy.deepcopy((chains, names))
            for given in (names, None):
                got, txt = guarded('gelman_rubin', lambda: gelman_rubin(chains, names=given))
                unchanged('gelman_rubin', keep, (chains, names))
                keys = list(got)
                if len(keys) != npar or given is not None and keys != names:
                    raise Violation('Gelman-Rubin factors of %s, expected %s' % (keys, given))
                for j, name in enumerate(keys):
                    want = o_psrf([c[:, j] for c in chains])
                    for key, v in (want or {}).items():
                        if not np.isclose(got[name][key], v, rtol=1e-7, atol=1e-9):
                            raise Violation('Gelman-Rubin %s of parameter %d of %d: %s, expected %s' % (key, j, npar, got[name][key], v))
                st.state('grwide', npar, k, given is None)
                st.trans += 1


def do_unit(task, ch, st):
    """the same chain in other units (a power of two): every statistic scales exactly or stays"""
    from pymcmcstat.chain.ChainStatistics import chainstats, gelman_rubin, batch_mean_standard_deviation
    from pymcmcstat.plotting.utilities import iqrange
    from pymcmcstat.propagation import generate_quantiles
    u = 2.0**task['k']

    def rel(what, got, want, tol=1e-6):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape or not np.all(np.abs(got - want) <= tol*np.max(np.abs(want)) + 1e-300):
            raise Violation('%s of a chain in units of 2^%d: %s, expected %s' % (what, task['k'], got, want))
    for n in (40, 57, 130, 400):
        c = family(task['fam'], n, 1)
        x = np.column_stack([c, c[::-1]])*u
        y = np.column_stack([c, c[::-1]])
        res = dict(names=['a', 'b'], nsimu=n)
        keep = copy.deepcopy((x, res))
        got, _ = guarded('chainstats', lambda: chainstats(x, res, returnstats=True))
        unchanged('chainstats', keep, (x, res))
        bm = np.array(o_bmstd(y))
        rel('mean', got['mean'], np.array(o_mean(y))*u)
        rel('std', got['std'], np.array(o_std(y))*u)
        rel('bmstd', got['bmstd'], bm*u)
        rel('mcerr', got['mcerr'], bm*u/math.sqrt(n))
        rel('batch_mean_standard_deviation', guarded('batch', lambda: batch_mean_standard_deviation(x, 7))[0], np.array(o_bmstd(y, 7))*u)
        g, t = o_geweke(y), o_iact(y)
        if g is not None:
            rel('geweke', got['geweke']['z'], g[0])
        if t is not None:
            rel('autocorrelation time', got['iact']['tau'], t[0], 1e-5)
            rel('autocorrelation window', got['iact']['m'], t[1])
        rel('interquartile range', np.ravel(guarded('iqrange', lambda: iqrange(x))[0]), [o_iqr(list(y[:, j])*1)*u for j in range(2)])
        for p in (0.025, 0.5, 0.975):
            rel('quantile', guarded('generate_quantiles', lambda: generate_quantiles(x, np.array([p])))[0][0], [quantile(list(y[:, j]), p)*u for j in range(2)])
        chains = [y, y[::-1]*1.5, y + 0.25]
        r, _ = guarded('gelman_rubin', lambda: gelman_rubin([v*u for v in chains], names=['a', 'b']))
        for j, name in enumerate(('a', 'b')):
            want = o_psrf([v[:, j] for v in chains])
            for key, v in (want or {}).items():
                rel('Gelman-Rubin ' + key, r[name][key], v*(u*u if key in 'BWV' else 1.0))
        st.state('unit', task['name'], n)
        st.trans += 1


def do_iqr(task, ch, st):
    from pymcmcstat.plotting.utilities import iqrange
    col = column(ch, task['n'])
    st.state('iqr', tuple(col))
    st.trans += 1
    for x in (col.reshape(-1, 1), two(col), col.reshape(1, -1)):
        if x.shape[0] == 1 and x.shape[1] == 1:
            continue
        keep = x.copy()
        got, _ = guarded('iqrange', lambda: iqrange(x))
        unchanged('iqrange', keep, x)
        cols = x.T if x.shape[0] == 1 else x
        want = [o_iqr(list(cols[:, j])) for j in range(cols.shape[1])]
        if not eq(np.atleast_1d(got), want):
            raise Violation('interquartile range of %s: %s, expected %s' % (x.tolist(), got, want))


def family(fam, n, npar):
    """Markov-chain like: repeated rows, slow drift, alternating, mixture"""
    s = 12345 + fam
    rows, cur = [], [0.5 - 0.25*j for j in range(npar)]
    for i in range(n):
        s = (1103515245*s + 12345) % 2**31
        r = s/2.0**31
        if fam == 0:
            if r < 0.4:
                cur = [0.7*v + (r - 0.2)*3*(1 + j) + 0.01*i for j, v in enumerate(cur)]
        elif fam == 1:
            cur = [math.sin(0.1*i*(j + 1)) + 0.3*r for j in range(npar)]
        elif fam == 2:
            cur = [(-1)**i*(0.5 + r)*(10.0**(3*j - 2)) for j in range(npar)]
        elif fam == 4:      # random walk
            cur = [v + (r - 0.5)*(1 + j) for j, v in enumerate(cur)]
        elif fam == 5:      # few, long stays
            cur = [float(int(i*(j + 2)/n*3) % 2) + 0.01*r for j in range(npar)]
        else:
            cur = [2e4*(j == 0) + r**(j + 1)*(1 + 0.02*i) for j in range(npar)]
        rows.append(list(cur))
    return np.array(rows)


def fmt_ok(s, v):
    """printed number against its value: two decimals, or two decimals of the mantissa"""
    return abs(float(s) - v) <= (0.00501 if 'e' not in s else 0.00501*10.0**math.floor(math.log10(abs(v)) if v else 0)*1.0) + 1e-12


def do_table(task, ch, st):
    from pymcmcstat.chain.ChainStatistics import chainstats
    n, npar = task['n'], task['npar']
    c = family(task['fam'], n, npar)
    names = ['alpha', 'b', 'c'][:npar]
    res = dict(names=names, nsimu=n)
    keep = copy.deepcopy((c, res))
    got, txt = guarded('chainstats', lambda: chainstats(c, res, returnstats=True))
    unchanged('chainstats', keep, (c, res))
    st.state('table', task['name'])
    st.trans += 1
    bm = o_bmstd(c)
    want = dict(mean=o_mean(c), std=o_std(c), bmstd=bm, mcerr=[v/math.sqrt(n) for v in bm])
    for k, v in want.items():
        if not np.allclose(got[k], v, rtol=1e-6, atol=1e-10):
            raise Violation('%s of chain %s: %s, expected %s' % (k, task['name'], got[k], v))
    g = o_geweke(c)
    if g is not None and not (np.allclose(got['geweke']['z'], g[0], rtol=1e-6, atol=1e-9)
                              and np.allclose(got['geweke']['p'], g[1], rtol=1e-5, atol=1e-9)):
        raise Violation('geweke of chain %s: %s, expected %s' % (task['name'], got['geweke'], g))
    t = o_iact(c)
    if t is not None and not (np.allclose(got['iact']['tau'], t[0], rtol=1e-5, atol=1e-7) and np.allclose(got['iact']['m'], t[1])):
        raise Violation('autocorrelation time of chain %s: %s, expected %s' % (task['name'], got['iact'], t))
    # the printed table
    rows = {}
    for line in txt.splitlines():
        m = re.match(r'\s*(\w+)\s*:\s+(.*)$', line)
        if m and m.group(1) in names:
            rows[m.group(1)] = m.group(2).split()
    for j, name in enumerate(names):
        if name not in rows or len(rows[name]) != 5:
            raise Violation('no line for parameter %s is printed' % name)
        vals = [want['mean'][j], want['std'][j], want['mcerr'][j], got['iact']['tau'][j], got['geweke']['p'][j]]
        for s, v, what in zip(rows[name], vals, ('mean', 'std', 'MC_err', 'tau', 'geweke')):
            if not math.isnan(v) and not fmt_ok(s, v):
                raise Violation('%s of %s printed as %s, value %s' % (what, name, s, v))


def do_burn(task, ch, st):
    from pymcmcstat.chain.ChainProcessing import generate_chain_list, generate_combined_chain_with_index
    n, k = task['n'], task['k']
    pcts = [0, 1, 10, 25, 33, 50, 66, 75, 90, 99]
    pres = [dict(nsimu=n + j, chain=np.array([[100.0*j + i, -i] for i in range(n + j)])) for j in range(k)]
    keep = copy.deepcopy(pres)
    for pct in pcts + ['default']:
        kw = {} if pct == 'default' else dict(burnin_percentage=pct)
        p = 50 if pct == 'default' else pct
        cl, _ = guarded('generate_chain_list', lambda: generate_chain_list(pres, **kw))
        cc, _ = guarded('generate_combined_chain_with_index', lambda: generate_combined_chain_with_index(pres, **kw))
        unchanged('selecting the burn-in', keep, pres)
        want = [r['chain'][(r['nsimu']*p)//100:] for r in pres]
        if len(cl) != k or not all(np.array_equal(a, b) for a, b in zip(cl, want)):
            raise Violation('chains after %s %% burn-in of %d rows: %s' % (p, n, [a.tolist() for a in cl]))
        if not np.array_equal(cc[0], np.concatenate(want)) or list(cc[1]) != ['Chain %d' % j for j in range(k) for _ in want[j]]:
            raise Violation('combined chain after %s %% burn-in of %d rows: %s %s' % (p, n, cc[0].tolist(), cc[1]))
        st.state('burn', n, k, pct)
        st.trans += 1


def do_acc(task, ch, st):
    from pymcmcstat.chain.ChainStatistics import chainstats
    n, ns = task['n'], task['st']
    rows, v = [], 0.0
    for i in range(n):
        if (i*7) % 5 < 2 or i == 0:
            v += 0.37
        rows.append([v, math.sin(v) + 0.001*i*0])
    c = np.array(rows)
    uniq = len({tuple(r) for r in rows})
    res = dict(names=['a', 'b'], nsimu=2*n)
    acc = [n//2, n//5, 3][:ns]
    if ns:
        res['iacce'] = np.array(acc)
    keep = copy.deepcopy((c, res))
    _, txt = guarded('chainstats', lambda: chainstats(c, res))
    unchanged('chainstats', keep, (c, res))
    want = ['Stage %d: %4.2f%%' % (i + 1, a/(2*n)*100) for i, a in enumerate(acc)]
    if ns:
        want.append('Net : %4.2f%% -> %d/%d' % (sum(acc)/(2*n)*100, sum(acc), 2*n))
    want.append('Net : %4.2f%% -> %d/%d' % (uniq/n*100, uniq, n))
    got = [' '.join(s.split()) for s in txt.splitlines() if re.match(r'\s*(Stage \d|Net)', s)]
    st.state('acc', n, ns)
    st.trans += 1
    if got != want:
        raise Violation('acceptance information %s, expected %s' % (got, want))
