"""Runs the real simulator in lock step with the reference model.

The real code runs through its public interface (MCMC.run_simulation).  Each
random number it asks for is a choice point of the explorer; the same number
is handed to the reference.  Afterwards everything observable is compared.
"""
import contextlib
import io
import math
import os
import shutil
import signal
import sys
import traceback

import numpy as np

from . import env, rng
from .ref import Ref, Refused, Inconclusive

EPS = 1e-6


class Violation(Exception):
    pass


class Abort(BaseException):
    """Stop this execution (inconclusive)."""


class Protocol(BaseException):
    """Random numbers requested differ from what the algorithm needs."""


rng.ProtocolError = Protocol


class MT:
    """Marsaglia-Tsang sampler for gamma(a,1) as a sub-protocol of single draws."""
    def __init__(self, a, xs, retry, ch):
        self.a, self.ch, self.xs, self.retry = a, ch, xs, retry
        aa = a if a >= 1 else a + 1
        self.d = aa - 1.0/3.0
        self.c = 1.0/math.sqrt(9.0*self.d)
        self.state = 'x'
        self.val = None

    def normal(self):
        if self.state != 'x':
            raise Protocol('normal deviate requested within gamma sampler where a uniform is expected')
        menu = list(self.xs)
        if self.retry[0] > 0:
            menu.append(-2.0/self.c)      # 1 + c x < 0: must be redrawn
        x = menu[self.ch.choose(len(menu))]
        v = 1.0 + self.c*x
        if v <= 0:
            self.retry[0] -= 1
        else:
            self.x, self.v = x, v**3
            self.state = 'u'
        return x

    def uniform(self):
        """returns (u, done)"""
        if self.state == 'boost':
            u = [0.25, 0.75][self.ch.choose(2)]
            self.val *= u**(1.0/self.a)
            return u, True
        if self.state != 'u':
            raise Protocol('uniform deviate requested within gamma sampler where a normal is expected')
        x, v, d = self.x, self.v, self.d
        thr = math.exp(0.5*x*x + d*(1.0 - v + math.log(v)))
        opts = [('a', 0.999999 if thr >= 1 else thr*(1 - EPS))]
        if self.retry[0] > 0 and thr*(1 + EPS) < 1:
            opts.append(('r', thr*(1 + EPS)))
        what, u = opts[self.ch.choose(len(opts))]
        if what == 'r':
            self.retry[0] -= 1
            self.state = 'x'
            return u, False
        self.val = d*v
        if self.a < 1:
            self.state = 'boost'
            return u, False
        return u, True


class LockSource:
    MAXDRAWS = 200000

    def __init__(self, cfg, ch, onstep=None):
        self.cfg, self.ch, self.onstep = cfg, ch, onstep
        self.z = [np.atleast_1d(np.array(v, dtype=float)) for v in cfg['z']]
        self.gx = cfg.get('gx', [0.5])
        self.gcycle, self.ng = cfg.get('gcycle'), 0
        self.retry = [cfg.get('gretry', 0)]
        self.gvals = cfg.get('gvals', [0.75, 2.0])
        self.accept_first = cfg.get('accept_first', True)
        self.zcycle = cfg.get('zcycle', False)       # default direction rotates: long runs stay bounded
        self.accpat = cfg.get('accpat')              # default decisions, cycled
        self.nz = self.nu = 0
        self.gen = None
        self.req = None
        self.zbuf = []
        self.mt = None
        self.draws = 0
        self.seeds = []
        self.margin = 1.0

    # -- reference side
    def start(self, gen):
        self.gen = gen
        self.zbuf, self.mt = [], None
        self.advance(None)

    def advance(self, value):
        try:
            self.req = self.gen.send(value)
            while self.req[0] == 'step':
                if self.onstep:
                    self.onstep(self.req[1])
                self.req = self.gen.send(None)
        except StopIteration:
            self.req = ('end',)
        except Inconclusive as ex:
            raise Abort(str(ex))

    def forced(self, p):
        """outcome of an acceptance test that does not depend on the number drawn (or None)"""
        if p >= 1.0 - 4*EPS:
            return True
        if p < 1e-280:
            return False
        return None

    def skip(self):
        if self.zbuf:
            raise Protocol('%d normal deviates of a candidate were not drawn' % len(self.zbuf))
        while self.req[0] == 'u' and self.forced(self.req[1]) is not None:
            self.advance(self.forced(self.req[1]))

    def tick(self):
        self.draws += 1
        if self.draws > self.MAXDRAWS:
            raise Protocol('more than %d random numbers drawn' % self.MAXDRAWS)

    # -- real code side
    def normal(self, n):
        self.tick()
        if self.zbuf:
            if n > len(self.zbuf):
                raise Protocol('normal(%d)' % n)
            out, self.zbuf = self.zbuf[:n], self.zbuf[n:]
            return out
        self.skip()
        if self.req[0] == 'z':
            if n > self.req[1]:
                raise Protocol('normal(%d) where %d expected' % (n, self.req[1]))
            v = self.z[(self.ch.choose(len(self.z)) + (self.nz if self.zcycle else 0)) % len(self.z)]
            self.nz += 1
            out = list(v[:n])
            # the reference moves on at once (it may raise Abort)
            self.zbuf = list(v[n:])
            buf, self.zbuf = self.zbuf, []
            self.advance(v)
            self.zbuf = buf
            return out
        if self.req[0] == 'g' and n == 1:
            if self.mt is None:
                gx = self.gx
                if self.gcycle:       # another variate for every update, without adding choices
                    gx = [self.gcycle[self.ng % len(self.gcycle)]]
                    self.ng += 1
                self.mt = MT(self.req[1], gx, self.retry, self.ch)
            return [self.mt.normal()]
        raise Protocol('normal(%d) requested, reference expects %s' % (n, self.req[0]))

    def uniform(self, n):
        self.tick()
        if n != 1:
            raise Protocol('uniform(%d)' % n)
        if self.req[0] == 'u' and not self.zbuf:
            p = self.req[1]
            f = self.forced(p)
            if f is None:
                pick = self.ch.choose(2)
                first = self.accpat[self.nu % len(self.accpat)] if self.accpat else self.accept_first
                self.nu += 1
                acc = (pick == 0) == first
                u = p*(1 - EPS) if acc else p*(1 + EPS)
            else:
                acc, u = f, (min(p, 1.0)*(1 - EPS) if f else 0.5)
            self.advance(acc)
            return [u]
        if self.req[0] == 'g' and self.mt is not None:
            u, done = self.mt.uniform()
            if done:
                val, self.mt = self.mt.val, None
                self.advance(val)
            return [u]
        raise Protocol('uniform requested, reference expects %s' % (self.req[0],))

    def gamma(self, a):
        self.tick()
        self.skip()
        if self.req[0] != 'g' or self.mt is not None:
            raise Protocol('gamma requested, reference expects %s' % (self.req[0],))
        if not math.isclose(a, self.req[1], rel_tol=1e-9):
            raise Protocol('gamma shape %r where %r expected' % (a, self.req[1]))
        v = self.gvals[(self.ch.choose(len(self.gvals)) + (self.ng if self.gcycle else 0)) % len(self.gvals)]
        self.ng += 1
        self.advance(v)
        return v

    def seed(self, s):
        self.seeds.append(s)

    def finish(self):
        self.skip()
        if self.mt is not None or self.req[0] != 'end':
            raise Protocol('simulation ended, reference still expects %s' % (self.req[0],))


# ----------------------------------------------------------------------
def sos_library(cfg):
    """Pure, positive, asymmetric sum-of-squares of the full parameter vector."""
    if cfg.get('batches'):
        return default_sos(cfg['batches'])
    nsos, nf = cfg['nsos'], len(cfg['params'])
    sharp = cfg.get('sharp', 1.0)
    if cfg.get('flat'):
        # varies on the scale of the initial values, whatever their magnitude
        t0 = [1.0 if p.get('theta0') is None else p['theta0'] for p in cfg['params']]
        t0 = [v if v else 1.0 for v in t0]

        def g(theta):
            r = np.asarray(theta, dtype=float)/t0 - 1.0
            return np.array([2.0 + j + float(np.sum((16.0 + j)*r**2)) + float(r[0] + 2*r[-1]) for j in range(nsos)])
        return g
    anti = cfg.get('antiprior')
    P = cfg['params']
    W = [[0.5 + 0.375*((2*i + 3*j) % 4) for i in range(nf)] for j in range(nsos)]
    C = [[0.75 - 0.5*((i + 2*j) % 3) for i in range(nf)] for j in range(nsos)]

    wall = cfg.get('wall')
    unit = cfg.get('ssscale', 1.0)      # small or large units of the data
    af, sc = cfg.get('affine', (0.0, 1.0))

    def f(theta):
        th = (np.asarray(theta, dtype=float) - af)/sc
        out = np.empty(nsos)
        if wall and not (P[0].get('theta0', 0) - 0.3 < th[0] < P[0].get('theta0', 0) + 0.9):
            return np.full(nsos, float(wall))      # zero posterior density, or a failed model evaluation
        for j in range(nsos):
            s = 0.0
            for i in range(nf):
                s += W[j][i]*(th[i] - C[j][i])**2
            s += 0.25*(th[0] + (1 + j)*th[-1])**2
            out[j] = (1.5 + j) + sharp*s
            if anti and j == 0:
                # nearly cancels the Gaussian prior: both terms vary by hundreds, the posterior by little
                for i, p in enumerate(P):
                    if p.get('sample', True) and 0 < p.get('prior_sigma', 0) < np.inf:
                        out[j] += anti - ((theta[i] - p['prior_mu'])/p['prior_sigma'])**2
        return out*unit
    return f


def curve(x, th):
    """model function of the configurations that use the default sum-of-squares"""
    return th[0] + 0.5*th[-1]*x[:, :1] + 0.125*th[0]*th[-1]*x[:, -1:]**2


def default_sos(batches):
    """weighted sum of squared differences, batch by batch and point by point"""
    def f(theta):
        th = [float(v) for v in theta]
        out = []
        for b in batches:
            s = 0.0
            xs, ys = b['x'], b['y']
            for x, y in zip(xs, ys):
                row = x if isinstance(x, list) else [x]
                m = th[0] + 0.5*th[-1]*row[0] + 0.125*th[0]*th[-1]*row[-1]**2
                s += b.get('weight', 1)*(y - m)**2
            out.append(s)
        return np.array(out)
    return f


def prior_library(cfg):
    af, sc = cfg.get('affine', (0.0, 1.0))
    if cfg.get('prior') == 'custom':
        def f(theta, mu, sigma):
            th = (np.asarray(theta, dtype=float) - af)/sc
            return float(np.sum(np.abs(th - (np.asarray(mu) - af)/sc) + 0.125*th**2))
        return f
    return None


class Observed:
    def __init__(self):
        self.evals, self.customs, self.priors, self.xs = [], [], [], []
        self.fail_at = None


def make_data(mc, cfg):
    if cfg.get('batches'):
        for b in cfg['batches']:
            kw = {k: b[k] for k in ('weight', 'n', 'user_defined_object') if k in b}
            form = b.get('form', 'col')
            x, y = np.array(b['x'], dtype=float), np.array(b['y'], dtype=float)
            if form == 'list':
                x, y = list(b['x']), list(b['y'])
            elif form == 'col':
                x, y = (x if x.ndim == 2 else x.reshape(-1, 1)), y.reshape(-1, 1)
            mc.data.add_data_set(x=x, y=y, **kw)
        return
    for k, n in enumerate(cfg['ndata']):
        x = np.arange(n, dtype=float)
        mc.data.add_data_set(x=x, y=x*(k + 1) + 1)


def build(cfg, obs, sos, prior):
    from pymcmcstat.MCMC import MCMC
    mc = MCMC(rngseed=cfg.get('rngseed', 7))
    make_data(mc, cfg)

    def record(theta, custom):
        obs.evals.append(np.array(theta, dtype=float))
        obs.customs.append(custom)
        if obs.fail_at is not None and len(obs.evals) == obs.fail_at:
            raise Interrupted('user function failed')
        v = sos(theta)
        if cfg.get('sosret') == 'float' and cfg['nsos'] == 1:
            return float(v[0])
        return v

    if cfg.get('custom_kw'):
        def sosfun(theta, data, custom=None):
            return record(theta, custom)
    else:
        def sosfun(theta, data):
            return record(theta, None)
    m = dict(cfg.get('model', {}))
    for k in ('sigma2', 'S20', 'N0', 'N'):
        if isinstance(m.get(k), list) and cfg.get('as_array'):
            m[k] = np.array(m[k], dtype=float)
    if prior is not None:
        def pf(theta, mu, sigma):
            obs.priors.append(np.array(theta, dtype=float))
            return prior(theta, mu, sigma)
        m['prior_function'] = pf
    if 'S20' in m and m['S20'] is None:
        del m['S20']
    if cfg.get('batches'):
        def modelfun(x, theta):
            obs.evals.append(np.array(theta, dtype=float))
            obs.xs.append(np.array(x, dtype=float))
            return curve(x, theta)
        m['model_function'] = modelfun
    else:
        m['sos_function'] = sosfun
    mc.model_settings.define_model_settings(**m)
    set_options(mc, cfg, cfg.get('opt', {}))
    for i, p in enumerate(cfg['params']):
        mc.parameters.add_model_parameter(**written(p, i, cfg.get('written')))
    return mc


def written(p, i, how):
    """the same parameter with 0 and 1 or numpy booleans for flags, or with numpy numbers and one-element arrays"""
    p = dict(p)
    if how in ('flags', 'npflags'):
        f = int if how == 'flags' else np.bool_
        p.update(sample=f(p.get('sample', True)), adapt=f(p.get('adapt', True)))
    elif how == 'npnum':
        for k in ('theta0', 'prior_mu', 'prior_sigma'):
            if p.get(k) is not None:
                p[k] = np.float64(p[k]) if k != 'prior_mu' or i % 2 else np.array([p[k]])
        p.update(minimum=np.int64(-9), maximum=np.float32(9))
    return p


class Interrupted(Exception):
    pass


def set_options(mc, cfg, opt):
    o = dict(waitbar=False, verbosity=0)
    o.update(opt)
    for k in ('qcov', 'drscale'):
        if o.get(k) is not None:
            o[k] = np.array(o[k], dtype=float)
    if o.get('RDR') is not None:
        o['RDR'] = [np.array(r, dtype=float) for r in o['RDR']]
    mc.simulation_options.define_simulation_options(**o)


def close(a, b, rtol=1e-8, atol=1e-10):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def dedup(seq):
    out = []
    for x in seq:
        if not out or not np.allclose(out[-1], x, rtol=1e-9, atol=1e-12):
            out.append(x)
    return out


ALL = ('chain', 'sschain', 's2chain', 'theta', 'counts', 'iacce', 'R', 'RDR', 'cov', 'evals', 'meta', 'settings')


def compare(res, ref, obs, keys, mc=None):
    """First difference between the results of the real run and the reference, or None."""
    e, s = ref.expected, ref.s
    af, sc = ref.cfg.get('affine', (0.0, 1.0))

    def unit(x, power=1, shift=0.0):
        return None if x is None else (np.asarray(x, dtype=float) - shift)/sc**power

    def point(a, b):        # in units of the configuration's own scale
        return close(unit(a, 1, af), unit(b, 1, af))

    def energy(a, b):       # sums of squares and variances, in their own units
        u = ref.cfg.get('ssscale', 1.0)
        return close(a, b) if u == 1.0 or a is None or b is None else close(np.asarray(a)/u, np.asarray(b)/u)

    def width(a, b):
        return close(unit(a), unit(b))

    def square(a, b, **kw):
        return close(unit(a, 2), unit(b, 2), **kw)

    def bad(name, got, want):
        return '%s: got %s, expected %s' % (name, np.array2string(np.asarray(got, dtype=object), threshold=60),
                                            np.array2string(np.asarray(want, dtype=object), threshold=60))
    for k in keys:
        if k in ('chain', 'sschain', 's2chain'):
            if not (point if k == 'chain' else energy)(res[k], e[k]):
                return bad(k, res[k], e[k])
        elif k == 'theta':
            if not point(res['theta'], e['theta']):
                return bad(k, res['theta'], e['theta'])
        elif k == 'counts':
            if not close(res['total_rejected'], e['nrej']/s['nsimu']):
                return bad('total_rejected', res['total_rejected'], e['nrej']/s['nsimu'])
            if s['ntry'] == 1 and not close(res['rejected_outside_bounds'], e['nout']/s['nsimu']):
                return bad('rejected_outside_bounds', res['rejected_outside_bounds'], e['nout']/s['nsimu'])
            if res['nsimu'] != s['nsimu']:
                return bad('nsimu', res['nsimu'], s['nsimu'])
        elif k == 'iacce':
            if s['ntry'] > 1:
                want = e['iacce'].copy()
                want[0] = s['nsimu'] - e['nrej'] - want[1:].sum()
                if list(res['iacce']) != list(want):
                    return bad('iacce', res['iacce'], want)
        elif k == 'R':
            if not width(res['R'], e['R']):
                return bad('R', res['R'], e['R'])
            if not square(res['qcov'], np.dot(e['R'].T, e['R'])):
                return bad('qcov', res['qcov'], np.dot(e['R'].T, e['R']))
        elif k == 'RDR':
            if s['ntry'] > 1:
                got = res['RDR']
                if len(got) < s['ntry']:
                    return bad('number of RDR', len(got), s['ntry'])
                for i in range(s['ntry']):
                    if not width(got[i], e['RDR'][i]):
                        return bad('RDR[%d]' % i, got[i], e['RDR'][i])
        elif k == 'cov':
            if not square(res['cov'], e['cov'], atol=1e-9):
                return bad('cov', res['cov'], e['cov'])
            if not close(unit(res['mean'], 1, af), unit(e['mean'], 1, af), atol=1e-9):
                return bad('mean', res['mean'], e['mean'])
            if not close(res['qcov_scale'], s['scale']):
                return bad('qcov_scale', res['qcov_scale'], s['scale'])
        elif k == 'evals':
            a, b = dedup([unit(v, 1, af) for v in obs.evals]), dedup([unit(v, 1, af) for v in ref.evals])
            for i in range(min(len(a), len(b))):
                if not close(a[i], b[i]):
                    return bad('evaluation %d of the sum-of-squares' % i, a[i], b[i])
            if len(a) != len(b):
                return bad('number of evaluations', len(a), len(b))
            a, b = dedup([unit(v, 1, af) for v in obs.priors]), dedup([unit(v, 1, af) for v in ref.prior_evals])
            if obs.priors and (len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b))):
                return bad('evaluations of the prior', a, b)
        elif k == 'meta':
            if [int(i) for i in res['parind']] != s['ind']:
                return bad('parind', res['parind'], s['ind'])
            if list(res['names']) != [s['names'][i] for i in s['ind']]:
                return bad('names', res['names'], s['names'])
            if list(res['allnames']) != s['names']:
                return bad('allnames', res['allnames'], s['names'])
            if not (point(res['limits'][0], s['lo']) and point(res['limits'][1], s['hi'])):
                return bad('limits', res['limits'], (s['lo'], s['hi']))
            if not square(res['original_covariance'].reshape(s['Qfull'].shape)
                         if res['original_covariance'].size == s['Qfull'].size
                         else np.diag(res['original_covariance'].ravel()), s['Qfull']):
                return bad('original_covariance', res['original_covariance'], s['Qfull'])
            want = s['Qfull'].copy()
            want[np.ix_(s['ind'], s['ind'])] = np.dot(e['R'].T, e['R'])
            if not square(res['qcovorig'], want):
                return bad('qcovorig', res['qcovorig'], want)
            if not (point(res['prior']['mu'], s['mu_full']) and width(res['prior']['sigma'], s['sg_full'])):
                return bad('prior', res['prior'], (s['mu_full'], s['sg_full']))
        elif k == 'settings' and mc is not None:
            ms, so = mc.model_settings, mc.simulation_options
            for name in ('S20', 'N0', 'N'):
                if not (energy if name == 'S20' else close)(getattr(ms, name), s[name]):
                    return bad(name, getattr(ms, name), s[name])
            if not energy(ms.sigma2, ref.sigma2):
                return bad('sigma2', ms.sigma2, ref.sigma2)
            if ms.nsos != ref.cfg['nsos']:
                return bad('nsos', ms.nsos, ref.cfg['nsos'])
            if ms.nbatch != len(ref.cfg['ndata']):
                return bad('nbatch', ms.nbatch, len(ref.cfg['ndata']))
            for name in ('ntry', 'adaptint', 'nsimu', 'lastadapt'):
                if getattr(so, name) != s[name]:
                    return bad(name, getattr(so, name), s[name])
            if bool(so.updatesigma) != s['updatesigma']:
                return bad('updatesigma', so.updatesigma, s['updatesigma'])
    return None


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


@contextlib.contextmanager
def deadline(seconds=180):
    """A single bounded execution takes milliseconds; this only ends genuine non-termination."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = out, err


def last_frames(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if '/pymcmcstat/' in f.filename]
    return '%s: %s (%s)' % (type(ex).__name__, ex, ', '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fr[-3:]))


class Session:
    """One execution: a simulation object, its reference, and a history of runs."""
    def __init__(self, cfg, ch, keys=ALL, onstep=None, patch=None):
        self.cfg, self.ch, self.keys = cfg, ch, keys
        self.sos, self.prior = sos_library(cfg), prior_library(cfg)
        self.obs = Observed()
        self.ref = Ref(cfg, self.sos, self.prior)
        self.src = LockSource(cfg, ch, self._step)
        self.user_onstep = onstep
        self.states = []
        self._nsum, self._sum = 0, 0.0
        self.mc = None
        self.savedir = None
        self.snap = None

    def _step(self, st):
        s = self.ref.s
        rows = self.ref.rows
        if len(rows) < self._nsum:       # a new first run
            self._nsum, self._sum = 0, 0.0
        while self._nsum < len(rows):
            self._sum = self._sum + rows[self._nsum]
            self._nsum += 1
        self.states.append(hash((st['isimu'], self.ref.runs, np.round(st['theta'], 9).tobytes(),
                                 np.round(st['sigma2'], 9).tobytes(), np.round(s['R'], 9).tobytes(),
                                 np.round(self._sum, 9).tobytes())))
        if self.user_onstep:
            self.user_onstep(self, st)

    def make(self):
        with rng.use(self.src):
            if self.cfg.get('needs_dir'):
                self.savedir = env.scratch_dir()
                self.cfg = dict(self.cfg, opt=dict(self.cfg.get('opt', {}), savedir=self.savedir))
            self.mc = build(self.cfg, self.obs, self.sos, self.prior)

    def run(self, cont=False, override=None, redefine=True):
        """Run once.  Returns None (refused as expected) or the results dictionary."""
        if self.mc is None:
            self.make()
        if override:
            if redefine:
                opt = dict(self.cfg.get('opt', {}), **override)
                set_options(self.mc, self.cfg, opt)
            else:
                for k, v in override.items():
                    setattr(self.mc.simulation_options, k, v)
        refused = None
        nev = len(self.obs.evals)
        try:
            self.src.start(self.ref.simulate(cont=cont, opt_override=override))
        except Refused as ex:
            refused = str(ex)
            self.src.req = ('end',)
        if refused is not None:
            try:
                with quiet(), deadline(), rng.use(self.src):
                    self.mc.run_simulation(use_previous_results=cont)
            except SystemExit:
                evs = self.obs.evals[nev:]
                if len(dedup(evs)) > 1:
                    raise Violation('settings that must be refused (%s) were refused only after sampling' % refused)
                return None
            except (Protocol, Diverged_) as ex:
                raise Violation('settings that must be refused (%s) were sampled: %s' % (refused, ex))
            except Exception as ex:
                raise Violation('settings that must be refused (%s): %s' % (refused, last_frames(ex)))
            raise Violation('settings that must be refused (%s) were accepted' % refused)
        try:
            with quiet(), deadline(), rng.use(self.src):
                self.mc.run_simulation(use_previous_results=cont)
            self.src.finish()
        except Protocol as ex:
            raise Violation('random numbers drawn do not match the algorithm: %s%s' % (ex, self.where()))
        except Timeout:
            raise Violation('the simulation does not terminate')
        except (Exception, SystemExit) as ex:
            raise Violation('the simulation failed: %s%s' % (last_frames(ex), self.where()))
        res = self.mc.simulation_results.results
        d = compare(res, self.ref, self.obs, self.keys, self.mc)
        if d:
            raise Violation(d)
        return res

    def where(self):
        d = compare_evals(self.obs, self.ref)
        return (' [first difference: %s]' % d) if d else ''

    def close(self):
        if self.savedir:
            shutil.rmtree(self.savedir, ignore_errors=True)


def compare_evals(obs, ref):
    a, b = dedup(obs.evals), dedup(ref.evals)
    for i in range(min(len(a), len(b))):
        if not close(a[i], b[i]):
            return 'evaluation %d at %s, expected %s' % (i, a[i], b[i])
    return None


from .explore import Diverged as Diverged_  # noqa: E402
