"""Reference model of a DRAM simulation.

A plain, direct transcription of the published algorithm (Haario et al. 2001,
2006; Laine's mcmcstat), written from formulas, without recursion tricks:
 * acceptance probability from the densities,
 * delayed-rejection probability from the definition N(path)/N(reversed path),
 * adapted covariance from the complete chain history,
 * error variance from the conjugate inverse-gamma, drawn by Marsaglia-Tsang.

simulate() is a generator: it yields random-number requests
    ('z', n)                      n standard normals wanted
    ('u', p)                      an acceptance test with probability p: send back True/False
    ('g', shape)                  a gamma(shape,1) deviate: send back the value
and produces the expected trace.  The lock-step driver feeds it the same numbers
the real code gets.
"""
import math
import numpy as np


class Refused(Exception):
    """The settings must be refused before sampling."""


class Inconclusive(Exception):
    """Numerically undecidable point (e.g. Cholesky of a rank deficient matrix)."""


METHODS = {'mh': (0, 1), 'am': (100, 1), 'dr': (0, 2), 'dram': (100, 2)}


def vec(x):
    return np.atleast_1d(np.array(x, dtype=float))


class Ref:
    """cfg keys: params, opt, model, nsos, ndata (list of n per batch); sos(theta_full)->vector;
    prior(theta_sampled, mu, sigma) or None."""
    def __init__(self, cfg, sos, prior=None):
        self.cfg, self.sos, self.userprior = cfg, sos, prior
        self.rows = []      # chain so far
        self.ssrows = []
        self.s2rows = []
        self.evals = []     # full parameter vectors at which the sos must be evaluated
        self.prior_evals = []
        self.runs = 0
        self.covlog = []    # proposal covariance in force after every iteration
        self.events = {}
        # persistent across runs of the same object
        self.theta0 = None
        self.mu = None
        self.sigma2 = None
        self.updatesigma = None

    def count(self, what):
        self.events[what] = self.events.get(what, 0) + 1

    # ------------------------------------------------------------------
    def resolve(self, opt_override=None):
        c = self.cfg
        opt = dict(c.get('opt', {}))
        if opt_override:
            opt.update(opt_override)
        P = c['params']
        s = self.s = {}
        method = opt.get('method', 'dram')
        dai, dnt = METHODS[method]
        s['method'] = method
        s['adaptint'] = dai if (opt.get('adaptint') is None or method in ('mh', 'dr')) else opt['adaptint']
        s['ntry'] = dnt if opt.get('ntry') is None else opt['ntry']
        s['nsimu'] = int(opt.get('nsimu', 10000))
        la = opt.get('lastadapt', 0)
        s['lastadapt'] = s['nsimu'] if la < 1 else la
        s['burnintime'] = opt.get('burnintime', 0)
        s['burnin_scale'] = opt.get('burnin_scale', 10)
        s['qcov_adjust'] = opt.get('qcov_adjust', 1e-8)
        s['drscale'] = [float(d) for d in opt.get('drscale', [5., 4., 3.])]
        s['initqcovn'] = opt.get('initqcovn')
        s['savesize'] = opt.get('savesize', 0)
        if s['savesize'] <= 0 or s['savesize'] > s['nsimu']:
            s['savesize'] = s['nsimu']
        ind = s['ind'] = [i for i, p in enumerate(P) if p.get('sample', True)]
        npar = s['npar'] = len(ind)
        full0 = np.array([1.0 if p.get('theta0') is None else p['theta0'] for p in P], dtype=float)
        if self.theta0 is not None:   # continuation or rerun
            full0 = np.array(self.theta0)
        s['full0'] = full0
        s['names'] = [p.get('name') if p.get('name') is not None else '$p_{%d}$' % i for i, p in enumerate(P)]
        lo = np.array([p.get('minimum', -np.inf) for p in P], dtype=float)
        hi = np.array([p.get('maximum', np.inf) for p in P], dtype=float)
        s['lo'], s['hi'] = lo[ind], hi[ind]
        if any(not (a <= b) for a, b in zip(s['lo'], s['hi'])):
            raise Refused('limits')
        if (full0[ind] < s['lo']).any() or (full0[ind] > s['hi']).any():
            raise Refused('initial values')
        mu = np.array([p.get('prior_mu', 0.0) for p in P], dtype=float)
        if self.mu is None:
            self.mu = np.where(np.isnan(mu), full0, mu)
        sg = np.array([p.get('prior_sigma', np.inf) for p in P], dtype=float)
        sg_raw = np.where(sg == 0, np.inf, sg)
        sg = np.where(sg <= 0, np.inf, sg)
        s['mu'], s['sg'] = self.mu[ind], sg[ind]
        s['mu_full'], s['sg_full'] = self.mu.copy(), sg.copy()
        s['noadapt'] = np.array([not P[i].get('adapt', True) for i in ind], dtype=bool)
        # proposal
        q = opt.get('qcov')
        if q is None:
            v = sg**2
            bad = ~np.isfinite(v)
            v[bad] = (np.abs(full0[bad])*0.05)**2
            v[v == 0] = 1.0
            Q = np.diag(v)
        else:
            q = np.atleast_2d(np.array(q, dtype=float))
            Q = np.diag(q.ravel()) if min(q.shape) == 1 and q.size > 1 else q
            if min(q.shape) == 1 and q.size == 1:
                Q = q.reshape(1, 1)
        s['Qfull'] = Q
        C = s['qcov'] = Q[np.ix_(ind, ind)]
        s['R'] = np.linalg.cholesky(C).T
        ads = opt.get('adascale')
        s['scale'] = 2.4/math.sqrt(npar) if (ads is None or ads <= 0) else ads
        if opt.get('RDR') is not None and s['method'] in ('dr', 'dram'):
            s['RDR'] = [np.array(r, dtype=float) for r in opt['RDR']]
            s['R'] = s['RDR'][0]
        else:
            s['RDR'] = self.stages(s['R'])
        # error variance
        nsos, nd = c['nsos'], list(c['ndata'])
        m = c.get('model', {})
        n0, s2, s20 = m.get('N0'), m.get('sigma2'), m.get('S20')
        if n0 is None and s2 is None:
            S2, N0 = np.ones(1), np.zeros(1)
        elif n0 is None:
            S2, N0 = vec(s2), np.ones(1)
        else:
            N0 = vec(n0)
            S2 = vec(s2) if s2 is not None else (vec(s20) if s20 is not None else np.ones(1))
        S20 = vec(s20) if s20 is not None else S2.copy()

        def fit(x):
            if len(x) == 1:
                return np.ones(nsos)*x
            if len(x) != nsos:
                raise Refused('size of sigma2, S20, N0')
            return x.copy()
        s['S20'], s['N0'] = fit(S20), fit(N0)
        S2 = fit(S2)
        if self.sigma2 is None:
            self.sigma2 = S2
        N = vec(nd)
        un = m.get('N')
        if un is not None:
            un = vec(un)
            ok = (un.shape == N.shape and (un == N).all()) or (
                un.size == 1 and N.size > 1 and ((N == un[0]).all() or N.sum() == un[0])) or (
                N.size == 1 and un.size > 1 and (un == N[0]).all())
            if not ok:
                raise Refused('N')
            if N.size == 1 and un.size > 1:
                N = un
        if len(N) == 1:
            N = np.ones(nsos)*N
        elif nsos == 1:
            N = np.array([N.sum()])
        elif len(N) < nsos:
            raise Refused('N and nsos')
        s['N'] = N
        s['updatesigma'] = bool(opt.get('updatesigma', False)) or n0 is not None
        return s

    def stages(self, R):
        out = [np.array(R)]
        d = self.s['drscale']
        for k in range(1, self.s['ntry']):
            out.append(out[-1]/d[min(k, len(d)) - 1])
        return out

    # ------------------------------------------------------------------
    def evaluate(self, th):
        """sum-of-squares at sampled values th (recorded as an expected evaluation)"""
        full = self.s['full0'].copy()
        full[self.s['ind']] = th
        self.evals.append(full)
        return vec(self.sos(full))

    def prior(self, th):
        self.prior_evals.append(np.array(th))
        if self.userprior is not None:
            return float(np.sum(self.userprior(np.array(th), self.s['mu'], self.s['sg'])))
        t = 0.0
        for x, m, g in zip(th, self.s['mu'], self.s['sg']):
            if math.isfinite(g):
                t += ((m - x)/g)**2
        return t

    def inside(self, th):
        return bool((th >= self.s['lo']).all() and (th <= self.s['hi']).all())

    def near_limit(self, cand, th, R):
        """A candidate that meets a limit up to rounding is decided only where the arithmetic is exact."""
        af, sc = self.cfg.get('affine', (0.0, 1.0))
        near = (np.abs(cand - self.s['lo']) < 1e-9*sc) | (np.abs(cand - self.s['hi']) < 1e-9*sc)
        if near.any():
            a = np.concatenate([np.ravel(R)/sc, (np.ravel(th) - af)/sc])*4096.0
            if not (a == np.round(a)).all():
                raise Inconclusive('candidate meets a limit up to rounding')

    # log posterior (None: zero density)
    def logpost(self, pt, s2):
        if pt['ss'] is None:
            return None
        return -0.5*(float(np.sum(pt['ss']/s2)) + pt['prior'])

    def stage_log(self, path, s2, RDR):
        """Logarithm of the (unclamped) delayed rejection ratio for the last element of path."""
        k = len(path) - 1
        if path[-1]['ss'] is None:
            return -math.inf
        if path[0]['ss'] is None:
            return math.inf
        log = self.logpost(path[-1], s2) - self.logpost(path[0], s2)
        rej_f = rej_b = 1.0
        for i in range(1, k):
            lf = self.stage_log(path[:i+1], s2, RDR)
            lb = self.stage_log(path[::-1][:i+1], s2, RDR)
            if abs(lf) < 1e-8 or abs(lb) < 1e-8:
                raise Inconclusive('tie up to rounding in a rejection probability')
            rej_f *= 1.0 - math.exp(min(lf, 0.0))
            rej_b *= 1.0 - math.exp(min(lb, 0.0))
            iR = np.linalg.inv(RDR[i-1])
            fwd = np.dot(path[i]['th'] - path[0]['th'], iR)
            bwd = np.dot(path[k-i]['th'] - path[k]['th'], iR)
            log += -0.5*float(np.dot(bwd, bwd)) + 0.5*float(np.dot(fwd, fwd))
        if rej_b == 0.0:
            return -math.inf
        if rej_f == 0.0:
            return math.inf
        return log + math.log(rej_b) - math.log(rej_f)

    def stage_alpha(self, path, s2, RDR):
        """Delayed rejection acceptance probability of the last element of path."""
        return math.exp(min(self.stage_log(path, s2, RDR), 0.0))

    # ------------------------------------------------------------------
    def gamma(self, a):
        """Marsaglia and Tsang (2000)"""
        return (yield ('g', a))

    def adapt(self, isimu, interval, rej_int, chain):
        s = self.s
        if isimu < s['burnintime']:
            rate = rej_int/interval
            if rate > 0.95:
                s['R'] = s['R']/s['burnin_scale']
                self.count('burnin down')
            elif rate < 0.05:
                s['R'] = s['R']*s['burnin_scale']
                self.count('burnin up')
            else:
                self.count('burnin keep')
        else:
            X = np.array(chain[:-1])
            n = X.shape[0]
            if s['initqcovn'] is None:
                mean = X.mean(axis=0)
                D = X - mean
                cov = np.dot(D.T, D)/(n - 1) if n > 1 else np.zeros((s['npar'],)*2)
                if n > 1 and (X == X[0]).all():
                    cov = np.zeros((s['npar'],)*2)
            else:
                n0 = s['initqcovn']
                mean = (n0*s['start'] + X.sum(axis=0))/(n0 + n)
                D, d0 = X - mean, (s['start'] - mean)
                cov = ((n0 - 1)*s['qcov'] + n0*np.outer(d0, d0) + np.dot(D.T, D))/(n0 + n - 1)
            s['cov'], s['mean'] = cov, mean
            up = cov.copy()
            na = s['noadapt']
            up[na, :] = s['qcov'][na, :]
            up[:, na] = s['qcov'][:, na]
            s['R'] = self.factor(up, s)
            self.count('adapted')
        s['RDR'] = self.stages(s['R'])

    def factor(self, up, s):
        def pd(M):
            if np.all(M == 0):
                return False
            w = np.linalg.eigvalsh(M)
            top = np.max(np.abs(w))
            if w[0] > 1e-9*top:
                return True
            if w[0] < -1e-9*top:
                return False
            dg = np.diag(M)
            if (dg == 0).any() and all((M[i, :] == 0).all() for i in np.flatnonzero(dg == 0)):
                return False      # an exactly zero row: not positive definite, without rounding
            raise Inconclusive('rank deficient covariance')
        if pd(up):
            return np.linalg.cholesky(up).T*s['scale']
        adj = up + np.eye(s['npar'])*s['qcov_adjust']
        if pd(adj):
            self.count('regularised')
            return np.linalg.cholesky(adj).T*s['scale']
        self.count('singular kept')
        return s['R']

    # ------------------------------------------------------------------
    def simulate(self, cont=False, opt_override=None):
        """One run.  cont: continue from previous rows."""
        if not cont and self.runs > 0:
            raise NotImplementedError
        s = self.resolve(opt_override)
        ind, npar = s['ind'], s['npar']
        s['cov'] = s['mean'] = None
        th = s['full0'][ind].copy()
        s['start'] = th.copy()
        cur = dict(th=th, ss=self.evaluate(th), prior=self.prior(th))
        s2 = self.sigma2.copy()
        if s['initqcovn'] is not None:
            s['cov'], s['mean'] = s['qcov'].copy(), th.copy()
        offset = max(len(self.rows) - 1, 0)
        if not cont:
            self.rows.append(th.copy())
            self.ssrows.append(cur['ss'].copy())
            self.s2rows.append(s2.copy())
        self.base = offset
        rej = rejint = out = 0
        iacce = np.zeros(s['ntry'], dtype=int)
        ii = 0
        self.isteps = []
        for isimu in range(1, s['nsimu']):
            ii += 1
            path = [cur]
            accepted = None
            lastout = False
            for k in range(1, s['ntry'] + 1):
                z = yield ('z', npar)
                R = s['R'] if k == 1 else s['RDR'][k-1]
                cand = cur['th'] + np.dot(np.asarray(z), R)
                self.near_limit(cand, cur['th'], R)
                if not self.inside(cand):
                    path.append(dict(th=cand, ss=None, prior=0.0))
                    lastout = True
                    self.count('outside stage %d' % k)
                    yield ('u', 0.0)
                    continue
                lastout = False
                pt = dict(th=cand, ss=self.evaluate(cand), prior=self.prior(cand))
                path.append(pt)
                if not np.isfinite(pt['ss']).all():
                    pt['ss'] = None      # no density: rejected, in any stage and in both directions
                    self.count('no density stage %d' % k)
                    yield ('u', 0.0)
                    continue
                if k == 1:
                    a = math.exp(min(0.0, self.logpost(pt, s2) - self.logpost(cur, s2)))
                else:
                    a = self.stage_alpha(path, s2, s['RDR'])
                if (yield ('u', a)):
                    accepted = k
                    break
            if accepted:
                cur = path[-1]
                iacce[accepted-1] += 1
                self.count('accept stage %d' % accepted)
            else:
                rej += 1
                rejint += 1
                out += bool(lastout)
                self.count('reject')
            self.rows.append(cur['th'].copy())
            self.ssrows.append(cur['ss'].copy())
            if s['adaptint'] > 0 and ii == s['adaptint'] and isimu <= s['lastadapt']:
                self.adapt(isimu, ii, rejint, self.rows)
                ii = 0
                rejint = 0
            if s['updatesigma']:
                new = np.empty_like(s2)
                for j in range(len(s2)):
                    a = 0.5*(s['N0'][j] + s['N'][j])
                    b = 0.5*(s['N0'][j]*s['S20'][j] + cur['ss'][j])
                    g = yield ('g', a)
                    new[j] = b/g
                s2 = new
            self.s2rows.append(s2.copy())
            self.covlog.append(np.dot(s['R'].T, s['R']))
            full = s['full0'].copy()
            full[ind] = cur['th']
            step = dict(isimu=isimu, accept=bool(accepted), theta=cur['th'].copy(), ss=cur['ss'].copy(),
                        sigma2=s2.copy(), evals=len(self.evals))
            self.isteps.append(step)
            yield ('step', step)
        # end of run
        self.runs += 1
        self.sigma2 = s2
        full = s['full0'].copy()
        full[ind] = cur['th']
        self.theta0 = full
        self.expected = dict(
            chain=np.array(self.rows), sschain=np.array(self.ssrows),
            s2chain=np.array(self.s2rows) if s['updatesigma'] else None,
            theta=full, nrej=rej, nout=out, iacce=iacce, R=s['R'], RDR=s['RDR'], cov=s['cov'], mean=s['mean'])
