"""Controlled random numbers.

Every np.random entry point is replaced by a dispatcher.  While a Source is
active (rng.use(source)) the draw is delegated to it as one of three requests
- normal(n), uniform(n), gamma(shape) - whatever function the code used to ask
for it; otherwise the genuine numpy function is called.
"""
import contextlib
import numpy as np

_real = {}
_state = {'source': None, 'log': None}


class ProtocolError(Exception):
    """The code asked for a random number the reference did not expect."""


def _size(size):
    if size is None:
        return None, 1
    sh = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
    n = 1
    for s in sh:
        n *= s
    return sh, n


def _shape(vals, sh):
    vals = np.asarray(vals, dtype=float)
    return float(vals[0]) if sh is None else vals.reshape(sh)


def _args_to_size(d):
    return None if len(d) == 0 else tuple(d)


class Methods:
    """numpy.random API in terms of the source's three requests."""
    def __init__(self, get):
        self._get = get

    def standard_normal(self, size=None, dtype=None, out=None):
        sh, n = _size(size)
        return _shape(self._get().normal(n), sh)

    def randn(self, *d):
        return self.standard_normal(_args_to_size(d))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale*self.standard_normal(size)

    def multivariate_normal(self, mean, cov, size=None, check_valid=None, tol=None, method=None):
        mean = np.asarray(mean, dtype=float)
        sh, n = _size(size)
        L = np.linalg.cholesky(np.atleast_2d(cov))
        z = np.asarray(self._get().normal(n*mean.size)).reshape(n, mean.size)
        x = mean + np.dot(z, L.T)
        return x[0] if sh is None else x.reshape(sh + (mean.size,))

    def random_sample(self, size=None, dtype=None, out=None):
        sh, n = _size(size)
        return _shape(self._get().uniform(n), sh)

    random = ranf = sample = random_sample

    def rand(self, *d):
        return self.random_sample(_args_to_size(d))

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (high - low)*self.random_sample(size)

    def standard_exponential(self, size=None, dtype=None, method=None, out=None):
        return -np.log(self.random_sample(size))

    def exponential(self, scale=1.0, size=None):
        return scale*self.standard_exponential(size)

    def standard_gamma(self, shape, size=None, dtype=None, out=None):
        if size is None and np.ndim(shape):
            size = np.shape(shape)
        sh, n = _size(size)
        shapes = np.broadcast_to(np.asarray(shape, dtype=float).ravel(), (n,)) if np.ndim(shape) else [float(shape)]*n
        return _shape([self._get().gamma(float(a)) for a in shapes], sh)

    def gamma(self, shape, scale=1.0, size=None):
        if size is None and np.ndim(scale):
            size = np.broadcast(shape, scale).shape
        return scale*self.standard_gamma(shape, size)

    def chisquare(self, df, size=None):
        return 2.0*self.standard_gamma(np.asarray(df)/2.0 if np.ndim(df) else df/2.0, size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        u = self.random_sample(size)
        return (low + np.floor(u*(high - low))).astype(int) if np.ndim(u) else int(low + u*(high - low))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + (1 if endpoint else 0), size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if not replace or p is not None:
            raise ProtocolError('weighted choice or choice without replacement')
        return a[self.randint(0, len(a), size)]

    def seed(self, seed=None):
        self._get().seed(seed)

    def get_state(self, legacy=True):
        return ('controlled',)

    def set_state(self, state):
        self._get().seed(('state', state))

    def shuffle(self, x, axis=0):
        raise ProtocolError('shuffle')

    def permutation(self, x):
        raise ProtocolError('permutation')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def unsupported(*a, **k):
            raise ProtocolError('np.random.' + name)
        return unsupported


NAMES = ['standard_normal', 'randn', 'normal', 'multivariate_normal', 'random_sample', 'random', 'ranf', 'sample',
         'rand', 'uniform', 'standard_exponential', 'exponential', 'standard_gamma', 'gamma', 'chisquare', 'randint',
         'choice', 'seed', 'get_state', 'set_state', 'shuffle', 'permutation']


def active():
    return _state['source']


def install():
    if _real:
        return
    m = Methods(active)

    def make(name):
        real = getattr(np.random, name)
        ctl = getattr(m, name)

        def fn(*a, **k):
            if _state['source'] is None:
                return real(*a, **k)
            return ctl(*a, **k)
        fn.__name__ = name
        _real[name] = real
        setattr(np.random, name, fn)
    for name in NAMES:
        make(name)
    for name in ('default_rng', 'RandomState'):
        real = getattr(np.random, name)
        _real[name] = real

        def mk(*a, _real_fn=real, **k):
            src = _state['source']
            if src is None:
                return _real_fn(*a, **k)
            src.seed(a[0] if a else None)
            return Methods(active)
        if name == 'default_rng':
            setattr(np.random, name, mk)
        else:
            # keep it a class for isinstance(), but divert construction while active
            class RS(real):
                def __new__(cls, *a, **k):
                    if _state['source'] is None:
                        return real.__new__(cls, *a, **k)
                    _state['source'].seed(a[0] if a else None)
                    return Methods(active)
            setattr(np.random, name, RS)


@contextlib.contextmanager
def use(source):
    old = _state['source']
    _state['source'] = source
    try:
        yield source
    finally:
        _state['source'] = old
