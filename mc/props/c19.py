"""Interrupted simulations: every point of failure, and what the log files then hold.

kill    the process disappears: the folder is examined as it is on disk at every executed line of the package, of h5py
        and of numpy's text writer (unflushed data is not there) - every such state is a crash state
raise   an evaluation of the user's function (sum-of-squares, prior, custom sampler) raises
write   an operation on a log file fails, before or after taking effect
In every one of these states each log file read back through the library must be a prefix of the chain, must not have lost
rows readable earlier, and must hold every full segment that has a row beyond it decided before the current iteration.
"""
import builtins
import errno
import gc
import os
import shutil
import sys
import zlib
import numpy as np
from .. import env, rng
from ..lockstep import Session, Violation, Interrupted, Abort, Protocol, quiet, deadline, last_frames, close
from ..explore import Chooser
from ..runner import Stats
from .common import V, grid, nm, absorb
LEVEL = 'fault_enumeration'
BOUNDS = dict(
    quick='runs of 2-7 rows with all segment sizes 0..n, binary/text/both, 1-2 columns, with and without error variance and custom chains, '
          'methods mh/dram, 0-2 continuations: every line of the package as a kill point; every evaluation x 3 kinds of exception; every '
          'operation on a log file x before/after; one random history (all single deviations for one configuration)',
    thorough='runs of 2-11 rows, all single deviations of the random history')
RULE = 'a distinct state is the set of rows readable from every log file together with the rows decided, in one configuration'
ASSUMPTIONS = ['a write of one row, index line or data set either happens or not (torn rows are not enumerated)',
               'what the operating system holds at the time of a kill is what is read back (no loss of completed system calls)']
FMT = {'h5': dict(save_to_bin=True), 'txt': dict(save_to_txt=True), 'both': dict(save_to_bin=True, save_to_txt=True)}


def tasks(tier):
    deep = tier == 'thorough'
    out = []

    def add(kind, name, var, cont=(), fmt='both', custom=0, dev=0, **kw):
        t = V('%s-%s' % (kind, name), var, dev=dev, cfg=dict(needs_dir=True, zcycle=True, accpat=[True, False, True], **kw.pop('cfg', {})),
              **FMT[fmt], **kw)
        t.update(kind=kind, cont=list(cont), custom=custom)
        out.append(t)
    N = 11 if deep else 7
    for n in range(2, N + 1):
        for s in range(0, n + 1):
            v = 'upd2' if (n + s) % 2 else 'one'
            sh = 'ss' if s % 2 else 's'
            for kind in ('kill', 'raise', 'write'):
                add(kind, 'n%d-s%d' % (n, s), v, shape=sh, nsimu=n, savesize=s, method='dram' if n % 2 else 'mh', custom=s % 3,
                    dev=1 if deep else 0)
    for d in grid(n=[2, 4], s=[0, 1, 2, 3], c=[(1,), (3,), (2, 2), (5,)], fmt=['h5', 'txt']):
        for kind in ('kill', 'raise', 'write'):
            add(kind, nm('cont', d), 'upd' if d['s'] % 2 else 'one', shape='sf', nsimu=d['n'], savesize=d['s'], cont=d['c'], fmt=d['fmt'],
                custom=1 if d['n'] == 4 else 0, dev=1 if deep else 0)
    for kind in ('kill', 'raise', 'write'):
        add(kind, 'dev', 'upd', shape='s', nsimu=5, savesize=2, cont=(2,), dev=1 if not deep else 3, method='dram', lim='tight')
        add(kind, 'names', 'upd', shape='s', nsimu=5, savesize=2, cont=(2,), chainfile='a', sschainfile='b', s2chainfile='c', covchainfile='d')
        add(kind, 'many', 'one', shape='ss', nsimu=26, savesize=2)
        add(kind, 'prior', 'upd2', shape='s', nsimu=5, savesize=2, prior='custom')
    return out


class Custom:
    def __init__(self, hook):
        self.hook, self.save_chain, self.n, self.t, self.hist = hook, True, 0, 0, []

    def setup(self):
        self.a = np.zeros([self.n, 1])
        self.a[0] = 0.5
        self.chains = [dict(file='mine', mtx=self.a)]
        self.hist.append(self.a)
        return 0

    def update(self, accept, isimu, current_set):
        self.hook('custom')
        self.t += 1
        self.a[isimu] = self.t + 0.25
        return self.t

    def rows(self):
        if not self.hist:
            return np.zeros([0, 1])
        return np.concatenate([h if i == 0 else h[1:] for i, h in enumerate(self.hist)])


# ------------------------------------------------------------------ fault injection on files
class Faults:
    def __init__(self, root, at, after):
        self.root, self.at, self.after, self.n, self.depth = os.path.realpath(root), at, after, 0, 0
        self.fired = False

    def point(self, fn):
        """one operation on a log file"""
        if self.depth:
            return fn()
        self.n += 1
        me = self.n == self.at
        if me and not self.after:
            self.fired = True
            raise OSError(errno.ENOSPC, 'No space left on device')
        self.depth += 1
        try:
            r = fn()
        finally:
            self.depth -= 1
        if me:
            self.fired = True
            raise OSError(errno.EIO, 'Input/output error')
        return r

    def mine(self, name):
        try:
            return os.path.realpath(os.fspath(name) if not isinstance(name, bytes) else name.decode()).startswith(self.root)
        except TypeError:
            return False

    def __enter__(self):
        import h5py
        self.o = (builtins.open, h5py.File.__init__, h5py.Group.create_dataset, h5py.Group.__setitem__)
        op, fi, cd, si = self.o
        F = self

        class Handle:
            def __init__(s, h):
                s.__dict__['h'] = h

            def __getattr__(s, k):
                return getattr(s.h, k)

            def __iter__(s):
                return iter(s.h)

            def write(s, v):
                return F.point(lambda: s.h.write(v)) if not F.depth else s.h.write(v)

            def writelines(s, vs):
                for v in vs:
                    s.write(v)

            def __enter__(s):
                s.h.__enter__()
                return s

            def __exit__(s, *a):
                return s.h.__exit__(*a)

        def myopen(file, mode='r', *a, **k):
            if isinstance(mode, str) and any(c in mode for c in 'wax+') and not isinstance(file, int) and F.mine(file):
                return Handle(F.point(lambda: op(file, mode, *a, **k)))
            return op(file, mode, *a, **k)

        def init(s, name=None, mode='r', *a, **k):
            if mode != 'r' and F.mine(name):
                return F.point(lambda: fi(s, name, mode, *a, **k))
            return fi(s, name, mode, *a, **k)

        def create(s, *a, **k):
            return F.point(lambda: cd(s, *a, **k))

        def setitem(s, *a, **k):
            return F.point(lambda: si(s, *a, **k))
        builtins.open = myopen
        h5py.File.__init__, h5py.Group.create_dataset, h5py.Group.__setitem__ = init, create, setitem
        return self

    def __exit__(self, *a):
        import h5py
        builtins.open, h5py.File.__init__, h5py.Group.create_dataset, h5py.Group.__setitem__ = self.o


# ------------------------------------------------------------------ states of the folder
def stamp(d):
    out = []
    try:
        with os.scandir(d) as it:
            for e in it:
                with open(e.path, 'rb') as f:
                    out.append((e.name, zlib.crc32(f.read())))
    except FileNotFoundError:
        pass
    return tuple(sorted(out))


class Trial:
    def __init__(self, task, ch, st):
        self.task, self.ch, self.st = task, ch, st
        self.se = Session(task['cfg'], ch, ('chain', 'sschain', 's2chain'))
        self.offset = 0             # rows logged by earlier runs
        self.required = 0
        self.states = []            # (label, required, {file: rows})
        self.seen = {}              # file -> largest number of rows read
        self.last = None
        self.busy = False
        self.ncalls = 0
        self.fail = None
        o = task['cfg']['opt']
        self.size = o['savesize']
        self.files = dict(chain=o.get('chainfile', 'chainfile'), sschain=o.get('sschainfile', 'sschainfile'), s2chain=o.get('s2chainfile', 's2chainfile'))
        if task['custom']:
            self.files['custom'] = 'mine'
        self.exts = [e for e, k in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')) if o.get(k)]

    def hook(self, what):
        """a call of user code"""
        n = len(self.se.ref.rows)
        if what == 'sos' and self.running:
            s = self.cur_size
            d = n - self.offset
            first = self.offset
            self.required = max(self.required, first + max(0, (d - 1)//s)*s)
        self.ncalls += 1
        if self.fail and self.ncalls == self.fail[0]:
            self.fired = True
            raise self.fail[1]('user code failed')

    def setup(self):
        se = self.se
        self.running = False
        base = se.sos
        T = self

        def sos(theta):
            T.hook('sos')
            return base(theta)
        se.sos = sos
        if se.prior is not None:
            pb = se.prior

            def prior(th, mu, sg):
                T.hook('prior')
                return pb(th, mu, sg)
            se.prior = prior
        se.make()
        se.sos = base
        self.fired = False
        self.custom = None
        if self.task['custom']:
            self.custom = Custom(self.hook)
            se.mc.custom_samplers = [self.custom]

    def start(self, cont, n, redefine):
        """prepare run and reference; returns the function that runs the real code"""
        se = self.se
        if self.custom:
            self.custom.n = n
        ov = None
        if cont:
            ov = dict(nsimu=n)
            if redefine:
                from ..lockstep import set_options
                set_options(se.mc, se.cfg, dict(se.cfg['opt'], **ov))
            else:
                se.mc.simulation_options.nsimu = n
            self.offset = len(se.ref.rows)
        s = self.size if redefine or not cont else self.cur_size
        self.cur_size = n if s <= 0 or s > n else s
        self.n = n
        self.running = False
        se.src.start(se.ref.simulate(cont=cont, opt_override=ov))
        self.running = True

        def go():
            with rng.use(se.src):
                se.mc.run_simulation(use_previous_results=cont)
            se.src.finish()
        return go

    def read(self, d):
        from pymcmcstat.chain import ChainProcessing as CP
        out = {}
        with quiet():
            for k, f in self.files.items():
                for ext in self.exts:
                    p = os.path.join(d, '%s.%s' % (f, ext))
                    got = CP.read_in_bin_file(p) if ext == 'h5' else CP.read_in_txt_file(p)
                    out[k, ext] = np.array(got, dtype=float)
        return out

    def state(self, label, d=None):
        """examine the folder as it is"""
        src = d or self.se.savedir
        tmp = os.path.join(env.SCRATCH, 'snap_%d' % os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        if os.path.isdir(src):
            shutil.copytree(src, tmp)
        else:
            os.makedirs(tmp)
        try:
            self.states.append((label, self.required, self.read(tmp)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def verify(self):
        """all recorded states against the (now known) chain"""
        ref, st = self.se.ref, self.st
        upd = ref.s['updatesigma']
        want = dict(chain=np.array(ref.rows), sschain=np.array(ref.ssrows), s2chain=np.array(ref.s2rows))
        if self.custom:
            want['custom'] = self.custom.rows()
        top = {}
        for label, req, files in self.states:
            for key, got in files.items():
                k, ext = key
                if k == 's2chain' and not upd:
                    if got.size:
                        raise Violation('%s: error-variance chain in the files without updating' % label)
                    continue
                w = want[k]
                m = len(got) if got.size else 0
                if m and (got.ndim != 2 or got.shape[1] != w.shape[1]):
                    raise Violation('%s: %s.%s reads back with shape %s' % (label, k, ext, got.shape))
                if m > len(w):
                    raise Violation('%s: %s.%s holds %d rows of a chain of %d' % (label, k, ext, m, len(w)))
                if m and not close(got, w[:m]):
                    bad = [i for i in range(m) if not close(got[i], w[i])]
                    raise Violation('%s: row %d of %s.%s is %s, the chain has %s' % (label, bad[0], k, ext, got[bad[0]], w[bad[0]]))
                if m < top.get(key, 0):
                    raise Violation('%s: %s.%s reads back %d rows, %d were readable before' % (label, k, ext, m, top[key]))
                if m < req:
                    raise Violation('%s: %s.%s holds %d rows, segments up to row %d were complete' % (label, k, ext, m, req))
                top[key] = m
            st.state(self.task['name'], label, req, sorted((k, len(v)) for k, v in files.items()))
            st.trans += 1
        self.states = []


def packages():
    import h5py
    import pymcmcstat
    import numpy.lib.npyio as npyio
    return (os.path.dirname(os.path.realpath(pymcmcstat.__file__)), os.path.dirname(os.path.realpath(h5py.__file__)), os.path.realpath(npyio.__file__))


def guarded(go):
    """the real code; failures other than the injected ones are violations"""
    try:
        with quiet(), deadline():
            go()
    except Protocol as ex:
        raise Violation('random numbers drawn do not match the algorithm: %s' % ex)
    except (Exception, SystemExit) as ex:
        raise Violation('the simulation failed: %s' % last_frames(ex))


def kill(T, cont, n, red):
    go = T.start(cont, n, red)
    roots = packages()
    cache = {}
    d = T.se.savedir

    def local(frame, event, arg):
        if T.busy:
            return local
        T.busy = True
        try:
            s = stamp(d)
            if s != T.last or T.required != T.lastreq:
                T.last, T.lastreq = s, T.required
                T.state('killed at %s:%d with %d rows decided' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, len(T.se.ref.rows)))
        finally:
            T.busy = False
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        ok = cache.get(f)
        if ok is None:
            ok = cache[f] = os.path.realpath(f).startswith(roots)
        return local if ok and not T.busy else None
    T.last, T.lastreq = stamp(d), T.required

    def traced():
        sys.settrace(tracer)
        try:
            go()
        finally:
            sys.settrace(None)
    guarded(traced)
    T.required = len(T.se.ref.rows)
    T.state('after the run')
    T.verify()


def plain(T, cont, n, red):
    guarded(T.start(cont, n, red))
    T.required = len(T.se.ref.rows)
    T.state('after the run')
    T.verify()


KINDS = [Interrupted, KeyboardInterrupt, MemoryError]


def interrupted(T, cont, n, red, prepare, label, wrap=None):
    """run with one failure; True if it happened"""
    go = T.start(cont, n, red)
    prepare()
    T.fired = False
    try:
        with quiet(), deadline():
            try:
                go() if wrap is None else wrap(go)
            except (Interrupted, KeyboardInterrupt, MemoryError, OSError) as ex:
                if not T.fired:
                    raise Violation('the simulation failed: %s' % last_frames(ex))
                ex.__traceback__ = None
            except Protocol as ex:
                raise Violation('random numbers drawn do not match the algorithm: %s' % ex)
            except (Exception, SystemExit) as ex:
                raise Violation('%s: %s' % ('unexpected failure' if T.fired else 'the simulation failed', last_frames(ex)))
    finally:
        T.fail = None
    T.st.execs % 40 or gc.collect()
    if not T.fired:
        T.required = len(T.se.ref.rows)
    else:
        T.se.src.zbuf or T.se.src.skip()        # a decision that needs no random number may have been made
    T.state(label)
    T.verify()
    return T.fired


def run(task, ch, st):
    T = Trial(task, ch, st)
    plan = [(False, task['cfg']['opt']['nsimu'])] + [(True, m + 1) for m in task['cont']]
    red = ch.choose(2, free=True) == 1 if task['cont'] else True
    try:
        T.setup()
        if task['kind'] == 'kill':
            for cont, n in plan:
                kill(T, cont, n, red)
            return
        # the run that fails, and where: all choices, up to the first that lies beyond the end
        which = ch.choose(len(plan), free=True)
        for cont, n in plan[:which]:
            plain(T, cont, n, red)
        cont, n = plan[which]
        if task['kind'] == 'raise':
            kind = KINDS[ch.choose(len(KINDS), free=True)]
            at = 1 + ch.choose(points(task, which, st), free=True)
            base = T.ncalls

            def prepare():
                T.fail = (base + at, kind)
            fired = interrupted(T, cont, n, red, prepare, '%s in call %d of the user code of run %d' % (kind.__name__, at, which))
        else:
            after = ch.choose(2, free=True) == 1
            at = 1 + ch.choose(points(task, which, st), free=True)
            F = Faults(T.se.savedir, at, after)

            def wrap(go):
                with F:
                    try:
                        go()
                    finally:
                        T.fired = F.fired
            fired = interrupted(T, cont, n, red, lambda: None, 'operation %d on the log files of run %d fails %s' % (at, which, 'after' if after else 'before'), wrap)
        st.event('interrupted' if fired else 'beyond the end')
    finally:
        absorb(T.se, st)
        T.se.close()


COUNTS = {}


def points(task, which, st):
    """number of points of failure of run `which` in the undisturbed history (and four more: other histories may have more)"""
    key = repr((task, which))
    if key not in COUNTS:
        T = Trial(task, Chooser([]), Stats())
        plan = [(False, task['cfg']['opt']['nsimu'])] + [(True, m + 1) for m in task['cont']]
        try:
            T.setup()
            for cont, n in plan[:which]:
                plain(T, cont, n, True)
            base = T.ncalls
            cont, n = plan[which]
            go = T.start(cont, n, True)
            with Faults(T.se.savedir, -1, False) as F:
                guarded(go)
            COUNTS[key] = (T.ncalls - base if task['kind'] == 'raise' else F.n) + (4 if task.get('dev') else 1)
        finally:
            T.se.close()
    return COUNTS[key]
