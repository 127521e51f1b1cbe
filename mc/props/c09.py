import numpy as np
from ..lockstep import Session, Violation
from .common import V, grid, nm, LONGZ, absorb
from .logs import check_logs
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='first runs of 2-8 rows, all segment sizes 0..n+1, 0-2 continuations of 1-4 rows, h5/txt/both, '
          '1-2 columns, with and without error-variance and custom chains, user file names; runs of 24-125 rows with '
          '11-100 segments; runs of up to 5600 rows in segments of up to 6000; file names with dots; at most 1 non-default random outcome',
    thorough='first runs of 2-12 rows, continuations of 1-6 rows, at most 2 non-default outcomes, runs up to 330 rows')
FMT = {'h5': dict(save_to_bin=True), 'txt': dict(save_to_txt=True), 'both': dict(save_to_bin=True, save_to_txt=True)}


class Recorder:
    """custom sampler that fills two chains"""
    def __init__(self, n, k=1, save=True, tag=''):
        self.n, self.k, self.save_chain, self.tag = n, k, save, tag
        self.history = []
        self.t = 0

    def setup(self):
        self.a = np.zeros([self.n, self.k])
        self.b = np.zeros([self.n, 2])
        self.a[0, :] = 0.5 + len(self.history)
        self.chains = [dict(file='customA' + self.tag, mtx=self.a), dict(file='customB' + self.tag, mtx=self.b)]
        self.history.append((self.a, self.b))
        return 0.0

    def update(self, accept, isimu, current_set):
        self.t += 1
        self.a[isimu, :] = self.t + 0.25 + 100*len(self.tag)
        self.b[isimu, :] = [self.t*2.0, -float(isimu)]
        return 0.0

    def rows(self):
        A = np.concatenate([h[0] if i == 0 else h[0][1:] for i, h in enumerate(self.history)])
        B = np.concatenate([h[1] if i == 0 else h[1][1:] for i, h in enumerate(self.history)])
        return {'customA' + self.tag: A, 'customB' + self.tag: B}


def tasks(tier):
    out = []
    deep = tier == 'thorough'

    def add(name, var='one', cont=(), custom=0, dev=0, fmt='h5', **kw):
        t = V(name, var, dev=dev, cfg=dict(needs_dir=True, zcycle=True, accpat=[True, False, True], **kw.pop('cfg', {})),
              **FMT[fmt], **kw)
        t['cont'] = list(cont)
        t['custom'] = custom
        out.append(t)
    N = 12 if deep else 8
    for n in range(2, N + 1):
        for s in range(0, n + 2):
            add('one-%d-%d' % (n, s), shape='s', nsimu=n, savesize=s, fmt='both', method='am', adaptint=2, dev=1)
            add('upd-%d-%d' % (n, s), var='upd2', shape='sf', nsimu=n, savesize=s, fmt='both', method='dram',
                adaptint=3, custom=1)
    for d in grid(n=[2, 3, 5], s=[0, 1, 2, 3, 4], n2=[1, 2, 3, 4] + ([5, 6] if deep else []), n3=[0, 1, 3],
                  fmt=['h5', 'txt']):
        add(nm('cont', d), var='upd2' if d['n3'] == 1 else 'one', shape='ss' if d['n2'] % 2 else 's', nsimu=d['n'],
            savesize=d['s'], cont=[d['n2']] + ([d['n3']] if d['n3'] else []), fmt=d['fmt'], method='am', adaptint=2,
            initqcovn=2, custom=1 if d['s'] in (0, 2, 3) else 0, dev=1 if (d['n'] == 3 and d['n3'] == 0) or deep else 0)
    add('names', var='upd', shape='s', nsimu=7, savesize=2, cont=[4], fmt='both', chainfile='theta', sschainfile='rss',
        s2chainfile='variance', covchainfile='proposal', custom=2)
    add('names2', var='one', shape='ss', nsimu=5, savesize=2, fmt='both', chainfile='x_1', sschainfile='x_2',
        s2chainfile='x_3', covchainfile='x_4')
    longs = [(24, 2, 'both', []), (25, 1, 'h5', []), (125, 1, 'h5', []), (120, 10, 'both', [40]), (121, 11, 'txt', []),
             (101, 9, 'h5', [30, 30]), (110, 100, 'both', [105])]
    if deep:
        longs += [(330, 3, 'both', [25]), (211, 20, 'h5', [211])]
    for n, s, fmt, cont in longs:
        for var in ('one', 'upd2'):
            add('long-%d-%d-%s-%s' % (n, s, fmt, var), var=var, shape='ss' if var == 'one' else 's', nsimu=n,
                savesize=s, fmt=fmt, cont=cont, method='am', adaptint=15, custom=1,
                z=LONGZ[2 if var == 'one' else 1])
    add('names3', var='upd', shape='s', nsimu=5, savesize=2, cont=[3], fmt='both', chainfile='run.chain', sschainfile='run.ss',
        s2chainfile='run.s2', covchainfile='run.cov', custom=1)
    # segments of thousands of values
    for n, s, fmt, cont in [(2600, 0, 'both', []), (5000, 2200, 'h5', []), (6000, 5600, 'h5', []), (4700, 0, 'txt', []), (3300, 1100, 'both', [2300])] + (
            [(70000, 0, 'h5', []), (12000, 11000, 'both', [11500])] if deep else []):
        for var in ('one', 'upd2'):
            add('large-%d-%d-%s-%s' % (n, s, fmt, var), var=var, shape='ss', nsimu=n, savesize=s, fmt=fmt, cont=cont,
                method='mh', custom=1, z=LONGZ[2])
    return out


def run(task, ch, st):
    se = Session(task['cfg'], ch, ('chain', 'sschain', 's2chain'))
    try:
        se.make()
        n = task['cfg']['opt']['nsimu']
        cs = quietcs = []
        if task['custom']:
            cs = [Recorder(n, k=task['custom'], tag='x'*i) for i in range(task.get('loggers', 1))]
            quietcs = [Recorder(n, save=False) for i in range(len(cs))]
            se.mc.custom_samplers = [c for pair in zip(quietcs, cs) for c in pair]
        res = se.run()
        ends = [n - 1]
        verify(se, res, cs, ends)
        for m in task['cont']:
            for c in cs + quietcs:
                c.n = m + 1
            res = se.run(cont=True, override=dict(nsimu=m + 1), redefine=ch.choose(2, free=True) == 1)
            ends.append(ends[-1] + m)
            verify(se, res, cs, ends)
    finally:
        absorb(se, st)
        se.close()


def verify(se, res, cs, ends):
    o = se.cfg['opt']
    for ext, flag in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')):
        if o.get(flag):
            check_logs(se.savedir, ext, o, res['chain'], res['sschain'], res['s2chain'], se.ref,
                       {k: v for c in cs for k, v in c.rows().items()}, ends)
