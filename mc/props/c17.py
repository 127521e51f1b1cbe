"""Custom samplers: order and contents of all calls, compared with the reference's iterations."""
import copy
import numpy as np
from ..lockstep import Session, Violation, close
from . import c09
from .common import V, grid, nm, LONGZ, absorb
LEVEL = 'model_checking'
BOUNDS = dict(
    quick='0-3 (also 5 and 12) custom samplers, methods mh/am/dr/dram, 1-2 sampled parameters (with fixed ones), one or two error variances with and '
          'without updating, 4 iterations and continuations of 2-3, functions that do and do not accept the outputs, outputs of any type; all random outcomes up to '
          '3 deviations; sampler lists changed between runs; chains saved with segments 0-4',
    thorough='the same with all outcomes up to 6 deviations')


class Recording:
    """Custom sampler that keeps what it is told, on a time line shared with the user's function."""
    def __init__(self, k, line, obs, kind=None):
        self.k, self.line, self.obs, self.kind = k, line, obs, kind
        self.calls = 0

    def out(self):
        self.calls += 1
        kinds = [dict(sampler=self.k, call=self.calls), np.array([self.k, self.calls], dtype=float), None, 0.0, [], False, np.zeros(0),
                 'sampler %d' % self.k]
        if self.kind == 'odd':        # outputs of any type, also None, and other ones in every call
            return kinds[(self.calls + 1 + 3*self.k) % len(kinds)]
        if self.kind == 'odd2':
            return kinds[(self.calls + 6 + 3*self.k) % len(kinds)]
        return kinds[self.k % 2]

    def setup(self):
        o = self.out()
        self.line.append(('setup', self.k, len(self.obs.evals), o))
        return o

    def update(self, accept, isimu, current_set):
        o = self.out()
        c = current_set
        self.line.append(('update', self.k, len(self.obs.evals), o, bool(accept), isimu, np.array(c.theta, dtype=float),
                          np.array(c.ss, dtype=float), np.array(c.sigma2, dtype=float)))
        return o


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    for d in grid(nc=[0, 1, 2, 3], shape=['s', 'fs', 'ss'], method=['mh', 'am', 'dr', 'dram'], var=['one', 'upd', 'upd2'],
                  kw=[True, False], lim=['none', 'tight']):
        if d['nc'] in (0, 3) and (d['shape'] != 'fs' or d['var'] != 'upd'):
            continue
        if not d['kw'] and (d['lim'] == 'tight' or d['nc'] != 2):
            continue
        o = {}
        if d['method'] in ('am', 'dram'):
            o = dict(adaptint=2, initqcovn=2)
        t = V(nm('cs', d), d['var'], shape=d['shape'], method=d['method'], lim=d['lim'], nsimu=4, q='full',
              dev=6 if deep else 3, cfg=dict(custom_kw=d['kw']), **o)
        t['nc'] = d['nc']
        t['hist'] = 1
        out.append(t)
        if d['nc'] and d['kw'] and d['lim'] == 'none' and d['var'] == 'upd':
            for kind in ('odd', 'odd2'):
                t = copy.deepcopy(t)
                t['name'] = kind + t['name'].lstrip('od2')
                t['kind'] = kind
                t['hist'] = 2
                out.append(t)
    for m in ('mh', 'dram'):
        for nc in (5, 12):
            t = V('many-%s-%d' % (m, nc), 'upd', shape='fs', method=m, nsimu=4, q='full', dev=3 if deep else 2, cfg=dict(custom_kw=True))
            t.update(nc=nc, hist=2, kind='odd2' if nc == 5 else None)
            out.append(t)
        t = V('hist-' + m, 'upd2', shape='sf', method=m, nsimu=3, q='full', dev=4 if deep else 2, cfg=dict(custom_kw=True))
        t['nc'] = 2
        t['hist'] = 3
        out.append(t)
        t = V('swap-' + m, 'one', shape='s', method=m, nsimu=3, q='full', dev=4 if deep else 2, cfg=dict(custom_kw=True))
        t['nc'] = 1
        t['hist'] = 3
        t['swap'] = True
        out.append(t)
        for nt in (None, 3, 4):
            if nt and m == 'mh':
                continue
            t = V('long-%s-%s' % (m, nt), 'upd', shape='ss', method=m, nsimu=60, q='full', dev=1, z=LONGZ[2], ntry=nt,
                  cfg=dict(custom_kw=True, zcycle=True, accpat=[True, False, False]))
            t['nc'] = 2
            t['hist'] = 2
            out.append(t)
    for nt in (3, 4):
        t = V('tries-%d' % nt, 'upd2', shape='sf', method='dr', nsimu=3, q='full', dev=4 if deep else 3, ntry=nt, cfg=dict(custom_kw=True))
        t['nc'] = 2
        t['hist'] = 2
        out.append(t)
    # chains that ask to be saved: same segments as the parameter chain, read back exactly
    for d in grid(n=[2, 3, 5, 7], s=[0, 1, 2, 3, 4], n2=[0, 1, 3], k=[1, 2]):
        if d['n2'] and d['k'] == 2 and not deep:
            continue
        t = V(nm('log', d), 'upd' if d['n'] % 2 else 'one', shape='s', method='dram' if d['s'] % 2 else 'mh', nsimu=d['n'], savesize=d['s'],
              dev=1 if deep else 0, cfg=dict(needs_dir=True, zcycle=True, accpat=[True, False, True]), save_to_bin=True, save_to_txt=True)
        t['cont'] = [d['n2']] if d['n2'] else []
        t['custom'] = d['k']
        t['log'] = True
        t['loggers'] = 1 + (d['n'] + d['s'] + d['k']) % 3
        out.append(t)
    return out


def same(a, b):
    return a is b or (type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b))


def run(task, ch, st):
    if task.get('log'):
        return c09.run(task, ch, st)
    steps = []
    se = Session(task['cfg'], ch, onstep=lambda s, x: steps.append(x))
    line = []
    try:
        se.make()
        cs = [Recording(k, line, se.obs, task.get('kind')) for k in range(task['nc'])]
        if cs:
            se.mc.custom_samplers = list(cs)
        for r in range(task['hist']):
            if r and task.get('swap'):
                cs = [Recording(10*r + k, line, se.obs) for k in range([1, 0, 2][r])]
                se.mc.custom_samplers = list(cs)
            del steps[:], line[:]
            e0, x0 = len(se.obs.evals), len(se.ref.evals)
            if r == 0:
                se.run()
            else:
                se.run(cont=True, override=dict(nsimu=[0, 3, 4][r]), redefine=ch.choose(2, free=True) == 1)
            verify(se, cs, line, steps, e0)
            st.trans += len(line)
    finally:
        absorb(se, st)
        se.close()


def verify(se, cs, line, steps, e0):
    nc = len(cs)
    want = [('setup', c.k) for c in cs]
    for s in steps:
        want += [('update', c.k, s['isimu']) for c in cs]
    got = [(x[0], x[1]) if x[0] == 'setup' else (x[0], x[1], x[5]) for x in line]
    if got != want:
        d = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation('calls of the custom samplers: call %d is %s, expected %s (%d calls, expected %d)' % (
            d, got[d] if d < len(got) else None, want[d] if d < len(want) else None, len(got), len(want)))
    if not nc:
        for i, c in enumerate(se.obs.customs[e0:]):
            if c is not None and len(c):
                raise Violation('evaluation %d received %r without custom samplers' % (i, c))
        return
    for i, s in enumerate(steps):
        for j, c in enumerate(cs):
            x = line[nc*(i + 1) + j]
            _, _, _, _, acc, isimu, th, ss, s2 = x
            if acc != s['accept']:
                raise Violation('sampler %d told accept=%s in iteration %d, the candidate was %s' % (
                    j, acc, s['isimu'], 'accepted' if s['accept'] else 'rejected'))
            for name, a, b in (('parameters', th, s['theta']), ('sum-of-squares', ss, s['ss']), ('error variance', s2, s['sigma2'])):
                if not close(np.ravel(a), np.ravel(b)):
                    raise Violation('sampler %d sees %s %s in iteration %d, expected %s' % (j, name, a, s['isimu'], b))
    # evaluations between two rounds of calls belong to one iteration
    rounds = [line[nc*i:nc*(i + 1)] for i in range(len(steps) + 1)]
    for i, rd in enumerate(rounds):
        at = [x[2] for x in rd]
        if len(set(at)) != 1:
            raise Violation('the user function is evaluated between the samplers of one iteration')
        end = rounds[i + 1][0][2] if i + 1 < len(rounds) else len(se.obs.evals)
        if i + 1 == len(rounds) and end != at[0]:
            raise Violation('%d evaluations after the last update' % (end - at[0]))
        if not se.cfg.get('custom_kw'):
            continue
        outs = [x[3] for x in rd]
        for e in range(at[0], end):
            c = se.obs.customs[e]
            if c is None or len(c) != nc or not all(same(a, b) for a, b in zip(c, outs)):
                raise Violation('an evaluation in iteration %d received %r, the latest outputs are %r' % (i + 1, c, outs))
    # number of evaluations in each iteration
    for i, s in enumerate(steps):
        inside = [x for x in se.obs.evals[rounds[i][0][2]:rounds[i + 1][0][2]]]
        if s['accept'] and not any(close(x[se.ref.s['ind']], s['theta']) for x in inside):
            raise Violation('the accepted point of iteration %d was not evaluated in it' % s['isimu'])
