#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present in mc/props."""
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
LOCK = ('stateless model checking of the real sampler in lock step with an executable reference model: every random '
        'draw is a choice point, all choice sequences within the bounds are enumerated')
TECH = {
    'C09': 'exhaustive enumeration of chain lengths, segment sizes and run/continue histories on the real code, log '
           'files read back and compared with the chains of the lock-step model',
    'C10': 'exhaustive enumeration of save/load/restart histories on the real code against the lock-step model',
    'C11': 'exhaustive exploration of worker schedules (assignment and completion order) of the real parallel driver '
           'under a controlled Pool, plus conformance runs with the real Pool',
    'C12': 'exhaustive enumeration of chain-row selections, noise signs and settings of the real interval code against '
           'a reference of the definitions',
    'C13': 'exhaustive enumeration of small chains over a finite alphabet, statistics of the real code against their '
           'definitions',
    'C14': 'exhaustive enumeration of settings combinations resolved by the real code against a reference resolver',
    'C15': 'exhaustive exploration of interleavings of define/run/continue operations of two simulations, with input '
           'snapshots',
    'C16': 'exhaustive enumeration of output-option combinations and reseeded pairs, compared with the plain run',
    'C17': 'stateless model checking of the real sampler with recording custom samplers in lock step with the model',
    'C18': 'exhaustive enumeration of data layouts and lock-step exploration with the default sum-of-squares',
    'C19': 'exhaustive crash-point enumeration: a failure injected at every user-function call and every file write of '
           'every history, files read back',
    'C20': 'exhaustive enumeration of chain lengths, subsampling steps, name lists and panels of the real plotting code, every point drawn '
           'is read back from the figure and compared with the chain',
}
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(here, 'mc', 'props', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    src = open(path).read()
    level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
    checks.append(dict(
        property=pid, quick_cmd='./check %s --tier quick' % pid, thorough_cmd='./check %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid, technique=TECH.get(pid, LOCK), level=level,
        level_note='Complete within the bounds reported in the evidence file, on the real code of the working tree; '
                   'trusts the reference model in mc/ref.py (cross-validated on every explored trace), numpy/scipy/h5py '
                   'and the explorer.'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the random number generator, file system calls and process pool are controlled from '
               'outside. ./check <id> --replay <file> re-executes a reported violation.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
