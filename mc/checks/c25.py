"""C25  results do not depend on the hash seed or on the interpreter process"""
import json
import os
import subprocess
import sys
import tempfile
from ..core import Space, require, STAT, ROOT, REPO

PROPERTY = 'C25'
TECHNIQUE = ('exhaustive exploration of the nondeterminism of hashing: in instrumented processes every single iteration over a set, while '
             'importing and in every operation, is permuted (deviation bound 1) and the results compared; besides, a battery of '
             'operations runs in fresh processes under many hash seeds and orders and all digests are compared')
NOTE = ('Exhaustive in the iterations and the permutations stated (reversal and two rotations of the sorted order), for sets made by calling set; '
        'the hash seeds are a bounded range of the 2**32 there are. Pickles made in one process are compared in the others.')
BOUNDS = {'quick': '8 hash seeds, 3 orders; every set iteration of 1500 batteries, 3 permutations each',
          'thorough': '48 hash seeds, 3 orders, larger batteries'}
_S = {}


def worker(mode, order, seed, path='-', big=False):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=REPO + os.pathsep + ROOT)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.procworker', mode, order, path, 'big' if big else 'small'], env=env, cwd=ROOT,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    if p.returncode:
        return {'error': p.stderr.decode('utf-8', 'replace')[-3000:]}
    return json.loads(p.stdout.decode())


def base(big):
    if not _S:
        d = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        _S['path'] = os.path.join(d, 'c25-%d.pickle' % os.getpid())
        _S['b'] = worker('plain', 'forward', 0, _S['path'], big)
        if 'error' in _S['b']:
            raise RuntimeError(_S['b']['error'])
        _S['c'] = worker('import:-1:0', 'forward', 0, '-', big)
    return _S


def compare(r, b, what):
    require('error' not in r, '%s: %s', what, r.get('error'))
    diff = [k for k in b['res'] if r['res'].get(k) != b['res'][k]]
    require(not diff, '%s: other results than with seed 0 for %s', what, diff[:8])
    require(not r['bad'], '%s: %s', what, r['bad'][:1])
    STAT.add('states', r['runs'])
    STAT.add('transitions', r['runs'])
    STAT.add('traces')


def spaces(tier):
    q = tier == 'quick'
    s = base(not q)

    def seeds(case):
        seed, order = case
        compare(worker('plain', order, seed, s['path'], not q), s['b'], 'hash seed %s, %s' % (seed, order))
        return order

    def imports(case):
        i, p = case
        c = s['c']
        compare(worker('import:%d:%d' % (i, p), 'forward', 0, '-', False), c if q else worker('import:-1:0', 'forward', 0), 'iteration %d over a set while importing' % i)
        return 'same'

    def use(case):
        r = worker('use:%d:%d' % case, 'forward', 0, '-', not q)
        require('error' not in r, 'iteration over sets: %s', r.get('error'))
        require(not r['bad'], '%s', r['bad'][:1])
        STAT.add('states', r['runs'])
        STAT.add('transitions', r['runs'])
        STAT.add('traces', r['runs'])
        return 'same'
    out = [Space('seeds', [(seed, order) for seed in (range(8) if q else range(48)) for order in ('forward', 'backward', 'interleaved')], seeds,
                 rule='the whole battery in a fresh process')]
    if 'error' not in s['c']:
        n = s['c']['imports']
        out += [Space('set iteration while importing', [(i, p) for i in range(n) for p in (1, 2, 3)], imports, rule='each iteration over a set permuted, one at a time'),
                Space('set iteration in use', [(i, 64) for i in range(64)], use, rule='each iteration over a set permuted, one at a time')]
    return out
