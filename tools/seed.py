#!/usr/bin/env python3
"""Planted bugs: build seeded/<id>/ from tools/seeds.py, confirm each one, run checks.

  seed.py make [id...]     confirm (original lines only, stable tests, demo) and write seeded/
  seed.py run [id...]      run the check of each bug's property (and --also C01,C02 / --all)
  seed.py table            rewrite the table in DESIGN.md from tools/seed_results.json
Nothing here is used by a check.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BASE = 'f72d615'
RES = os.path.join(HERE, 'seed_results.json')
PY = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/sh\nexec %s "$(dirname "$0")/demo.py"\n' % PY
HEAD = 'import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n'

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)

def original(fn):
    """Set of line numbers of /repo/<fn> that come from the base commit."""
    out = sh(['git', 'blame', '-s', '-l', fn], '/repo').stdout.splitlines()
    full = sh(['git', 'rev-parse', BASE], '/repo').stdout.strip()
    return set(i for i, l in enumerate(out, 1) if full[:39] in l.split(' ', 1)[0])

def copy(name):
    d = '/tmp/seed_' + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    return d

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def make(sid, s):
    d = copy(sid)
    try:
        for fn, old, new in s['edits']:
            p = os.path.join(d, fn); t = open(p).read()
            if t.count(old) != 1:
                return '%s: %d matches in %s: %r' % (sid, t.count(old), fn, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff', '--no-color'], d).stdout
        diff0 = sh(['git', 'diff', '--no-color', '-U0'], d).stdout
        fn = None; removed = 0
        for l in diff0.splitlines():
            m = re.match(r'\+\+\+ b/(.*)', l)
            if m: fn = m.group(1); orig = original(fn)
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                removed += n
                bad = [i for i in range(a, a + n) if i not in orig]
                if bad: return '%s: touches non-original lines %s of %s' % (sid, bad, fn)
        if not removed: return '%s: changes no original line' % sid
        out = os.path.join(V, 'seeded', sid)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(HEAD + s['demo'].strip('\n') + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        fail = None
        r = sh(['bash', out + '/demo.sh'], '/repo', timeout=300)
        if r.returncode: fail = 'demo fails on clean: ' + r.stdout[-600:]
        r = sh(['bash', out + '/demo.sh'], d, timeout=300)
        if not fail and not r.returncode: fail = 'demo passes when patched'
        if not fail:
            r = sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-header', '-rfE', '--doctest-modules', '--pyargs', 'datashape'], d)
            bad = tests(d)
            if bad: fail = 'stable tests fail: %s' % sorted(bad)[:5]
        if fail:
            shutil.rmtree(out); return '%s: %s' % (sid, fail)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tests(d):
    """Stable tests failing in copy d (the test script works on /repo, so a bind-free imitation)."""
    cmd = open('/opt/vp/test.sh').read().replace('/repo', d)
    s = d + '.test.sh'; o = d + '.json'
    open(s, 'w').write(cmd)
    r = sh(['bash', s, o], d)
    try:
        res = json.load(open(o))
    except Exception:
        return ['no result: ' + r.stdout[-500:]]
    finally:
        for f in (s, o):
            if os.path.exists(f): os.remove(f)
    ok = set(res.get('passed', []))
    return [t for t in stable() if t not in ok]

def run(sid, s, checks, tier='quick'):
    d = copy(sid + '_run'); got = {}
    try:
        r = sh(['git', 'apply', os.path.join(V, 'seeded', sid, 'patch.diff')], d)
        if r.returncode: return {'apply': r.stdout}
        for c in checks:
            r = sh(['./run.sh', c, tier], V, {'VERIF_REPO': d, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}, 3000)
            got[c] = r.returncode if not (r.returncode == 1 and 'VIOLATION property=' + c not in r.stdout) else 99
            if r.returncode not in (0, 1): got[c + '_out'] = r.stdout[-300:]
        return got
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    import seeds
    S = seeds.SEEDS
    a = sys.argv[1:]; cmd = a.pop(0)
    also = []
    if '--all' in a: a.remove('--all'); also = ['C%02d' % i for i in range(1, 26)]
    if '--also' in a:
        i = a.index('--also'); also = a[i + 1].split(','); del a[i:i + 2]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    ids = a or list(S)
    if cmd == 'make':
        with ThreadPoolExecutor(6) as ex:
            for i, m in zip(ids, ex.map(lambda i: make(i, S[i]), ids)):
                print(m or i + ': ok', flush=True)
    elif cmd == 'run':
        for i in ids:
            if not os.path.isdir(os.path.join(V, 'seeded', i)): continue
            g = run(i, S[i], sorted(set([S[i]['property']] + also)))
            res.setdefault(i, {}).update(g)
            print(i, S[i]['property'], g, flush=True)
            json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)
    elif cmd == 'table':
        rows = ['| bug | property | needs | reported by |', '|---|---|---|---|']
        for i in S:
            if not os.path.isdir(os.path.join(V, 'seeded', i)): continue
            r = res.get(i, {})
            by = sorted(c for c, v in r.items() if v == 1)
            own = S[i]['property']
            rows.append('| %s | %s%s | %s | %s |' % (i, own, '' if own in by else ' (missed)',
                                                    S[i]['needs'].replace('|', '\\|'), ' '.join(by) or '—'))
        p = os.path.join(V, 'DESIGN.md'); t = open(p).read()
        t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), t, flags=re.S)
        open(p, 'w').write(t)
main()
