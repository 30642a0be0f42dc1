"""Explorer core: sharded exhaustive enumeration, violation recording, evidence.

A check module (mc/checks/cNN.py) defines

    PROPERTY, LEVEL, ASSUMPTIONS
    def spaces(tier)      -> list of Space
    (each Space: a name, a list/factory of cases, and a run(case) oracle)

The explorer enumerates *every* case of every space, on every core, and stops
early only to report a violation.  Nothing is sampled; where a space has a cap
(it never does in the registered tiers) it must be reported in `bounds`.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 1)
STALL_CPU_S = int(os.environ.get('VERIF_STALL', '20'))   # CPU seconds without progress on ONE case => hang
MAX_VIOL_PER_SHARD = 3


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(i) for i in x)
    return x


class Space(object):
    """A finite space of cases plus the oracle deciding the property on one.

    cases     list, or a function (shard, nshards) -> iterator over the cases
              of that shard (shards partition the space)
    run       run(case) -> outcome label (short str); raises Violation
    states, transitions
              what the (parent-side) exploration building `cases` counted, or
              None when run() itself reports them through `stat`
    show      case -> human readable string
    setup     optional per-worker initialiser
    """
    def __init__(self, name, cases, run, states=None, transitions=None,
                 show=None, rule='', encode=None, decode=None, setup=None):
        self.name, self.cases, self.run = name, cases, run
        self.states, self.transitions = states, transitions
        self.show = show or repr
        self.rule = rule
        self.encode = encode or jsonable
        self.decode = decode or tuplify
        self.setup = setup


class Stat(object):
    """Counters a running oracle may bump (summed over workers)."""
    def __init__(self):
        self.d = {}

    def add(self, k, n=1):
        self.d[k] = self.d.get(k, 0) + n


STAT = Stat()
_progress = [0, 0, 0]


def _tick(signum, frame):
    if _progress[0] == _progress[1]:
        _progress[2] += 1
        if _progress[2] >= 2:
            _progress[2] = 0
            raise Hang()
    else:
        _progress[1] = _progress[0]
        _progress[2] = 0


class stall_guard(object):
    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, _tick)
        signal.setitimer(signal.ITIMER_PROF, STALL_CPU_S / 2.0, STALL_CPU_S / 2.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


def run_case(space, case):
    """-> (outcome, None) or (None, message)"""
    try:
        return space.run(case), None
    except Violation as e:
        return None, str(e)
    except Hang:
        return None, 'did not terminate within %d CPU seconds' % STALL_CPU_S
    except RecursionError:
        return None, 'unbounded recursion'
    except MemoryError:
        return None, 'out of memory'
    except Exception as e:                      # the code under test crashed
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ''
        inrepo = False
        for f in reversed(tb):
            if f.filename.startswith(REPO):
                where = ' at %s:%d' % (os.path.relpath(f.filename, REPO), f.lineno)
                inrepo = True
                break
        return None, 'unexpected %s: %s%s%s' % (
            type(e).__name__, e, where,
            '' if inrepo else '\n' + traceback.format_exc())


def safe_show(space, case):
    try:
        return space.show(case)
    except Exception:
        return repr(case)


def _worker(space, shard, n, conn, where):
    import resource
    try:
        lim = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    STAT.d = {}
    viols, outcomes, count = [], {}, 0
    samples = []
    try:
        if space.setup:
            space.setup()
        it = (space.cases(shard, n) if callable(space.cases)
              else (space.cases[i] for i in range(shard, len(space.cases), n)))
        with stall_guard():
            for case in it:
                _progress[0] += 1
                where[shard] = count
                out, msg = run_case(space, case)
                count += 1
                if msg is not None:
                    viols.append((space.encode(case), safe_show(space, case), msg))
                    outcomes['violation'] = outcomes.get('violation', 0) + 1
                    if len([v for v in viols if not is_known(space, v)]) >= MAX_VIOL_PER_SHARD:
                        break
                else:
                    if out not in outcomes:
                        outcomes[out] = 0
                        samples.append({'case': safe_show(space, case), 'outcome': out})
                    outcomes[out] += 1
        conn.send(('ok', viols, outcomes, count, STAT.d, samples))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    conn.close()


_KNOWN = None


def known():
    """open findings: {property: {key: what}}  (file is never written here)"""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = {}
        p = os.path.join(ROOT, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                line = line.strip()
                if line.startswith('open:'):
                    # open: property=C01 key=<json> :: what
                    head, what = line[5:].split(' :: ', 1)
                    prop = head.split('property=')[1].split()[0]
                    key = json.dumps(json.loads(head.split('key=', 1)[1]),
                                     sort_keys=True)
                    _KNOWN.setdefault(prop, {})[key] = what
    return _KNOWN


CURRENT = [None]


def viol_key(space, viol):
    return json.dumps({'space': space.name, 'case': viol[0]}, sort_keys=True)


def is_known(space, viol):
    return viol_key(space, viol) in known().get(CURRENT[0], {})


def explore(space, nproc=None):
    nproc = nproc or NPROC
    if not callable(space.cases):
        nproc = max(1, min(nproc, len(space.cases)))
    ctx = mp.get_context('fork')
    where = mp.RawArray('q', [-1] * nproc)
    procs = []
    for k in range(nproc):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(space, k, nproc, b, where))
        p.start()
        b.close()
        procs.append((p, a))
    viols, outcomes, total, stat, samples = [], {}, 0, {}, []
    for k, (p, a) in enumerate(procs):
        try:
            r = a.recv()
        except EOFError:
            p.join()
            r = ('died', p.exitcode)
        p.join()
        if r[0] == 'died':
            # the interpreter itself was killed while executing the code under
            # test (stack overflow, out of memory): a violation of any property
            if where[k] < 0:
                raise RuntimeError('worker died with exit code %s in space %s'
                                   % (r[1], space.name))
            it = (space.cases(k, nproc) if callable(space.cases)
                  else (space.cases[i] for i in range(k, len(space.cases), nproc)))
            case = next(c for i, c in enumerate(it) if i == where[k])
            viols.append((space.encode(case), safe_show(space, case),
                          'the interpreter died with exit code %s' % r[1]))
            outcomes['violation'] = outcomes.get('violation', 0) + 1
            continue
        if r[0] == 'error':
            raise RuntimeError('harness error in space %s:\n%s' % (space.name, r[1]))
        viols += r[1]
        for k, v in r[2].items():
            outcomes[k] = outcomes.get(k, 0) + v
        total += r[3]
        for k, v in r[4].items():
            stat[k] = stat.get(k, 0) + v
        samples += r[5]
    seen, ss = set(), []
    for s in samples:
        if s['outcome'] not in seen:
            seen.add(s['outcome'])
            ss.append(s)
    return viols, outcomes, total, stat, ss


def write_replay(prop, space, viol):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    key = viol_key(space, viol)
    name = '%s-%s.json' % (prop, hashlib.sha1(key.encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'space': space.name, 'case': viol[0],
                   'shown': viol[1], 'message': viol[2],
                   'replay_cmd': '/verif/run.sh --replay ' + path}, f, indent=1)
        f.write('\n')
    return path


def in_subject(tb):
    return any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(tb))


def build_spaces(mod, tier):
    """The spaces of a check.  Where setting them up already runs into an
    exception of the code under test, that is the violation."""
    try:
        return mod.spaces(tier)
    except Exception:
        if not in_subject(sys.exc_info()[2]):
            raise
        msg = traceback.format_exc()

        def fail(case):
            raise Violation('setting up the state space failed:\n' + msg)
        return [Space('setup', [tier], fail)]


def run_check(mod, tier, seed):
    t0 = time.time()
    prop = mod.PROPERTY
    CURRENT[0] = prop
    spaces = build_spaces(mod, tier)
    states = transitions = traces = 0
    per, samples, found = {}, [], []
    knownhits = {}
    for sp in spaces:
        t1 = time.time()
        viols, outcomes, total, stat, ss = explore(sp, getattr(mod, 'NPROC', None))
        s = sp.states if sp.states is not None else stat.get('states', total)
        t = sp.transitions if sp.transitions is not None else stat.get('transitions', 0)
        c = stat.get('traces', total)
        states += s
        transitions += t
        traces += c
        per[sp.name] = {'states': s, 'transitions': t, 'executions': c,
                        'outcomes': dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
                        'rule': sp.rule, 'wall_s': round(time.time() - t1, 2)}
        extra = {k: v for k, v in stat.items() if k not in ('states', 'transitions', 'traces')}
        if extra:
            per[sp.name]['counters'] = extra
        for x in ss[:4]:
            samples.append(dict(x, space=sp.name))
        for v in viols:
            if is_known(sp, v):
                knownhits[viol_key(sp, v)] = v
            else:
                found.append((sp, v))
        print('%s %-28s states=%d transitions=%d executions=%d outcomes=%d viol=%d %.1fs'
              % (prop, sp.name, s, t, c, len(outcomes), len(viols), time.time() - t1),
              flush=True)
        if found:
            break
    for key, what in sorted(known().get(prop, {}).items()):
        if key in knownhits:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    rc = 0
    for sp, v in found[:5]:
        path = write_replay(prop, sp, v)
        print('  case: %s\n  %s' % (v[1], v[2]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'model_checking'),
          'coverage': {'states': states, 'transitions': transitions,
                       'traces_validated_against_impl': traces,
                       'samples': samples[:24], 'spaces': per,
                       'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
                       'exhaustive': not found},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(found)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')
    os.replace(tmp, os.path.join(ROOT, 'evidence', prop + '.json'))
    print('%s %s: states=%d transitions=%d executions=%d violations=%d known=%d wall=%.1fs'
          % (prop, tier, states, transitions, traces, len(found), len(knownhits),
             time.time() - t0), flush=True)
    return rc


def replay(path):
    rec = json.load(open(path))
    mod = load(rec['property'])
    CURRENT[0] = rec['property']
    for tier in ('quick', 'thorough'):
        for sp in build_spaces(mod, tier):
            if sp.name == rec['space']:
                if sp.setup:
                    sp.setup()
                out, msg = run_case(sp, sp.decode(rec['case']))
                print('space %s case %s' % (sp.name, rec['shown']))
                if msg is None:
                    print('holds now (outcome %s)' % out)
                    return 0
                print(msg)
                print('VIOLATION property=%s replay=%s' % (rec['property'], path))
                return 1
    print('no such space: %s' % rec['space'])
    return 2


def load(prop):
    import importlib
    return importlib.import_module('mc.checks.%s' % prop.lower())


def import_subject():
    sys.path.insert(0, REPO)
    import datashape
    if not os.path.abspath(datashape.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('datashape imported from %s, not %s' % (datashape.__file__, REPO))
    return datashape
