"""Small runner around Hypothesis: generated cases, explicit oracles, evidence, replay files.

A check module builds a Check and registers sub-checks:

    C = Check('C01', rule='...', assumptions=[...])

    @C.sub('name', strategy, quick=500, thorough=20000)
    def name(case, ctx): ...        # raise / assert on violation; ctx.nontrivial() marks the case

Every case is plain JSON data, so that a shrunk failure is stored and re-executed without Hypothesis.
"""
import contextlib
import hashlib
import json
import math
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')


class Violation(AssertionError):
    """The property is broken."""


class HarnessError(Exception):
    """The check cannot do its work: exit 2, never a VIOLATION."""


def jdump(x, **kw):
    return json.dumps(x, default=_jdefault, sort_keys=True, **kw)


def _jdefault(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return repr(o)


class Ctx:
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.excluded = 0
        self._nt = False

    def start(self):
        self._nt = False

    def nontrivial(self, flag=True):
        self._nt = self._nt or bool(flag)

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def exclude(self):
        """case lies in the region of a recorded known finding"""
        self.excluded += 1

    def finish(self, case):
        self.evaluations += 1
        if self._nt:
            txt = jdump(case)
            k = hashlib.sha1(txt.encode()).digest()[:10]
            if k not in self.keys:
                self.keys.add(k)
                n = len(self.keys)
                if n in (3, 50, 400) and len(txt) < 4000:
                    self.samples.append(json.loads(txt))


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, shards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.subs = []
        self.probes = {}

    def sub(self, name, strategy, quick=200, thorough=None, shards=None):
        def deco(fn):
            t = thorough if thorough is not None else quick * 12
            self.subs.append(Sub(name, strategy, fn, quick, t, shards))
            return fn
        return deco

    def probe(self, kid):
        """Register the reproduction of a known finding: returns True when it still fails."""
        def deco(fn):
            self.probes[kid] = fn
            return fn
        return deco


# --------------------------------------------------------------------------- library loading
_PYC = None


def load_library():
    """Import pyrtlib from REPO, compiling from source (never from a possibly stale .pyc)."""
    global _PYC
    warnings.simplefilter('ignore')
    import numpy  # noqa
    import pandas  # noqa
    import netCDF4  # noqa
    import scipy.special  # noqa
    import requests  # noqa
    import hypothesis  # noqa
    import hypothesis.strategies  # noqa
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    _PYC = tempfile.mkdtemp(prefix='pbt-pyc-')
    sys.pycache_prefix = _PYC
    sys.dont_write_bytecode = False
    try:
        import pyrtlib
        import pyrtlib.absorption_model
        import pyrtlib.tb_spectrum  # noqa
    except Exception as e:
        raise HarnessError('cannot import pyrtlib: %r' % (e,))
    where = os.path.realpath(pyrtlib.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('pyrtlib was imported from %s, not from %s' % (where, REPO))


def cleanup():
    if _PYC and os.path.isdir(_PYC):
        shutil.rmtree(_PYC, ignore_errors=True)


# --------------------------------------------------------------------------- execution
def run_case(sub, case, ctx=None):
    ctx = ctx or Ctx()
    ctx.start()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sub.fn(case, ctx)
    ctx.finish(case)


def _control_flow(e):
    mod = type(e).__module__ or ''
    return mod.startswith('hypothesis')


def run_shard(check, sub, n, seed, tier):
    """Run n generated cases. Returns a result dict; 'failure' holds the minimal failing case."""
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    from hypothesis.errors import Flaky, FlakyFailure
    try:
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 45
    except Exception:
        pass
    ctx = Ctx()
    state = {'fail': None, 'first': None, 'count': 0}

    @hseed(seed)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
              report_multiple_bugs=False,
              phases=(Phase.generate,) if os.environ.get('PBT_NOSHRINK') else (Phase.generate, Phase.shrink),
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(sub.strategy)
    def test(case):
        state['count'] += 1
        try:
            run_case(sub, case, ctx)
        except HarnessError:
            raise
        except BaseException as e:
            if _control_flow(e) or isinstance(e, (KeyboardInterrupt, MemoryError, GeneratorExit)):
                raise
            rec = {'case': json.loads(jdump(case)), 'message': '%s: %s' % (type(e).__name__, e),
                   'trace': traceback.format_exc(limit=-6)}
            state['fail'] = rec
            if state['first'] is None:
                state['first'] = rec
            if not isinstance(e, Exception):     # SystemExit & co. must not end the runner
                raise Violation('%s: %s' % (type(e).__name__, e))
            raise

    out = {'sub': sub.name, 'seed': seed, 'failure': None, 'error': None}
    try:
        test()
    except HarnessError as e:
        out['error'] = 'harness: %s' % e
    except (Flaky, FlakyFailure):
        rec = dict(state['first'] or {})
        rec['message'] = 'history-dependent (not reproduced in isolation): ' + rec.get('message', '')
        rec['shard'] = {'n': n, 'seed': seed}
        out['failure'] = rec
    except BaseException as e:
        if state['fail'] is not None and not _control_flow(e):
            out['failure'] = state['fail']
        elif state['first'] is not None:
            out['failure'] = state['first']
        else:
            out['error'] = traceback.format_exc()
    out.update(evaluations=ctx.evaluations, keys=ctx.keys, labels=ctx.labels, samples=ctx.samples,
               excluded=ctx.excluded)
    return out


def _task(args):
    pid, idx, n, seed, tier = args
    from . import registry
    check = registry.load(pid)
    sub = check.subs[idx]
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    t0 = time.time()
    out = run_shard(check, sub, n, seed, tier)
    out['wall'] = time.time() - t0
    return out


def run_probe(args):
    pid, kid = args
    from . import registry
    check = registry.load(pid)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        return kid, bool(check.probes[kid]()), None
    except BaseException:
        return kid, False, traceback.format_exc()


def plan(check, tier, seed, only=None):
    tasks = []
    for i, s in enumerate(check.subs):
        if only and s.name not in only:
            continue
        total = s.quick if tier == 'quick' else s.thorough
        shards = s.shards or max(1, min(8, total // 150))
        if tier == 'thorough' and s.shards is None:
            shards = max(shards, min(16, max(1, total // 150)))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            if n:
                tasks.append((check.pid, i, n, seed * 1000003 + i * 1009 + k, tier))
    return tasks


def main(pid, tier, seed, only=None):
    from . import registry
    t0 = time.time()
    check = registry.load(pid)
    tasks = plan(check, tier, seed, only)
    procs = int(os.environ.get('PBT_PROCS', '0')) or min(8, os.cpu_count() or 2)
    mp = multiprocessing.get_context('fork')
    results = []
    with mp.Pool(processes=min(procs, max(1, len(tasks))), maxtasksperchild=1) as pool:
        known = load_known(pid)
        kres = pool.map_async(run_probe, [(pid, k['id']) for k in known if k['status'] == 'known'], chunksize=1)
        limit = 850 if tier == 'quick' else 6 * 3600
        res = pool.map_async(_task, tasks, chunksize=1)
        try:
            results = res.get(timeout=limit)
            kout = kres.get(timeout=60)
        except multiprocessing.TimeoutError:
            print('INCONCLUSIVE property=%s: time budget exhausted' % pid)
            pool.terminate()
            return 2
    errors = [r for r in results if r['error']]
    fails = [r for r in results if r['failure']]
    for kid, still, err in kout:
        k = [x for x in known if x['id'] == kid][0]
        if err:
            errors.append({'sub': 'probe ' + kid, 'error': err})
        elif still:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, kid, k['what']))
    keys = set()
    labels = {}
    samples = []
    per = {}
    for r in results:
        keys |= {(r['sub'], k) for k in r['keys']}
        for l, c in r['labels'].items():
            labels[r['sub'] + ':' + l] = labels.get(r['sub'] + ':' + l, 0) + c
        d = per.setdefault(r['sub'], {'evaluations': 0, 'excluded_known': 0, 'wall_s': 0.0})
        d['evaluations'] += r['evaluations']
        d['excluded_known'] += r['excluded']
        d['wall_s'] = round(d['wall_s'] + r['wall'], 2)
        have = len([1 for s in samples if s['sub'] == r['sub']])
        for s in r['samples'][:max(0, 2 - have)]:
            samples.append({'sub': r['sub'], 'case': s})
    wall = round(time.time() - t0, 2)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['evaluations'] for r in results),
                       'distinct_nontrivial': len(keys), 'rule': check.rule,
                       'samples': samples[:12], 'per_subcheck': per, 'classes': labels},
          'assumptions': check.assumptions, 'wall_s': wall, 'violations': len(fails)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
            fh.write(jdump(ev, indent=1))
    for r in errors:
        print('ERROR property=%s sub=%s\n%s' % (pid, r['sub'], r['error']))
    seen = set()
    for r in fails:
        if r['sub'] in seen:
            continue
        seen.add(r['sub'])
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, r['sub']))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        f = r['failure']
        with open(path, 'w') as fh:
            fh.write(jdump({'property': pid, 'sub': r['sub'], 'tier': tier, 'seed': r['seed'], **f}, indent=1))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  sub=%s %s' % (r['sub'], f.get('message', '')[:1500]))
        print('  case=%s' % jdump(f.get('case'))[:1500])
    print('%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs %s' % (
        pid, tier, seed, ev['coverage']['evaluations'], len(keys), wall,
        'VIOLATED' if fails else ('ERROR' if errors else 'held')))
    if fails:
        return 1
    return 2 if errors else 0


def replay(pid, path):
    from . import registry
    check = registry.load(pid)
    with open(path) as fh:
        rec = json.load(fh)
    sub = [s for s in check.subs if s.name == rec['sub']][0]
    try:
        if 'shard' in rec:
            out = run_shard(check, sub, rec['shard']['n'], rec['shard']['seed'], rec.get('tier', 'quick'))
            if out['failure']:
                raise Violation(out['failure']['message'])
        else:
            run_case(sub, rec['case'])
    except HarnessError as e:
        print('ERROR', e)
        return 2
    except BaseException:
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay: property held on this case')
    return 0


def load_known(pid=None):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        items = json.load(fh)['findings']
    return [k for k in items if pid is None or k['property'] == pid]


# --------------------------------------------------------------------------- oracle helpers
def close(got, want, rtol=1e-9, atol=0.0, what='', scale=None):
    """Arrays/scalars agree; scale (optional) is the magnitude of the terms summed."""
    import numpy as np
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        if g.size == w.size == 1:
            g, w = g.reshape(()), w.reshape(())
        else:
            raise Violation('%s: shape %s, expected %s' % (what, g.shape, w.shape))
    ref = np.abs(w) if scale is None else np.maximum(np.abs(w), np.abs(np.asarray(scale, dtype=float)))
    tol = rtol * ref + atol
    with np.errstate(invalid='ignore'):
        bad = ~(np.abs(g - w) <= tol)
        bad &= ~((g == w) | (np.isnan(g) & np.isnan(w)))
    if np.any(bad):
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if g.ndim else ()
        raise Violation('%s: got %r, expected %r at %s (tol %.3g; %d of %d differ)' % (
            what, float(g[i]), float(w[i]), i, float(np.broadcast_to(tol, g.shape)[i]), int(bad.sum()), g.size))


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def expect_raises(*types, what=''):
    try:
        yield
    except types:
        return
    except Exception as e:
        raise Violation('%s: expected %s, got %s: %s' % (what, [t.__name__ for t in types], type(e).__name__, e))
    raise Violation('%s: expected %s, nothing was raised' % (what, [t.__name__ for t in types]))


def isfinite(x):
    import numpy as np
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))


def nice(x, nd=6):
    return float('%.*g' % (nd, x)) if math.isfinite(x) else x
