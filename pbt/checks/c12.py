"""C12 repeatability and input purity over histories."""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen, lib
from . import c31
from .c11 import sims

C = Check('C12', rule='A case is 2-3 generated simulations (own models, mode, emissivity, clouds, ozone, perturbed parameters) '
          'living in one process and a history of 2-10 steps: build, run, run another, weighting functions, rejected '
          'calls, changing a returned table. Non-trivial: a simulation is run again after another one with different '
          'settings ran. sweep: 2-4 profiles '
          'of equal length simulated from short-lived arrays, from one set of arrays written again, and from arrays kept; '
          'calls: the same for single public functions.',
          assumptions=['bit-identical results are required (NaN equals NaN)',
                       'a simulation selects its models before it runs, as the documented interface requires'])

STEPS = ['build', 'run', 'run', 'run', 'direct', 'rejected', 'scribble', 'weighting', 'other']


@st.composite
def histories(draw):
    n = draw(st.integers(2, 3))
    specs = []
    for _ in range(n):
        s = draw(sims(nf=(1, 2), na=(1, 2)))
        s['amu'] = draw(st.sampled_from([None, None, 'same', 'perturbed']))
        if s['amu']:
            m = draw(st.sampled_from(['R17', 'R18', 'R19', 'R20', 'R20SD']))
            s['m'] = {'h2o': m, 'o2': m, 'n2': m}
            if m in ('R18', 'R20SD') and s['cloud']:
                s['cloud'] = None      # no liquid-water formula under these names
        specs.append(s)
    # one ozone line list for the whole history: it is loaded once, by the user
    o3 = draw(st.sampled_from(['', 'R18', 'R22']))
    for s in specs:
        s['o3'] = o3
        if not o3:
            s['o3n'] = None
        elif s['o3n'] is None:
            s['o3n'] = [5e17] * len(s['prof']['z'])
    steps = draw(st.lists(st.tuples(st.sampled_from(STEPS), st.integers(0, n - 1)), min_size=2, max_size=10))
    return {'specs': specs, 'steps': [list(x) for x in steps], 'o3': o3}


class Sim:
    def __init__(self, spec):
        from pyrtlib.uncertainty import SpectroscopicParameter as SP
        self.s = s = spec
        pr = s['prof']
        self.args = {k: np.array(pr[k], dtype=float) for k in ('z', 'p', 't', 'rh')}
        self.args['frq'] = np.array(s['f'], dtype=float)
        self.args['angles'] = np.array(s['a'], dtype=float)
        self.args['es'] = np.array(s['es'], dtype=float)
        if s['o3n'] is not None:
            self.args['o3n'] = np.array(s['o3n'], dtype=float)
        if s['cloud']:
            cl, z = s['cloud'], self.args['z']
            self.args['cldh'] = np.array([[z[cl['base']]], [z[cl['top']]]])
            self.args['ice'] = np.array(cl['ice'], dtype=float)
            self.args['liq'] = np.array(cl['liq'], dtype=float)
        self.amu = None
        if s['amu']:
            w = SP.water_parameters(s['m']['h2o'])
            o = SP.oxygen_parameters(s['m']['o2'])
            self.amu = {**w, **o}
            if s['o3']:
                self.amu.update(SP.ozono_parameters(s['o3']))
            if s['amu'] == 'perturbed':
                self.amu['gamma_a'].value[0] *= 1.05
                self.amu['con_Cf'].value *= 1.1
                self.amu['O2gamma'].value[5] *= 1.05
                for k in ('Y300_NL', 'O2_V_NL', 'O2gamma_NL'):
                    if k in self.amu:
                        self.amu[k].value = self.amu[k].value * 1.02
                if s['o3']:
                    self.amu['O3_W'].value = self.amu['O3_W'].value * 1.2
                    self.amu['O3_S1'].value = self.amu['O3_S1'].value * 1.3
        self.keep = {k: v.copy() for k, v in self.args.items()}
        self.keep_amu = None if self.amu is None else {k: np.array(v.value, copy=True) for k, v in self.amu.items()}
        self.rte = None

    def build(self):
        from pyrtlib.tb_spectrum import TbCloudRTE
        a, s = self.args, self.s
        kw = {} if self.amu is None else {'amu': self.amu}
        self.rte = TbCloudRTE(a['z'], a['p'], a['t'], a['rh'], a['frq'], a['angles'], o3n=a.get('o3n'),
                              ray_tracing=s['ray'], from_sat=s['sat'], cloudy=s['cloud'] is not None, **kw)
        self.rte.emissivity = a['es']
        if s['cloud']:
            self.rte.init_cloudy(a['cldh'], a['ice'], a['liq'])

    def run(self):
        from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel
        if self.rte is None:
            self.build()
        m = self.s['m']
        self.rte.init_absmdl('R19')
        H2OAbsModel.model, O2AbsModel.model, N2AbsModel.model = m['h2o'], m['o2'], m['n2']
        df, out = self.rte.execute(only_bt=False)
        return df, out

    def unchanged(self, step):
        for k, v in self.args.items():
            require(np.array_equal(v, self.keep[k]), 'step %s: input %s was modified: %s -> %s', step, k, self.keep[k], v)
        if self.amu is not None:
            require(set(self.amu) == set(self.keep_amu), 'step %s: parameter names changed', step)
            for k, v in self.amu.items():
                require(np.array_equal(np.asarray(v.value), self.keep_amu[k]), 'step %s: parameter %s was modified', step, k)


def snapshot(res):
    df, out = res
    d = {k: np.array(v, copy=True) for k, v in out.items()}
    d['table'] = df.to_numpy(dtype=float).copy()
    return d


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k], equal_nan=True) for k in a)


def differing(a, b):
    return [k for k in a if not np.array_equal(a[k], b[k], equal_nan=True)]


@C.sub('histories', histories(), quick=360, thorough=8000, shards=8)
def run_history(c, ctx):
    from pyrtlib.absorption_model import AbsModelError, H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel
    from pyrtlib.weighting_functions import WeightingFunctions
    lib.select(o3=c['o3'])
    S = [Sim(s) for s in c['specs']]
    if c['o3']:
        lib.select(o3=c['o3'])
    base, ran, held = {}, [], []
    for no, (op, i) in enumerate(c['steps'] + [['run', j] for j in range(len(S))]):
        s = S[i]
        step = '%d (%s %d)' % (no, op, i)
        if op == 'build':
            s.build()
        elif op in ('run', 'scribble'):
            res = s.run()
            snap = snapshot(res)
            if i in base:
                require(same(base[i], snap), 'step %s: the same simulation gives different %s than before', step,
                        differing(base[i], snap))
                if ran and ran[-1] != i:
                    ctx.nontrivial(True)
                    ctx.label('rerun after another')
            else:
                base[i] = snap
            ran.append(i)
            if op == 'scribble':
                # the caller owns what was returned
                df, out = res
                for col in df.columns:
                    df[col] = -1.0
            else:
                held = [h for h in held if h[0] is not s.rte]
                held.append((s.rte, res, snap))
        elif op == 'direct':
            from pyrtlib.rt_equation import RTEquation
            a = s.args
            e, _ = RTEquation.vapor(a['t'], a['rh'])
            lib.select(h2o='R98', o2='R98', n2='R98')
            RTEquation.clearsky_absorption(a['p'], a['t'], e, a['frq'][0])
        elif op == 'rejected':
            if s.rte is None:
                s.build()
            keep = (s.rte.satellite, np.array(s.rte.emissivity))
            for f in (lambda: setattr(s.rte, 'satellite', 'no'), lambda: setattr(s.rte, 'emissivity', 'x')):
                try:
                    f()
                except ValueError:
                    continue
                require(False, 'step %s: an invalid setting was accepted', step)
            require(s.rte.satellite == keep[0] and np.array_equal(s.rte.emissivity, keep[1]), 'step %s: setting changed', step)
            s.rte.init_absmdl('none')
            try:
                s.rte.execute()
            except AbsModelError:
                pass
            else:
                require(False, 'step %s: an unknown model was simulated', step)
        elif op == 'weighting':
            a = s.args
            w = WeightingFunctions(a['z'], a['p'], a['t'], a['rh'], 2.0)
            w.frequencies = a['frq']
            w.satellite = not s.s['sat']
            w.generate_wf()
        elif op == 'other':
            pr = {k: list(s.keep[k]) for k in ('z', 'p', 't', 'rh')}
            r = lib.rte(pr, [183.0, 22.0], {'h2o': 'R24', 'o2': 'R24', 'n2': 'R24'}, sat=not s.s['sat'], emissivity=0.123)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r.execute()
        for q in S:
            q.unchanged(step)
        for owner, res, snap in held:
            if op in ('run', 'scribble') and owner is s.rte and res is not held[-1][1]:
                continue
            require(same(snapshot(res), snap), 'step %s: a result returned earlier changed: %s', step,
                    differing(snapshot(res), snap))
    ctx.label('ozone' if c['o3'] else 'no ozone', *[str(s['amu']) for s in c['specs']])


@st.composite
def sweeps(draw):
    """Several profiles of the same length through one channel set, as in a loop over soundings."""
    k = draw(st.integers(2, 4))
    profs = [draw(gen.profile(3, 6, dzmax=4.0)) for _ in range(k)]
    n = min(len(pr['z']) for pr in profs)
    profs = [{q: list(v[:n]) for q, v in pr.items()} for pr in profs]
    share = draw(st.lists(st.sampled_from(['z', 'p', 't', 'rh']), max_size=3, unique=True))
    for pr in profs[1:]:
        for q in share:
            pr[q] = list(profs[0][q])
    o3 = draw(st.sampled_from(['', '', 'R18', 'R22']))
    o3n = [draw(st.lists(gen.logfl(1e16, 1e19), min_size=n, max_size=n)) for _ in range(k)] if o3 else None
    f = draw(st.lists(gen.fl(10.0, 340.0), min_size=1, max_size=2))
    return {'profs': profs, 'o3': o3, 'o3n': o3n, 'f': f, 'm': draw(gen.models(full=False)), 'sat': draw(st.booleans()),
            'ray': draw(st.booleans()), 'a': [draw(gen.fl(10.0, 90.0, 5))], 'liq': draw(st.booleans()),
            'ways': draw(st.permutations(['temporary', 'in place', 'kept'])),
            'order': draw(st.lists(st.integers(0, k - 1), min_size=0, max_size=4))}


@C.sub('sweep', sweeps(), quick=240, thorough=5000, shards=8)
def sweep(c, ctx):
    from pyrtlib.tb_spectrum import TbCloudRTE
    from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel
    lib.select(o3=c['o3'])
    n, m = len(c['profs'][0]['z']), c['m']
    cols = ['z', 'p', 't', 'rh'] + (['o3n'] if c['o3'] else [])

    def values(i):
        d = dict(c['profs'][i])
        if c['o3']:
            d['o3n'] = c['o3n'][i]
        return d

    def simulate(a):
        r = TbCloudRTE(a['z'], a['p'], a['t'], a['rh'], np.array(c['f'], dtype=float), np.array(c['a'], dtype=float),
                       o3n=a.get('o3n'), ray_tracing=c['ray'], from_sat=c['sat'], cloudy=c['liq'])
        r.emissivity = 0.7
        if c['liq']:
            z = a['z']
            den = np.full(n, 0.1)
            r.init_cloudy(np.array([[z[0]], [z[-1]]]), den, den.copy())
        r.init_absmdl('R19')
        H2OAbsModel.model, O2AbsModel.model, N2AbsModel.model = m['h2o'], m['o2'], m['n2']
        return r, r.execute(only_bt=False)

    order = list(range(len(c['profs']))) + c['order']
    first, kept, held = {}, [], []
    arrays = {q: np.empty(n) for q in cols}
    for way in c['ways']:
        for i in order:
            v = values(i)
            if way == 'in place':
                for q in cols:
                    arrays[q][:] = v[q]
                r, res = simulate(arrays)
            else:
                a = {q: np.array(v[q], dtype=float) for q in cols}
                r, res = simulate(a)
                if way == 'kept':
                    kept.append((a, r, res))
                    for q in cols:
                        require(np.array_equal(a[q], v[q]), 'profile %d: input %s was modified', i, q)
                a = None
            snap = snapshot(res)
            if way != 'kept':
                r = None
            if i in first:
                require(same(first[i][1], snap), 'profile %d gives other %s in arrays %s (order %s) than in arrays %s', i,
                        differing(first[i][1], snap), way, order, first[i][0])
            else:
                first[i] = (way, snap)
            held.append((i, way, res, snap))
            res = None
    for i, way, res, snap in held:
        require(same(snapshot(res), snap), 'the result for profile %d (%s) changed later: %s', i, way,
                differing(snapshot(res), snap))
    ctx.nontrivial(any(c['profs'][0] != pr for pr in c['profs'][1:]))
    ctx.label('ozone' if c['o3'] else 'no ozone', 'sat' if c['sat'] else 'ground')


@st.composite
def chains(draw):
    name = draw(st.sampled_from(c31.NAMES))
    n = draw(st.integers(1, 6))
    k = draw(st.integers(2, 4))
    raw = st.lists(st.lists(st.integers(0, 10 ** 6), min_size=n, max_size=n), min_size=4, max_size=4)
    sets = [draw(raw) for _ in range(k)]
    for s in sets[1:]:
        for j in range(4):
            if draw(st.integers(0, 2)) == 0:
                s[j] = list(sets[0][j])
    return {'fn': name, 'sets': sets, 'step': draw(st.sampled_from([0.0, 0.25, 0.5]))}


@C.sub('calls', chains(), quick=3000, thorough=60000)
def function_calls(c, ctx):
    """One function over several sets of values: same arrays overwritten, short-lived arrays, arrays kept alive."""
    if 'absorption' in c['fn']:
        lib.select(h2o='R19', o2='R19', n2='R19', o3='R18', liq='R19')
    fn, spec = c31.table()[c['fn']]
    sets = []
    for raw in c['sets']:
        cols = []
        for q, vals in zip(spec.split(), raw):
            lo, hi = c31.RANGE[q]
            cols.append([lo + (v % (hi - lo + 1)) * (1.0 if lo + v % (hi - lo + 1) >= hi else 1.0 + c['step'] / max(hi, 1))
                         for v in vals])
        sets.append(cols)
    fresh, keep = [], []
    for s in sets:
        a = [np.array(x) for x in s]
        res = c31.flat(fn(*a))
        keep.append(a)
        fresh.append([v.copy() for v in res])
        for x, y in zip(a, s):
            require(np.array_equal(x, y), '%s modified its argument', c['fn'])
    for i, s in enumerate(sets):
        got = c31.flat(fn(*[np.array(x) for x in s]))
        equal(c['fn'], 'short-lived arrays', i, got, fresh[i])
    arr = [np.array(x) for x in sets[0]]
    held = []
    for i, s in list(enumerate(sets)) + [(0, sets[0])]:
        for x, y in zip(arr, s):
            x[:] = y
        res = fn(*arr)
        got = c31.flat(res)
        equal(c['fn'], 'arrays written again', i, got, fresh[i])
        held.append((i, res))
    for i, a in enumerate(keep):
        equal(c['fn'], 'the first arrays', i, c31.flat(fn(*a)), fresh[i])
    if c['fn'] not in IDENTITY:
        for i, res in held:
            equal(c['fn'], 'a result returned earlier', i, c31.flat(res), fresh[i])
    ctx.nontrivial(any(s != sets[0] for s in sets[1:]))
    ctx.label(c['fn'].split()[0])


# none of the functions returns its argument itself
IDENTITY = ()


def equal(name, how, i, got, want):
    require(len(got) == len(want), '%s, %s: %d results instead of %d', name, how, len(got), len(want))
    for a, b in zip(got, want):
        close(a, b, rtol=1e-12, atol=1e-300, what='%s, values %d in %s' % (name, i, how))
