"""C30 a simulation object depends only on its current settings: stateful model against a freshly built object."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, require
from .. import gen, lib
from .c11 import sims
from .c12 import snapshot, same, differing

C = Check('C30', rule='A case is a generated simulation (clear or cloudy, ozone or not) and a history of 1-8 steps on one object: '
          'assign another viewing mode, emissivity (number or array), channel list, angle list, ray-tracing, ice or cloudy flag, '
          'cloud, ozone profile, parameter set or absorption model, run. After every run the result must be bit-identical to '
          'that of an object built afresh with the settings then in force, and earlier results unchanged. Non-trivial: the '
          'object runs again after at least one setting changed.',
          assumptions=['channel and angle lists are replaced by lists of the same length (output arrays are sized when the '
                       'object is built)', 'the cloudy flag is switched on before init_cloudy is called'])

MODELS = ['R98', 'R16', 'R17', 'R19', 'R20', 'R24']
UNCERTAIN = ['R17', 'R19', 'R20']


@st.composite
def histories(draw):
    c = draw(sims(nf=(1, 2), na=(1, 2)))
    n, nf, na = len(c['prof']['z']), len(c['f']), len(c['a'])
    c['model'] = draw(st.sampled_from(MODELS))
    c['o3'] = c['o3'] or 'R18'
    den = st.lists(st.one_of(st.just(0.0), gen.logfl(1e-3, 2.0)), min_size=n, max_size=n)
    steps = [['run', None]] if draw(st.integers(0, 3)) else []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(['sat', 'es', 'es', 'frq', 'angles', 'ray', 'ice', 'cloudy', 'cloudy', 'cloud', 'o3n', 'model', 'amu',
                                  'set_amu', 'there and back', 'run', 'run', 'run']))
        v = None
        if k in ('sat', 'ray', 'ice'):
            v = draw(st.booleans())
        elif k == 'cloudy':     # switched on again with the cloud given anew or with the one given before
            v = draw(st.sampled_from([False, False, True, 'again']))
        elif k == 'es':
            v = draw(st.one_of(gen.fl(0.0, 1.0, 4), st.lists(gen.fl(0.0, 1.0, 4), min_size=nf, max_size=nf)))
        elif k == 'frq':
            v = draw(st.lists(gen.frequency(10.0, 340.0), min_size=nf, max_size=nf))
        elif k == 'angles':
            v = draw(st.lists(gen.fl(10.0, 90.0, 5), min_size=na, max_size=na))
        elif k == 'cloud':
            b = draw(st.integers(0, n - 2))
            v = {'base': b, 'top': draw(st.integers(b + 1, n - 1)), 'liq': draw(den), 'ice': draw(den)}
        elif k == 'o3n':
            v = draw(st.one_of(st.none(), st.lists(gen.logfl(1e16, 1e19), min_size=n, max_size=n)))
        elif k == 'model':
            v = draw(st.sampled_from(MODELS))
        elif k in ('amu', 'set_amu'):
            v = draw(gen.fl(0.8, 1.2, 4))
        elif k == 'there and back':     # a setting changed for one run only
            w = draw(st.sampled_from(['cloudy', 'cloudy', 'ray', 'ice', 'sat']))
            if w == 'cloudy':
                if not any(s[0] == 'cloud' for s in steps) and c['cloud'] is None:
                    b = draw(st.integers(0, n - 2))
                    steps.append(['cloud', {'base': b, 'top': draw(st.integers(b + 1, n - 1)), 'liq': draw(den), 'ice': draw(den)}])
                steps += [[w, False], ['run', None], [w, 'again'], ['run', None]]
            else:
                b = draw(st.booleans())
                steps += [[w, b], ['run', None], [w, not b], ['run', None], [w, b], ['run', None]]
            continue
        steps.append([k, v])
        if k != 'run' and draw(st.integers(0, 2)) == 2:
            steps.append(['run', None])
    return {'sim': c, 'steps': steps}


class State:
    """the settings in force"""
    def __init__(self, c):
        self.s = dict(prof=c['prof'], f=c['f'], a=c['a'], sat=c['sat'], es=c['es'], ray=c['ray'], o3n=c['o3n'],
                      cloud=c['cloud'], cloudy=c['cloud'] is not None, model=c['model'], amu=None, ice=False)

    def build(self):
        from pyrtlib.tb_spectrum import TbCloudRTE
        s = self.s
        z, p, t, rh = gen.arr(s['prof'])
        r = TbCloudRTE(z, p, t, rh, np.array(s['f'], dtype=float), np.array(s['a'], dtype=float),
                       o3n=None if s['o3n'] is None else np.array(s['o3n'], dtype=float), ray_tracing=s['ray'],
                       from_sat=s['sat'], cloudy=s['cloudy'], absmdl=s['model'], amu=self.amu())
        r.emissivity = np.array(s['es'], dtype=float) if isinstance(s['es'], list) else s['es']
        r.ice = s['ice']
        if s['cloudy']:
            self.cloud(r)
        return r

    def cloud(self, r):
        cl, z = self.s['cloud'], np.array(self.s['prof']['z'])
        r.init_cloudy(np.array([[z[cl['base']]], [z[cl['top']]]]), np.array(cl['ice'], dtype=float),
                      np.array(cl['liq'], dtype=float))

    def amu(self):
        """a parameter set of the selected model with one value scaled"""
        s = self.s
        if s['amu'] is None or s['model'] not in UNCERTAIN:
            return None
        from pyrtlib.uncertainty import SpectroscopicParameter as SP
        m = s['model']
        q = {**SP.water_parameters(m), **SP.oxygen_parameters(m), **SP.ozono_parameters('R18')}
        q['gamma_a'].value[0] *= s['amu']
        return q


@C.sub('settings', histories(), quick=400, thorough=9000, shards=8)
def settings(v, ctx):
    c = v['sim']
    lib.select(o3='R18')
    S = State(c)
    s = S.s
    r = S.build()
    held, given = [], []

    def mine(x):
        """an array that stays the caller's"""
        given.append((x, np.array(x, dtype=float)))
        return given[-1][1]
    changed = False
    last = None
    for no, (k, x) in enumerate(v['steps'] + [['run', None]]):
        what = 'step %d (%s %s)' % (no, k, x)
        if k == 'sat':
            r.satellite = s['sat'] = x
        elif k == 'es':
            s['es'] = x
            r.emissivity = mine(x) if isinstance(x, list) else x
        elif k == 'frq':
            s['f'] = x
            r.frq = mine(x)
        elif k == 'angles':
            s['a'] = x
            r.angles = mine(x)
        elif k == 'ray':
            r.ray_tracing = s['ray'] = x
        elif k == 'ice':
            r.ice = s['ice'] = x
        elif k == 'cloudy':
            if x and s['cloud'] is None:
                continue
            r.cloudy = s['cloudy'] = bool(x)
            if x is True:
                S.cloud(r)
        elif k == 'cloud':
            s['cloud'] = x
            r.cloudy = s['cloudy'] = True
            S.cloud(r)
        elif k == 'o3n':
            s['o3n'] = x
            r.o3n = None if x is None else mine(x)
        elif k == 'model':
            s['model'], s['amu'] = x, None
            r.init_absmdl(x)
            r.set_amu(None)
        elif k in ('amu', 'set_amu'):
            if s['model'] not in UNCERTAIN:
                continue
            s['amu'] = x
            r.set_amu(S.amu())
        if k != 'run':
            changed = True
            continue
        r.init_absmdl(s['model'])
        got = r.execute(only_bt=False)
        snap = snapshot(got)
        fresh = snapshot(S.build().execute(only_bt=False))
        require(same(snap, fresh), '%s: differs from a fresh object with the same settings in %s', what, differing(snap, fresh))
        for h, hs, hn in held:
            require(same(snapshot(h), hs), '%s: the result of step %s changed: %s', what, hn, differing(snapshot(h), hs))
        require(all(np.array_equal(a, x) for x, a in given), '%s: an array given as a setting was changed', what)
        held.append((got, snap, no))
        if last is not None and changed:
            ctx.nontrivial(True)
            ctx.label('cloudy' if s['cloudy'] else 'clear', 'perturbed' if s['amu'] else 'plain')
        changed, last = False, snap
