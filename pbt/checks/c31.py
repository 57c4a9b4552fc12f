"""C31 results do not depend on how the numbers are stored: metamorphic check over integer arrays, views and read-only data."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen, lib

C = Check('C31', rule='functions: one public function, 1-8 levels of whole-number inputs and, per argument, a way of storing it '
          '(integer array, strided or reversed view, column of a table, read-only, Fortran order). simulation and weighting: '
          'the same for a whole simulation. Non-trivial: at least one argument is not a plain float array.',
          assumptions=['stored as 64- or 32-bit integers or 64-bit floats; single precision is left out (its own rounding)',
                       'agreement to 1e-11 relative: vectorised loops may differ in the last digits'])

HOW = ['plain', 'int64', 'int32', 'strided', 'reversed', 'column', 'readonly', 'bigendian']


def stored(x, how):
    a = np.array(x, dtype=float)
    n = len(a)
    if how in ('int64', 'int32'):
        if not np.array_equal(a, np.rint(a)):
            return a
        return a.astype(how if np.all(np.abs(a) < 2e9) else 'int64')
    if how == 'strided':
        b = np.full(2 * n, -777.0)
        b[::2] = a
        return b[::2]
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'column':
        b = np.full((n, 3), -777.0)
        b[:, 1] = a
        return b[:, 1]
    if how == 'bigendian':
        return a.astype('>f8')
    if how == 'readonly':
        a.flags.writeable = False
    return a


def flat(r):
    if isinstance(r, tuple):
        return [np.asarray(v, dtype=float) for x in r for v in flat(x)]
    return [np.asarray(r, dtype=float)]


# arguments: the letter names the quantity, drawn as whole numbers
ARGS = {'p': st.integers(100, 1080), 't': st.integers(180, 330), 'c': st.integers(-70, 50), 'mr': st.integers(0, 20),
        'e': st.integers(0, 8), 'rho': st.integers(0, 20), 'rh': st.integers(0, 1), 'h': st.integers(0, 100),
        'm': st.integers(0, 20000), 'x': st.integers(0, 400), 'ds': st.integers(0, 5), 'A': st.integers(1, 50),
        's': st.integers(0, 9), 'den': st.integers(0, 3)}


def table():
    from pyrtlib import utils as u
    from pyrtlib.rt_equation import RTEquation as R
    from pyrtlib.climatology import ProfileExtrapolation
    from pyrtlib.uncertainty import AbsModUncertainty as SP
    X = ProfileExtrapolation()
    T = {'e2mr': (u.e2mr, 'p e'), 'mr2e': (u.mr2e, 'p mr'), 'mr2rh': (u.mr2rh, 'p t mr'), 'mr2rho': (u.mr2rho, 'mr t p'),
         'mr2rh ice': (lambda p, t, w: u.mr2rh(p, t, w, 253.0), 'p t mr'),
         'rho2mr': (u.rho2mr, 'rho t p'), 'rho2rh': (u.rho2rh, 'rho t p'), 'satmix': (u.satmix, 'p t'),
         'satmix ice': (lambda p, t: u.satmix(p, t, 253), 'p t'), 'satvap': (u.satvap, 't'),
         'satvap ice': (lambda t: u.satvap(t, 253.0), 't'), 'eswat': (u.eswat_goffgratch, 't'),
         'esice': (u.esice_goffgratch, 't'), 'ppmv2gkg': (lambda v: u.ppmv2gkg(v, 0), 'm'),
         'ppmv_to_moleculesm3': (u.ppmv_to_moleculesm3, 'm p t'), 'virtual_temperature': (u.virtual_temperature, 't rh'),
         'dewpoint arm': (lambda a, b: u.dewpoint2rh(a, b), 'c c'),
         'dewpoint': (lambda a, b: u.dewpoint2rh(a, b, ice=True, method='x'), 'c c'),
         'kgkg_to_kgm3': (u.kgkg_to_kgm3, 'rh p t'), 'to_kelvin': (u.to_kelvin, 'c'), 'to_celsius': (u.to_celsius, 't'),
         'pressure_to_height': (u.pressure_to_height, 'p'), 'height_to_pressure': (u.height_to_pressure, 'm'),
         'vapor': (R.vapor, 't rh'), 'vapor ice': (lambda t, rh: R.vapor(t, rh, True), 't rh'),
         'refractivity': (R.refractivity, 'p t e'),
         'integration': (lambda x, d: R.exponential_integration(True, x, d, 1, len(d), 1), 'x ds'),
         'integration no zero': (lambda x, d: R.exponential_integration(False, x, d, 1, len(d), 0.1), 'x ds'),
         'cloudy_absorption': (lambda t, a, b: R.cloudy_absorption(t, a, b, 31.4), 't den den'),
         'clearsky_absorption': (lambda p, t, e: R.clearsky_absorption(p, t, e, 23.8), 'p t e'),
         'clearsky_absorption ozone': (lambda p, t, e, o: R.clearsky_absorption(p, t, e, 110, o), 'p t e m'),
         'planck': (lambda t, x: R.planck(31, t, x)[:6], 't ds'),
         'propagation': (lambda a, b, sa, sb: SP.uncertainty_propagation('A*B', a, b, sa, sb), 'A A s s'),
         'propagation quotient': (lambda a, b, sa, sb: SP.uncertainty_propagation('A/B', a, b, sa, sb), 'A A s s'),
         'propagation power': (lambda a, b, sa, sb: SP.uncertainty_propagation('A^a', a, b, sa, sb, a=-2.0), 'A A s s'),
         'density': (lambda h: X.standard_water_vapour_density(h, 2.0, 7.5), 'h'),
         'vapour pressure': (lambda h: X.standard_water_vapour_pressure(h), 'h'),
         'standard_temperature': (lambda h: X.standard_temperature(h, 288.15), 'h'),
         'standard_pressure': (lambda h: X.standard_pressure(h, 288.15, 1013.25), 'h')}
    for lat in (5, 30, -70):
        for s in ('summer', 'winter'):
            for name in ('temperature', 'pressure', 'water_vapour_density'):
                T['%s %d %s' % (name, lat, s)] = (lambda h, n=name, l=lat, q=s: getattr(X, n)(l, h, q), 'h')
    return T


NAMES = sorted(['e2mr', 'mr2e', 'mr2rh', 'mr2rh ice', 'mr2rho', 'rho2mr', 'rho2rh', 'satmix', 'satmix ice', 'satvap',
                'satvap ice', 'eswat', 'esice', 'ppmv2gkg', 'ppmv_to_moleculesm3', 'virtual_temperature', 'dewpoint arm',
                'dewpoint', 'kgkg_to_kgm3', 'to_kelvin', 'to_celsius', 'pressure_to_height', 'height_to_pressure', 'vapor',
                'vapor ice', 'refractivity', 'integration', 'integration no zero', 'cloudy_absorption',
                'clearsky_absorption', 'clearsky_absorption ozone', 'planck', 'propagation', 'propagation quotient',
                'propagation power', 'density', 'vapour pressure', 'standard_temperature', 'standard_pressure'] +
               ['%s %d %s' % (n, a, s) for n in ('temperature', 'pressure', 'water_vapour_density') for a in (5, 30, -70)
                for s in ('summer', 'winter')])
SPEC = {}


@st.composite
def calls(draw):
    name = draw(st.sampled_from(NAMES))
    n = draw(st.integers(1, 8))
    cols = draw(st.lists(st.lists(st.integers(0, 10 ** 6), min_size=n, max_size=n), min_size=4, max_size=4))
    return {'fn': name, 'raw': cols, 'how': draw(st.lists(st.sampled_from(HOW), min_size=4, max_size=4))}


RANGE = {'p': (100, 1080), 't': (180, 330), 'c': (-70, 50), 'mr': (0, 20), 'e': (0, 8), 'rho': (0, 20), 'rh': (0, 1),
         'h': (0, 100), 'm': (0, 20000), 'x': (0, 400), 'ds': (0, 5), 'A': (1, 50), 's': (0, 9), 'den': (0, 3)}


@C.sub('functions', calls(), quick=6000, thorough=100000)
def functions(c, ctx):
    if 'absorption' in c['fn']:
        lib.select(h2o='R19', o2='R19', n2='R19', o3='R18', liq='R19')
    fn, spec = table()[c['fn']]
    cols = []
    for q, raw in zip(spec.split(), c['raw']):
        lo, hi = RANGE[q]
        cols.append([float(lo + v % (hi - lo + 1)) for v in raw])
    want = fn(*[np.array(x) for x in cols])
    got = fn(*[stored(x, h) for x, h in zip(cols, c['how'])])
    w, g = flat(want), flat(got)
    require(len(w) == len(g), '%d results instead of %d', len(g), len(w))
    for i, (a, b) in enumerate(zip(g, w)):
        require(a.shape == b.shape, '%s result %d has shape %s instead of %s', c['fn'], i, a.shape, b.shape)
        close(a, b, rtol=1e-11, atol=1e-300, what='%s, arguments stored as %s, result %d' % (c['fn'], c['how'][:len(cols)], i))
    ctx.nontrivial(any(h != 'plain' for h in c['how'][:len(cols)]))
    ctx.label(c['fn'].split()[0])


@st.composite
def whole(draw):
    n = draw(st.integers(3, 7))
    z = [draw(st.integers(0, 2))]
    for _ in range(n - 1):
        z.append(z[-1] + draw(st.integers(1, 4)))
    t = [draw(st.integers(265, 305))]
    for _ in range(n - 1):
        t.append(max(200, t[-1] - draw(st.integers(-2, 12))))
    p = [int(1013 * np.exp(-v / 7.5)) for v in z]
    p = [v - i for i, v in enumerate(p)]
    rh = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    rh = [r if p[i] > 150 else 0 for i, r in enumerate(rh)]
    return {'z': z, 'p': p, 't': t, 'rh': rh, 'f': draw(st.lists(st.integers(10, 300), min_size=1, max_size=3)),
            'a': draw(st.lists(st.integers(10, 90), min_size=1, max_size=2)),
            'o3n': draw(st.one_of(st.none(), st.lists(st.integers(0, 10 ** 18), min_size=n, max_size=n))),
            'den': draw(st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=n, max_size=n))),
            'sat': draw(st.booleans()), 'ray': draw(st.booleans()), 'model': draw(st.sampled_from(['R98', 'R17', 'R19', 'R24'])),
            'how': {k: draw(st.sampled_from(HOW)) for k in ('z', 'p', 't', 'rh', 'f', 'a', 'o3n', 'den', 'es')},
            'down': draw(st.booleans())}


@C.sub('simulation', whole(), quick=320, thorough=12000)
def simulation(c, ctx):
    from pyrtlib.tb_spectrum import TbCloudRTE
    lib.select(o3='R18')
    res = []
    for plain in (True, False):
        how = {k: 'plain' if plain else v for k, v in c['how'].items()}
        step = -1 if c['down'] else 1
        A = {k: stored(c[k][::step] if k in ('z', 'p', 't', 'rh') else c[k], how[k]) for k in ('z', 'p', 't', 'rh', 'f', 'a')}
        o3 = None if c['o3n'] is None else stored(c['o3n'][::step], how['o3n'])
        r = TbCloudRTE(A['z'], A['p'], A['t'], A['rh'], A['f'], A['a'], o3n=o3, absmdl=c['model'], ray_tracing=c['ray'],
                       from_sat=c['sat'], cloudy=c['den'] is not None)
        r.emissivity = stored([float(i % 2) for i in range(len(c['f']))], how['es'])
        if c['den'] is not None:
            d = stored(c['den'][::step], how['den'])
            r.init_cloudy(np.array([[c['z'][0]], [c['z'][-1]]]), d, d)
        df, out = r.execute(only_bt=False)
        res.append((df.to_numpy(dtype=float), {k: np.asarray(v, dtype=float) for k, v in out.items()}))
    (t0, o0), (t1, o1) = res
    # slant paths subtract nearly equal numbers
    tol = 1e-7 if c['ray'] else 1e-10
    close(t1, t0, rtol=tol, atol=1e-300, what='table, stored as %s' % c['how'])
    for k in o0:
        close(o1[k], o0[k], rtol=tol, atol=1e-300, what='%s, stored as %s' % (k, c['how']))
    ctx.nontrivial(any(v != 'plain' for v in c['how'].values()))
    ctx.label('cloudy' if c['den'] else 'clear')


@C.sub('weighting', whole(), quick=96, thorough=4000, shards=4)
def weighting(c, ctx):
    from pyrtlib.weighting_functions import WeightingFunctions
    res = []
    for plain in (True, False):
        h = (lambda k: 'plain') if plain else (lambda k: c['how'][k])
        w = WeightingFunctions(*[stored(c[k], h(k)) for k in ('z', 'p', 't', 'rh')])
        w.frequencies = stored(c['f'], h('f'))
        w.satellite = c['sat']
        w.angle = float(c['a'][0])
        res.append(np.asarray(w.generate_wf(), dtype=float))
    close(res[1], res[0], rtol=1e-7, atol=1e-300, what='weighting functions, stored as %s' % c['how'])
    ctx.nontrivial(any(v != 'plain' for v in c['how'].values()))


@C.sub('extension', st.tuples(st.lists(st.integers(1, 3), min_size=2, max_size=10), st.integers(-80, 80), st.integers(1, 12),
                              st.lists(st.sampled_from(HOW), min_size=4, max_size=4)), quick=400, thorough=8000)
def extension(v, ctx):
    from pyrtlib.climatology import ProfileExtrapolation
    dz, lat, month, how = v
    z = np.concatenate(([0], np.cumsum(dz)))
    cols = [z, [float(int(1013 * np.exp(-x / 7.5))) for x in z], [280.0 - 2 * x for x in z], [float(i % 2) for i in range(len(z))]]
    a = ProfileExtrapolation().profile_extrapolation(lat, month, np.array(cols[0], dtype=float),
                                                     tuple(np.array(x, dtype=float) for x in cols[1:]))
    b = ProfileExtrapolation().profile_extrapolation(lat, month, stored(cols[0], how[0]),
                                                     tuple(stored(x, h) for x, h in zip(cols[1:], how[1:])))
    for x, y in zip(a, b):
        close(np.asarray(y, dtype=float), np.asarray(x, dtype=float), rtol=1e-11, what='extension, stored as %s' % how)
    ctx.nontrivial(any(h != 'plain' for h in how))
