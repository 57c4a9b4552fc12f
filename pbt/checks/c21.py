"""C21 ITU-R P.835 reference atmospheres."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, expect_raises
from .. import gen
from ..ref import itu835

C = Check('C21', rule='A case is 1-12 heights (0-100 km, biased to the layer boundaries and their neighbourhoods), a latitude '
          '(biased to the band edges, either hemisphere), a season, and scalar or array passing. Non-trivial: heights in at '
          'least two layers, or a boundary height.',
          assumptions=['heights between 85.999 and 86 km are left out for the global mean atmosphere (the Recommendation '
                       'leaves 85.99995-86 km undefined); latitude exactly 45 degrees is left out',
                       'surface temperature and pressure arguments of the global mean atmosphere at their reference values: '
                       'the Recommendation (P.835-6) has no others'])
EDGES = [0, 8.5, 10, 13, 15, 17, 23, 30, 33, 47, 48, 50, 52, 53, 54, 72, 79, 80, 100, 86, 91]
GEO = [6356.766 * g / (6356.766 - g) for g in (11, 20, 32, 47, 51, 71)]


@st.composite
def height(draw):
    k = draw(st.sampled_from(['any', 'low', 'edge', 'near', 'geo']))
    if k == 'any':
        return draw(gen.fl(0.0, 100.0))
    if k == 'low':
        return draw(gen.fl(0.0, 20.0))
    e = draw(st.sampled_from(EDGES if k != 'geo' else GEO))
    if k == 'edge':
        return float(e)
    h = min(100.0, max(0.0, e + draw(st.sampled_from([-1, 1])) * draw(gen.logfl(1e-6, 1.0))))
    return gen.rnd(h, 10)


LAT = st.one_of(gen.fl(-90.0, 90.0), st.sampled_from([0.0, 22.0, -22.0, 21.999, 44.999, 45.001, -45.001, 90.0, -90.0, 60.0]))


@C.sub('bands', st.fixed_dictionaries({'lat': LAT, 'h': st.lists(height(), min_size=1, max_size=12),
                                       'season': st.sampled_from(['summer', 'winter', 'default']),
                                       'mode': st.sampled_from(['array', 'array', 'scalar', 'lats'])}),
       quick=6000, thorough=120000)
def bands(c, ctx):
    from pyrtlib.climatology import ProfileExtrapolation
    ex = ProfileExtrapolation()
    lat, season = c['lat'], 'summer' if c['season'] == 'default' else c['season']
    if abs(lat) == 45:
        return
    h = np.array(c['h'])
    for name, fn, ref in (('temperature', ex.temperature, itu835.temperature), ('pressure', ex.pressure, itu835.pressure),
                          ('water vapour density', ex.water_vapour_density, itu835.density)):
        args = () if c['season'] == 'default' else (season,)
        if c['mode'] == 'scalar':
            got = np.array([float(fn(lat, float(x), *args)) for x in h])
        elif c['mode'] == 'lats':
            got = np.asarray(fn(np.where(np.arange(len(h)) % 2, -lat, lat), h, *args))
        else:
            keep = h.copy()
            got = np.asarray(fn(lat, h, *args))
            require(np.array_equal(h, keep), 'heights modified')
        close(got, [ref(lat, float(x), season) for x in h], rtol=1e-11, what='%s at latitude %g, %s' % (name, lat, season))
        other = np.asarray(fn(-lat, h, *args))
        require(np.array_equal(other, np.asarray(fn(lat, h, *args))), '%s depends on the hemisphere', name)
        if name == 'pressure':
            o = np.argsort(h)
            big = np.diff(h[o]) > 1e-4
            require(np.all(got > 0) and np.all(np.diff(got[o])[big] < 0), 'pressure not decreasing: %s', got[o])
        elif name == 'temperature':
            require(np.all((got > 150) & (got < 320)), 'temperature out of range %s', got)
        else:
            require(np.all(got >= 0), 'negative density')
    with expect_raises(ValueError, what='season spring'):
        ex.temperature(lat, h, 'spring')
    ctx.nontrivial(len(set(int(sum(x > e for e in EDGES)) for x in h)) > 1 or any(float(x) in EDGES for x in h))
    ctx.label('low' if abs(lat) < 22 else 'mid' if abs(lat) < 45 else 'high', season, c['mode'])


@C.sub('global_mean', st.fixed_dictionaries({'h': st.lists(height(), min_size=1, max_size=12), 'scalar': st.booleans(),
                                             'h0': gen.fl(0.5, 5.0), 'rho0': st.one_of(st.just(0.0), gen.fl(0.1, 25.0))}),
       quick=4000, thorough=80000)
def global_mean(c, ctx):
    from pyrtlib.climatology import ProfileExtrapolation
    ex = ProfileExtrapolation()
    h = np.array([x for x in c['h'] if not 85.999 < x < 86.0])
    if not len(h):
        return
    f = (lambda fn, *a: np.array([float(fn(float(x), *a)) for x in h])) if c['scalar'] else (lambda fn, *a: np.asarray(fn(h, *a)))
    t = f(ex.standard_temperature, 288.15)
    close(t, [itu835.std_temperature(x) for x in h], rtol=1e-11, what='global mean temperature')
    p = f(ex.standard_pressure, 288.15, 1013.25)
    close(p, [itu835.std_pressure(x) for x in h], rtol=1e-10, what='global mean pressure')
    o = np.argsort(h)
    require(np.all(p > 0) and np.all(np.diff(p[o])[np.diff(h[o]) > 1e-3] < 0), 'pressure not decreasing')
    w = f(ex.standard_water_vapour_density, c['h0'], c['rho0'])
    want = np.array([c['rho0'] * math.exp(-x / c['h0']) for x in h])
    close(w, want, rtol=1e-11, what='global mean vapour density')
    e = f(ex.standard_water_vapour_pressure, c['h0'], c['rho0'])
    close(e, want * np.array([itu835.std_temperature(x) for x in h]) / 216.7, rtol=1e-11, what='vapour pressure')
    close(f(ex.standard_water_vapour_pressure), np.array([7.5 * math.exp(-x / 2) * itu835.std_temperature(x) for x in h]) / 216.7,
          rtol=1e-11, what='vapour pressure, default surface density and scale height')
    ctx.nontrivial(len(h) > 1)


@C.sub('unknown_mode', st.text(alphabet='ITU-Anex12', max_size=10), quick=150, thorough=500, shards=1)
def unknown_mode(m, ctx):
    from pyrtlib.climatology import ProfileExtrapolation
    if m == 'ITU-Annex1':
        return
    with expect_raises(ValueError, what='mode %r' % m):
        ProfileExtrapolation(m)
    ctx.nontrivial(True)
