"""C22 extending a measured profile keeps the measurement."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen
from ..ref import itu835
from ..ref.rte import es_water

C = Check('C22', rule='A case is a history of 1-4 extensions with one extrapolation object (profiles of 2-20 ascending levels '
          'whose top lies anywhere from 2 to 110 km, latitude, month). Non-trivial: a second extension with the same object, '
          'or a profile reaching above 50 km.',
          assumptions=['summer and winter are the three-month seasons of the hemisphere poleward of 20 degrees; otherwise the '
                       'global mean atmosphere; latitudes exactly +-20 and +-45 judged only by hemispheric symmetry',
                       'appended levels between 85.999 and 86 km not judged (undefined in the Recommendation)'])


@st.composite
def measured(draw):
    top = draw(st.one_of(gen.fl(2.0, 40.0), gen.fl(2.0, 40.0), gen.fl(40.0, 110.0),
                         st.sampled_from([46.8, 46.9, 49.99, 50.0, 55.0, 99.9, 100.0])))
    n = draw(st.integers(2, 20))
    w = draw(st.lists(gen.fl(0.05, 1.0), min_size=n - 1, max_size=n - 1))
    base = draw(st.one_of(gen.fl(0.0, 1.5), gen.fl(0.0, 1.5), gen.fl(-0.45, 0.0)))
    z = base + np.concatenate(([0.0], np.cumsum(w))) / sum(w) * (top - base)
    z = [gen.rnd(float(x), 9) for x in z[:-1]] + [top]
    t = draw(st.lists(gen.fl(190.0, 310.0), min_size=n, max_size=n))
    p = [gen.rnd(1010.0 * float(np.exp(-x / 7.4)), 8) for x in z]
    rh = draw(st.lists(st.one_of(gen.fl(0.0, 1.0), gen.fl(0.0, 1.0), gen.fl(1.0, 1.3), st.just(0.0)), min_size=n, max_size=n))
    return {'z': z, 'p': p, 't': t, 'rh': rh,
            'lat': draw(st.one_of(gen.fl(-90.0, 90.0), st.sampled_from([0.0, 21.0, -21.0, 46.0, -60.0, 20.5, -20.5, 30.0, 22.0, -22.0, 44.0, -44.0, 90.0, -90.0]))),
            'month': draw(st.integers(1, 12))}


def season(lat, month):
    if abs(lat) <= 20:
        return None
    m = month if lat > 0 else (month + 5) % 12 + 1
    return {6: 'summer', 7: 'summer', 8: 'summer', 12: 'winter', 1: 'winter', 2: 'winter'}.get(m)


def reference(lat, month, h):
    s = season(lat, month)
    if s is None:
        t, p, w = itu835.std_temperature(h), itu835.std_pressure(h), 7.5 * np.exp(-h / 2)
    else:
        t, p, w = itu835.temperature(lat, h, s), itu835.pressure(lat, h, s), itu835.density(lat, h, s)
    return p, t, w * t / 216.7 / float(es_water(t))


def judge(m, out, top):
    z, p, t, rh = (np.array(m[k]) for k in ('z', 'p', 't', 'rh'))
    n = len(z)
    require(len(out) == 4, '%d arrays returned', len(out))
    Z, P, T, R = (np.asarray(x, dtype=float) for x in out)
    require(Z.ndim == 1 and Z.shape == P.shape == T.shape == R.shape, 'shapes %s %s %s %s', Z.shape, P.shape, T.shape, R.shape)
    for name, a, b in (('height', Z, z), ('pressure', P, p), ('temperature', T, t), ('humidity', R, rh)):
        require(len(a) >= n and np.array_equal(a[:n], b), 'measured %s changed: %s instead of %s', name, a[:n], b)
    require(np.all(np.diff(Z) > 0), 'height not increasing: %s', Z)
    if z[-1] >= top:
        require(len(Z) == n, 'a profile reaching the top was extended: %s', Z[n:])
        return
    require(len(Z) > n and abs(Z[-1] - top) < 1e-9, 'the extended profile ends at %r km, not at %r', float(Z[-1]), top)
    require(np.max(np.diff(Z[n - 1:])) <= 5.0 + 1e-9, 'gap of %r km above the measurement', float(np.max(np.diff(Z[n - 1:]))))
    for i in range(n, len(Z)):
        if 85.999 < Z[i] < 86:
            continue
        rp, rt, rr = reference(m['lat'], m['month'], float(Z[i]))
        where = ' at the appended level %g km, latitude %g, month %d' % (Z[i], m['lat'], m['month'])
        close(P[i], rp, rtol=1e-9, what='pressure' + where)
        close(T[i], rt, rtol=1e-9, what='temperature' + where)
        close(R[i], rr, rtol=1e-8, atol=1e-30, what='relative humidity (fraction)' + where)


@C.sub('history', st.lists(measured(), min_size=1, max_size=4), quick=3000, thorough=60000)
def history(ms, ctx):
    from pyrtlib.climatology import ProfileExtrapolation
    ex = ProfileExtrapolation()
    grid = np.array(ex.height)
    close(grid[-1], 100.0, what='top of the reference grid')
    for i, m in enumerate(ms):
        if abs(m['lat']) in (20.0, 45.0):
            continue
        args = [np.array(m[k]) for k in ('z', 'p', 't', 'rh')]
        keep = [a.copy() for a in args]
        out = ex.profile_extrapolation(m['lat'], m['month'], args[0], (args[1], args[2], args[3]))
        require(all(np.array_equal(a, b) for a, b in zip(args, keep)), 'arguments modified')
        judge(m, out, 100.0)
        require(np.array_equal(np.asarray(ex.height), grid), 'the height grid of the object was changed')
        fresh = ProfileExtrapolation().profile_extrapolation(m['lat'], m['month'], args[0], (args[1], args[2], args[3]))
        require(all(np.array_equal(a, b) for a, b in zip(out, fresh)), 'use %d differs from a fresh object', i + 1)
        ctx.nontrivial(i > 0 or m['z'][-1] > 50)
        ctx.label('top above 50' if m['z'][-1] >= 50 else 'top below 50', 'season %s' % season(m['lat'], m['month']))


@C.sub('own_grid', st.tuples(measured(), gen.fl(55.0, 100.0), gen.fl(0.5, 4.5)), quick=1200, thorough=20000)
def own_grid(c, ctx):
    """a height grid set by the user"""
    from pyrtlib.climatology import ProfileExtrapolation
    m, top, step = c
    if abs(m['lat']) in (20.0, 45.0):
        return
    ex = ProfileExtrapolation()
    g = np.linspace(0.0, top, int(np.ceil(top / step)) + 1)
    ex.height = g.copy()
    args = [np.array(m[k]) for k in ('z', 'p', 't', 'rh')]
    out = ex.profile_extrapolation(m['lat'], m['month'], args[0], (args[1], args[2], args[3]))
    judge(m, out, float(g[-1]))
    Z = np.asarray(out[0])
    extra = Z[Z > max(50.0, m['z'][-1])]
    require(np.array_equal(extra, g[g > max(50.0, m['z'][-1])]), 'levels above 50 km are not those of the own grid')
    require(np.array_equal(np.asarray(ex.height), g), 'own grid changed')
    ctx.nontrivial(len(extra) > 0)


@C.sub('mirror', st.tuples(measured(), st.sampled_from([20.0, 20.5, 22.0, 45.0, 45.5, 5.0, 60.0, 90.0])), quick=800, thorough=12000)
def mirror(c, ctx):
    """the reference atmosphere of a southern latitude is the one of the north half a year later, the limits included"""
    from pyrtlib.climatology import ProfileExtrapolation
    m, lat = c
    if m['z'][-1] >= 100:
        return
    a = [np.array(m[k]) for k in ('z', 'p', 't', 'rh')]
    n = ProfileExtrapolation().profile_extrapolation(lat, m['month'], a[0], (a[1], a[2], a[3]))
    s = ProfileExtrapolation().profile_extrapolation(-lat, (m['month'] + 5) % 12 + 1, a[0], (a[1], a[2], a[3]))
    for what, x, y in zip(('height', 'pressure', 'temperature', 'humidity'), n, s):
        close(y, np.asarray(x), rtol=1e-12, atol=1e-30, what='%s at %g S in month %d instead of %g N in month %d'
              % (what, lat, (m['month'] + 5) % 12 + 1, lat, m['month']))
    ctx.nontrivial(lat == 20 or season(lat, m['month']) is not None)
    ctx.label('latitude %g' % lat)
