"""C17 height, pressure, thickness, virtual temperature."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite
from .. import gen

C = Check('C17', rule='Cases are standard-atmosphere pressures/heights (scalar and array) and profiles of 1-20 levels with '
          'decreasing pressure, temperature and optional humidity. Non-trivial: at least 3 levels with humidity present, '
          'or a pressure different from the reference pressure.',
          assumptions=['U.S. standard atmosphere parameters 288 K, -6.5 K/km (written as -0.0065 with the height counted '
                       'as documented), 1013.25 mb, g 9.80665, R 8.314462618, M 28.96546 g/mol'])
T0, P0, GA, G = 288.0, 1013.25, -0.0065, 9.80665
RD = 8.314462618 / 28.96546e-3
EPS = 287.04 / 461.52


@C.sub('standard_atmosphere', st.fixed_dictionaries({
    'p': st.lists(st.one_of(gen.fl(100.0, 1090.0), gen.logfl(0.05, 1090.0), st.just(1013.25)), min_size=1, max_size=8),
    'h': st.lists(st.one_of(gen.fl(-400.0, 12000.0), gen.fl(0.0, 60000.0), st.just(0.0)), min_size=1, max_size=8),
    'scalar': st.booleans()}), quick=5000, thorough=100000)
def standard_atmosphere(c, ctx):
    from pyrtlib.utils import pressure_to_height, height_to_pressure
    f = (lambda fn, x: np.array([float(fn(float(v))) for v in x])) if c['scalar'] else \
        (lambda fn, x: np.asarray(fn(np.array(x, dtype=float))))
    p, h = np.array(c['p']), np.array(c['h'])
    # near p = p0 the height cancels: tolerance on the magnitude of T0/gamma
    gh = f(pressure_to_height, p)
    close(gh, T0 / GA * (1 - (p / P0) ** (RD * GA / G)), rtol=1e-11, scale=abs(T0 / GA), what='pressure_to_height')
    gp = f(height_to_pressure, h)
    close(gp, P0 * (1 - h * GA / T0) ** (G / (RD * GA)), rtol=1e-11, what='height_to_pressure')
    close(f(height_to_pressure, gh), p, rtol=1e-10, what='height_to_pressure(pressure_to_height(p))')
    close(f(pressure_to_height, gp), h, rtol=1e-10, scale=abs(T0 / GA), what='pressure_to_height(height_to_pressure(h))')
    o = np.argsort(p)
    hi = gh[o]
    require(np.all(np.diff(hi)[np.diff(p[o]) > 1e-6 * p[o][:-1]] < 0), 'height does not fall with pressure')
    require(np.all(gp > 0), 'pressure not positive')
    ctx.nontrivial(np.any(p != P0) and np.any(h != 0))


@st.composite
def profiles(draw):
    n = draw(st.integers(1, 20))
    p = [draw(gen.fl(700.0, 1080.0))]
    for _ in range(n - 1):
        p.append(gen.rnd(p[-1] * draw(st.one_of(gen.fl(0.5, 0.9999), gen.fl(0.95, 0.9999))), 9))
    t = draw(st.lists(gen.fl(180.0, 320.0), min_size=n, max_size=n))
    mr = draw(st.one_of(st.none(), st.lists(st.one_of(st.just(0.0), gen.logfl(1e-6, 0.04), gen.fl(0.0, 0.04)),
                                            min_size=n, max_size=n)))
    return {'p': p, 't': t, 'mr': mr, 'cut': draw(st.integers(0, n - 1)), 'up': draw(st.booleans())}


@C.sub('thickness', profiles(), quick=4000, thorough=80000)
def thickness(c, ctx):
    from pyrtlib.utils import atmospheric_tickness, virtual_temperature
    p, t = np.array(c['p']), np.array(c['t'])
    mr = None if c['mr'] is None else np.array(c['mr'])
    if c['up']:                     # pressure increasing: thickness counted downwards is negative
        p = p[::-1].copy()
    keep = [p.copy(), t.copy(), None if mr is None else mr.copy()]
    h = np.asarray(atmospheric_tickness(p, t, mr) if mr is not None else atmospheric_tickness(p, t))
    tv = t if mr is None else t * (mr + EPS) / (EPS * (1 + mr))
    want = np.concatenate(([0.0], np.cumsum(-RD / G * 0.5 * (tv[1:] + tv[:-1]) * np.diff(np.log(p))))) / 1e3
    close(h, want, rtol=1e-10, atol=1e-12, what='thickness')
    require(np.array_equal(p, keep[0]) and np.array_equal(t, keep[1]) and (mr is None or np.array_equal(mr, keep[2])),
            'inputs modified')
    if not c['up']:
        require(np.all(np.diff(h) > 0), 'thickness not increasing upwards')
    k = c['cut']
    tail = np.asarray(atmospheric_tickness(p[k:], t[k:], None if mr is None else mr[k:]))
    close(h[k] + tail, h[k:], rtol=1e-9, atol=1e-11, what='additivity of the thickness at level %d' % k)
    if mr is not None:
        dry = np.asarray(atmospheric_tickness(p, t))
        require(np.all(np.abs(h) >= np.abs(dry) - 1e-12), 'moist layer thinner than the dry one')
        g = virtual_temperature(t, mr)
        close(g, tv, rtol=1e-12, what='virtual temperature')
        require(np.all(g >= t * (1 - 1e-15)), 'virtual temperature below temperature')
        require(np.all(np.asarray(virtual_temperature(t, np.zeros(len(t)))) - t <= 1e-12 * t), 'dry virtual temperature')
        close(float(virtual_temperature(float(t[0]), float(mr[0]))), tv[0], rtol=1e-12, what='scalar virtual temperature')
        close(np.asarray(atmospheric_tickness(p, t, np.zeros(len(t)))), dry, rtol=1e-12, atol=1e-14,
              what='thickness with zero humidity')
    ctx.nontrivial(len(p) >= 3 and mr is not None and np.any(mr > 0))
    ctx.label('moist' if mr is not None else 'dry', 'up' if c['up'] else 'down')
