"""C16 saturation vapour pressure and its ice/water switch."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite
from .. import gen
from ..ref.rte import es_water

C = Check('C16', rule='A case is 1-10 temperatures (some equal to, some within 1e-6 K of the switch temperature), a pressure and '
          'a humidity per level and a switch temperature. Non-trivial: levels on both sides of the switch.',
          assumptions=['160-370 K; pressure at least 2.6 times the saturation pressure',
                       'over ice the library uses the triple point 273.15 K in utils and 273.16 K in RTEquation.vapor '
                       '(switch at 263.16 K); both follow Goff-Gratch and are pinned as such'])


def es_ice(t, t0=273.15):
    r = t0 / np.asarray(t, dtype=float)
    return 10 ** (-9.09718 * (r - 1) - 3.56654 * np.log10(r) + 0.876793 * (1 - 1 / r) + math.log10(6.1071))


EPS = 0.621970585


@st.composite
def cases(draw):
    tc = draw(st.sampled_from([273.16, 273.15, 263.16, 253.0, 240.0, 233.15, 300.0, 200.0]))
    tc = draw(st.one_of(st.just(tc), gen.fl(180.0, 310.0)))
    lev = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(['any', 'near', 'at', 'close']))
        t = {'any': lambda: draw(gen.fl(160.0, 370.0)), 'near': lambda: draw(gen.fl(tc - 15.0, tc + 15.0)),
             'at': lambda: tc, 'close': lambda: tc + draw(st.sampled_from([-1, 1])) * draw(gen.logfl(1e-9, 1e-2))}[k]()
        es = float(es_water(t))
        p = max(draw(gen.fl(100.0, 1090.0)), gen.rnd(2.6 * es))
        lev.append([p, t, draw(st.one_of(st.just(0.0), gen.fl(0.0, 1.2)))])
    return {'lev': lev, 'tc': tc, 'mode': draw(st.sampled_from(['array', 'array', '2d']))}


def call(mode, fn, *cols):
    arrs = [np.array(c, dtype=float) for c in cols]
    if mode == '2d':
        arrs = [a.reshape(1, -1) for a in arrs]
    keep = [a.copy() for a in arrs]
    out = fn(*arrs)
    require(all(np.array_equal(a, b) for a, b in zip(arrs, keep)), 'inputs modified')
    outs = out if isinstance(out, tuple) else (out,)
    outs = tuple(np.asarray(o, dtype=float) for o in outs)
    require(all(o.shape == arrs[0].shape for o in outs), 'shape changed')
    outs = tuple(o.reshape(-1) for o in outs)
    return outs if isinstance(out, tuple) else outs[0]


@C.sub('switch', cases(), quick=6000, thorough=120000)
def switch(c, ctx):
    from pyrtlib import utils as u
    from pyrtlib.rt_equation import RTEquation
    p, t, r = (np.array(x, dtype=float) for x in zip(*c['lev']))
    m, tc = c['mode'], c['tc']
    wat, ice = es_water(t), es_ice(t)
    close(call(m, u.eswat_goffgratch, t), wat, rtol=1e-11, what='saturation over water')
    close(call(m, u.esice_goffgratch, t), ice, rtol=1e-11, what='saturation over ice')
    close(call(m, u.satvap, t), wat, rtol=1e-11, what='satvap without switch')
    close(call(m, lambda x: u.satvap(x, None), t), wat, rtol=1e-11, what='satvap with None')
    es = np.where(t <= tc, ice, wat)
    close(call(m, lambda x: u.satvap(x, tc), t), es, rtol=1e-11, what='satvap, switch at %r' % tc)
    ws = 1000 * EPS * es / (p - es)
    close(call(m, lambda a, b: u.satmix(a, b, tc), p, t), ws, rtol=1e-10, what='satmix, switch at %r' % tc)
    e = r * wat
    w = 1000 * EPS * e / (p - e)
    g1, g2 = call(m, lambda a, b, d: u.mr2rh(a, b, d, tc), p, t, w)
    close(g1, 100 * e / es, rtol=1e-10, what='mr2rh pressure ratio, switch at %r' % tc)
    close(g2, 100 * w / ws, rtol=1e-10, what='mr2rh mixing-ratio ratio, switch at %r' % tc)
    # the simulation's own conversion
    ok = np.abs(t - 263.16) > 1e-9
    ev = np.where(t < 263.16, es_ice(t, 273.16), wat)
    for flag, want in ((False, wat), (True, ev)):
        ge, gr = call('array', lambda a, b: RTEquation.vapor(a, b, flag), t, r)
        close(ge[ok], (r * want)[ok], rtol=1e-11, what='vapor(ice=%s)' % flag)
        close(gr[ok], (r * want / (461.52e-5 * t))[ok], rtol=1e-11, what='vapour density (ice=%s)' % flag)
    ge, _ = call('array', lambda a, b: RTEquation.vapor(a, b), t, r)
    close(ge, r * wat, rtol=1e-11, what='vapor, default')
    ctx.nontrivial(np.any(t <= tc) and np.any(t > tc))
    ctx.label('ice' if np.any(t <= tc) else 'no ice')


@C.sub('scalar_and_order', st.fixed_dictionaries({'a': gen.fl(160.0, 370.0), 'd': gen.logfl(1e-3, 100.0)}),
       quick=3000, thorough=60000)
def scalar_and_order(c, ctx):
    from pyrtlib import utils as u
    a, b = c['a'], min(370.0, c['a'] + c['d'])
    for name, fn, ref in (('water', u.eswat_goffgratch, es_water), ('ice', u.esice_goffgratch, es_ice),
                          ('satvap', u.satvap, es_water)):
        va, vb = float(fn(a)), float(fn(b))
        close(va, float(ref(a)), rtol=1e-11, what='scalar ' + name)
        require(0 < va and isfinite(va), 'not positive: %s %r', name, va)
        if b > a:
            require(vb > va, '%s does not increase from %r to %r K', name, a, b)
    if a < 273.0:
        require(float(u.esice_goffgratch(a)) < float(u.eswat_goffgratch(a)), 'ice not below water at %r K', a)
        ctx.nontrivial(True)
    # the wet simulation input: ice switch of a whole simulation object is exercised in C10/C14
