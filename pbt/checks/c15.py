"""C15 humidity conversions."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite
from .. import gen
from ..ref.rte import es_water
from .c16 import es_ice

C = Check('C15', rule='A case is 1-10 levels (pressure, temperature, relative humidity 0..1.2 incl. 0), passed as arrays, as a '
          'two-dimensional array or one by one as scalars. Non-trivial: some level has humidity strictly between 0 and 1.',
          assumptions=['saturation vapour pressure below 40% of the pressure; 160-340 K; 0.05-1090 mb',
                       'constants: epsilon 0.621970585, Rv 461.52 J/(kg K); 216.7 in the density-to-RH formula'])
EPS = 0.621970585
RV = 461.52e-5


@st.composite
def cases(draw):
    lev = []
    for _ in range(draw(st.integers(1, 10))):
        t = draw(gen.fl(160.0, 340.0))
        es = float(es_water(t))
        p = draw(st.one_of(gen.fl(100.0, 1090.0), gen.logfl(0.05, 1090.0)))
        p = max(p, gen.rnd(2.6 * es))
        r = draw(st.one_of(st.just(0.0), gen.fl(0.0, 1.2), gen.logfl(1e-6, 1.0)))
        lev.append([p, t, r])
    return {'lev': lev, 'mode': draw(st.sampled_from(['array', 'array', '2d', 'scalar'])), 'k': draw(gen.fl(1.001, 1.8)),
            'tc': draw(st.one_of(st.none(), st.sampled_from([273.16, 263.16, 250.0, 233.15]), gen.fl(180.0, 310.0)))}


def apply(mode, fn, *cols):
    """call fn with arrays / 2-d arrays / scalars and return flat arrays"""
    if mode == 'scalar':
        out = [fn(*[float(c[i]) for c in cols]) for i in range(len(cols[0]))]
        if isinstance(out[0], tuple):
            return tuple(np.array([float(o[j]) for o in out]) for j in range(len(out[0])))
        return np.array([float(o) for o in out])
    arrs = [np.array(c, dtype=float) for c in cols]
    if mode == '2d':
        n = len(arrs[0])
        arrs = [np.concatenate([a, a[::-1]]).reshape(2, n) for a in arrs]
    keep = [a.copy() for a in arrs]
    out = fn(*arrs)
    require(all(np.array_equal(a, b) for a, b in zip(arrs, keep)), 'inputs modified')
    tup = isinstance(out, tuple)
    res = []
    for o in (out if tup else (out,)):
        o = np.asarray(o, dtype=float)
        require(o.shape == arrs[0].shape, 'shape %s for input %s', o.shape, arrs[0].shape)
        if mode == '2d':
            close(o[1][::-1], o[0], rtol=1e-14, what='element by element')
            o = o[0]
        res.append(o)
    return tuple(res) if tup else res[0]


@C.sub('conversions', cases(), quick=6000, thorough=120000)
def conversions(c, ctx):
    from pyrtlib import utils as u
    p, t, r = (np.array(x, dtype=float) for x in zip(*c['lev']))
    m = c['mode']
    es = es_water(t)
    e = r * es
    w = 1000.0 * EPS * e / (p - e)
    rho = e / (RV * t)
    # defining formulas
    gw = apply(m, u.e2mr, p, e)
    close(gw, w, rtol=1e-12, what='e2mr')
    close(apply(m, u.mr2e, p, w), e, rtol=1e-11, what='mr2e')
    gr = apply(m, u.mr2rho, w, t, p)
    close(gr, rho, rtol=1e-11, what='mr2rho')
    close(apply(m, u.rho2mr, rho, t, p), w, rtol=1e-11, what='rho2mr')
    ws = 1000.0 * EPS * es / (p - es)
    close(apply(m, u.satmix, p, t), ws, rtol=1e-10, what='satmix')
    g1, g2 = apply(m, u.mr2rh, p, t, w)
    close(g1, 100.0 * r, rtol=1e-10, what='mr2rh, pressure ratio')
    close(g2, 100.0 * w / ws, rtol=1e-10, what='mr2rh, mixing-ratio ratio')
    h1, h2 = apply(m, u.rho2rh, rho, t, p)
    e2 = rho * t / 216.7
    close(h1, 100.0 * e2 / es, rtol=1e-10, what='rho2rh, pressure ratio')
    close(h2, 100.0 * (1000.0 * EPS * e2 / (p - e2)) / ws, rtol=1e-10, what='rho2rh, mixing-ratio ratio')
    # the same two with a switch temperature: over ice at and below it
    tc = c['tc']
    if tc is not None:  # documented for arrays only
        mm = 'array' if m == 'scalar' else m
        est = np.where(t <= tc, es_ice(t), es)
        wst = 1000.0 * EPS * est / (p - est)
        close(apply(mm, lambda a, b: u.satmix(a, b, tc), p, t), wst, rtol=1e-10, what='satmix, ice at and below %r K' % tc)
        i1, i2 = apply(mm, lambda a, b, d: u.mr2rh(a, b, d, tc), p, t, w)
        close(i1, 100.0 * e / est, rtol=1e-10, what='mr2rh pressure ratio, ice at and below %r K' % tc)
        close(i2, 100.0 * w / wst, rtol=1e-10, what='mr2rh mixing-ratio ratio, ice at and below %r K' % tc)
        ctx.label('ice' if np.any(t <= tc) else 'switch unused')
    # mutual inverses on the library's own values
    close(apply(m, u.mr2e, p, gw), e, rtol=1e-11, what='mr2e(e2mr(e))')
    close(apply(m, u.rho2mr, gr, t, p), w, rtol=1e-11, what='rho2mr(mr2rho(w))')
    close(apply(m, u.mr2rho, apply(m, u.rho2mr, rho, t, p), t, p), rho, rtol=1e-11, what='mr2rho(rho2mr(rho))')
    # monotonic in the humidity, zero to zero
    k = c['k']
    for name, lo, hi, x in (('e2mr', gw, apply(m, u.e2mr, p, e * k), e), ('mr2e', e, apply(m, u.mr2e, p, w * k), w),
                            ('mr2rho', gr, apply(m, u.mr2rho, w * k, t, p), w),
                            ('rho2mr', gw, apply(m, u.rho2mr, rho * k, t, p), rho),
                            ('mr2rh', g1, apply(m, u.mr2rh, p, t, w * k)[0], w),
                            ('rho2rh', h1, apply(m, u.rho2rh, rho * k, t, p)[0], rho)):
        require(np.all(hi[x > 0] > lo[x > 0]), '%s is not increasing', name)
        require(np.all(hi[x == 0] == 0), '%s does not map zero to zero', name)
    ctx.nontrivial(np.any((r > 0) & (r < 1)))
    ctx.label(m)


def magnus(method, ice, td, t):
    a, b = (17.625, 243.04) if method == 'arm' else ((9.5, 265.5) if ice else (7.5, 237.3))
    x = a * td / (b + td) - a * t / (b + t)
    return math.exp(x) if method == 'arm' else 10.0 ** x


@C.sub('dewpoint', st.fixed_dictionaries({
    'lev': st.lists(st.tuples(gen.fl(-80.0, 55.0), st.one_of(st.just(0.0), gen.fl(0.0, 60.0), gen.logfl(1e-3, 60.0),
                                                                  gen.fl(-8.0, 0.0))),
                    min_size=1, max_size=8),
    'method': st.sampled_from(['arm', 'arm', 'other', 'august']), 'ice': st.booleans(),
    'mode': st.sampled_from(['array', 'scalar', '2d', 'default'])}), quick=2500, thorough=50000)
def dewpoint(c, ctx):
    from pyrtlib.utils import dewpoint2rh
    t = np.array([x[0] for x in c['lev']])
    td = t - np.array([x[1] for x in c['lev']])
    method, ice = c['method'], c['ice']
    if c['mode'] == 'default':
        method, ice = 'arm', False
        got = apply('array', lambda a, b: dewpoint2rh(a, b), td, t)
    else:
        got = apply(c['mode'], lambda a, b: dewpoint2rh(a, b, ice=ice, method=method), td, t)
    close(got, [magnus(method, ice, a, b) for a, b in zip(td, t)], rtol=1e-11, what='dewpoint2rh %s ice=%s' % (method, ice))
    require(isfinite(got) and np.all(got > 0) and np.all(got[td == t] == 1.0), 'relative humidity out of range')
    sat = apply('array', lambda a, b: dewpoint2rh(a, b, ice=ice, method=method), t, t)
    require(np.all(sat == 1.0), 'saturation is not 1: %s', sat)
    drier = apply('array', lambda a, b: dewpoint2rh(a, b, ice=ice, method=method), td - 1.0, t)
    require(np.all(drier < apply('array', lambda a, b: dewpoint2rh(a, b, ice=ice, method=method), td, t)),
            'not increasing in the dew point')
    # inverse: the dew point recovered from the returned humidity
    a, b = (17.625, 243.04) if method == 'arm' else ((9.5, 265.5) if ice else (7.5, 237.3))
    g = (np.log(got) if method == 'arm' else np.log10(got)) + a * t / (b + t)
    close(b * g / (a - g), td, rtol=1e-9, atol=1e-7, what='dew point from humidity')
    ctx.nontrivial(np.any(td < t))
    ctx.label(method, 'supersaturated' if np.any(td > t) else 'not supersaturated')
