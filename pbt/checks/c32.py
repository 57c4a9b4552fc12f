"""C32 doubtful input is announced, sound input is not."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen, lib
from ..ref import absorb, rte

C = Check('C32', rule='A case is a situation near the border between sound and doubtful: a profile of 2-45 levels with a top '
          'pressure around 10 hPa (exactly on it included), a run with a given cloud model, a grazing ray through a steep '
          'refractivity gradient, or a cloud above an opaque layer. Non-trivial: the doubtful side of the border, or within '
          'one level / one percent of it.',
          assumptions=['announced = at least one Python warning other than numpy or deprecation ones',
                       'ducting cases within 1e-12 of the border are not judged', 'elevations from 0.05 degrees (at 0 the bending term of the algorithm is undefined)'])


def record(fn, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = fn(*a, **k)
    return out, [str(x.message) for x in w if not issubclass(x.category, (
        RuntimeWarning, DeprecationWarning, PendingDeprecationWarning, FutureWarning, ResourceWarning))]


PTOP = st.one_of(st.just(10.0), st.sampled_from([9.999999, 10.000001, 9.5, 10.5, 0.1]), gen.fl(9.0, 11.0, 8), gen.logfl(0.01, 500.0))


@C.sub('levels', st.fixed_dictionaries({'n': st.one_of(st.integers(23, 27), st.integers(2, 45)), 'top': PTOP,
                                        'psfc': gen.fl(600.0, 1050.0, 5), 'down': st.booleans(), 'sat': st.booleans(),
                                        'cloudy': st.booleans(), 'at': st.sampled_from([0, 0, 0, 1, 2])}), quick=1200, thorough=20000)
def levels(c, ctx):
    """few levels, or a top at or below the 10 hPa level, are announced when the simulation is set up, and nothing else is"""
    from pyrtlib.tb_spectrum import TbCloudRTE
    n = c['n']
    p = np.geomspace(c['psfc'], c['top'], n)
    p[-1] = c['top']
    z = 7.4 * np.log(p[0] / p)
    t, rh = np.linspace(290.0, 220.0, n), np.linspace(0.7, 0.001, n)
    if 0 < c['at'] < n:         # the lowest pressure (or the last) is not that of the highest level
        p[-1], p[-1 - c['at']] = p[-1 - c['at']], p[-1]
    if c['down']:
        z, p, t, rh = (v[::-1].copy() for v in (z, p, t, rh))
    _, w = record(TbCloudRTE, z, p, t, rh, np.array([22.0]), from_sat=c['sat'], cloudy=c['cloudy'])
    bad = n < 25 or c['top'] >= 10.0
    require(bool(w) == bad, '%d levels up to %r hPa: warnings %s', n, c['top'], w)
    ctx.nontrivial(bad or n == 25 or c['top'] > 9.9)
    ctx.label('announced' if bad else 'silent')


RUN = st.fixed_dictionaries({'prof': gen.profile(3, 8, dzmax=4.0), 'm': gen.models(full=False), 'liq': st.sampled_from(absorb.LIQ_MODELS),
                             'cloud': st.sampled_from(['no', 'flag', 'ignored']), 'f': gen.fl(10.0, 340.0), 'sat': st.booleans(),
                             'ray': st.booleans(), 'a': st.one_of(st.just(90.0), gen.fl(20.0, 90.0, 5)), 'lev': st.integers(0, 6),
                             'den': gen.logfl(1e-3, 1.0), 'twice': st.booleans()})


@C.sub('run', RUN, quick=400, thorough=8000, shards=8)
def run(c, ctx):
    """a run is silent unless it needs cloud absorption from an outdated model; an ignored cloud is announced"""
    lib.select(o3='')
    r = lib.quiet(lib.rte, c['prof'], [c['f']], c['m'], angles=[c['a']], sat=c['sat'], ray=c['ray'], cloudy=c['cloud'] == 'flag',
                  liq=c['liq'])
    n = len(c['prof']['z'])
    if c['cloud'] != 'no':
        z = np.array(c['prof']['z'])
        b = c['lev'] % (n - 1)
        den = np.where((np.arange(n) == b) | (np.arange(n) == b + 1), c['den'], 0.0)
        _, w = record(r.init_cloudy, np.array([[z[b]], [z[b + 1]]]), den, den)
        require(bool(w) == (c['cloud'] == 'ignored'), 'cloud %s: warnings %s', c['cloud'], w)
    old = c['cloud'] == 'flag' and c['liq'] in ('R98', 'R03')
    for k in range(1 + c['twice']):
        _, w = record(r.execute)
        require(bool(w) == old, 'run %d, cloud model %s (%s): warnings %s', k, c['liq'], c['cloud'], w)
    ctx.nontrivial(c['cloud'] != 'no')
    ctx.label(c['cloud'], 'outdated' if old else 'current')


@st.composite
def rays(draw):
    n = draw(st.integers(2, 14))
    z, N = [0.0], [draw(gen.fl(200.0, 450.0, 5))]
    steep = draw(st.integers(1, n - 1))
    for i in range(1, n):
        d = draw(gen.fl(0.01, 1.0, 5))
        z.append(gen.rnd(z[-1] + d, 9))
        g = draw(gen.fl(100.0, 900.0, 4)) if i == steep else draw(gen.fl(0.0, 60.0, 4))
        N.append(gen.rnd(max(1e-3, N[-1] * math.exp(-g * d / N[-1])), 9))
    bad = draw(st.sampled_from([None, None, None, 'below', 'one']))
    k = draw(st.integers(0, n - 1))
    if bad == 'below':
        N[k] = -draw(gen.logfl(1e-3, 50.0))
    elif bad == 'one':
        N[k] = 0.0
    return {'z': z, 'N': N, 'z0': draw(st.one_of(st.just(0.0), gen.fl(0.0, 5.0, 4))),
            'a': draw(st.one_of(gen.fl(0.05, 1.5, 5), gen.fl(0.05, 5.0, 5), gen.fl(5.0, 90.0, 5)))}


@C.sub('rays', rays(), quick=3000, thorough=60000)
def ducting(c, ctx):
    """a trapped ray is announced and traced up to the trapping layer; an index below one is announced and not traced"""
    from pyrtlib.rt_equation import RTEquation
    z, n, a = np.array(c['z']), 1 + 1e-6 * np.array(c['N']), c['a']
    ds, w = record(RTEquation.ray_tracing, z, n, a, c['z0'])
    if np.any(n < 1):
        require(ds is None and w, 'index below one: %s, warnings %s', ds, w)
        ctx.label('index')
        return
    stop = None
    if a < 89:
        th = math.radians(a)
        arg = 2 * math.sin(th / 2) ** 2 + z / (rte.RE + c['z0']) - (n[0] - n) * math.cos(th) / n
        if np.any(np.abs(arg[1:]) < 1e-12):
            return
        trapped = np.nonzero(arg[1:] <= 0)[0]
        stop = 1 + int(trapped[0]) if len(trapped) else None
    require(bool(w) == (stop is not None), 'elevation %r, trapping layer %s: warnings %s', a, stop, w)
    require(ds is not None and np.all(np.isfinite(ds)), 'paths %s', ds)
    ctx.nontrivial(stop is not None or a < 1.5)
    ctx.label('clear' if stop is None else 'trapped')
    if stop is not None:
        require(np.all(ds[stop:] == 0), 'paths at or beyond the trapping layer: %s', ds)
        if stop > 1:
            part, w2 = record(RTEquation.ray_tracing, z[:stop].copy(), n[:stop].copy(), a, c['z0'])
            require(not w2, 'warned below the trapping layer')
            close(ds[:stop], part, rtol=1e-12, what='paths below the trapping layer')


@C.sub('opaque', st.fixed_dictionaries({
    'n': st.integers(3, 10), 'f': gen.frequency(10.0, 340.0), 'scale': st.one_of(gen.logfl(0.01, 400.0), gen.fl(110.0, 140.0)),
    'b': st.integers(0, 8), 't': st.lists(gen.fl(200.0, 310.0, 5), min_size=10, max_size=10), 'w': st.lists(
        gen.fl(0.05, 1.0, 3), min_size=10, max_size=10), 'last': gen.fl(0.01, 3.0, 3)}), quick=2000, thorough=40000)
def opaque(c, ctx):
    """a cloud hidden behind an opaque atmosphere has no radiating temperature, and that is announced; any other cloud has one
    between the temperatures of its levels, silently"""
    from pyrtlib.rt_equation import RTEquation
    n = c['n']
    b = c['b'] % (n - 1)
    tau = np.zeros(n)
    below = np.array(c['w'][1:b + 1])
    if b:
        tau[1:b + 1] = below * c['scale'] / below.sum()
    tau[b + 1:] = np.array(c['w'][b + 1:n]) * c['last']
    t = np.array(c['t'][:n])
    lib.set_mode(False)
    _, atm, _, cum, h, _, _ = RTEquation.planck(np.float64(c['f']), t, tau)
    base = float(np.sum(tau[1:b + 1]))
    if abs(base - 125.0) < 1e-6:
        return
    got, w = record(RTEquation.cloud_radiating_temperature, b, b + 1, h, np.asarray(cum), np.asarray(atm))
    hidden = base > 125.0
    require(bool(w) == hidden, 'optical depth %r below the cloud: warnings %s', base, w)
    ctx.nontrivial(base > 1.0)
    ctx.label('hidden' if hidden else 'seen')
    if hidden:
        require(got is None, 'radiating temperature %r of a hidden cloud', got)
    elif base < 8:      # beyond that the cancellation of the cumulative radiances dominates
        lo, hi = sorted((t[b], t[b + 1]))
        require(lo * (1 - 1e-6) <= float(got) <= hi * (1 + 1e-6), 'radiating temperature %r of a cloud at %r..%r K', got, lo, hi)
