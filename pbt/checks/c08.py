"""C08 refracted slant paths."""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite
from .. import gen
from ..ref import rte

C = Check('C08', rule='A case is a height profile (2-20 levels, above the observer), an observer height, an exponential or '
          'atmospheric refractivity profile and elevation angles 5-90. Non-trivial: an angle below 89 degrees and a '
          'refractivity gradient.',
          assumptions=['no ducting: refractivity decreases by less than 120 N per km',
                       'quadrature comparison: 1e-6 plus 1.5e-5 per N-unit of refractivity drop in the layer at 5 degrees (trapezoidal bending term of the published algorithm), decreasing as 1/sin^2 of the elevation'])


@st.composite
def cases(draw):
    n = draw(st.integers(2, 20))
    z0 = draw(st.one_of(st.just(0.0), gen.fl(0.0, 5.0, 5), gen.fl(0.0, 5.0, 5), gen.fl(-0.45, 0.0, 4), gen.fl(5.0, 20.0, 4)))
    sc = draw(st.sampled_from([0.2, 1.0, 4.0]))
    z = [0.0]
    for d in draw(st.lists(gen.fl(0.01, sc, 5), min_size=n - 1, max_size=n - 1)):
        z.append(gen.rnd(z[-1] + d, 9))
    k = draw(st.sampled_from(['exp', 'exp', 'random', 'const', 'vacuum']))
    if k == 'vacuum':
        N = [0.0] * n
    elif k == 'const':
        N = [draw(gen.fl(1.0, 400.0, 5))] * n
    else:
        N = [draw(gen.fl(50.0, 450.0, 6))]
        h = draw(gen.fl(5.0, 12.0, 4))
        for i in range(1, n):
            d = z[i] - z[i - 1]
            v = N[-1] * float(np.exp(-d / h))
            if k == 'random':
                v = N[-1] + draw(gen.fl(-1.0, 0.3, 4)) * min(100.0 * d, 0.5 * N[-1])
            N.append(gen.rnd(max(v, 0.0), 8))
    angles = draw(st.lists(st.one_of(gen.fl(5.0, 90.0, 6), st.sampled_from([5.0, 10.0, 30.0, 45.0, 60.0, 88.9, 89.0, 89.5,
                                                                           90.0])), min_size=1, max_size=4))
    angles = gen.crowd(draw, angles, 5.0, 90.0, 1e-4, 1.0)
    return {'z': z, 'N': N, 'z0': z0, 'a': angles}


def trace(c, a):
    from pyrtlib.rt_equation import RTEquation
    z, n = np.array(c['z']), 1 + 1e-6 * np.array(c['N'])
    zz, nn = z.copy(), n.copy()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        ds = RTEquation.ray_tracing(z, n, a, c['z0'])
    require(np.array_equal(z, zz) and np.array_equal(n, nn), 'input modified')
    return ds, z, n, w


@C.sub('paths', cases(), quick=3000, thorough=60000)
def paths(c, ctx):
    seen = []
    for a in c['a']:
        ds, z, n, w = trace(c, a)
        require(ds is not None and not w, 'ray not traced at %g degrees: %s', a, [str(v.message) for v in w])
        ds = np.asarray(ds, dtype=float)
        require(ds.shape == z.shape and ds[0] == 0, 'shape or first entry wrong')
        dz = np.diff(z)
        where = 'path at %g degrees' % a
        # rounding in the chord: r * phi with phi from differences of angles
        at = 2e-8
        # Known finding C08-radius: the library's angle is slightly off (see DESIGN.md). Exactly that deviation is
        # tolerated; any other one is a violation, and so is a wrong path once the finding is repaired.
        known = rte.ray_path(z, n, a, c['z0'], radius='level')
        as_known = bool(np.all(np.abs(ds - known) <= 1e-8 * known + at))
        if as_known:
            if a < 89:
                ctx.exclude()
        else:
            close(ds, rte.ray_path(z, n, a, c['z0']), rtol=1e-8, atol=at, what=where + ' (algorithm)')
        require(np.all(ds[1:] >= dz * (1 - 1e-6) - at), '%s shorter than the layer', where)
        require(np.all(ds[1:] <= dz / np.sin(np.radians(a)) * (1 + 1e-5) + at), '%s longer than the flat-earth path', where)
        if a >= 89:
            close(ds[1:], dz, rtol=1e-12, atol=1e-14, what=where + ' near the zenith')
        else:
            q = rte.ray_path_snell(z, n, a, c['z0'])
            # the only approximation left is the trapezoidal bending term: grows with gradient, thickness, obliquity
            g = np.zeros(len(z))
            g[1:] = np.abs(np.diff(c['N'])) * (np.sin(np.radians(5)) / np.sin(np.radians(a))) ** 2
            # size of the known deviation: up to half the height over the Earth radius
            dev = 1.5 * z / rte.RE if as_known else 0.0
            close(ds, q, rtol=1e-6 + 1.5e-5 * g + dev, atol=at, what=where + ' (Snell quadrature)')
            ctx.nontrivial(c['N'][0] != c['N'][-1])
        seen.append((a, ds))
    seen.sort(key=lambda v: v[0])
    for (a1, d1), (a2, d2) in zip(seen, seen[1:]):
        require(np.all(d1 >= d2 * (1 - 1e-5) - 1e-7), 'path shrinks when the elevation drops from %g to %g', a2, a1)
    ctx.label('n=%d' % len(c['z']))


@C.sub('refused', st.tuples(cases(), st.integers(0, 30), gen.logfl(1e-3, 50.0)), quick=800, thorough=8000)
def refused(v, ctx):
    c, k, d = dict(v[0]), v[1], v[2]
    c['N'] = list(c['N'])
    c['N'][k % len(c['N'])] = -d
    for a in c['a']:
        ds, _, _, w = trace(c, a)
        require(ds is None, 'an index below one was traced')
        require(len(w) >= 1, 'no warning for an index below one')
    ctx.nontrivial(True)


@C.probe('C08-radius')
def radius():
    """straight ray in vacuum from the ground to 76 km at 5 degrees: the geometry is elementary"""
    from pyrtlib.rt_equation import RTEquation
    z = np.arange(0.0, 80.0, 4.0)
    ds = RTEquation.ray_tracing(z, np.ones(len(z)), 5.0, 0.0)
    r0, r = rte.RE, rte.RE + z
    x = np.sqrt(r ** 2 - (r0 * np.cos(np.radians(5.0))) ** 2) - r0 * np.sin(np.radians(5.0))
    return bool(abs(np.sum(ds) - x[-1]) > 1e-4 * x[-1])
