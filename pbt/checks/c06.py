"""C06 exponential layer integration."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, Violation
from .. import gen

C = Check('C06', rule='A case is a level profile (zeros, equal, nearly equal, tiny and huge neighbours), layer path lengths, an '
          'integration range, zero flag and factor. Non-trivial: a layer with two different positive level values.',
          assumptions=['for level values closer than 1e-9 the level value itself is accepted as the mean'])


@st.composite
def cases(draw, negative=False):
    n = draw(st.integers(2, 12))
    x = []
    for i in range(n):
        k = draw(st.sampled_from(['log', 'log', 'zero', 'same', 'near', 'unit']))
        if k in ('same', 'near') and not x:
            k = 'log'
        if k == 'zero':
            x.append(0.0)
        elif k == 'same':
            x.append(x[-1])
        elif k == 'near':
            x.append(x[-1] * (1 + draw(st.sampled_from([-1, 1])) * draw(gen.logfl(1e-9, 1e-2))))
        elif k == 'unit':
            x.append(draw(gen.fl(0.0, 2.0)))
        else:
            x.append(draw(gen.logfl(1e-12, 1e4)))
    ds = [0.0] + draw(st.lists(st.one_of(gen.fl(0.0, 3.0), gen.logfl(1e-3, 100.0)), min_size=n - 1, max_size=n - 1))
    c = {'x': x, 'ds': ds, 'ibeg': draw(st.integers(1, n)), 'zero': draw(st.booleans()),
         'factor': draw(st.sampled_from([1.0, 0.1, 1, 2.5])), 'k': draw(gen.logfl(1e-3, 1e3))}
    if negative:
        c['neg'] = draw(st.integers(0, n - 1))
        c['negv'] = -draw(gen.logfl(1e-12, 10.0))
    return c


def mean(a, b, zero):
    """(value, absolute tolerance)"""
    if a == b:
        return b, 1e-12 * abs(b)
    if (a == 0 or b == 0):
        v = 0.5 * (a + b) if zero else 0.0
        return v, (max(a, b) if abs(a - b) < 1e-9 else 1e-12 * v)
    d = b - a
    v = d / math.log1p(d / a) if abs(d) < 0.5 * a else d / math.log(b / a)
    tol = 1e-12 * v + 8 * 2.3e-16 * max(a, b) ** 2 / abs(d)
    if abs(d) < 1e-9:
        tol += abs(d)
    return v, tol


def check(x, ds, ibeg, zero, factor):
    from pyrtlib.rt_equation import RTEquation
    n = len(x)
    X, D = np.array(x, dtype=float), np.array(ds, dtype=float)
    total, lay = RTEquation.exponential_integration(zero, X, D, ibeg, n, factor)
    require(np.array_equal(X, np.array(x, dtype=float)) and np.array_equal(D, np.array(ds, dtype=float)), 'input modified')
    require(np.shape(lay) == (n,), 'shape %s', np.shape(lay))
    s = 0.0
    tol = 0.0
    for i in range(n):
        if i < ibeg:
            require(lay[i] == 0, 'layer %d outside the range has %r', i, lay[i])
            continue
        v, t = mean(x[i - 1], x[i], zero)
        if not abs(lay[i] - v * ds[i]) <= t * ds[i] + 1e-300:
            raise Violation('layer %d (%r .. %r, ds %r): %r, expected %r' % (i, x[i - 1], x[i], ds[i], lay[i], v * ds[i]))
        lo, hi = min(x[i - 1], x[i]), max(x[i - 1], x[i])
        if zero or lo > 0:
            require(lo * ds[i] - t * ds[i] <= lay[i] <= hi * ds[i] + t * ds[i], 'layer mean outside its levels')
        require(lay[i] >= 0, 'negative integral')
        s += v * ds[i]
        tol += t * ds[i]
    require(abs(total - s * factor) <= (tol + 1e-12 * s) * factor, 'total %r, expected %r', total, s * factor)
    close(total, float(np.sum(lay)) * factor, rtol=1e-12, what='total against the layers')
    return total, lay


@C.sub('layers', cases(), quick=6000, thorough=120000)
def layers(c, ctx):
    x, ds = c['x'], c['ds']
    total, lay = check(x, ds, c['ibeg'], c['zero'], c['factor'])
    k = c['k']
    t2, l2 = check(x, [d * k for d in ds], c['ibeg'], c['zero'], c['factor'])
    close(t2, total * k, rtol=1e-9, what='linear in path')
    big = [v * k for v in x]
    far = all(a == b or a == 0 or b == 0 or abs(a - b) > 1e-5 * max(a, b) for a, b in zip(x, x[1:]))
    flat = all(abs(a - b) > 1e-8 or a == b for y in (x, big) for a, b in zip(y, y[1:]))
    if far and flat:
        t3, l3 = check(big, ds, c['ibeg'], c['zero'], c['factor'])
        close(t3, total * k, rtol=1e-9, what='linear in the profile')
        ctx.label('linearity')
    tz, lz = check(x, ds, c['ibeg'], not c['zero'], c['factor'])
    ctx.nontrivial(any(a != b and a > 0 and b > 0 for a, b in zip(x[c['ibeg'] - 1:], x[c['ibeg']:])))


@C.sub('negative', cases(negative=True), quick=3000, thorough=40000)
def negative(c, ctx):
    """what lies below the first layer touching the negative value is returned, with a warning"""
    from pyrtlib.rt_equation import RTEquation
    x, ds, n = list(c['x']), c['ds'], len(c['x'])
    x[c['neg']] = c['negv']
    stop = None
    for i in range(c['ibeg'], n):
        if x[i] < 0 or x[i - 1] < 0:
            stop = i
            break
    X = np.array(x)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        total, lay = RTEquation.exponential_integration(c['zero'], X, np.array(ds), c['ibeg'], n, 1.0)
    if stop is None:
        require(not w, 'warned without a negative value in the range')
        check([abs(v) for v in x], ds, c['ibeg'], c['zero'], 1.0)
        t0, l0 = RTEquation.exponential_integration(c['zero'], np.abs(X), np.array(ds), c['ibeg'], n, 1.0)
        close(total, t0, rtol=1e-12, what='value below the range matters')
        return
    require(len(w) >= 1, 'no warning for a negative value')
    require(np.all(np.asarray(lay)[stop:] == 0), 'layers at or above the negative value were integrated')
    s = tol = 0.0
    for i in range(c['ibeg'], stop):
        v, t = mean(x[i - 1], x[i], c['zero'])
        require(abs(lay[i] - v * ds[i]) <= t * ds[i] + 1e-300, 'layer %d below the negative value: %r, expected %r', i,
                lay[i], v * ds[i])
        s += v * ds[i]
        tol += t * ds[i]
    require(abs(total - s) <= tol + 1e-12 * s, 'total %r, expected %r', total, s)
    ctx.nontrivial(stop > c['ibeg'])


@C.sub('long', st.fixed_dictionaries({'c': cases(), 'n': st.integers(13, 1200)}), quick=200, thorough=4000)
def long(c, ctx):
    """the same over profiles of up to 1200 levels (the generated one repeated)"""
    d, n = c['c'], c['n']
    reps = n // len(d['x']) + 1
    x = (d['x'] * reps)[:n]
    ds = ([0.0] + (d['ds'][1:] + [1.0]) * reps)[:n]
    ibeg = 1 + (d['ibeg'] * 37) % (n - 1)
    check(x, ds, ibeg, d['zero'], d['factor'])
    check(x, ds, 1, d['zero'], d['factor'])
    ctx.nontrivial(n > 50)
