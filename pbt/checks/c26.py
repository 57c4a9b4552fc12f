"""C26 uncertainty propagation and shipped covariance matrices."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, expect_raises, HERE
from .. import gen

C = Check('C26', rule='propagate: function, scalars or arrays of 1-5 values (zero and negative included where the function is '
          'defined), uncertainties, multipliers and a correlation in [-1, 1]; non-trivial: both the value and the '
          'deviation are non-zero. covariance: a matrix and a direction over its parameters; non-trivial: the direction '
          'has at least two non-zero components.',
          assumptions=['the derivative is taken exactly (central differences of the function in exact rational '
                       'arithmetic are not needed: the functions are monomials)',
                       'sAB is the covariance of A and B, as in the documented formulas'])

# derivatives (dF/dA, dF/dB) written from the definition of each function
FUNCS = {'aA': (lambda A, B, a, b: a * A, lambda A, B, a, b: (a, 0.0)),
         'aA+bB': (lambda A, B, a, b: a * A + b * B, lambda A, B, a, b: (a, b)),
         'aA-bB': (lambda A, B, a, b: a * A - b * B, lambda A, B, a, b: (a, -b)),
         'A*B': (lambda A, B, a, b: A * B, lambda A, B, a, b: (B, A)),
         'A/B': (lambda A, B, a, b: A / B, lambda A, B, a, b: (1 / B, -A / B / B)),
         'A^a': (lambda A, B, a, b: A ** a, lambda A, B, a, b: (a * A ** (a - 1), 0.0))}

SIG = st.one_of(st.just(0.0), gen.logfl(1e-4, 1e3, 4))


@st.composite
def cases(draw):
    fun = draw(st.sampled_from(sorted(FUNCS)))
    n = draw(st.integers(0, 5))
    k = max(n, 1)
    mag = st.one_of(gen.fl(-10.0, 10.0, 5), gen.logfl(1e-5, 1e5, 4), gen.logfl(1e-5, 1e5, 4).map(lambda v: -v))
    val = st.one_of(mag, mag, mag, st.just(0.0))
    a = draw(st.one_of(st.none(), gen.fl(-5.0, 5.0, 4)))
    if fun == 'A^a':
        a = draw(st.one_of(st.none(), st.integers(-4, 5).map(float), gen.fl(-3.0, 3.0, 3)))
    A = draw(st.lists(val, min_size=k, max_size=k))
    B = draw(st.lists(val, min_size=k, max_size=k))
    if fun == 'A^a':
        e = 1.0 if a is None else a
        if e != int(e):
            A = [abs(v) if v else 1.0 for v in A]
        elif e < 1:
            A = [v or 1.0 for v in A]
        A = [max(-1e3, min(1e3, v)) for v in A]
        A = [v if v == 0 or abs(v) > 1e-3 else 1.0 for v in A]
    if fun == 'A/B':
        B = [v or 2.0 for v in B]
    sA = draw(st.lists(SIG, min_size=k, max_size=k))
    sB = draw(st.lists(SIG, min_size=k, max_size=k))
    r = draw(st.one_of(st.none(), st.sampled_from([-1.0, 0.0, 1.0]), gen.fl(-0.99, 0.99, 3)))
    return {'fun': fun, 'A': A, 'B': B, 'sA': sA, 'sB': sB, 'a': a, 'b': draw(st.one_of(st.none(), gen.fl(-5.0, 5.0, 4))),
            'r': r, 'scalar': n == 0}


@C.sub('propagate', cases(), quick=8000, thorough=150000)
def propagate(c, ctx):
    from pyrtlib.uncertainty import AbsModUncertainty as U
    A, B, sA, sB = (np.array(c[k], dtype=float) for k in ('A', 'B', 'sA', 'sB'))
    if c['scalar']:
        A, B, sA, sB = (np.float64(v[0]) for v in (A, B, sA, sB))
    kw = {}
    a = b = 1.0
    if c['a'] is not None:
        a = kw['a'] = c['a']
    if c['b'] is not None:
        b = kw['b'] = c['b']
    cov = 0.0
    if c['r'] is not None:
        cov = c['r'] * sA * sB
        kw['sAB'] = cov
    copies = [np.array(v, copy=True) for v in (A, B, sA, sB)]
    with np.errstate(all='ignore'):
        F, sF = U.uncertainty_propagation(c['fun'], A, B, sA, sB, **kw)
        f, d = FUNCS[c['fun']]
        want = f(A, B, a, b)
        da, db = d(A, B, a, b)
        if c['fun'] in ('aA', 'A^a'):
            var = (da * sA) ** 2
            scale = np.abs(da * sA)
        else:
            var = (da * sA) ** 2 + (db * sB) ** 2 + 2 * da * db * cov
            scale = np.hypot(da * sA, db * sB)
    for x, y, nm in zip((A, B, sA, sB), copies, ('A', 'B', 'sA', 'sB')):
        require(np.array_equal(x, y), 'the input %s was modified', nm)
    where = ' of %s' % c['fun']
    require(np.shape(F) == np.shape(A) and np.shape(sF) == np.shape(A), 'shape of the result' + where)
    close(F, want, rtol=1e-12, atol=1e-12 * float(np.max(np.abs(a * A) + np.abs(b * B))) if '+' in c['fun'] or '-' in c['fun']
          else 1e-300, what='value' + where)
    # compare variances: cancellation makes the deviation itself ill-conditioned near |r| = 1
    sF = np.asarray(sF, dtype=float)
    flat = np.asarray(var, dtype=float)
    bad = np.isnan(sF) & (np.abs(flat) <= 1e-12 * scale ** 2)     # rounding below zero at |r|=1
    sF = np.where(bad, 0.0, sF)
    require(np.all(sF >= 0), 'standard deviation%s is %s', where, sF)
    close(sF ** 2, np.maximum(flat, 0.0), rtol=1e-9, scale=scale ** 2, atol=1e-300, what='variance' + where)
    ctx.nontrivial(np.any((np.asarray(F) != 0) & (sF > 0)))
    ctx.label(c['fun'], 'scalar' if c['scalar'] else 'array', *(['covariance'] if c['r'] else []))


@C.sub('refused', st.text(max_size=6), quick=300, thorough=3000)
def refused(c, ctx):
    from pyrtlib.uncertainty import AbsModUncertainty as U
    if c in FUNCS:
        return
    with expect_raises(ValueError, what='function %r' % c):
        U.uncertainty_propagation(c, 1.0, 2.0, 0.1, 0.2)
    ctx.nontrivial(len(c) > 0)


# published matrices (own copy): first index of the water-vapour block; common parameters of the successive versions
SIZES = {'R17_111': 111, 'R17_112': 112, 'R19': 135}
WATER = 105
KNOWN_MIN_CORRELATION_EIGENVALUE = -0.4062409821      # C26-indefinite, all three matrices

_SNAP = None


def snapshot(name):
    global _SNAP
    if _SNAP is None:
        d = np.load(os.path.join(HERE, 'pbt', 'data', 'cov.npz'))
        _SNAP = {k: d[k] for k in d.files}
    return _SNAP[name]


@st.composite
def directions(draw):
    name = draw(st.sampled_from(sorted(SIZES)))
    n = SIZES[name]
    block = draw(st.sampled_from(['water', 'all', 'all']))
    lo = WATER if block == 'water' else 0
    k = draw(st.integers(1, 12))
    idx = draw(st.lists(st.integers(lo, n - 1), min_size=k, max_size=k, unique=False))
    w = draw(st.lists(gen.fl(-1.0, 1.0, 3), min_size=k, max_size=k))
    return {'m': name, 'idx': idx, 'w': w, 'i': draw(st.integers(0, n - 1)), 'j': draw(st.integers(0, n - 1))}


@C.sub('covariance', directions(), quick=3000, thorough=60000)
def covariance(c, ctx):
    from pyrtlib.uncertainty import covariance_matrix
    M = np.asarray(getattr(covariance_matrix, c['m']), dtype=float)
    n = SIZES[c['m']]
    require(M.shape == (n, n), '%s has shape %s', c['m'], M.shape)
    i, j = c['i'], c['j']
    require(np.all(np.isfinite(M)), '%s has non-finite entries', c['m'])
    require(M[i, i] >= 0, 'negative variance of parameter %d in %s', i, c['m'])
    sig = np.sqrt(np.diag(M))
    require(abs(M[i, j] - M[j, i]) <= 1e-6 * sig[i] * sig[j], '%s is not symmetric at (%d, %d)', c['m'], i, j)
    require(abs(M[i, j]) <= (1 + 1e-9) * sig[i] * sig[j], 'correlation beyond one at (%d, %d) of %s', i, j, c['m'])
    close(M[i, j], snapshot(c['m'])[i, j], rtol=1e-12, what='%s entry (%d, %d)' % (c['m'], i, j))
    v = np.zeros(n)
    for a, b in zip(c['idx'], c['w']):
        v[a] += b
    u = np.where(sig > 0, v / np.where(sig > 0, sig, 1.0), 0.0)      # direction in units of the uncertainties
    q = float(u @ M @ u)
    norm = float(v @ v)
    if min(c['idx']) >= WATER:
        require(q >= -1e-9 * norm, 'negative variance %g along %s of %s', q, c['idx'], c['m'])
    elif q < -1e-9 * norm:
        require(q >= (KNOWN_MIN_CORRELATION_EIGENVALUE - 1e-6) * norm, 'negative variance %g along %s of %s', q, c['idx'],
                c['m'])
        ctx.exclude()
    ctx.nontrivial(np.count_nonzero(v) >= 2)
    ctx.label(c['m'])


@C.probe('C26-indefinite')
def probe():
    from pyrtlib.uncertainty import covariance_matrix
    out = []
    for name in SIZES:
        M = np.asarray(getattr(covariance_matrix, name), dtype=float)
        s = np.sqrt(np.diag(M))
        k = M / np.outer(s, s)
        out.append(np.linalg.eigvalsh((k + k.T) / 2)[0] < -0.4)
    return all(out)
