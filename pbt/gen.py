"""Shared Hypothesis strategies. All cases are plain JSON data."""
import math

import numpy as np
from hypothesis import strategies as st

from .ref import absorb, rte


def rnd(x, nd=7):
    return float('%.*g' % (nd, x))


def fl(lo, hi, nd=7):
    """floats in [lo, hi], rounded so that replays are short"""
    def r(x):
        y = rnd(x, nd)
        if abs(y) < 1e-9 and lo <= 0 <= hi:
            return 0.0
        return y if lo <= y <= hi else x
    return st.floats(lo, hi, allow_nan=False).map(r)


def logfl(lo, hi, nd=6):
    return st.floats(math.log(lo), math.log(hi), allow_nan=False).map(lambda v: rnd(min(hi, max(lo, math.exp(v))), nd))


def crowd(draw, xs, lo, hi, dlo=1e-6, dhi=0.3, nd=10):
    """move some elements of a list next to an earlier one: values that only just differ"""
    xs = list(xs)
    for i in range(1, len(xs)):
        if draw(st.integers(0, 3)) == 3:
            v = xs[draw(st.integers(0, i - 1))] + draw(st.sampled_from([-1.0, 1.0])) * draw(logfl(dlo, dhi, 3))
            if lo <= v <= hi:
                xs[i] = rnd(v, nd)
    return xs


def line_centres(species, model):
    L = {'h2o': absorb.h2o_lines, 'o2': absorb.o2_lines, 'o3': absorb.o3_lines}[species](model)
    return L['f'] if species == 'o2' else L['fl']


@st.composite
def line_frequency(draw, species, model, lo=1.0, hi=1000.0):
    """frequency biased to line centres, line wings and the local-line cut-off"""
    c = line_centres(species, model)
    kind = draw(st.sampled_from(['uniform', 'near', 'wing', 'cutoff', 'round']))
    if kind == 'uniform':
        f = draw(fl(lo, hi))
    elif kind == 'round':
        f = float(draw(st.integers(math.ceil(lo), int(hi))))
    else:
        k = draw(st.integers(0, len(c) - 1))
        sgn = draw(st.sampled_from([-1.0, 1.0]))
        if kind == 'near':
            f = c[k] + sgn * draw(logfl(1e-5, 1.0))
        elif kind == 'wing':
            f = c[k] + sgn * draw(fl(0.0, 60.0))
        else:
            f = abs(c[k] + sgn * 750.0) + draw(fl(-5.0, 5.0))
    if not lo <= f <= hi:
        f = lo + abs(f) % (hi - lo)
    return rnd(float(f), 10)


CHANNELS = [18.7, 22.235, 23.8, 31.4, 50.3, 51.26, 52.28, 53.86, 54.94, 56.66, 57.29, 58.8, 60.0, 89.0, 118.75,
            150.0, 165.5, 183.31, 176.31, 190.31, 229.0, 243.2, 325.15, 448.0, 664.0]


def frequency(lo=1.0, hi=1000.0):
    return st.one_of(st.sampled_from([c for c in CHANNELS if lo <= c <= hi]), fl(lo, hi),
                     st.integers(math.ceil(lo), int(hi)).map(float))


@st.composite
def state(draw, pmin=2e-5):
    """one atmospheric level: total pressure (mb), temperature (K), vapour pressure (mb)"""
    kind = draw(st.sampled_from(['troposphere', 'troposphere', 'stratosphere', 'any']))
    if kind == 'troposphere':
        p, t = draw(fl(200.0, 1080.0)), draw(fl(210.0, 325.0))
    elif kind == 'stratosphere':
        p, t = draw(logfl(pmin, 200.0)), draw(fl(180.0, 290.0))
    else:
        p, t = draw(logfl(pmin, 1080.0)), draw(fl(160.0, 385.0))
    emax = min(0.08 * p, 1.05 * float(rte.es_water(t)))
    e = emax * draw(st.one_of(fl(0.0, 1.0), logfl(1e-7, 1.0), st.just(1.0)))
    return {'p': p, 't': t, 'e': rnd(e)}


@st.composite
def profile(draw, nmin=2, nmax=14, zsfc=None, dzmin=0.01, dzmax=4.0, dry_ok=True, top=None):
    """hydrostatic ascending profile: z km, p mb, t K, rh fraction"""
    shape = draw(st.sampled_from(['free'] * 8 + ['isothermal', 'flat', 'thin', 'dense']))
    n = draw(st.integers(nmin, min(nmax, 6) if shape == 'dense' else nmax))
    z0 = draw(st.one_of(st.just(0.0), fl(0.0, 3.0, 4), fl(0.0, 3.0, 4), fl(-0.45, 0.0, 4))) if zsfc is None else zsfc
    scale = draw(st.sampled_from([dzmax, dzmax / 4]))
    dz = draw(st.lists(fl(dzmin, scale, 5), min_size=n - 1, max_size=n - 1))
    if shape == 'thin' and dzmin <= 0.01:       # a level repeated a few metres or centimetres higher
        dz[draw(st.integers(0, n - 2))] = draw(logfl(1e-5, 0.01, 4))
    z = [z0]
    for d in dz:
        z.append(rnd(z[-1] + d, 8))
    t = [draw(fl(235.0, 315.0, 5))]
    lapse = draw(fl(-8.0, 8.0, 4))
    noise = draw(st.lists(fl(-4.0, 4.0, 3), min_size=n - 1, max_size=n - 1))
    for d, e in zip(dz, noise):
        t.append(rnd(min(320.0, max(185.0, t[-1] - (lapse if t[-1] > 220 else 0) * d + e)), 6))
    if shape == 'isothermal':
        t = [t[0]] * n
    elif shape == 'flat':       # neighbours that only just differ
        for i in range(1, n):
            t[i] = rnd(t[i - 1] + draw(st.sampled_from([-1.0, 1.0])) * draw(logfl(1e-7, 0.1, 3)), 12)
    p = [draw(fl(600.0, 1060.0, 6))]
    for i, d in enumerate(dz):
        p.append(rnd(p[-1] * math.exp(-d / (0.029271 * 0.5 * (t[i] + t[i + 1]))), 8))
    wet = draw(st.sampled_from(['moist', 'mixed', 'dry'] if dry_ok else ['moist']))
    if wet == 'dry' and draw(st.booleans()):
        rh = [0.0] * n
    else:
        el = {'moist': st.one_of(fl(0.01, 1.0, 4), fl(0.01, 1.0, 4), fl(0.01, 1.0, 4), fl(1.0, 1.2, 4)), 'mixed': st.one_of(st.just(0.0), fl(0.0, 1.0, 4), logfl(1e-6, 1e-2, 3)),
              'dry': st.one_of(st.just(0.0), fl(0.0, 0.05, 4))}[wet]
        rh = draw(st.lists(el, min_size=n, max_size=n))
    es = rte.es_water(np.array(t))
    rh = [rnd(min(r, 0.05 * p[i] / es[i]), 7) for i, r in enumerate(rh)]
    if shape == 'flat' and draw(st.booleans()):
        rh = [rh[0]] * n
    pr = {'z': z, 'p': p, 't': t, 'rh': rh}
    if shape == 'dense':
        pr = refine(pr, draw(st.integers(2, max(2, 100 // n))))
        rh = np.minimum(pr['rh'], 0.05 * np.array(pr['p']) / rte.es_water(np.array(pr['t'])))
        pr['rh'] = [rnd(r, 7) for r in rh]
    return pr


def refine(pr, k):
    """every layer cut into k: a profile with as many levels as a sounding"""
    x = np.arange(len(pr['z']), dtype=float)
    q = np.arange((len(x) - 1) * k + 1) / k
    out = {i: [rnd(v, 9) for v in np.interp(q, x, pr[i])] for i in ('z', 't', 'rh')}
    out['p'] = [rnd(v, 9) for v in np.exp(np.interp(q, x, np.log(pr['p'])))]
    return out


def arr(prof):
    return tuple(np.array(prof[k], dtype=float) for k in ('z', 'p', 't', 'rh'))


# models for which the whole chain (H2O, O2, N2) can be selected by one name, and mixed selections
COMMON = [m for m in absorb.H2O_MODELS if m in absorb.O2_MODELS and m in absorb.N2_MODELS]


def models(full=True):
    one = st.sampled_from(COMMON).map(lambda m: {'h2o': m, 'o2': m, 'n2': m})
    mix = st.fixed_dictionaries({'h2o': st.sampled_from(absorb.H2O_MODELS), 'o2': st.sampled_from(absorb.O2_MODELS),
                                 'n2': st.sampled_from(absorb.N2_MODELS)})
    return st.one_of(one, mix) if full else one
