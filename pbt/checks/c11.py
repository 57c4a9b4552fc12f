"""C11 channels and angles are simulated independently."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen, lib
from ..ref import absorb

C = Check('C11', rule='A case is a simulation (clear or cloudy) with 2-4 channels and 1-3 angles, compared with each single '
          'simulation and with a permutation/repetition of both lists. Non-trivial: at least two different channels.',
          assumptions=['comparison to 1e-10 relative: the same arithmetic per channel'])


@st.composite
def sims(draw, nf=(2, 4), na=(1, 3)):
    pr = draw(gen.profile(3, 8, dzmax=4.0))
    n = len(pr['z'])
    m = draw(gen.models(full=False))
    k = draw(st.integers(*nf))
    fr = draw(st.lists(st.one_of(gen.fl(10.0, 340.0), gen.frequency(hi=340.0)), min_size=k, max_size=k))
    o3 = draw(st.sampled_from(['', 'R18', 'R22', 'R23']))
    o3n = draw(st.lists(gen.logfl(1e16, 1e19), min_size=n, max_size=n)) if o3 else None
    if o3:
        L = absorb.o3_lines(o3)['fl']
        L = L[(L > 10) & (L < 340)]
        fr[0] = gen.rnd(float(L[draw(st.integers(0, len(L) - 1))]) + draw(gen.fl(-0.2, 0.2)), 9)
    cloud = None
    if draw(st.booleans()):
        b = draw(st.integers(0, n - 2))
        tp = draw(st.integers(b + 1, n - 1))
        den = lambda: draw(st.lists(st.one_of(st.just(0.0), gen.logfl(1e-3, 2.0)), min_size=n, max_size=n))  # noqa
        cloud = {'base': b, 'top': tp, 'liq': den(), 'ice': den()}
    fr = gen.crowd(draw, fr, 10.0, 340.0)
    return {'prof': pr, 'm': m, 'f': fr, 'o3': o3, 'o3n': o3n, 'cloud': cloud, 'ray': draw(st.booleans()),
            'sat': draw(st.booleans()), 'es': draw(st.lists(gen.fl(0.0, 1.0, 4), min_size=k, max_size=k)),
            'a': gen.crowd(draw, draw(st.lists(gen.fl(10.0, 90.0, 5), min_size=na[0], max_size=na[1])), 10.0, 90.0,
                           1e-4, 1.0)}


def run(c, f=None, a=None, es=None, build_only=False):
    f = c['f'] if f is None else f
    a = c['a'] if a is None else a
    es = c['es'] if es is None else es
    m = dict(c['m'])
    lib.select(o3='')
    if c['o3']:
        m['o3'] = c['o3']
    r = lib.rte(c['prof'], f, m, angles=a, sat=c['sat'], o3n=c['o3n'], ray=c['ray'], cloudy=c['cloud'] is not None,
                emissivity=np.array(es, dtype=float))
    if c['cloud'] is not None:
        z = np.array(c['prof']['z'])
        cl = c['cloud']
        r.init_cloudy(np.array([[z[cl['base']]], [z[cl['top']]]]), np.array(cl['ice'], dtype=float),
                      np.array(cl['liq'], dtype=float))
    return r if build_only else r.execute(only_bt=False)


SIMS = sims().flatmap(lambda s: st.tuples(
    st.just(s), st.lists(st.integers(0, len(s['f']) - 1), min_size=1, max_size=5),
    st.lists(st.integers(0, len(s['a']) - 1), min_size=1, max_size=4)))


@C.sub('batch', SIMS, quick=320, thorough=6000, shards=8)
def batch(v, ctx):
    c, fi, ai = v
    df, out = run(c)
    nf, na = len(c['f']), len(c['a'])
    require(len(df) == nf * na, '%d rows', len(df))
    tab = df.to_numpy(dtype=float).reshape(na, nf, -1)
    # 1. singles
    for k in range(na):
        for j in range(nf):
            d1, o1 = run(c, [c['f'][j]], [c['a'][k]], [c['es'][j]])
            close(d1.to_numpy(dtype=float)[0], tab[k, j], rtol=1e-10, atol=1e-300,
                  what='single simulation at %r GHz, %g degrees, columns %s' % (c['f'][j], c['a'][k], list(df.columns)))
            for key in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry'):
                close(np.asarray(o1[key])[0, 0], np.asarray(out[key])[j, k], rtol=1e-10, atol=1e-300, what='single: ' + key)
            for key in ('srho', 'swet', 'sdry', 'sliq', 'sice'):
                close(np.asarray(o1[key])[0, 0], np.asarray(out[key])[0, k], rtol=1e-10, atol=1e-300, what='single: ' + key)
    # 2. permuted and repeated
    d2, o2 = run(c, [c['f'][i] for i in fi], [c['a'][i] for i in ai], [c['es'][i] for i in fi])
    t2 = d2.to_numpy(dtype=float).reshape(len(ai), len(fi), -1)
    close(t2, tab[np.ix_(ai, fi)], rtol=1e-10, atol=1e-300, what='permuted/repeated channels %s and angles %s' % (fi, ai))
    for key in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry'):
        close(o2[key], np.asarray(out[key])[np.ix_(fi, ai)], rtol=1e-10, atol=1e-300, what='permuted: ' + key)
    ctx.nontrivial(len(set(c['f'])) > 1)
    ctx.label('cloudy' if c['cloud'] else 'clear', 'ray' if c['ray'] else 'plane', 'sat' if c['sat'] else 'ground')


@st.composite
def many_cases(draw):
    c = draw(sims(nf=(1, 1), na=(1, 1)))
    if draw(st.booleans()):
        nf, na = draw(st.integers(20, 140)), 1
    else:
        nf, na = draw(st.integers(1, 12)), draw(st.integers(5, 25))
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    f = rng.uniform(10.0, 340.0, nf)
    if draw(st.booleans()):
        f = f[rng.randint(0, nf, nf)]           # repeated channels
    f[0] = c['f'][0]
    c['f'] = [gen.rnd(float(x), 9) for x in f]
    c['es'] = [gen.rnd(float(x), 4) for x in rng.uniform(0.0, 1.0, nf)]
    c['a'] = [gen.rnd(float(x), 6) for x in rng.uniform(10.0, 90.0, na)]
    return {'sim': c, 'pick': [[int(i) for i in rng.randint(0, nf, 3)] + [nf - 1],
                               [int(i) for i in rng.randint(0, na, 3)] + [na - 1]]}


@C.sub('many', many_cases(), quick=96, thorough=2000, shards=8)
def many(v, ctx):
    """long channel and angle lists: some entries simulated alone, and a short list of four"""
    c, (fi, ai) = v['sim'], v['pick']
    df, out = run(c)
    nf, na = len(c['f']), len(c['a'])
    tab = df.to_numpy(dtype=float).reshape(na, nf, -1)
    j, k = fi[0], ai[0]
    d1, _ = run(c, [c['f'][j]], [c['a'][k]], [c['es'][j]])
    close(d1.to_numpy(dtype=float)[0], tab[k, j], rtol=1e-10, atol=1e-300, what='channel %d and angle %d alone' % (j, k))
    d2, o2 = run(c, [c['f'][i] for i in fi], [c['a'][i] for i in ai], [c['es'][i] for i in fi])
    close(d2.to_numpy(dtype=float).reshape(len(ai), len(fi), -1), tab[np.ix_(ai, fi)], rtol=1e-10, atol=1e-300,
          what='channels %s and angles %s of %d and %d' % (fi, ai, nf, na))
    for key in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry'):
        close(o2[key], np.asarray(out[key])[np.ix_(fi, ai)], rtol=1e-10, atol=1e-300, what=key)
    ctx.nontrivial(nf * na >= 20)
