"""C14 cloud layers."""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen, lib
from ..ref import absorb, rte

C = Check('C14', rule='A case is a profile of 3-10 levels, one to three cloud layers on its levels, liquid and ice density profiles, '
          'channels, angles, mode and a liquid-water model. Non-trivial: positive liquid and ice density in some layer.',
          assumptions=['slant paths with ray tracing are taken from the library call decided by C08',
                       'cloud edges coincide with profile levels; emissivity 1'])


@st.composite
def cases(draw):
    pr = draw(gen.profile(3, 10, dzmax=3.0))
    n = len(pr['z'])
    clouds = []
    b = draw(st.integers(0, n - 2))
    t = draw(st.integers(b + 1, n - 1)) if draw(st.integers(0, 11)) else b      # b: a cloud on one level
    clouds.append([b, t])
    if t + 2 <= n - 1 and draw(st.booleans()):
        b2 = draw(st.integers(t, n - 2))
        clouds.append([b2, draw(st.integers(b2 + 1, n - 1))])
        if clouds[1][1] <= n - 2 and draw(st.booleans()):
            clouds.append([draw(st.integers(clouds[1][1], n - 2)), n - 1])
    el = st.one_of(st.just(0.0), gen.logfl(1e-4, 3.0), gen.logfl(1e-2, 1.0))
    where = draw(st.sampled_from(['inside', 'anywhere']))
    liq, ice = (draw(st.lists(el, min_size=n, max_size=n)) for _ in range(2))
    if where == 'inside':
        inside = [any(lo <= i <= hi for lo, hi in clouds) for i in range(n)]
        liq, ice = ([v if q else 0.0 for v, q in zip(x, inside)] for x in (liq, ice))
    # the whole chain under one name, as documented, or a mixed selection
    m = draw(gen.models())
    return {'prof': pr, 'clouds': clouds, 'liq': liq, 'ice': ice, 'm': m, 'lm': draw(st.sampled_from(absorb.LIQ_MODELS)),
            'f': draw(st.lists(st.one_of(gen.fl(5.0, 350.0), gen.frequency()), min_size=1, max_size=2)),
            'a': draw(st.lists(st.one_of(st.just(90.0), gen.fl(10.0, 90.0, 5)), min_size=1, max_size=2)),
            'sat': draw(st.booleans()), 'ray': draw(st.booleans()), 'more': draw(gen.logfl(0.01, 2.0)),
            'lev': draw(st.integers(0, n - 1))}


def run(c, liq=None, ice=None, cloudy=True, init=True):
    z = np.array(c['prof']['z'])
    r = lib.rte(c['prof'], c['f'], c['m'], angles=c['a'], sat=c['sat'], ray=c['ray'], cloudy=cloudy, liq=c['lm'])
    if init:
        cl = np.array([[z[b] for b, _ in c['clouds']], [z[t] for _, t in c['clouds']]])
        r.init_cloudy(cl, np.array(c['ice'] if ice is None else ice), np.array(c['liq'] if liq is None else liq))
    return r.execute(only_bt=False)


@C.sub('cloud', cases(), quick=640, thorough=12000, shards=8)
def cloud(c, ctx):
    from pyrtlib.rt_equation import RTEquation
    lib.select(o3='')
    z, p, t, rh = gen.arr(c['prof'])
    df, out = run(c)
    clear, cout = run(c, cloudy=False, init=False)
    e, _ = rte.vapor(t, rh)
    _, _, n = rte.refractivity(p, t, e)
    nf = len(c['f'])
    liq, ice = np.array(c['liq']), np.array(c['ice'])
    for k, a in enumerate(c['a']):
        ds = RTEquation.ray_tracing(z - z[0], n, a, z[0]) if c['ray'] else rte.plane_path(z, a)
        length = float(np.sum(ds))
        rt = 1e-6 if c['ray'] else 1e-9
        for key, den in (('sliq', liq), ('sice', ice)):
            want = 0.1 * sum(0.5 * (den[i] + den[i - 1]) * ds[i] for b, tp in c['clouds'] for i in range(b + 1, tp + 1))
            close(np.asarray(out[key])[0, k], want, rtol=rt, what='%s at %g degrees' % (key, a))
        for j, f in enumerate(c['f']):
            row, crow = df.iloc[k * nf + j], clear.iloc[k * nf + j]
            where = ' at %r GHz, %g degrees' % (f, a)
            al = np.array([absorb.liquid(c['lm'], w, f, x) for w, x in zip(liq, t)])
            ai = np.array([absorb.ice(w, f) for w in ice])
            ll, li = rte.integrate(al, ds, False), rte.integrate(ai, ds, False)
            close(out['taulayliq'][j, k], ll, rtol=1e-7, atol=2e-9 * length, what='liquid layers' + where)
            close(out['taulayice'][j, k], li, rtol=1e-7, atol=2e-9 * length, what='ice layers' + where)
            close(row['tauliq'], np.sum(ll), rtol=1e-7, atol=2e-9 * length, what='liquid optical depth' + where)
            close(row['tauice'], np.sum(li), rtol=1e-7, atol=2e-9 * length, what='ice optical depth' + where)
            for key in ('tauwet', 'taudry'):
                close(row[key], crow[key], rtol=1e-12, atol=1e-300, what='gas optical depth in cloud: ' + key + where)
            gas = cout['taulaywet'][j, k] + cout['taulaydry'][j, k]
            tau = gas + out['taulayliq'][j, k] + out['taulayice'][j, k]
            s = rte.solve(f, t, tau, c['sat'])
            tot = float(np.sum(tau[1:]))
            if abs(tot - 125.0) > 1e-6:
                close(row['tbtotal'], rte.inv_bt(f, s['total']), rtol=1e-9, atol=1e-7, what='brightness temperature' + where)
                if tot > 1e-6:
                    close(row['tmr'], rte.inv_bt(f, s['mr']), rtol=1e-8 + 1e-14 / tot, atol=1e-7, what='mean temperature' + where)
            # radiating temperature of the first cloud, from the reported layers
            b, tp = c['clouds'][0]
            cum, atm = s['cum'], s['atm']
            if b == tp:         # a cloud on one level: no depth, so no temperature or the level's own
                require(np.isnan(row['tmrcld']) or abs(row['tmrcld'] - t[b]) < 1e-3, 'temperature %r of a cloud on level %d (%r K)'
                        + where, row['tmrcld'], b, t[b])
                ctx.label('cloud on one level')
            elif cum[b] > 125:
                require(np.isnan(row['tmrcld']), 'cloud temperature through an opaque atmosphere' + where)
            else:
                dt = cum[tp] - cum[b]
                x = (atm[tp] - atm[b]) * np.exp(cum[b])
                if dt <= 125:
                    x = x / (1 - np.exp(-dt)) if dt != 0 else np.nan
                err = 4e-15 * max(atm) * np.exp(cum[b]) / max(abs(1 - np.exp(-dt)) if abs(dt) < 600 else 1.0, 1e-300)
                err += abs(x) * 1e-14 / max(abs(dt), 1e-300)
                if np.isfinite(x) and x > 0 and err < 1e-4 * x:
                    close(row['tmrcld'], rte.inv_bt(f, x), rtol=1e-8 + 2 * err / x, what='cloud temperature' + where)
                    lo, hi = np.min(t[b:tp + 1]), np.max(t[b:tp + 1])
                    require(lo * (1 - 1e-6 - 2 * err / x) <= row['tmrcld'] <= hi * (1 + 1e-6 + 2 * err / x),
                            'cloud temperature %r outside the cloud layer %r..%r' + where, row['tmrcld'], lo, hi)
                    ctx.label('tmrcld')
            require(crow['tauliq'] == 0 and crow['tauice'] == 0 and crow['tmrcld'] == 0, 'cloud terms in clear sky')
    # no water: the clear-sky result
    zero = [0.0] * len(z)
    d0, o0 = run(c, zero, zero)
    keep = [x for x in df.columns if x != 'tmrcld']
    close(d0[keep].to_numpy(dtype=float), clear[keep].to_numpy(dtype=float), rtol=1e-12, atol=1e-300, what='cloud without water')
    # more water, more optical depth
    more = list(c['liq'])
    more[c['lev']] += c['more']
    d1, _ = run(c, more, None)
    require(np.all(d1['tauliq'].to_numpy() >= df['tauliq'].to_numpy() * (1 - 1e-9) - 4e-9 * 50), 'optical depth shrinks with more liquid')
    mi = list(c['ice'])
    mi[c['lev']] += c['more']
    d2, _ = run(c, None, mi)
    require(np.all(d2['tauice'].to_numpy() >= df['tauice'].to_numpy() * (1 - 1e-9) - 4e-9 * 50), 'optical depth shrinks with more ice')
    ctx.nontrivial(np.any(liq > 0) and np.any(ice > 0))
    ctx.label('clouds=%d' % len(c['clouds']), 'sat' if c['sat'] else 'ground')


@C.sub('not_cloudy', cases(), quick=160, thorough=3000, shards=8)
def not_cloudy(c, ctx):
    """init_cloudy without the cloudy switch: a warning, and the clear-sky result"""
    lib.select(o3='')
    clear, _ = run(c, cloudy=False, init=False)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        df, out = run(c, cloudy=False, init=True)
    require(any('cloud' in str(x.message).lower() for x in w), 'no warning that the cloud is ignored')
    close(df.to_numpy(dtype=float), clear.to_numpy(dtype=float), rtol=1e-13, atol=1e-300, what='ignored cloud')
    for k in ('sliq', 'sice', 'taulayliq', 'taulayice'):
        require(np.all(np.asarray(out[k]) == 0), '%s of an ignored cloud', k)
    ctx.nontrivial(True)
