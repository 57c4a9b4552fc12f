"""C07 radiative transfer equation and the Planck pair."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite
from .. import gen, lib
from ..ref import rte

C = Check('C07', rule='A case is a temperature profile of 2-14 levels, layer optical depths 0..300 (log-spread, zeros, opaque), '
          'a frequency, a viewing mode and an emissivity. Non-trivial: total optical depth within 1e-6..125 and not '
          'isothermal (radiances), or temperatures above 1 K (Planck pair).',
          assumptions=['1-1000 GHz, temperatures 150-350 K',
                       'total optical depths within 1e-6 of the 125 Np opacity limit are not generated'])


@st.composite
def cases(draw):
    n = draw(st.integers(2, 14))
    f = draw(gen.frequency())
    t = draw(st.one_of(st.lists(gen.fl(150.0, 350.0, 6), min_size=n, max_size=n),
                       gen.fl(150.0, 350.0, 6).map(lambda v: [v] * n)))
    k = draw(st.sampled_from(['thin', 'thick', 'mixed', 'zero', 'limit']))
    if k == 'thin':
        el = st.one_of(st.just(0.0), gen.logfl(1e-9, 1e-1))
    elif k == 'thick':
        el = gen.logfl(1.0, 300.0)
    elif k == 'zero':
        el = st.just(0.0)
    else:
        el = st.one_of(st.just(0.0), gen.logfl(1e-8, 300.0), gen.fl(0.0, 5.0))
    tau = [draw(gen.fl(0.0, 1.0))] + draw(st.lists(el, min_size=n - 1, max_size=n - 1))
    if k == 'limit':
        s = sum(tau[1:])
        tgt = draw(gen.fl(110.0, 140.0))
        if s > 0 and abs(tgt - 125.0) > 1e-3:
            tau = [tau[0]] + [gen.rnd(v * tgt / s, 9) for v in tau[1:]]
    return {'f': f, 't': t, 'tau': tau, 'sat': draw(st.booleans()),
            'es': draw(st.one_of(st.just(1.0), st.just(0.0), gen.fl(0.0, 1.0, 4)))}


@C.sub('radiances', cases(), quick=6000, thorough=120000)
def radiances(c, ctx):
    from pyrtlib.rt_equation import RTEquation
    f, sat, es = c['f'], c['sat'], c['es']
    t, tau = np.array(c['t'], dtype=float), np.array(c['tau'], dtype=float)
    n = len(t)
    total_tau = float(np.sum(tau[1:]))
    if abs(total_tau - 125.0) < 1e-6:
        return
    lib.set_mode(sat, es)
    t0, tau0 = t.copy(), tau.copy()
    tot, atm, mr, cum, hvk, b, bk = RTEquation.planck(np.float64(f), t, tau)
    require(np.array_equal(t, t0) and np.array_equal(tau, tau0), 'input modified')
    w = rte.solve(f, t, tau, sat, es)
    close(hvk, rte.hvk(f), rtol=1e-12, what='hv/k')
    close(b, w['b'], rtol=1e-10, what='Planck profile')
    close(cum, w['cum'], rtol=1e-12, atol=1e-15, what='cumulative optical depth')
    bmax = float(np.max(w['b']))
    close(atm, w['atm'], rtol=1e-10, atol=1e-14 * bmax, what='cumulative radiance')
    close(tot, w['total'], rtol=1e-10, atol=1e-14 * bmax, what='total radiance')
    if total_tau > 0:
        close(mr, w['mr'], rtol=1e-9 + 1e-15 * n / total_tau, atol=1e-14 * bmax, what='mean radiance')
    close(bk, w['bk'], rtol=1e-9, atol=1e-300, what='background term')
    # physical relations, independent of the reference recursion
    bg = es * rte.bt(f, t[0]) if sat else rte.bt(f, rte.TCOSMIC)
    lo, hi = min(bg, np.min(w['b'])), max(bg, bmax)
    require(lo * (1 - 1e-9) <= tot <= hi * (1 + 1e-9), 'radiance %r outside the sources %r..%r', tot, lo, hi)
    tb = float(RTEquation.bright(hvk, tot))
    if np.all(t == t[0]) and sat and es == 1.0:
        close(tb, t[0], rtol=1e-9, what='isothermal atmosphere over a black surface')
        ctx.label('isothermal')
    if total_tau == 0:
        close(tot, bg, rtol=1e-12, what='transparent atmosphere')
        if bg > 0:
            close(tb, rte.inv_bt(f, bg), rtol=1e-9, what='transparent atmosphere')
        ctx.label('transparent')
    if total_tau > 125:
        require(bk == 0, 'background seen through an opaque atmosphere')
        lib.set_mode(sat, 1.0 - es)
        require(RTEquation.planck(np.float64(f), t, tau)[0] == tot, 'emissivity matters under an opaque atmosphere')
        ctx.label('opaque')
    if 1e-3 < total_tau < 125:
        close(mr, (tot - bk) / (1 - np.exp(-total_tau)), rtol=1e-8, atol=1e-12 * bmax, what='mean radiating temperature')
        # Mean radiance lies in the range of layer radiances
        require(np.min(w['b']) * (1 - 1e-7) <= mr <= bmax * (1 + 1e-7), 'mean radiance outside the atmosphere')
    # the unused first entry of the layer optical depths has no effect
    tau2 = tau.copy()
    tau2[0] += 1.0
    lib.set_mode(sat, es)
    require(RTEquation.planck(np.float64(f), t, tau2)[0] == tot, 'first entry of the layer depths matters')
    # inserting a transparent layer at any level does not change the result
    k = int(tau2[0] * 1000) % n
    t3 = np.insert(t, k, t[k])
    tau3 = np.insert(tau, k + 1, 0.0)
    tot3 = RTEquation.planck(np.float64(f), t3, tau3)[0]
    close(tot3, tot, rtol=1e-12, what='inserted transparent layer at %d' % k)
    ctx.nontrivial(1e-6 < total_tau < 125 and not np.all(t == t[0]))
    ctx.label('satellite' if sat else 'ground')


@C.sub('planck_pair', st.fixed_dictionaries({'f': gen.frequency(), 't': st.one_of(gen.fl(1.0, 400.0), gen.logfl(2.0, 1000.0)),
                                             'd': gen.logfl(1e-3, 100.0)}), quick=4000, thorough=60000)
def planck_pair(c, ctx):
    from pyrtlib.rt_equation import RTEquation
    from pyrtlib.utils import tk2b_mod
    f, t = c['f'], c['t']
    hvk = rte.hvk(f)
    b = float(tk2b_mod(np.float64(hvk), np.float64(t)))
    x = hvk / t
    close(b, rte.bt(f, t), rtol=1e-12 + 4e-16 / x, what='modified Planck radiance')
    back = float(RTEquation.bright(np.float64(hvk), np.float64(b)))
    # b near 0 (b < eps would lose the argument of the logarithm only upwards, not here); small x loses eps / x
    close(back, t, rtol=1e-12 + 1e-15 / x, what='temperature -> radiance -> temperature')
    require(float(tk2b_mod(np.float64(hvk), np.float64(t + c['d']))) > b, 'radiance not increasing with temperature')
    close(RTEquation.bright(np.float64(hvk), np.float64(0.0)), 0.0, what='zero radiance')
    r = float(RTEquation.bright(np.float64(hvk), np.float64(b * (1 + 1e-4))))
    require(r > back, 'temperature not increasing with radiance')
    arr = np.array([t, t + c['d']])
    close(tk2b_mod(hvk, arr), [float(tk2b_mod(hvk, v)) for v in arr], rtol=1e-14, what='element by element')
    ctx.nontrivial(True)


@C.sub('long', st.fixed_dictionaries({'c': cases(), 'n': st.integers(15, 1000), 'thin': st.booleans()}),
       quick=200, thorough=4000)
def long(c, ctx):
    """the same over profiles of up to 1000 levels (the generated one repeated, thinned so that it stays translucent)"""
    d, n = c['c'], c['n']
    reps = n // len(d['t']) + 1
    k = gen.rnd(1.0 / reps, 3) if c['thin'] else 1.0
    radiances({**d, 't': (d['t'] * reps)[:n], 'tau': [gen.rnd(v * k, 9) for v in (d['tau'] * reps)[:n]]}, ctx)
