"""C03 nitrogen, ozone, cloud liquid and ice."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite, expect_raises
from .. import gen, lib
from ..ref import absorb

C = Check('C03', rule='Cases are (model, state, absorber amount, frequency). Non-trivial: absorber present and a positive '
          'reference value (for ozone: at least one line within 1 GHz).',
          assumptions=['1-1000 GHz, 2e-5-1080 mb, 160-385 K; cloud liquid 233-330 K',
                       'ozone frequencies keep 1e-6 GHz away from exactly 1 GHz off a line (selection edge)'])


@C.sub('nitrogen', st.fixed_dictionaries({
    'm': st.sampled_from(absorb.N2_MODELS), 'p': gen.logfl(2e-5, 1080.0), 't': gen.fl(160.0, 385.0),
    'f': gen.fl(1.0, 1000.0), 'k': gen.logfl(0.01, 100.0)}), quick=3000, thorough=60000)
def nitrogen(c, ctx):
    from pyrtlib.absorption_model import N2AbsModel
    N2AbsModel.model = c['m']
    got = float(N2AbsModel.n2_absorption(np.float64(c['t']), np.float64(c['p']), np.float64(c['f'])))
    close(got, absorb.n2(c['m'], c['p'], c['t'], c['f']), rtol=1e-10, what='nitrogen absorption of ' + c['m'])
    require(got > 0, 'nitrogen absorption not positive')
    g2 = float(N2AbsModel.n2_absorption(np.float64(c['t']), np.float64(c['p'] * c['k']), np.float64(c['f'])))
    close(g2, got * c['k'] ** 2, rtol=1e-10, what='square law in pressure of ' + c['m'])
    arr = N2AbsModel.n2_absorption(np.array([c['t'], 250.0]), np.array([c['p'], 10.0]), np.float64(c['f']))
    close(arr, [got, absorb.n2(c['m'], 10.0, 250.0, c['f'])], rtol=1e-10, what='nitrogen, element by element')
    ctx.nontrivial(True)
    ctx.label(c['m'])


@st.composite
def ozone_cases(draw):
    m = draw(st.sampled_from(absorb.O3_MODELS))
    fl = absorb.o3_lines(m)['fl']
    fl = fl[(fl > 1) & (fl < 999)]
    pts = []
    for _ in range(draw(st.integers(1, 10))):
        p = draw(st.one_of(gen.logfl(0.01, 1080.0), gen.logfl(0.01, 50.0)))
        t = draw(gen.fl(160.0, 385.0))
        k = draw(st.sampled_from(['uniform', 'near', 'near', 'edge']))
        c = float(fl[draw(st.integers(0, len(fl) - 1))])
        s = draw(st.sampled_from([-1.0, 1.0]))
        if k == 'uniform':
            f = draw(gen.fl(1.0, 1000.0))
        elif k == 'near':
            f = c + s * draw(gen.logfl(1e-7, 1.2))
        else:
            f = c + s * (1.0 + draw(st.sampled_from([-1, 1])) * draw(gen.logfl(1e-5, 0.1)))
        f = gen.rnd(min(1000.0, max(1.0, f)), 12)
        if np.min(np.abs(np.abs(fl - f) - 1.0)) < 1e-6:
            f = gen.rnd(f + 7e-6, 12)
        pts.append([p, t, f, draw(st.one_of(st.just(0.0), gen.logfl(1e8, 1e20)))])
    return {'m': m, 'pts': pts, 'k': draw(gen.logfl(0.01, 100.0))}


@C.sub('ozone', ozone_cases(), quick=2500, thorough=50000)
def ozone(c, ctx):
    from pyrtlib.absorption_model import O3AbsModel
    m = c['m']
    lib.select(o3=m)
    L = absorb.o3_lines(m)
    for p, t, f, nd in c['pts']:
        call = lambda n: float(O3AbsModel().o3_absorption(np.float64(t), np.float64(p), np.float64(f), np.float64(n)))  # noqa
        got = call(nd)
        where = ' of %s at p=%g t=%g f=%.9g n=%g' % (m, p, t, f, nd)
        sel = np.abs(L['fl'] - f) <= 1.0
        # conditioning of f - f0 against the line width (doppler or pressure)
        cond = 0.0
        if np.any(sel):
            wmin = np.min(L['w'][sel]) * p + 4e-8 * np.sqrt(t / 300.0) * f
            cond = 256 * np.finfo(float).eps * f / (wmin + 0.1 * np.min(np.abs(L['fl'][sel] - f)))
            if m == 'R22':
                # inside the Gaussian core x dx enters the exponent
                cond *= 40
        close(got, absorb.o3(m, p, t, f, nd), rtol=1e-9 + cond, what='ozone absorption' + where)
        if m == 'R22' and nd > 0:
            close(got, absorb.o3(m, p, t, f, nd, exact=True), rtol=3e-3 + cond,
                  what='ozone Voigt profile against Faddeeva function' + where)
        require(isfinite(got) and got >= 0, 'ozone absorption negative or not finite' + where)
        close(call(nd * c['k']), got * c['k'], rtol=1e-12, what='linearity in ozone density' + where)
        if nd == 0:
            require(got == 0, 'ozone absorption without ozone' + where)
        ctx.nontrivial(nd > 0 and np.any(sel))
        ctx.label('lines=%d' % min(5, int(sel.sum())))
    ctx.label(m)


@C.sub('liquid', st.fixed_dictionaries({
    'm': st.sampled_from(absorb.LIQ_MODELS), 'w': st.one_of(st.just(0.0), gen.logfl(1e-6, 10.0)),
    't': gen.fl(233.0, 330.0), 'f': gen.fl(1.0, 1000.0), 'k': gen.logfl(0.01, 100.0)}), quick=3000, thorough=60000)
def liquid(c, ctx):
    from pyrtlib.absorption_model import LiqAbsModel
    LiqAbsModel.model = c['m']
    call = lambda w: float(LiqAbsModel.liquid_water_absorption(np.float64(w), np.float64(c['f']), np.float64(c['t'])))  # noqa
    got = call(c['w'])
    close(got, absorb.liquid(c['m'], c['w'], c['f'], c['t']), rtol=1e-9, what='liquid absorption of ' + c['m'])
    close(call(c['w'] * c['k']), got * c['k'], rtol=1e-12, what='linearity in liquid water')
    require(got > 0 if c['w'] > 0 else got == 0, 'sign of liquid absorption %r for water %r', got, c['w'])
    require(call(-c['w']) == 0, 'negative water content must not absorb')
    ctx.nontrivial(c['w'] > 0)
    ctx.label(c['m'])


@C.sub('cloud_profile', st.fixed_dictionaries({
    'm': st.sampled_from(absorb.LIQ_MODELS), 'f': gen.fl(1.0, 1000.0),
    'lev': st.lists(st.tuples(gen.fl(200.0, 320.0), st.one_of(st.just(0.0), gen.logfl(1e-6, 5.0)),
                              st.one_of(st.just(0.0), gen.logfl(1e-6, 5.0))), min_size=1, max_size=12)}),
       quick=1500, thorough=30000)
def cloud_profile(c, ctx):
    from pyrtlib.absorption_model import LiqAbsModel
    from pyrtlib.rt_equation import RTEquation
    LiqAbsModel.model = c['m']
    t, liq, ice = (np.array(x, dtype=float) for x in zip(*c['lev']))
    keep = (t.copy(), liq.copy(), ice.copy())
    al, ai = RTEquation.cloudy_absorption(t, liq, ice, np.float64(c['f']))
    close(al, [absorb.liquid(c['m'], w, c['f'], x) for x, w in zip(keep[0], keep[1])], rtol=1e-9, atol=1e-300,
          what='liquid absorption profile of ' + c['m'])
    close(ai, [absorb.ice(w, c['f']) for w in keep[2]], rtol=1e-10, what='ice absorption profile')
    require(all(np.array_equal(a, b) for a, b in zip(keep, (t, liq, ice))), 'inputs modified')
    ctx.nontrivial(np.any(keep[1] > 0) and np.any(keep[2] > 0))


UNKNOWN = st.one_of(st.sampled_from(['', 'r20', 'R 20', 'R99', 'R2', 'XX', 'R21', 'MPM93', 'R17SD']),
                    st.text(alphabet='RMWLSD0123456789x', min_size=1, max_size=5))


@C.sub('unknown_model', st.fixed_dictionaries({'m': UNKNOWN, 't': gen.fl(250.0, 300.0), 'f': gen.fl(5.0, 300.0)}),
       quick=400, thorough=4000)
def unknown_model(c, ctx):
    from pyrtlib.absorption_model import N2AbsModel, LiqAbsModel
    known = set(absorb.N2_MODELS) | set(absorb.LIQ_MODELS) | set(absorb.H2O_MODELS) | {'R21', 'R22SD', 'R23SD'}
    if c['m'] in known:
        return
    N2AbsModel.model = c['m']
    LiqAbsModel.model = c['m']
    with expect_raises(ValueError, what='nitrogen with model %r' % c['m']):
        N2AbsModel.n2_absorption(np.float64(c['t']), np.float64(500.0), np.float64(c['f']))
    with expect_raises(ValueError, what='cloud liquid with model %r' % c['m']):
        LiqAbsModel.liquid_water_absorption(np.float64(0.3), np.float64(c['f']), np.float64(c['t']))
    ctx.nontrivial(True)
