"""C13 orientation and invalid input."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, Violation, expect_raises
from .. import gen, lib
from .c11 import sims, run

C = Check('C13', rule='Orientation: a simulation (clear or cloudy, with or without ozone) and its top-down twin. Refused: a '
          'height profile made non-monotonic by a generated swap, tie or bump. Settings: generated invalid values and a '
          'history of valid/invalid assignments. Non-trivial: vapour present (orientation); every refusal case.',
          assumptions=['invalid = not a bool (mode), not a float or array (emissivity), not an array (frequencies), '
                       'not an advertised name (model)'])


@C.sub('orientation', sims(nf=(1, 2), na=(1, 2)), quick=500, thorough=8000, shards=8)
def orientation(c, ctx):
    d1, o1 = run(c)
    t = dict(c)
    t['prof'] = {k: v[::-1] for k, v in c['prof'].items()}
    if c['o3n'] is not None:
        t['o3n'] = c['o3n'][::-1]
    if c['cloud']:
        cl = c['cloud']
        n = len(c['prof']['z'])
        t['cloud'] = {'base': n - 1 - cl['base'], 'top': n - 1 - cl['top'], 'liq': cl['liq'][::-1], 'ice': cl['ice'][::-1]}
    d2, o2 = run(t)
    close(d2.to_numpy(dtype=float), d1.to_numpy(dtype=float), rtol=1e-10, atol=1e-300,
          what='top-down against bottom-up, columns %s' % list(d1.columns))
    for k in o1:
        close(o2[k], o1[k], rtol=1e-10, atol=1e-300, what='top-down: ' + k)
    ctx.nontrivial(any(v > 0 for v in c['prof']['rh']))
    ctx.label('ozone' if c['o3'] else 'no ozone', 'cloud' if c['cloud'] else 'clear')


@C.sub('refused', st.tuples(gen.profile(3, 12), st.integers(0, 100), st.sampled_from(['tie', 'bump', 'swap', 'top', 'bottom']),
                            st.booleans(), gen.fl(0.0, 1.0, 4)), quick=1500, thorough=15000)
def refused(v, ctx):
    from pyrtlib.tb_spectrum import TbCloudRTE
    pr, k, how, rev, x = v
    z, p, t, rh = gen.arr(pr)
    n = len(z)
    if rev:
        z, p, t, rh = (np.ascontiguousarray(a[::-1]) for a in (z, p, t, rh))
    i = k % (n - 1)
    if how == 'tie':
        z[i + 1] = z[i]
    elif how == 'swap':
        z[i], z[i + 1] = z[i + 1], z[i]
    elif how == 'bump':
        i = 1 + k % (n - 2)
        z[i] = z[i - 1] + (-1 if z[-1] > z[0] else 1) * (0.01 + x)
    elif how == 'top':
        z[-1] = z[-2] - (1 if not rev else -1) * x
    else:
        z[0] = z[1] + (1 if not rev else -1) * x
    d = np.diff(z)
    if np.all(d > 0) or np.all(d < 0):
        return
    zz = z.copy()
    try:
        TbCloudRTE(z, p, t, rh, np.array([22.0]))
    except (SystemExit, ValueError):
        pass
    else:
        raise Violation('heights %s were accepted' % z.tolist())
    require(np.array_equal(z, zz), 'the refused heights were modified')
    ctx.nontrivial(True)
    ctx.label(how)


def flat(v):
    return np.array([float(np.asarray(x).reshape(-1)[0]) for x in (v if isinstance(v, tuple) else (v,))])


BAD_MODE = ['yes', 'True', '', 1, 0, None, 1.0, [True]]
BAD_ES = ['1', '', None, [1.0], [0.5, 0.5], {}]
BAD_FRQ = ['22', None, 22.0, 22, [22.0], []]


@C.sub('settings', st.lists(st.tuples(st.sampled_from(['mode', 'es', 'frq', 'wfmode', 'model', 'group', 'base']), st.booleans(),
                                      st.integers(0, 7), gen.fl(0.0, 1.0, 4)), min_size=1, max_size=8),
       quick=400, thorough=6000, shards=8)
def settings(steps, ctx):
    from pyrtlib.tb_spectrum import TbCloudRTE
    from pyrtlib.weighting_functions import WeightingFunctions
    from pyrtlib.absorption_model import AbsModel, AbsModelError, H2OAbsModel, O2AbsModel, O3AbsModel
    lib.select(h2o='R19', o2='R19', n2='R19', o3='R18')
    z, p, t, rh = np.array([0.0, 1.0, 2.0]), np.array([1000.0, 900.0, 800.0]), np.array([290.0, 285.0, 280.0]), np.array([.5] * 3)
    r = TbCloudRTE(z, p, t, rh, np.array([22.0, 31.0]))
    w = WeightingFunctions(z, p, t, rh, 1.0)
    want = {'mode': True, 'es': np.array([1.0, 1.0]), 'frq': None, 'wfmode': True}
    for op, ok, k, x in steps:
        if op == 'mode':
            if ok:
                want['mode'] = bool(k % 2)
                r.satellite = want['mode']
            else:
                with expect_raises(ValueError, what='viewing mode %r' % (BAD_MODE[k % len(BAD_MODE)],)):
                    r.satellite = BAD_MODE[k % len(BAD_MODE)]
        elif op == 'wfmode':
            if ok:
                want['wfmode'] = bool(k % 2)
                w.satellite = want['wfmode']
            else:
                with expect_raises(ValueError, what='viewing mode %r' % (BAD_MODE[k % len(BAD_MODE)],)):
                    w.satellite = BAD_MODE[k % len(BAD_MODE)]
        elif op == 'es':
            if ok:
                v = x if k % 2 else np.array([x, 1 - x])
                r.emissivity = v
                want['es'] = np.array([x, x]) if k % 2 else np.array([x, 1 - x])
            else:
                with expect_raises(ValueError, what='emissivity %r' % (BAD_ES[k % len(BAD_ES)],)):
                    r.emissivity = BAD_ES[k % len(BAD_ES)]
        elif op == 'frq':
            if ok:
                want['frq'] = np.array([10.0 + x, 20.0])
                w.frequencies = want['frq'].copy()
            else:
                with expect_raises(ValueError, what='frequencies %r' % (BAD_FRQ[k % len(BAD_FRQ)],)):
                    w.frequencies = BAD_FRQ[k % len(BAD_FRQ)]
        elif op == 'group':
            w.satellite = False
            with expect_raises(ValueError, what='grouped plot from the ground'):
                w.plot_wf_grouped(np.ones((1, 3)), grouped_frequencies=[1], grouped_labels=['a'])
            w.satellite = want['wfmode']
        elif op == 'base':
            m = AbsModel()
            m.model = 'R19'
            require(m.model == 'R19', 'model not set')
            for bad in ('', None, 3):
                with expect_raises(ValueError, what='model %r' % (bad,)):
                    m.model = bad
            require(m.model == 'R19', 'model changed by a refused setting')
        else:
            bad = ['R99', '', 'r19', 'R19 ', 'MPM', 'R2', 'R', 'x'][k % 8]
            cls, call = [(H2OAbsModel, lambda: H2OAbsModel().h2o_absorption(np.float64(90.0), np.float64(1.0), np.float64(1.0), 22.0)),
                         (O2AbsModel, lambda: O2AbsModel().o2_absorption(np.float64(90.0), np.float64(1.0), np.float64(1.0), 60.0)),
                         (O3AbsModel, lambda: O3AbsModel().o3_absorption(np.float64(250.0), np.float64(10.0),
                                                                         np.float64(110.836), np.float64(1e18)))][int(x * 2.99)]
            good = cls.model
            before = flat(call())
            cls.model = bad
            with expect_raises(AbsModelError, what='model %r' % bad):
                cls.set_ll()
            cls.model = good
            # without reloading: the refused name left the previous line list in force
            close(flat(call()), before, rtol=1e-14, what='line list after a refused model')
        require(r.satellite is want['mode'], 'viewing mode is %r, expected %r', r.satellite, want['mode'])
        require(w.satellite is want['wfmode'], 'viewing mode is %r', w.satellite)
        require(np.array_equal(np.asarray(r.emissivity), want['es']), 'emissivity is %r, expected %r', r.emissivity, want['es'])
        require((w.frequencies is None) == (want['frq'] is None) and (want['frq'] is None or
                np.array_equal(w.frequencies, want['frq'])), 'frequencies are %r', w.frequencies)
        if not ok or op == 'model':
            ctx.nontrivial(True)
        ctx.label(op)
