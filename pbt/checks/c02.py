"""C02 oxygen absorption agrees with the published model formulas."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite
from .. import gen, lib
from ..ref import absorb
from .c01 import tolerance, OFFSETS

C = Check('C02', rule='A case is a model and 1-12 points (pressure, temperature, vapour pressure, frequency), biased to line '
          'centres, half-width multiples (118 GHz core included) and the submillimetre lines. Non-trivial: the '
          'reference absorption is positive at some point.',
          assumptions=['vapour pressure <= 8% of pressure; 1-1000 GHz; 2e-5-1080 mb; 160-385 K'])


@st.composite
def cases(draw):
    m = draw(st.sampled_from(absorb.O2_MODELS))
    c = absorb.o2_lines(m)
    pts = []
    for _ in range(draw(st.integers(1, 12))):
        s = draw(gen.state())
        if draw(st.booleans()):
            f = draw(gen.line_frequency('o2', m))
        else:
            ok = [i for i in range(len(c['f'])) if 1 <= c['f'][i] <= 1000]
            k = draw(st.sampled_from([0, 1])) * ok[draw(st.integers(0, len(ok) - 1))]
            w = c['w300'][k] * 1e-3 * s['p'] * (300.0 / s['t']) ** c['x']
            f = c['f'][k] + draw(st.sampled_from([-1, 1])) * draw(st.sampled_from(OFFSETS)) * w
            f = gen.rnd(float(min(1000.0, max(1.0, f))), 12)
        pts.append([s['p'], s['t'], s['e'], f])
    return {'m': m, 'pts': pts}


@C.sub('reference', cases(), quick=4500, thorough=80000)
def reference(c, ctx):
    from pyrtlib.absorption_model import O2AbsModel
    m = c['m']
    lib.select(o2=m)
    for p, t, e, f in c['pts']:
        want, scale = absorb.o2(m, p, t, e, f)
        got = O2AbsModel().o2_absorption(np.float64((p - e) / 10.0), np.float64(300.0 / t), np.float64(e / 10.0),
                                         np.float64(f))
        require(len(got) == 2, 'two terms expected')
        k = 0.182 * f * absorb.NP_PER_DB
        total = float(np.asarray(got[0]).reshape(-1)[0] + np.asarray(got[1]).reshape(-1)[0]) * k
        where = ' of %s at p=%g t=%g e=%g f=%.9g' % (m, p, t, e, f)
        require(isfinite(total), 'non-finite oxygen absorption' + where)
        close(total, want, rtol=tolerance('o2', m, p, f), scale=scale, what='oxygen absorption' + where)
        if m != 'R98':
            require(total >= 0, 'negative oxygen absorption' + where)
        ctx.nontrivial(want > 0)
        ctx.label('points')
    ctx.label(m)
