"""C01 water-vapour absorption agrees with the published model formulas."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite
from .. import gen, lib
from ..ref import absorb

C = Check('C01', rule='A case is a model and 1-12 points (pressure, temperature, vapour pressure, frequency), frequencies '
          'biased to line centres, half-width multiples around lines, far wings and the 750 GHz cut-off. Non-trivial: '
          'some point has vapour and a line contribution above 1e-12 of the total.',
          assumptions=['vapour pressure <= 8% of pressure and <= 1.05 of saturation; 1-1000 GHz; 2e-5-1080 mb; 160-385 K',
                       'reference = own implementation of the published formulas on the shipped line-list data files'])

OFFSETS = [0.0, 0.5, 1.0, 3.0, 7.0, 9.0, 9.9, 10.1, 12.0, 30.0]


@st.composite
def cases(draw, model=st.sampled_from(absorb.H2O_MODELS)):
    m = draw(model)
    c = absorb.h2o_lines(m)
    pts = []
    for _ in range(draw(st.integers(1, 12))):
        s = draw(gen.state())
        if draw(st.booleans()):
            f = draw(gen.line_frequency('h2o', m))
        else:                               # offset counted in half-widths
            ok = [i for i in range(len(c['fl'])) if 1 <= c['fl'][i] <= 1000]
            k = ok[draw(st.integers(0, len(ok) - 1))]
            w = c['w0'][k] * (s['p'] - s['e']) + c['w0s'][k] * s['e']
            f = c['fl'][k] + draw(st.sampled_from([-1, 1])) * draw(st.sampled_from(OFFSETS)) * w
            f = gen.rnd(float(min(1000.0, max(1.0, f))), 12)
        pts.append([s['p'], s['t'], s['e'], f])
    return {'m': m, 'pts': pts}


def tolerance(species, model, p, f):
    """relative tolerance on the term magnitude: 1e-9 plus the conditioning of f - f0 near narrow lines"""
    c = gen.line_centres(species, model)
    w = 1e-4 * p
    return 1e-9 + 64 * np.finfo(float).eps * f / (np.min(np.abs(c - f)) + w)


def call(p, t, e, f):
    from pyrtlib.absorption_model import H2OAbsModel
    return H2OAbsModel().h2o_absorption(np.float64((p - e) / 10.0), np.float64(300.0 / t), np.float64(e / 10.0),
                                        np.float64(f))


@C.sub('reference', cases(), quick=4000, thorough=80000)
def reference(c, ctx):
    m = c['m']
    lib.select(h2o=m)
    for p, t, e, f in c['pts']:
        line, cont, scale = absorb.h2o(m, p, t, e, f)
        got = call(p, t, e, f)
        require(len(got) == 2, 'two terms (line, continuum) expected')
        k = 0.182 * f * absorb.NP_PER_DB
        gl, gc = (float(np.asarray(g).reshape(-1)[0]) * k for g in got)
        where = ' of %s at p=%g t=%g e=%g f=%.9g' % (m, p, t, e, f)
        require(isfinite([gl, gc]), 'non-finite absorption' + where)
        close(gl, line, rtol=tolerance('h2o', m, p, f), scale=scale, what='line absorption' + where)
        close(gc, cont, rtol=1e-10, what='continuum absorption' + where)
        require(gl >= -1e-12 * scale and gc >= 0, 'negative absorption' + where)
        ctx.nontrivial(e > 0 and line > 1e-12 * scale)
        ctx.label('points')
    ctx.label(m)


@C.sub('dry_air', st.fixed_dictionaries({'m': st.sampled_from(absorb.H2O_MODELS), 'p': gen.logfl(0.01, 1080.0),
                                         't': gen.fl(170.0, 330.0), 'f': gen.frequency()}), quick=600, thorough=8000)
def dry_air(c, ctx):
    lib.select(h2o=c['m'])
    got = call(c['p'], c['t'], 0.0, c['f'])
    close(np.asarray(got[0], dtype=float).sum(), 0.0, what='line absorption without vapour')
    close(np.asarray(got[1], dtype=float).sum(), 0.0, what='continuum without vapour')
    ctx.nontrivial(True)
