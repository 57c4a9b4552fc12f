"""C09 vapour, refractivity and integrated columns."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen, lib
from ..ref import rte

C = Check('C09', rule='Levels: a case is 1-12 generated levels. Columns: a case is a profile with angles, simulated with detailed '
          'output. Non-trivial: some vapour.', assumptions=['C01 state ranges'])


@C.sub('levels', st.lists(st.tuples(gen.state(), gen.fl(0.0, 1.1, 6)), min_size=1, max_size=12).map(
    lambda v: [[s['p'], s['t'], s['e'], r] for s, r in v]), quick=3000, thorough=60000)
def levels(c, ctx):
    from pyrtlib.rt_equation import RTEquation
    p, t, e, rh = (np.array([x[i] for x in c]) for i in range(4))
    keep = [v.copy() for v in (p, t, e, rh)]
    es, rho = RTEquation.vapor(t, rh)
    we, wrho = rte.vapor(t, rh)
    close(es, we, rtol=1e-11, what='vapour pressure')
    close(rho, wrho, rtol=1e-11, what='vapour density')
    dry, wet, n = RTEquation.refractivity(p, t, e)
    wd, ww, wn = rte.refractivity(p, t, e)
    close(dry, wd, rtol=1e-11, what='dry refractivity')
    close(wet, ww, rtol=1e-11, what='wet refractivity')
    close((n - 1) * 1e6, (wn - 1) * 1e6, rtol=1e-9, atol=1e-9, what='refractive index')
    require(np.all(wet[e == 0] == 0), 'wet refractivity without vapour')
    for i in range(len(p)):
        d1, w1, n1 = RTEquation.refractivity(p[i:i + 1], t[i:i + 1], e[i:i + 1])
        require(d1[0] == dry[i] and w1[0] == wet[i] and n1[0] == n[i], 'level %d alone differs', i)
        e1, r1 = RTEquation.vapor(t[i:i + 1], rh[i:i + 1])
        close(e1[0], es[i], rtol=1e-14, what='vapour of a single level')
    require(all(np.array_equal(a, b) for a, b in zip(keep, (p, t, e, rh))), 'input modified')
    ctx.nontrivial(np.any(e > 0) and np.any(rh > 0))


@st.composite
def sims(draw):
    return {'prof': draw(gen.profile(2, 12)),
            'a': gen.crowd(draw, draw(st.lists(gen.fl(8.0, 90.0, 5), min_size=1, max_size=3)), 8.0, 90.0, 1e-4, 1.0),
            'ray': draw(st.booleans()), 'sat': draw(st.booleans())}


@C.sub('columns', sims(), quick=600, thorough=8000, shards=8)
def columns(c, ctx):
    from pyrtlib.rt_equation import RTEquation
    pr = c['prof']
    m = {'h2o': 'R19', 'o2': 'R19', 'n2': 'R19'}
    r = lib.rte(pr, [31.4], m, angles=c['a'], ray=c['ray'], sat=c['sat'])
    _, out = r.execute(only_bt=False)
    z, p, t, rh = gen.arr(pr)
    e, rho = rte.vapor(t, rh)
    dry, wet, n = rte.refractivity(p, t, e)
    for k, a in enumerate(c['a']):
        # the slant path itself is decided by C08
        ds = RTEquation.ray_tracing(z - z[0], n, a, z[0]) if c['ray'] else rte.plane_path(z, a)
        tol = 1e-7 if c['ray'] else 1e-9
        for name, x in (('srho', rho), ('swet', wet), ('sdry', dry)):
            want = 0.1 * float(np.sum(rte.integrate(x, ds)))
            got = np.asarray(out[name])
            require(got.shape == (1, len(c['a'])), '%s has shape %s', name, got.shape)
            close(got[0, k], want, rtol=tol, atol=1e-9 * float(np.sum(ds)) + rte.rounding(x, ds), what='%s at %g degrees' % (name, a))
    ctx.nontrivial(np.any(rh > 0))
